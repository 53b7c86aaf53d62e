//! Whole-program abstract interpreter over MIR. States are joined at every merge point; values are
//! gated value-flow terms (interval decision diagrams), so no paths are enumerated.
use crate::lin;
use crate::term::*;
use crate::value::*;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub const DOWN: u32 = 1 << 30;

#[derive(Clone)]
pub struct State {
    pub pc: N,
    pub objs: Vec<Rc<Value>>,
}

#[derive(Clone, Debug)]
pub struct Finding {
    /// "panic", "overflow", "bounds", "oob", "utf8", "check", "term", ...
    pub kind: String,
    pub name: String,
    pub site: String,
    pub func: String,
    pub line: usize,
    pub file: String,
    pub cond: N,
    /// the two values that were compared (for reports)
    pub in_crate: bool,
}

pub struct LoopInfo {
    pub header: usize,
    pub blocks: HashSet<usize>,
    pub parent: Option<usize>,
}
pub struct BodyInfo {
    pub body: Body,
    pub rpo: Vec<usize>,
    pub loops: Vec<LoopInfo>,
    /// innermost loop of each block
    pub loop_of: Vec<Option<usize>>,
    pub live_in: Vec<HashSet<usize>>,
    pub addr_taken: HashSet<usize>,
    pub name: String,
    pub local_crate: bool,
}

#[derive(Clone)]
pub struct Frame {
    pub info: Rc<BodyInfo>,
    pub base: usize,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Tgt {
    Block(usize),
    Ret,
}

pub struct Interp {
    pub bodies: HashMap<Instance, Option<Rc<BodyInfo>>>,
    pub obj_tys: Vec<Ty>,
    pub amb: N,
    pub heavy: HashSet<Instance>,
    pub summaries: HashMap<(Instance, Vec<u64>, Vec<(T, i128, i128)>), Option<Value>>,
    pub n_summ: u64,
    pub findings: Vec<Finding>,
    /// the findings as they were before the loop being summarised
    pub solid: Option<Vec<Finding>>,
    pub suppress: u32,
    pub depth: u32,
    pub stack: Vec<(String, String, usize, bool, String)>,
    pub unmodelled: BTreeMap<String, u32>,
    pub discharged: BTreeMap<String, u64>,
    pub funcs: BTreeSet<String>,
    pub crate_funcs: BTreeSet<String>,
    pub n_calls: u64,
    pub n_blocks: u64,
    pub n_checks: u64,
    pub n_loops: u64,
    pub check_names: BTreeMap<String, u64>,
    pub proven: BTreeMap<String, u64>,
    pub models: HashMap<String, FnDef>,
    pub loops_report: BTreeMap<String, String>,
    pub call_edges: BTreeSet<(String, String)>,
    pub fuel: u64,
    pub notes: Vec<String>,
    pub trace: bool,
    pub ncache: HashMap<FnDef, Rc<(String, String)>>,
    pub fresh_h: u32,
    pub loop_ctx: Vec<u32>,
    pub start: std::time::Instant,
    pub deadline: f64,
    pub cur_def: Option<FnDef>,
    pub reached: BTreeMap<String, bool>,
    pub trace_checks: bool,
    pub argument_ty: Option<Ty>,
    pub loopdbg: bool,
    pub cut_strings: bool,
    pub unroll_max: usize,
    /// the block at hand ends in an overflow assertion
    pub guarded: bool,
    pub str_region: Option<u32>,
}

pub fn merge_states(a: State, b: State) -> State {
    let pc = m().or(a.pc, b.pc);
    let c = m().restrict(a.pc, pc);
    let n = a.objs.len().min(b.objs.len());
    let mut objs = Vec::with_capacity(n);
    for i in 0..n {
        if Rc::ptr_eq(&a.objs[i], &b.objs[i]) {
            objs.push(a.objs[i].clone());
        } else {
            objs.push(Rc::new(merge(c, &a.objs[i], &b.objs[i])));
        }
    }
    State { pc, objs }
}

pub enum Loc {
    O(u32, Vec<u32>),
    P(N, Option<N>),
}

impl Interp {
    pub fn new() -> Self {
        Interp {
            bodies: HashMap::new(),
            obj_tys: vec![],
            amb: TT,
            heavy: HashSet::new(),
            summaries: HashMap::new(),
            n_summ: 0,
            findings: vec![],
            solid: None,
            suppress: 0,
            depth: 0,
            stack: vec![],
            unmodelled: BTreeMap::new(),
            discharged: BTreeMap::new(),
            funcs: BTreeSet::new(),
            crate_funcs: BTreeSet::new(),
            n_calls: 0,
            n_blocks: 0,
            n_checks: 0,
            n_loops: 0,
            check_names: BTreeMap::new(),
            proven: BTreeMap::new(),
            models: HashMap::new(),
            loops_report: BTreeMap::new(),
            call_edges: BTreeSet::new(),
            fuel: 40_000_000,
            notes: vec![],
            trace: std::env::var("TRACE").is_ok(),
            ncache: HashMap::new(),
            fresh_h: 1_000_000,
            loop_ctx: vec![],
            start: std::time::Instant::now(),
            deadline: 1e9,
            cur_def: None,
            reached: BTreeMap::new(),
            argument_ty: None,
            loopdbg: std::env::var("LOOPDBG").is_ok(),
            cut_strings: false,
            unroll_max: 0,
            guarded: false,
            str_region: None,
            trace_checks: std::env::var("TRACE_CHECKS").is_ok(),
        }
    }

    // ------------------------------------------------------------ bodies
    pub fn body_of(&mut self, i: Instance) -> Option<Rc<BodyInfo>> {
        if let Some(b) = self.bodies.get(&i) {
            return b.clone();
        }
        let r = i.body().map(|b| { if std::env::var("DUMP").map(|d| i.name().contains(&d)).unwrap_or(false) { let _ = b.dump(&mut std::io::stderr(), &i.name()); } Rc::new(analyse_body(b, i)) });
        self.bodies.insert(i, r.clone());
        r
    }

    // ------------------------------------------------------------ conditions
    pub fn possible(&self, pc: N, c: N) -> bool {
        if c == F {
            return false;
        }
        let x = m().and(pc, c);
        if x == F {
            return false;
        }
        let y = if self.amb == TT { x } else { m().and(self.amb, x) };
        if y == F {
            return false;
        }
        lin::feasible(y)
    }
    /// Drop overflow-free truncations: value known to fit under the current path condition.
    pub fn fits(&self, pc: N, v: N, w: u8) -> bool {
        let hi = if w >= 127 { return true } else { (1i128 << w) - 1 };
        let bad = m().map(v, &mut |m, t| {
            let (l, h) = m.range(t);
            if l >= 0 && h <= hi { F } else { let c = m.cond_in(t, &vec![(0, hi)]); m.not(c) }
        });
        bad == F || !self.possible(pc, bad)
    }

    pub fn site(&self) -> (String, String, usize, String, bool) {
        // innermost frame inside the crate under analysis
        for f in self.stack.iter().rev() {
            if f.3 {
                return (f.0.clone(), f.1.clone(), f.2, f.4.clone(), true);
            }
        }
        match self.stack.last() {
            Some(f) => (f.0.clone(), f.1.clone(), f.2, f.4.clone(), false),
            None => ("?".into(), "?".into(), 0, String::new(), false),
        }
    }
    pub fn oblige(&mut self, kind: &str, name: &str, pc: N, fail: N) {
        if self.suppress > 0 {
            return;
        }
        let c = m().and(pc, fail);
        if c == F || !self.possible(pc, fail) {
            *self.discharged.entry(kind.into()).or_default() += 1;
            return;
        }
        let (func, file, line, text, in_crate) = self.site();
        let site = format!("{func}:{kind}:{name}");
        let _ = text;
        if let Some(f) = self.findings.iter_mut().rev().find(|f| f.site == site && f.line == line) {
            // same construct reached again in the same loop context
            if f.kind == kind && f.name == name {
                let fc = f.cond;
                // only join when both are in the current context
                if self.loop_ctx.is_empty() {
                    f.cond = m().or(fc, c);
                    return;
                }
            }
        }
        self.findings.push(Finding { kind: kind.into(), name: name.into(), site, func, line, file, cond: c, in_crate });
    }

    // ------------------------------------------------------------ memory
    pub fn obj(&self, st: &State, id: u32) -> Value {
        if id >= CONST_BASE {
            consts().objs[(id - CONST_BASE) as usize].1.clone()
        } else {
            match st.objs.get(id as usize) {
                Some(v) => (**v).clone(),
                None => Value::Undef,
            }
        }
    }
    pub fn obj_ty(&self, id: u32) -> Ty {
        if id >= CONST_BASE { consts().objs[(id - CONST_BASE) as usize].0 } else { self.obj_tys[id as usize] }
    }
    fn nav(v: &Value, path: &[u32]) -> Value {
        let mut cur = v.clone();
        let mut i = 0;
        while i < path.len() {
            if path[i] & DOWN != 0 {
                let var = (path[i] & !DOWN) as usize;
                if i + 1 >= path.len() {
                    return cur;
                }
                let f = path[i + 1] as usize;
                cur = match &cur {
                    Value::Enum { vs, .. } => vs.get(var).cloned().flatten().and_then(|x| x.get(f).cloned()).unwrap_or(Value::Undef),
                    _ => Value::Undef,
                };
                i += 2;
            } else {
                cur = cur.field(path[i] as usize);
                i += 1;
            }
        }
        cur
    }
    fn select_elem(v: &Value, idx: T, ty: Ty) -> Value {
        let Value::Agg(xs) = v else { return Value::Undef };
        if let Some(i) = m().const_of_t(idx) {
            let i = i as usize;
            if let TyI::Array(_, k) = &*tyi(ty) {
                let k = *k as usize;
                let is_sub = match xs.get(i) {
                    Some(Value::Agg(y)) => y.len() != k,
                    _ => true,
                };
                if is_sub {
                    return match xs.get(i..i + k) {
                        Some(s) => agg(s.to_vec()),
                        None => Value::Undef,
                    };
                }
            }
            return xs.get(i).cloned().unwrap_or(Value::Undef);
        }
        if xs.is_empty() {
            return Value::Undef;
        }
        let mut acc = xs[xs.len() - 1].clone();
        for i in (0..xs.len() - 1).rev() {
            let c = m().cond_in(idx, &vec![(i as i128, i as i128)]);
            acc = merge(c, &xs[i], &acc);
        }
        acc
    }
    /// Read a value of type `ty` through a thin pointer.
    pub fn read_ptr(&mut self, st: &State, p: N, ty: Ty) -> Value {
        if size_of(ty) == 0 && !matches!(&*tyi(ty), TyI::Slice(_) | TyI::Str | TyI::Dyn) {
            return zero_sized(ty);
        }
        let ls = m().leaves(p);
        let all_region = ls.iter().all(|(_, t)| matches!(m().tm(*t), Tm::Ptr { kind: 1, .. }));
        if all_region {
            self.check_region(st, p, size_of(ty));
            return decode_region(p, 0, ty);
        }
        let mut acc: Option<Value> = None;
        for (c, t) in ls.into_iter().rev() {
            let v = match m().tm(t).clone() {
                Tm::Ptr { kind: 0, id, path, idx, .. } => {
                    let o = self.obj(st, id);
                    let v = Self::nav(&o, &path);
                    if idx != NONE { Self::select_elem(&v, idx, ty) } else { v }
                }
                Tm::Ptr { kind: 1, .. } => {
                    let lp = m().leaf(t);
                    let mut s2 = st.clone();
                    s2.pc = m().and(st.pc, c);
                    self.check_region(&s2, lp, size_of(ty));
                    decode_region(lp, 0, ty)
                }
                _ => opaque(ty),
            };
            acc = Some(match acc {
                None => v,
                Some(a) => merge(c, &v, &a),
            });
        }
        acc.unwrap_or(Value::Undef)
    }
    /// Obligation: `n` bytes at region pointer `p` lie inside the slice it was derived from.
    pub fn check_region(&mut self, st: &State, p: N, n: usize) {
        if self.suppress > 0 {
            return;
        }
        let fail = m().map(p, &mut |m, t| match m.tm(t).clone() {
            Tm::Ptr { kind: 1, id, idx, lim, .. } => {
                let lim = if lim == NONE { m.regions[id as usize].len } else { lim };
                // idx + n > lim  or idx < 0
                let d = m.lin2(1, idx, -1, lim);
                let a = m.cond_in(d, &vec![(1 - n as i128, BIG)]);
                let b = m.cond_in(idx, &vec![(-BIG, -1)]);
                m.or(a, b)
            }
            _ => F,
        });
        self.oblige("oob", "read past the end of the slice", st.pc, fail);
    }
    pub fn slice_elem(&mut self, st: &State, p: N, i: usize, e: Ty) -> Value {
        let iv = m().cn(i as u128);
        let q = self.ptr_offset(p, iv, e);
        self.read_ptr(st, q, e)
    }
    pub fn ptr_offset(&mut self, p: N, n: N, e: Ty) -> N {
        if m().const_of(n) == Some(0) {
            return p;
        }
        let sz = size_of(e).max(1);
        let scaled = |n: N| if sz == 1 { n } else { let s = m().cn(sz as u128); m().ap2(Op2::MMul, n, s) };
        let ls = m().leaves(p);
        let k1 = ls.iter().filter(|(_, t)| matches!(m().tm(*t), Tm::Ptr { kind: 1, .. })).count();
        let k2 = ls.iter().filter(|(_, t)| matches!(m().tm(*t), Tm::Ptr { kind: 2, .. })).count();
        if k1 + k2 == ls.len() {
            let s = scaled(n);
            return m().ap2(Op2::PtrAdd, p, s);
        }
        if k1 == 0 {
            return m().ap2(Op2::PtrAdd, p, n);
        }
        let s = scaled(n);
        let a = m().ap2(Op2::PtrAdd, p, s);
        let b = m().ap2(Op2::PtrAdd, p, n);
        let isr = m().map(p, &mut |m, t| if matches!(m.tm(t), Tm::Ptr { kind: 1, .. }) { TT } else { F });
        m().ite(isr, a, b)
    }
    fn skeleton(ty: Ty) -> Value {
        match &*tyi(ty) {
            TyI::Agg(fs) => agg(fs.iter().map(|_| Value::Undef).collect()),
            TyI::Array(_, n) => agg((0..*n).map(|_| Value::Undef).collect()),
            TyI::Union(_) => agg(vec![Value::Undef]),
            TyI::Enum { vars, .. } => Value::Enum { d: m().opaque_n(32), vs: Rc::new(vec![None; vars.len()]) },
            _ => Value::Undef,
        }
    }
    fn set(v: &Value, ty: Option<Ty>, path: &[u32], idx: T, new: &Value, cond: N) -> Value {
        if path.is_empty() {
            if idx == NONE {
                return merge(cond, new, v);
            }
            let v = if let (Value::Undef, Some(t)) = (v, ty) { Self::skeleton(t) } else { v.clone() };
            let Value::Agg(xs) = &v else { return Value::Undef };
            let mut xs: Vec<Value> = xs.to_vec();
            match m().const_of_t(idx) {
                Some(i) => {
                    if let Some(x) = xs.get_mut(i as usize) {
                        *x = merge(cond, new, x);
                    }
                }
                None => {
                    for (i, x) in xs.iter_mut().enumerate() {
                        let c = m().cond_in(idx, &vec![(i as i128, i as i128)]);
                        let c = m().and(c, cond);
                        *x = merge(c, new, x);
                    }
                }
            }
            return agg(xs);
        }
        let v = if let (Value::Undef, Some(t)) = (v, ty) { Self::skeleton(t) } else { v.clone() };
        if path[0] & DOWN != 0 {
            let var = (path[0] & !DOWN) as usize;
            if path.len() < 2 {
                return v;
            }
            let f = path[1] as usize;
            let Value::Enum { d, vs } = &v else { return Value::Undef };
            let fts: Option<Vec<(usize, Ty)>> = ty.and_then(|t| if let TyI::Enum { vars, .. } = &*tyi(t) { vars.get(var).cloned() } else { None });
            let mut nvs = (**vs).clone();
            let n = fts.as_ref().map(|x| x.len()).unwrap_or(f + 1);
            let mut fs: Vec<Value> = match &nvs[var] {
                Some(x) => x.to_vec(),
                None => vec![Value::Undef; n],
            };
            if f >= fs.len() {
                return Value::Undef;
            }
            fs[f] = Self::set(&fs[f], fts.and_then(|x| x.get(f).map(|y| y.1)), &path[2..], idx, new, cond);
            nvs[var] = Some(Rc::new(fs));
            return Value::Enum { d: *d, vs: Rc::new(nvs) };
        }
        let Value::Agg(xs) = &v else { return Value::Undef };
        let i = path[0] as usize;
        if i >= xs.len() {
            return Value::Undef;
        }
        let ft = ty.and_then(|t| match &*tyi(t) {
            TyI::Agg(fs) => fs.get(i).map(|x| x.1),
            TyI::Array(e, _) | TyI::Slice(e) => Some(*e),
            _ => None,
        });
        let mut xs: Vec<Value> = xs.to_vec();
        xs[i] = Self::set(&xs[i], ft, &path[1..], idx, new, cond);
        agg(xs)
    }
    pub fn write_ptr(&mut self, st: &mut State, p: N, v: &Value) {
        for (c, t) in m().leaves(p) {
            if let Tm::Ptr { kind: 0, id, path, idx, .. } = m().tm(t).clone() {
                if (id as usize) < st.objs.len() {
                    let ty = self.obj_tys[id as usize];
                    let old = st.objs[id as usize].clone();
                    st.objs[id as usize] = Rc::new(Self::set(&old, Some(ty), &path, idx, v, c));
                }
            } else if c != F {
                self.note("write through an unknown pointer");
            }
        }
    }
    pub fn note(&mut self, s: &str) {
        if self.suppress == 0 && self.notes.len() < 200 {
            let (f, _, l, _, _) = self.site();
            let n = format!("{s} @ {f}:{l}");
            if !self.notes.contains(&n) {
                self.notes.push(n);
            }
        }
    }
    pub fn alloc(&mut self, st: &mut State, ty: Ty, v: Value) -> u32 {
        let id = st.objs.len();
        self.obj_tys.truncate(id);
        st.objs.push(Rc::new(v));
        self.obj_tys.push(ty);
        id as u32
    }

    // ------------------------------------------------------------ places
    fn proj_field(p: N, f: usize, off: usize) -> N {
        let q = Self::expand_idx(p);
        m().map_t(q, &mut |m, t| match m.tm(t).clone() {
            Tm::Ptr { kind: 0, id, path, idx, .. } => {
                let mut v = path.to_vec();
                if idx != NONE {
                    match m.const_of_t(idx) {
                        Some(i) => v.push(i as u32),
                        None => return m.opaque_t(64),
                    }
                }
                v.push(f as u32);
                m.mk(Tm::Ptr { kind: 0, id, path: v.into(), idx: NONE, lim: NONE })
            }
            Tm::Ptr { kind: kd @ (1 | 2), id, path, idx, lim } => {
                let i = m.addk(idx, off as i128);
                m.mk(Tm::Ptr { kind: kd, id, path, idx: i, lim })
            }
            _ => m.opaque_t(64),
        })
    }
    /// object pointers with a symbolic element index become a choice between constant ones
    fn expand_idx(p: N) -> N {
        let need = m().leaves(p).iter().any(|(_, t)| matches!(m().tm(*t), Tm::Ptr { kind: 0, idx, .. } if *idx != NONE && m().const_of_t(*idx).is_none()));
        if !need {
            return p;
        }
        m().map(p, &mut |m, t| match m.tm(t).clone() {
            Tm::Ptr { kind: 0, id, path, idx, lim } if idx != NONE && m.const_of_t(idx).is_none() => {
                let mut acc = {
                    let o = m.opaque_t(64);
                    m.leaf(o)
                };
                for i in (0..32u128).rev() {
                    let ci = m.c(i);
                    let q = m.mk(Tm::Ptr { kind: 0, id, path: path.clone(), idx: ci, lim });
                    let ql = m.leaf(q);
                    let c = m.cond_in(idx, &vec![(i as i128, i as i128)]);
                    acc = m.ite(c, ql, acc);
                }
                acc
            }
            _ => m.leaf(t),
        })
    }
    pub fn place(&mut self, st: &mut State, fr: &Frame, pl: &Place) -> (Loc, Ty) {
        let locals = fr.info.body.locals();
        let mut ty = locals[pl.local].ty;
        let mut loc = Loc::O((fr.base + pl.local) as u32, vec![]);
        let mut var: Option<usize> = None;
        for e in &pl.projection {
            match e {
                ProjectionElem::Deref => {
                    let v = self.read_loc(st, &loc, ty);
                    let (to, fat) = match &*tyi(ty) {
                        TyI::Ptr { to, fat } => (*to, *fat),
                        _ => (ty, false),
                    };
                    loc = if fat {
                        let (p, l) = v.fat();
                        Loc::P(p, Some(l))
                    } else {
                        Loc::P(v.sc(), None)
                    };
                    if let Loc::P(p, None) = &loc {
                        if let Some(t) = m().is_leaf(*p) {
                            if let Tm::Ptr { kind: 0, id, path, idx: NONE, .. } = m().tm(t).clone() {
                                loc = Loc::O(id, path.to_vec());
                            }
                        }
                    }
                    ty = to;
                    var = None;
                }
                ProjectionElem::Field(f, fty) => {
                    let (fi, off) = match &*tyi(ty) {
                        TyI::Agg(fs) => (*f, fs.get(*f).map(|x| x.0).unwrap_or(0)),
                        TyI::Enum { vars, .. } => (*f, var.and_then(|v| vars[v].get(*f).map(|x| x.0)).unwrap_or(0)),
                        TyI::Union(_) => (0, 0),
                        _ => (*f, 0),
                    };
                    loc = match loc {
                        Loc::O(id, mut p) => {
                            p.push(fi as u32);
                            Loc::O(id, p)
                        }
                        Loc::P(p, meta) => {
                            let meta = if is_sized(*fty) { None } else { meta };
                            Loc::P(Self::proj_field(p, fi, off), meta)
                        }
                    };
                    ty = *fty;
                    var = None;
                }
                ProjectionElem::Downcast(v) => {
                    let v = vidx(*v);
                    loc = match loc {
                        Loc::O(id, mut p) => {
                            p.push(DOWN | v as u32);
                            Loc::O(id, p)
                        }
                        Loc::P(p, meta) => {
                            let q = Self::expand_idx(p);
                            let q = m().map_t(q, &mut |m, t| match m.tm(t).clone() {
                                Tm::Ptr { kind: 0, id, path, idx, .. } => {
                                    let mut pv = path.to_vec();
                                    if idx != NONE {
                                        match m.const_of_t(idx) {
                                            Some(i) => pv.push(i as u32),
                                            None => return m.opaque_t(64),
                                        }
                                    }
                                    pv.push(DOWN | v as u32);
                                    m.mk(Tm::Ptr { kind: 0, id, path: pv.into(), idx: NONE, lim: NONE })
                                }
                                _ => t,
                            });
                            Loc::P(q, meta)
                        }
                    };
                    var = Some(v);
                }
                ProjectionElem::Index(l) => {
                    let iv = self.obj(st, (fr.base + l) as u32).sc();
                    let (e, _) = elem_ty(ty);
                    loc = self.index_loc(&loc, iv, e);
                    ty = e;
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let (e, n) = elem_ty(ty);
                    let iv = if *from_end {
                        let len = match (&loc, n) {
                            (_, Some(n)) => m().cn(n as u128),
                            (Loc::P(_, Some(l)), _) => *l,
                            _ => m().opaque_n(64),
                        };
                        let o = m().cn(*offset as u128);
                        m().ap2(Op2::MSub, len, o)
                    } else {
                        m().cn(*offset as u128)
                    };
                    loc = self.index_loc(&loc, iv, e);
                    ty = e;
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let (e, n) = elem_ty(ty);
                    let fv = m().cn(*from as u128);
                    let len = match (&loc, n) {
                        (_, Some(n)) => m().cn(n as u128),
                        (Loc::P(_, Some(l)), _) => *l,
                        _ => m().opaque_n(64),
                    };
                    let nl = if *from_end {
                        let k = m().cn((*from + *to) as u128);
                        m().ap2(Op2::MSub, len, k)
                    } else {
                        m().cn((*to - *from) as u128)
                    };
                    let l2 = self.index_loc(&loc, fv, e);
                    let p = match l2 {
                        Loc::P(p, _) => p,
                        Loc::O(id, path) => obj_ptr(id, &path, NONE),
                    };
                    loc = Loc::P(p, Some(nl));
                    if n.is_some() {
                        let k = m().const_of(nl).unwrap_or(0) as u64;
                        ty = Ty::try_new_array(e, k).unwrap_or(ty);
                        loc = match loc {
                            Loc::P(p, _) => Loc::P(p, None),
                            x => x,
                        };
                    }
                }
                ProjectionElem::OpaqueCast(t) => ty = *t,
            }
        }
        (loc, ty)
    }
    fn index_loc(&mut self, loc: &Loc, iv: N, e: Ty) -> Loc {
        match loc {
            Loc::O(id, path) => {
                if let Some(i) = m().const_of(iv) {
                    let mut p = path.clone();
                    p.push(i as u32);
                    return Loc::O(*id, p);
                }
                let p = obj_ptr(*id, path, 0);
                Loc::P(self.ptr_offset(p, iv, e), None)
            }
            Loc::P(p, _) => {
                // pointer to an array object: element pointer
                let q = m().map_t(*p, &mut |m, t| match m.tm(t).clone() {
                    Tm::Ptr { kind: 0, id, path, idx: NONE, lim } => m.mk(Tm::Ptr { kind: 0, id, path, idx: 0, lim }),
                    _ => t,
                });
                Loc::P(self.ptr_offset(q, iv, e), None)
            }
        }
    }
    pub fn read_loc(&mut self, st: &State, loc: &Loc, ty: Ty) -> Value {
        match loc {
            Loc::O(id, path) => {
                if *id >= CONST_BASE {
                    return Self::nav(&self.obj(st, *id), path);
                }
                match st.objs.get(*id as usize) {
                    Some(v) => Self::nav(v, path),
                    None => Value::Undef,
                }
            }
            Loc::P(p, None) => self.read_ptr(st, *p, ty),
            Loc::P(p, Some(l)) => {
                // unsized place read: only meaningful as a slice value
                Value::Fat(*p, *l)
            }
        }
    }
    pub fn write_loc(&mut self, st: &mut State, loc: &Loc, v: Value) {
        match loc {
            Loc::O(id, path) => {
                let i = *id as usize;
                if i >= st.objs.len() {
                    return;
                }
                if path.is_empty() {
                    st.objs[i] = Rc::new(v);
                } else {
                    let ty = self.obj_tys[i];
                    let old = st.objs[i].clone();
                    st.objs[i] = Rc::new(Self::set(&old, Some(ty), path, NONE, &v, TT));
                }
            }
            Loc::P(p, _) => self.write_ptr(st, *p, &v),
        }
    }
    pub fn loc_ref(&self, loc: &Loc, unsized_: bool) -> Value {
        match loc {
            Loc::O(id, path) => Value::Scalar(obj_ptr(*id, path, NONE)),
            Loc::P(p, Some(l)) if unsized_ => Value::Fat(*p, *l),
            Loc::P(p, _) => Value::Scalar(*p),
        }
    }

    // ------------------------------------------------------------ operands
    pub fn constant(&mut self, c: &MirConst) -> Value {
        let ty = c.ty();
        match c.kind() {
            ConstantKind::Allocated(a) => decode_alloc(a, 0, ty),
            ConstantKind::ZeroSized => zero_sized(ty),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => decode_alloc(a, 0, *t),
                TyConstKind::ZSTValue(t) => zero_sized(*t),
                _ => match tc.eval_target_usize() {
                    Ok(v) => Value::Scalar(m().cn(v as u128)),
                    Err(_) => opaque(ty),
                },
            },
            _ => {
                self.note("unevaluated constant");
                opaque(ty)
            }
        }
    }
    pub fn operand(&mut self, st: &mut State, fr: &Frame, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let (l, t) = self.place(st, fr, p);
                self.read_loc(st, &l, t)
            }
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(r) => Value::Scalar(match r {
                RuntimeChecks::OverflowChecks => TT,
                _ => F,
            }),
        }
    }
    pub fn op_ty(&self, fr: &Frame, o: &Operand) -> Ty {
        o.ty(fr.info.body.locals()).unwrap_or_else(|_| Ty::usize_ty())
    }

    pub fn trunc(&mut self, pc: N, v: N, w: u8) -> N {
        if w >= 128 {
            return v;
        }
        let need = m().leaves(v).iter().any(|(_, t)| {
            let (l, h) = m().range(*t);
            l < 0 || w < 127 && h > (1i128 << w) - 1 || w >= 127 && h >= BIG
        });
        if !need || self.fits(pc, v, w) {
            return v;
        }
        m().map_t(v, &mut |m, t| m.op1(Op::Trunc, w, t))
    }
    pub fn binop(&mut self, pc: N, op: BinOp, a: &Value, b: &Value, ty: Ty, bty: Ty) -> Value {
        let w = width(ty);
        let sg = signed(ty);
        let is_bool = matches!(&*tyi(ty), TyI::Bool);
        if let TyI::Float(fw) = &*tyi(ty) {
            let (x, y) = (a.sc(), b.sc());
            let code = match op {
                BinOp::Add => 10,
                BinOp::Sub => 11,
                BinOp::Mul => 12,
                BinOp::Div => 13,
                _ => return Value::Scalar({ let o = m().opaque_t(1); m().cond_in(o, &vec![(1, 1)]) }),
            };
            let fw = *fw;
            return Value::Scalar(m().ap2(Op2::Bin(Op::Misc(code), fw), x, y));
        }
        if let (Value::Fat(p, l), Value::Fat(q, k)) = (a, b) {
            let x = m().ap2(Op2::Eq, *p, *q);
            let y = m().ap2(Op2::Eq, *l, *k);
            let e = m().and(x, y);
            return match op {
                BinOp::Eq => Value::Scalar(e),
                BinOp::Ne => Value::Scalar(m().not(e)),
                _ => opaque(Ty::bool_ty()),
            };
        }
        if matches!(a, Value::Undef) || matches!(b, Value::Undef) {
            let rt = op.ty(ty, bty);
            return opaque(rt);
        }
        let (x, y) = (a.sc(), b.sc());
        let lt = |x: N, y: N| if sg { m().ap2(Op2::Slt(w), x, y) } else { m().ap2(Op2::Ult, x, y) };
        let r = match op {
            BinOp::Add => self.wrapping(pc, Op::Add, w, x, y, sg),
            BinOp::Sub => self.wrapping(pc, Op::Sub, w, x, y, sg),
            BinOp::Mul => self.wrapping(pc, Op::Mul, w, x, y, sg),
            BinOp::AddUnchecked if !sg => m().ap2(Op2::MAdd, x, y),
            BinOp::SubUnchecked if !sg => m().ap2(Op2::MSub, x, y),
            BinOp::MulUnchecked if !sg => m().ap2(Op2::MMul, x, y),
            BinOp::AddUnchecked => m().ap2(Op2::Bin(Op::Add, w), x, y),
            BinOp::SubUnchecked => m().ap2(Op2::Bin(Op::Sub, w), x, y),
            BinOp::MulUnchecked => m().ap2(Op2::Bin(Op::Mul, w), x, y),
            BinOp::Div => m().ap2(Op2::Bin(if sg { Op::SDiv } else { Op::Div }, w), x, y),
            BinOp::Rem => m().ap2(Op2::Bin(if sg { Op::SRem } else { Op::Rem }, w), x, y),
            BinOp::BitXor => {
                if is_bool {
                    let ny = m().not(y);
                    m().ite(x, ny, y)
                } else {
                    m().ap2(Op2::Bin(Op::Xor, w), x, y)
                }
            }
            BinOp::BitAnd => if is_bool { m().and(x, y) } else { m().ap2(Op2::Bin(Op::And, w), x, y) },
            BinOp::BitOr => if is_bool { m().or(x, y) } else { m().ap2(Op2::Bin(Op::Or, w), x, y) },
            BinOp::Shl | BinOp::ShlUnchecked | BinOp::Shr | BinOp::ShrUnchecked => {
                let bw = width(bty);
                let mk = m().cn((w - 1) as u128);
                let y = if matches!(op, BinOp::Shl | BinOp::Shr) { m().ap2(Op2::Bin(Op::And, bw), y, mk) } else { y };
                match op {
                    BinOp::Shl | BinOp::ShlUnchecked => m().ap2(Op2::Bin(Op::Shl, w), x, y),
                    _ => m().ap2(Op2::Bin(if sg { Op::Sar } else { Op::Shr }, w), x, y),
                }
            }
            BinOp::Eq => {
                if is_bool {
                    let ny = m().not(y);
                    m().ite(x, y, ny)
                } else {
                    m().ap2(Op2::Eq, x, y)
                }
            }
            BinOp::Ne => {
                let e = if is_bool {
                    let ny = m().not(y);
                    m().ite(x, y, ny)
                } else {
                    m().ap2(Op2::Eq, x, y)
                };
                m().not(e)
            }
            BinOp::Lt => lt(x, y),
            BinOp::Gt => lt(y, x),
            BinOp::Le => { let g = lt(y, x); m().not(g) }
            BinOp::Ge => { let l = lt(x, y); m().not(l) }
            BinOp::Cmp => {
                let l = lt(x, y);
                let e = m().ap2(Op2::Eq, x, y);
                let (c1, c2) = (m().cn(1), m().cn(2));
                let d = m().ite(e, c1, c2);
                let d = m().ite(l, 0, d);
                return Value::Enum { d, vs: Rc::new(vec![Some(Rc::new(vec![])); 3]) };
            }
            BinOp::Offset => {
                let e = match &*tyi(ty) {
                    TyI::Ptr { to, .. } => *to,
                    _ => ty,
                };
                self.ptr_offset(x, y, e)
            }
        };
        Value::Scalar(r)
    }
    /// wrapping arithmetic; exact when no overflow is possible here
    pub fn wrapping(&mut self, pc: N, op: Op, w: u8, x: N, y: N, sg: bool) -> N {
        if !sg && w < 127 {
            let ov = match op {
                Op::Add => m().ap2(Op2::OvAdd(w), x, y),
                Op::Sub => m().ap2(Op2::OvSub(w), x, y),
                _ => m().ap2(Op2::OvMul(w), x, y),
            };
            if ov == F || !self.possible(pc, ov) {
                return match op {
                    Op::Add => m().ap2(Op2::MAdd, x, y),
                    Op::Sub => m().ap2(Op2::MSub, x, y),
                    _ => m().ap2(Op2::MMul, x, y),
                };
            }
        }
        m().ap2(Op2::Bin(op, w), x, y)
    }
    pub fn overflow(&mut self, op: BinOp, x: N, y: N, w: u8, sg: bool) -> N {
        match (op, sg) {
            (BinOp::Add | BinOp::AddUnchecked, false) => m().ap2(Op2::OvAdd(w), x, y),
            (BinOp::Sub | BinOp::SubUnchecked, false) => m().ap2(Op2::OvSub(w), x, y),
            (BinOp::Mul | BinOp::MulUnchecked, false) => m().ap2(Op2::OvMul(w), x, y),
            (BinOp::Add | BinOp::AddUnchecked, true) => m().ap2(Op2::OvSAdd(w), x, y),
            (BinOp::Sub | BinOp::SubUnchecked, true) => m().ap2(Op2::OvSSub(w), x, y),
            (BinOp::Mul | BinOp::MulUnchecked, true) => m().ap2(Op2::OvSMul(w), x, y),
            (BinOp::Shl | BinOp::Shr, _) => {
                let k = m().cn(w as u128);
                let l = m().ap2(Op2::Ult, y, k);
                m().not(l)
            }
            _ => F,
        }
    }
    pub fn checked(&mut self, pc: N, op: BinOp, a: &Value, b: &Value, ty: Ty, bty: Ty, exact: bool) -> Value {
        let w = width(ty);
        let sg = signed(ty);
        if matches!(a, Value::Undef) || matches!(b, Value::Undef) {
            return agg(vec![opaque(ty), opaque(Ty::bool_ty())]);
        }
        let (x, y) = (a.sc(), b.sc());
        let ov = self.overflow(op, x, y, w, sg);
        let v = if !sg && w < 127 && !matches!(op, BinOp::Shl | BinOp::Shr) {
            let ex = match op {
                BinOp::Add | BinOp::AddUnchecked => m().ap2(Op2::MAdd, x, y),
                BinOp::Sub | BinOp::SubUnchecked => m().ap2(Op2::MSub, x, y),
                _ => m().ap2(Op2::MMul, x, y),
            };
            if exact || ov == F {
                ex
            } else {
                let o = match op {
                    BinOp::Add => Op::Add,
                    BinOp::Sub => Op::Sub,
                    _ => Op::Mul,
                };
                let wr = m().ap2(Op2::Bin(o, w), x, y);
                m().ite(ov, wr, ex)
            }
        } else {
            self.binop(pc, op, a, b, ty, bty).sc()
        };
        agg(vec![Value::Scalar(v), Value::Scalar(ov)])
    }

    fn rvalue(&mut self, st: &mut State, fr: &Frame, rv: &Rvalue) -> Value {
        match rv {
            Rvalue::Use(o, _) => self.operand(st, fr, o),
            Rvalue::CopyForDeref(p) => {
                let (l, t) = self.place(st, fr, p);
                self.read_loc(st, &l, t)
            }
            Rvalue::Repeat(o, n) => {
                let v = self.operand(st, fr, o);
                let n = n.eval_target_usize().unwrap_or(0);
                agg(vec![v; n.min(65536) as usize])
            }
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => {
                let (l, t) = self.place(st, fr, p);
                self.loc_ref(&l, !is_sized(t))
            }
            Rvalue::Len(p) => {
                let (l, t) = self.place(st, fr, p);
                match (&*tyi(t), l) {
                    (TyI::Array(_, n), _) => Value::Scalar(m().cn(*n as u128)),
                    (_, Loc::P(_, Some(l))) => Value::Scalar(l),
                    _ => opaque(Ty::usize_ty()),
                }
            }
            Rvalue::BinaryOp(op, a, b) => {
                let (ta, tb) = (self.op_ty(fr, a), self.op_ty(fr, b));
                let (x, y) = (self.operand(st, fr, a), self.operand(st, fr, b));
                self.binop(st.pc, *op, &x, &y, ta, tb)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let (ta, tb) = (self.op_ty(fr, a), self.op_ty(fr, b));
                let (x, y) = (self.operand(st, fr, a), self.operand(st, fr, b));
                let exact = self.guarded;
                self.checked(st.pc, *op, &x, &y, ta, tb, exact)
            }
            Rvalue::UnaryOp(op, a) => {
                let t = self.op_ty(fr, a);
                let v = self.operand(st, fr, a);
                match op {
                    UnOp::Not => {
                        if matches!(v, Value::Undef) {
                            return opaque(t);
                        }
                        if matches!(&*tyi(t), TyI::Bool) {
                            Value::Scalar(m().not(v.sc()))
                        } else {
                            let w = width(t);
                            let k = m().cn(mask(w));
                            Value::Scalar(m().ap2(Op2::Bin(Op::Xor, w), v.sc(), k))
                        }
                    }
                    UnOp::Neg => {
                        let w = width(t);
                        let z = m().cn(0);
                        Value::Scalar(m().ap2(Op2::Bin(Op::Sub, w), z, v.sc()))
                    }
                    UnOp::PtrMetadata => match v {
                        Value::Fat(_, l) => Value::Scalar(l),
                        _ => unit(),
                    },
                }
            }
            Rvalue::Discriminant(p) => {
                let (l, t) = self.place(st, fr, p);
                let v = self.read_loc(st, &l, t);
                self.discriminant(&v, t)
            }
            Rvalue::Aggregate(k, ops) => {
                let vs: Vec<Value> = ops.iter().map(|o| self.operand(st, fr, o)).collect();
                match k {
                    AggregateKind::Adt(d, v, _, _, af) => match d.kind() {
                        AdtKind::Enum => enumv(d.num_variants(), vidx(*v), vs),
                        AdtKind::Union => {
                            let _ = af;
                            agg(vec![vs.into_iter().next().unwrap_or(Value::Undef)])
                        }
                        AdtKind::Struct => {
                            let n = d.name().to_string();
                            let shadow = n.contains("slice::").then(|| n.rsplit("::").next().unwrap_or("").to_string());
                            match shadow.as_deref() {
                                Some("Iter") if vs.len() == 3 => {
                                    let mut p = None;
                                    for_v(&vs[0], &mut |x| p = Some(x));
                                    let mut e = None;
                                    for_v(&vs[1], &mut |x| e = Some(x));
                                    match (p, e) {
                                        (Some(p), Some(e)) => {
                                            let et = match self.gen_ty(fr, k) {
                                                Some(t) => size_of(t),
                                                None => 1,
                                            };
                                            let len = if et == 0 { e } else { self.ptr_count(e, p, et) };
                                            agg(vec![Value::Fat(p, len)])
                                        }
                                        _ => agg(vs),
                                    }
                                }
                                Some("Chunks") | Some("ChunksExact") | Some("Windows") => {
                                    let (mut f, mut z) = (None, None);
                                    for v in &vs {
                                        match v {
                                            Value::Fat(..) if f.is_none() => f = Some(v.clone()),
                                            Value::Undef => {}
                                            _ => {
                                                for_v(v, &mut |x| z = Some(x));
                                            }
                                        }
                                    }
                                    match (f, z) {
                                        (Some(f), Some(z)) => agg(vec![f, Value::Scalar(z), Value::Scalar(m().cn(0))]),
                                        _ => agg(vs),
                                    }
                                }
                                _ => agg(vs),
                            }
                        }
                    },
                    AggregateKind::RawPtr(to, _) => {
                        let d = vs[0].sc();
                        if is_sized(*to) { Value::Scalar(d) } else { Value::Fat(d, vs[1].sc()) }
                    }
                    _ => agg(vs),
                }
            }
            Rvalue::Cast(k, o, to) => {
                let from = self.op_ty(fr, o);
                let v = self.operand(st, fr, o);
                self.cast(st, *k, v, from, *to)
            }
            Rvalue::ThreadLocalRef(_) => Value::Undef,
        }
    }
    fn gen_ty(&self, _fr: &Frame, k: &AggregateKind) -> Option<Ty> {
        match k {
            AggregateKind::Adt(_, _, g, _, _) => g.0.iter().find_map(|a| match a {
                GenericArgKind::Type(t) => Some(*t),
                _ => None,
            }),
            _ => None,
        }
    }
    /// Number of elements between two pointers.
    pub fn ptr_count(&mut self, e: N, p: N, size: usize) -> N {
        let obj = m().leaves(p).iter().all(|(_, t)| matches!(m().tm(*t), Tm::Ptr { kind: 0, .. }));
        let d = m().ap2(Op2::PtrDiff, e, p);
        if obj || size <= 1 {
            d
        } else {
            let c = m().c(size as u128);
            m().map_t(d, &mut |m, t| m.op2(Op::Div, 64, t, c))
        }
    }
    pub fn discriminant(&mut self, v: &Value, t: Ty) -> Value {
        let TyI::Enum { discrs, tag, .. } = &*tyi(t) else { return Value::Scalar(m().cn(0)) };
        if let (TagI::None(i), false) = (tag, matches!(v, Value::Enum { .. })) {
            return Value::Scalar(m().cn(discrs.get(*i).copied().unwrap_or(0)));
        }
        let Value::Enum { d, .. } = v else {
            if self.loopdbg { eprintln!("DISCR {:?} {:?}", self.stack.last(), v); }
            return opaque(Ty::usize_ty());
        };
        if discrs.iter().enumerate().all(|(i, x)| *x == i as u128) {
            return Value::Scalar(*d);
        }
        let dt = t.kind().rigid().map(|r| r.discriminant_ty());
        let w = dt.map(width).unwrap_or(64);
        let discrs = discrs.clone();
        Value::Scalar(m().map_t(*d, &mut |m, t| match m.const_of_t(t) {
            Some(i) if (i as usize) < discrs.len() => m.c(discrs[i as usize] & mask(w)),
            _ => m.opaque_t(w),
        }))
    }
    pub fn cast(&mut self, st: &State, k: CastKind, v: Value, from: Ty, to: Ty) -> Value {
        match k {
            CastKind::IntToInt => {
                if matches!(v, Value::Undef) {
                    return opaque(to);
                }
                let (fw, tw) = (width(from), width(to));
                let x = match &v {
                    Value::Enum { .. } => self.discriminant(&v, from).sc(),
                    _ => v.sc(),
                };
                if tw < fw {
                    Value::Scalar(self.trunc(st.pc, x, tw))
                } else if tw > fw && signed(from) {
                    Value::Scalar(m().map_t(x, &mut |m, t| m.op1(Op::SExt(fw), tw, t)))
                } else {
                    Value::Scalar(x)
                }
            }
            CastKind::PtrToPtr | CastKind::FnPtrToPtr => match (&v, &*tyi(from), &*tyi(to)) {
                (Value::Fat(p, l), TyI::Ptr { to: ft, .. }, TyI::Ptr { fat: false, .. }) => {
                    let e = match &*tyi(*ft) {
                        TyI::Slice(e) => size_of(*e),
                        _ => 1,
                    };
                    let n = if e == 1 { *l } else { let s = m().cn(e as u128); m().ap2(Op2::MMul, *l, s) };
                    Value::Scalar(m().ap2(Op2::PtrLim, *p, n))
                }
                _ => v,
            },
            CastKind::Transmute | CastKind::Subtype | CastKind::BoxDerefTransmute => transmute(&v, from, to),
            CastKind::PointerCoercion(pc) => match pc {
                PointerCoercion::Unsize => self.unsize(&v, from, to),
                PointerCoercion::ReifyFnPointer(_) => match from.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve_for_fn_ptr(d, &a).or_else(|_| Instance::resolve(d, &a)) {
                        Ok(i) => Value::Scalar(fnptr(i)),
                        _ => opaque(to),
                    },
                    _ => opaque(to),
                },
                PointerCoercion::ClosureFnPointer(_) => match from.kind() {
                    TyKind::RigidTy(RigidTy::Closure(d, a)) => match Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                        Ok(i) => Value::Scalar(fnptr(i)),
                        _ => opaque(to),
                    },
                    _ => opaque(to),
                },
                PointerCoercion::ArrayToPointer => match v {
                    Value::Scalar(p) => Value::Scalar(elem_ptr(p)),
                    x => x,
                },
                _ => v,
            },
            CastKind::IntToFloat => {
                let fw = width(to);
                let sg = signed(from);
                let w = width(from);
                let code = 1 + if sg { w as u32 * 4 } else { 0 };
                let _ = code;
                Value::Scalar(m().map_t(v.sc(), &mut |m, t| {
                    if !sg && fw == 32 || fw == 64 && !sg {
                        m.op1(Op::Misc(1), fw, t)
                    } else {
                        m.opaque_t(fw)
                    }
                }))
            }
            CastKind::FloatToFloat if (width(from), width(to)) == (32, 64) || (width(from), width(to)) == (64, 32) => {
                let (c, fw) = if width(to) == 64 { (2, 64) } else { (3, 32) };
                Value::Scalar(m().map_t(v.sc(), &mut |m, t| m.op1(Op::Misc(c), fw, t)))
            }
            CastKind::FloatToFloat | CastKind::FloatToInt => opaque(to),
            CastKind::PointerExposeAddress | CastKind::PointerWithExposedProvenance => v,
        }
    }
    fn unsize(&mut self, v: &Value, from: Ty, to: Ty) -> Value {
        let (TyI::Ptr { to: ft, .. }, TyI::Ptr { to: tt, .. }) = (&*tyi(from), &*tyi(to)) else {
            // NonNull and friends: same coercion inside
            if let (TyI::Agg(fs), TyI::Agg(ts), Value::Agg(xs)) = (&*tyi(from), &*tyi(to), v) {
                if fs.len() == ts.len() && fs.len() == xs.len() {
                    return agg((0..fs.len()).map(|i| if fs[i].1 == ts[i].1 { xs[i].clone() } else { self.unsize(&xs[i], fs[i].1, ts[i].1) }).collect());
                }
            }
            return v.clone();
        };
        match (&*tyi(*ft), &*tyi(*tt)) {
            (TyI::Array(_, n), TyI::Slice(_)) => Value::Fat(elem_ptr(v.sc()), m().cn(*n as u128)),
            (_, TyI::Dyn) => match v {
                Value::Fat(p, l) => Value::Fat(*p, *l),
                _ => Value::Fat(v.sc(), vtable(*ft)),
            },
            _ => v.clone(),
        }
    }

    // ------------------------------------------------------------ statements and blocks
    fn statement(&mut self, st: &mut State, fr: &Frame, s: &Statement) {
        match &s.kind {
            StatementKind::Assign(p, rv) => {
                let v = self.rvalue(st, fr, rv);
                if p.projection.is_empty() {
                    st.objs[fr.base + p.local] = Rc::new(v);
                } else {
                    let (l, _) = self.place(st, fr, p);
                    self.write_loc(st, &l, v);
                }
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let (l, t) = self.place(st, fr, place);
                let mut v = self.read_loc(st, &l, t);
                if matches!(v, Value::Undef) {
                    v = Self::skeleton(t);
                }
                if let Value::Enum { vs, .. } = &v {
                    let i = vidx(*variant_index);
                    let mut nvs = (**vs).clone();
                    if nvs[i].is_none() {
                        if let TyI::Enum { vars, .. } = &*tyi(t) {
                            nvs[i] = Some(Rc::new(vars[i].iter().map(|_| Value::Undef).collect()));
                        }
                    }
                    let nv = Value::Enum { d: m().cn(i as u128), vs: Rc::new(nvs) };
                    self.write_loc(st, &l, nv);
                }
            }
            StatementKind::StorageDead(l) => {
                st.objs[fr.base + l] = Rc::new(Value::Undef);
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                let c = self.operand(st, fr, o).sc();
                let c = m().to_bool(c);
                let pc = m().and(st.pc, c);
                if pc != F {
                    // keep the path condition small: only use it to prune
                    if m().size(pc) <= m().size(st.pc) + 4 {
                        st.pc = pc;
                    }
                }
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                let t = self.op_ty(fr, &c.src);
                let to = match &*tyi(t) {
                    TyI::Ptr { to, .. } => *to,
                    _ => t,
                };
                let (s, d, n) = (self.operand(st, fr, &c.src), self.operand(st, fr, &c.dst), self.operand(st, fr, &c.count));
                self.copy_n(st, s.sc(), d.sc(), n.sc(), to);
            }
            _ => {}
        }
    }
    pub fn copy_n(&mut self, st: &mut State, s: N, d: N, n: N, e: Ty) {
        match m().const_of(n) {
            Some(k) if k <= 256 => {
                let mut vs = vec![];
                for i in 0..k as usize {
                    vs.push(self.slice_elem(st, s, i, e));
                }
                for (i, v) in vs.into_iter().enumerate() {
                    let iv = m().cn(i as u128);
                    let q = self.ptr_offset(d, iv, e);
                    self.write_ptr(st, q, &v);
                }
            }
            _ => self.note("copy of unknown length"),
        }
    }

    pub fn set_line(&mut self, fr: &Frame, span: Span) {
        if let Some(top) = self.stack.last_mut() {
            let li = span.get_lines();
            top.2 = li.start_line;
            let _ = fr;
        }
    }

    /// Execute one block; returns successor states.
    fn block(&mut self, mut st: State, fr: &Frame, b: usize) -> Vec<(Tgt, State)> {
        self.n_blocks += 1;
        tick();
        self.fuel = self.fuel.saturating_sub(1);
        let info = fr.info.clone();
        let bb = &info.body.blocks[b];
        for s in &bb.statements {
            self.guarded = match (&s.kind, &bb.terminator.kind) {
                (StatementKind::Assign(p, Rvalue::CheckedBinaryOp(..)), TerminatorKind::Assert { cond: Operand::Move(q) | Operand::Copy(q), .. }) => p.local == q.local,
                _ => false,
            };
            if info.local_crate && self.suppress == 0 {
                self.set_line(fr, s.source_info.span);
            }
            self.statement(&mut st, fr, s);
        }
        if info.local_crate {
            self.set_line(fr, bb.terminator.source_info.span);
        }
        match &bb.terminator.kind {
            TerminatorKind::Goto { target } => vec![(Tgt::Block(*target), st)],
            TerminatorKind::Return => vec![(Tgt::Ret, st)],
            TerminatorKind::Resume | TerminatorKind::Abort | TerminatorKind::Unreachable => vec![],
            TerminatorKind::Drop { target, .. } => vec![(Tgt::Block(*target), st)],
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = self.op_ty(fr, discr);
                let v = self.operand(&mut st, fr, discr);
                let x = if matches!(v, Value::Undef) { opaque(ty).sc() } else { v.sc() };
                let care = m().and(st.pc, self.amb);
                let x = m().restrict(x, care);
                let mut rest = TT;
                let mut arms: Vec<(usize, N)> = vec![];
                let is_bool = matches!(&*tyi(ty), TyI::Bool);
                for (val, tg) in targets.branches() {
                    let c = if is_bool {
                        if val == 0 { m().not(x) } else { x }
                    } else {
                        let cv = m().cn(val);
                        m().ap2(Op2::Eq, x, cv)
                    };
                    let c = m().and(rest, c);
                    let nc = m().not(c);
                    rest = m().and(rest, nc);
                    arms.push((tg, c));
                }
                arms.push((targets.otherwise(), rest));
                // group by target
                let mut by: Vec<(usize, N)> = vec![];
                for (t, c) in arms {
                    if c == F {
                        continue;
                    }
                    match by.iter_mut().find(|x| x.0 == t) {
                        Some(e) => e.1 = m().or(e.1, c),
                        None => by.push((t, c)),
                    }
                }
                by.retain(|(t, _)| {
                    // arms that are immediately unreachable carry no behaviour
                    let bb = &info.body.blocks[*t];
                    !(bb.statements.is_empty() && matches!(bb.terminator.kind, TerminatorKind::Unreachable))
                });
                if by.len() == 1 {
                    return vec![(Tgt::Block(by[0].0), st)];
                }
                let live: Vec<(usize, N)> = by.into_iter().filter(|(_, c)| self.possible(st.pc, *c)).collect();
                if live.len() == 1 {
                    return vec![(Tgt::Block(live[0].0), st)];
                }
                live.into_iter()
                    .map(|(t, c)| {
                        let mut s = st.clone();
                        s.pc = m().and(st.pc, c);
                        (Tgt::Block(t), s)
                    })
                    .filter(|(_, s)| s.pc != F)
                    .collect()
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let v = self.operand(&mut st, fr, cond);
                let c = if matches!(v, Value::Undef) { opaque(Ty::bool_ty()).sc() } else { v.sc() };
                let ok = if *expected { c } else { m().not(c) };
                let care = m().and(st.pc, self.amb);
                let ok = m().restrict(ok, care);
                let fail = m().not(ok);
                let (k, n) = assert_kind(msg);
                if fail == F {
                    if self.suppress == 0 {
                        *self.discharged.entry(k.into()).or_default() += 1;
                    }
                } else {
                    self.oblige(k, &n, st.pc, fail);
                    if self.possible(st.pc, fail) {
                        st.pc = m().and(st.pc, ok);
                    }
                }
                if st.pc == F { vec![] } else { vec![(Tgt::Block(*target), st)] }
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = self.op_ty(fr, func);
                let dty = destination.ty(info.body.locals()).unwrap();
                let avs: Vec<Value> = args.iter().map(|a| self.operand(&mut st, fr, a)).collect();
                let atys: Vec<Ty> = args.iter().map(|a| self.op_ty(fr, a)).collect();
                self.n_calls += 1;
                let r = match fty.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, ga)) => self.call_def(st, d, &ga, avs, &atys, dty),
                    TyKind::RigidTy(RigidTy::FnPtr(_)) => {
                        let f = self.operand(&mut st, fr, func).sc();
                        self.call_fnptr(st, f, avs, &atys, dty)
                    }
                    _ => self.havoc(st, "indirect call", avs, dty),
                };
                match (r, target) {
                    (Some((mut st, v)), Some(t)) => {
                        let n = fr.base + info.body.locals().len();
                        st.objs.truncate(n.max(fr.base));
                        self.obj_tys.truncate(st.objs.len());
                        let (l, _) = self.place(&mut st, fr, destination);
                        self.write_loc(&mut st, &l, v);
                        vec![(Tgt::Block(*t), st)]
                    }
                    _ => vec![],
                }
            }
            TerminatorKind::InlineAsm { .. } => {
                self.note("inline assembly");
                vec![]
            }
        }
    }
    fn kill_dead(&self, st: &mut State, fr: &Frame, b: usize) {
        let live = &fr.info.live_in[b];
        for l in 0..fr.info.body.locals().len() {
            if !live.contains(&l) && !fr.info.addr_taken.contains(&l) && !matches!(*st.objs[fr.base + l], Value::Undef) {
                st.objs[fr.base + l] = Rc::new(Value::Undef);
            }
        }
    }

    /// Run the blocks of a region (a loop body or the whole function) once.
    pub fn region(&mut self, fr: &Frame, lp: Option<usize>, entry: usize, st: State) -> (Vec<(Tgt, State)>, Option<State>) {
        let info = fr.info.clone();
        let mut ins: HashMap<usize, State> = HashMap::new();
        ins.insert(entry, st);
        let mut exits: Vec<(Tgt, State)> = vec![];
        let mut back: Option<State> = None;
        let inside = |b: usize| -> bool {
            match lp {
                None => true,
                Some(l) => info.loops[l].blocks.contains(&b),
            }
        };
        let push = |me: &mut Interp, ins: &mut HashMap<usize, State>, exits: &mut Vec<(Tgt, State)>, back: &mut Option<State>, t: Tgt, mut s: State| {
            match t {
                Tgt::Block(b) if lp.is_some() && b == entry => {
                    me.kill_dead(&mut s, fr, b);
                    *back = Some(match back.take() {
                        None => s,
                        Some(o) => merge_states(o, s),
                    });
                }
                Tgt::Block(b) if inside(b) => {
                    me.kill_dead(&mut s, fr, b);
                    let n = match ins.remove(&b) {
                        None => s,
                        Some(o) => merge_states(o, s),
                    };
                    ins.insert(b, n);
                }
                t => {
                    if let Tgt::Block(b) = &t {
                        me.kill_dead(&mut s, fr, *b);
                    } else {
                        // only the return place survives
                        for l in 1..info.body.locals().len() {
                            if !matches!(*s.objs[fr.base + l], Value::Undef) {
                                s.objs[fr.base + l] = Rc::new(Value::Undef);
                            }
                        }
                    }
                    match exits.iter().position(|x| x.0 == t) {
                        Some(i) => {
                            let (_, o) = exits.swap_remove(i);
                            exits.push((t, merge_states(o, s)));
                        }
                        None => exits.push((t, s)),
                    }
                }
            }
        };
        for &b in &info.rpo {
            if !inside(b) {
                continue;
            }
            let Some(s) = ins.remove(&b) else { continue };
            if self.fuel == 0 || self.start.elapsed().as_secs_f64() > self.deadline {
                self.note("analysis budget exhausted");
                self.fuel = 0;
                return (vec![], None);
            }
            // header of a loop nested directly in this region?
            let child = info.loops.iter().position(|l| l.header == b && l.parent == lp);
            if let (Some(c), true) = (child, lp.map(|l| info.loops[l].header != b).unwrap_or(true)) {
                for (t, s) in self.run_loop(fr, c, s) {
                    push(self, &mut ins, &mut exits, &mut back, t, s);
                }
            } else {
                for (t, s) in self.block(s, fr, b) {
                    push(self, &mut ins, &mut exits, &mut back, t, s);
                }
            }
        }
        (exits, back)
    }

    // ------------------------------------------------------------ calls
    pub fn call_instance(&mut self, st: State, inst: Instance, args: Vec<Value>, dty: Ty) -> Option<(State, Value)> {
        if self.heavy.contains(&inst) {
            if let Some(r) = self.summary(&st, inst, &args, dty) {
                return Some(r);
            }
        }
        let (l0, nf, nb) = (self.n_loops, self.findings.len(), self.n_blocks);
        let r = self.call_inline(st, inst, args, dty);
        if (self.n_loops > l0 || self.n_blocks > nb + 400) && self.findings.len() == nf {
            self.heavy.insert(inst);
        }
        r
    }
    /// Result of a call computed once for arbitrary scalar arguments and instantiated by substitution.
    fn summary(&mut self, st: &State, inst: Instance, args: &[Value], dty: Ty) -> Option<(State, Value)> {
        let info = self.body_of(inst)?;
        let locals = info.body.locals();
        if info.body.arg_locals().len() != args.len() {
            return None;
        }
        let mut gen_: Vec<Value> = vec![];
        let mut map: HashMap<T, N> = HashMap::new();
        for (i, a) in args.iter().enumerate() {
            let t = locals[i + 1].ty;
            match (a, &*tyi(t)) {
                (Value::Scalar(n), TyI::Int { w, .. }) if m().const_of(*n).is_none() && *w <= 64 => {
                    let at = m().mk(Tm::Atom { name: format!("\u{3c3}{i}").into(), w: *w });
                    if m().is_leaf(*n) == Some(at) {
                        return None;
                    }
                    map.insert(at, *n);
                    gen_.push(Value::Scalar(m().leaf(at)));
                }
                _ => gen_.push(a.clone()),
            }
        }
        let mut key: Vec<u64> = vec![];
        let mut todo: Vec<u32> = vec![];
        for a in &gen_ {
            ser(a, &mut key, &mut todo);
        }
        let mut i = 0;
        while i < todo.len() {
            if todo.len() > 40 {
                return None;
            }
            let id = todo[i];
            i += 1;
            if id >= CONST_BASE {
                continue;
            }
            key.push(id as u64 | 7 << 40);
            let o = st.objs.get(id as usize)?.clone();
            ser(&o, &mut key, &mut todo);
        }
        key.push(self.amb as u64);
        key.push(st.objs.len() as u64);
        let key = (inst, key, lin::phi_facts().clone());
        let r = match self.summaries.get(&key) {
            Some(r) => r.clone(),
            None => {
                let s0 = self.suppress;
                let sn = self.snap();
                self.suppress = 0;
                let lc = std::mem::take(&mut self.loop_ctx);
                let nf = self.findings.len();
                let tys = self.obj_tys.clone();
                let r = self.call_inline(State { pc: TT, objs: st.objs.clone() }, inst, gen_, dty);
                self.obj_tys = tys;
                self.loop_ctx = lc;
                self.suppress = s0;
                let ok = self.findings.len() == nf;
                if !ok || s0 > 0 {
                    self.unsnap(sn);
                }
                let base = st.objs.len();
                let r = match r {
                    Some((s, v)) if ok && s.pc == TT && (0..base).all(|o| Rc::ptr_eq(&s.objs[o], &st.objs[o])) => {
                        let mut bad = false;
                        for_v(&v, &mut |n| {
                            for (_, t) in m().leaves(n) {
                                if let Tm::Ptr { kind: 0, id, .. } = m().tm(t) {
                                    if *id < CONST_BASE && *id as usize >= base {
                                        bad = true;
                                    }
                                }
                            }
                        });
                        if bad { None } else { Some(v) }
                    }
                    _ => None,
                };
                self.summaries.insert(key, r.clone());
                r
            }
        };
        let v = r?;
        self.n_summ += 1;
        if map.is_empty() {
            return Some((st.clone(), v));
        }
        let mut memo = HashMap::new();
        let v = map_v(&v, &mut |n| m().subst_phi(n, &map, &mut memo));
        Some((st.clone(), v))
    }
    pub fn call_inline(&mut self, mut st: State, inst: Instance, mut args: Vec<Value>, dty: Ty) -> Option<(State, Value)> {
        let Some(info) = self.body_of(inst) else {
            let n = inst.name();
            return self.havoc(st, &n, args, dty);
        };
        if self.depth > 90 {
            self.note("call depth exceeded");
            return self.havoc(st, "depth", args, dty);
        }
        if self.trace {
            eprintln!("{:w$}> {} pc={} nodes={} terms={}", "", info.name, m().size(st.pc), m().nodes.len(), m().terms.len(), w = self.depth as usize);
        }
        let base = st.objs.len();
        self.obj_tys.truncate(base);
        let locals = info.body.locals();
        let nargs = info.body.arg_locals().len();
        if args.len() != nargs {
            // rust-call: last argument is a tuple to be spread, or must be gathered
            if let Some(Value::Agg(t)) = args.last().cloned() {
                if args.len() - 1 + t.len() == nargs {
                    args.pop();
                    args.extend(t.iter().cloned());
                }
            }
            if args.len() != nargs {
                return self.havoc(st, &info.name.clone(), args, dty);
            }
        }
        for (i, l) in locals.iter().enumerate() {
            let v = if i >= 1 && i <= nargs { args[i - 1].clone() } else { Value::Undef };
            st.objs.push(Rc::new(v));
            self.obj_tys.push(l.ty);
        }
        if self.suppress == 0 {
            if info.local_crate {
                self.crate_funcs.insert(info.name.clone());
            } else {
                self.funcs.insert(info.name.clone());
            }
        }
        let sp = info.body.span;
        self.stack.push((info.name.clone(), if info.local_crate { sp.get_filename() } else { String::new() }, 0, info.local_crate, String::new()));
        self.depth += 1;
        let fr = Frame { info: info.clone(), base };
        let (exits, _) = self.region(&fr, None, 0, st);
        self.depth -= 1;
        self.stack.pop();
        let mut out: Option<State> = None;
        for (t, s) in exits {
            if t == Tgt::Ret {
                out = Some(match out {
                    None => s,
                    Some(o) => merge_states(o, s),
                });
            }
        }
        if self.trace {
            eprintln!("{:w$}< {} {}", "", info.name, out.is_some(), w = self.depth as usize);
        }
        let mut s = out?;
        let v = (*s.objs[base]).clone();
        s.objs.truncate(base);
        self.obj_tys.truncate(base);
        Some((s, v))
    }
    pub fn havoc(&mut self, mut st: State, what: &str, args: Vec<Value>, dty: Ty) -> Option<(State, Value)> {
        if self.suppress == 0 {
            *self.unmodelled.entry(what.to_string()).or_default() += 1;
            if self.trace {
                eprintln!("HAVOC {what}");
            }
        }
        // anything reachable mutably is unknown afterwards; be conservative for every pointer argument
        for a in &args {
            let mut ps = vec![];
            for_v(a, &mut |n| ps.push(n));
            for p in ps {
                for (_, t) in m().leaves(p) {
                    if let Tm::Ptr { kind: 0, id, .. } = m().tm(t).clone() {
                        if (id as usize) < st.objs.len() {
                            let ty = self.obj_tys[id as usize];
                            st.objs[id as usize] = Rc::new(opaque(ty));
                        }
                    }
                }
            }
        }
        if matches!(&*tyi(dty), TyI::Never) {
            return None;
        }
        Some((st, opaque(dty)))
    }
    pub fn call_fnptr(&mut self, st: State, f: N, args: Vec<Value>, atys: &[Ty], dty: Ty) -> Option<(State, Value)> {
        let ls = m().leaves(f);
        let mut out: Option<(State, Value)> = None;
        for (c, t) in ls {
            let mut s = st.clone();
            s.pc = m().and(st.pc, c);
            if s.pc == F {
                continue;
            }
            let r = match m().tm(t).clone() {
                Tm::FnPtr(k) => {
                    let i = consts().fns[k as usize];
                    self.call_resolved(s, i, args.clone(), atys, dty)
                }
                _ => self.havoc(s, "unknown function pointer", args.clone(), dty),
            };
            out = match (out, r) {
                (None, r) => r,
                (o, None) => o,
                (Some((s1, v1)), Some((s2, v2))) => {
                    let pc = m().or(s1.pc, s2.pc);
                    let c = m().restrict(s1.pc, pc);
                    let v = merge(c, &v1, &v2);
                    Some((merge_states(s1, s2), v))
                }
            };
        }
        out
    }
    pub fn def_name(&mut self, d: FnDef) -> Rc<(String, String)> {
        if let Some(x) = self.ncache.get(&d) {
            return x.clone();
        }
        let r = Rc::new((d.name().to_string(), d.krate().name.to_string()));
        self.ncache.insert(d, r.clone());
        r
    }
    pub fn call_def(&mut self, st: State, d: FnDef, ga: &GenericArgs, args: Vec<Value>, atys: &[Ty], dty: Ty) -> Option<(State, Value)> {
        let nm = self.def_name(d);
        self.cur_def = Some(d);
        if let Some(r) = self.intercept(&st, &nm.0, ga, &args, atys, dty) {
            return r;
        }
        match Instance::resolve(d, ga) {
            Ok(i) => self.call_resolved(st, i, args, atys, dty),
            Err(_) => self.havoc(st, &nm.0.clone(), args, dty),
        }
    }
    pub fn call_resolved(&mut self, st: State, i: Instance, args: Vec<Value>, atys: &[Ty], dty: Ty) -> Option<(State, Value)> {
        if let InstanceKind::Intrinsic = i.kind {
            let n = i.intrinsic_name().unwrap();
            return self.intrinsic(st, &n, &i.args(), args, atys, dty, Some(i));
        }
        if let InstanceKind::Virtual { .. } = i.kind {
            return self.call_virtual(st, i, args, atys, dty);
        }
        // a closure behind a function pointer
        if let (TyKind::RigidTy(RigidTy::FnDef(d, ga)), false) = (i.ty().kind(), i.has_body()) {
            if self.def_name(d).0.ends_with("::call_once") {
                if let Some(t) = ga.0.first().and_then(|g| g.ty().copied()) {
                    if let TyKind::RigidTy(RigidTy::Closure(..)) = t.kind() {
                        return self.call_value(st, agg(vec![]), t, args, atys, dty);
                    }
                }
            }
        }
        // resolved callee may itself be intercepted (e.g. reached through a trait)
        if let TyKind::RigidTy(RigidTy::FnDef(d, ga)) = i.ty().kind() {
            let nm = self.def_name(d);
            if let Some(r) = self.intercept_resolved(&st, &nm.0, &nm.1, &ga, &args, atys, dty, i) {
                return r;
            }
            // constructors used as functions
            if i.body().is_none() {
                if let Some(v) = ctor(&d, dty, &args) {
                    return Some((st, v));
                }
            }
        }
        self.call_instance(st, i, args, dty)
    }
    fn call_virtual(&mut self, st: State, i: Instance, args: Vec<Value>, atys: &[Ty], dty: Ty) -> Option<(State, Value)> {
        let TyKind::RigidTy(RigidTy::FnDef(d, ga)) = i.ty().kind() else { return self.havoc(st, "virtual", args, dty) };
        let (p, vt) = match args.first() {
            Some(Value::Fat(p, vt)) => (*p, *vt),
            _ => return self.havoc(st, "virtual call", args, dty),
        };
        let ls = m().leaves(vt);
        let mut out: Option<(State, Value)> = None;
        for (c, t) in ls {
            let mut s = st.clone();
            s.pc = m().and(st.pc, c);
            if s.pc == F {
                continue;
            }
            let r = match m().tm(t).clone() {
                Tm::Vt(k) => {
                    let ty = consts().vts[k as usize];
                    let mut g = ga.clone();
                    if let Some(x) = g.0.first_mut() {
                        *x = GenericArgKind::Type(ty);
                    }
                    let mut a = args.clone();
                    a[0] = Value::Scalar(m().restrict(p, c));
                    let mut at = atys.to_vec();
                    if let Some(x) = at.first_mut() {
                        *x = Ty::new_ptr(ty, Mutability::Mut);
                    }
                    self.call_def(s, d, &g, a, &at, dty)
                }
                _ => self.havoc(s, "unknown vtable", args.clone(), dty),
            };
            out = match (out, r) {
                (None, r) => r,
                (o, None) => o,
                (Some((s1, v1)), Some((s2, v2))) => {
                    let pc = m().or(s1.pc, s2.pc);
                    let c = m().restrict(s1.pc, pc);
                    let v = merge(c, &v1, &v2);
                    Some((merge_states(s1, s2), v))
                }
            };
        }
        out
    }
    /// Call a callable value of type `fty` (closure, fn item, fn pointer, reference to one).
    pub fn call_value(&mut self, mut st: State, f: Value, fty: Ty, args: Vec<Value>, atys: &[Ty], dty: Ty) -> Option<(State, Value)> {
        match fty.kind() {
            TyKind::RigidTy(RigidTy::Closure(d, ga)) => {
                let kind = closure_kind(&ga);
                let Ok(inst) = Instance::resolve_closure(d, &ga, kind) else { return self.havoc(st, "closure", args, dty) };
                let Some(info) = self.body_of(inst) else { return self.havoc(st, "closure body", args, dty) };
                let by_ref = matches!(&*tyi(info.body.arg_locals()[0].ty), TyI::Ptr { .. });
                let mut a = vec![];
                if by_ref {
                    let id = self.alloc(&mut st, fty, f);
                    a.push(Value::Scalar(obj_ptr(id, &[], NONE)));
                } else {
                    a.push(f);
                }
                a.extend(args);
                self.call_instance(st, inst, a, dty)
            }
            TyKind::RigidTy(RigidTy::FnDef(d, ga)) => self.call_def(st, d, &ga, args, atys, dty),
            TyKind::RigidTy(RigidTy::FnPtr(_)) => self.call_fnptr(st, f.sc(), args, atys, dty),
            TyKind::RigidTy(RigidTy::Ref(_, to, _) | RigidTy::RawPtr(to, _)) => {
                if let TyKind::RigidTy(RigidTy::Closure(d, ga)) = to.kind() {
                    let kind = closure_kind(&ga);
                    let Ok(inst) = Instance::resolve_closure(d, &ga, kind) else { return self.havoc(st, "closure", args, dty) };
                    let mut a = vec![f];
                    a.extend(args);
                    return self.call_instance(st, inst, a, dty);
                }
                let v = self.read_ptr(&st, f.sc(), to);
                self.call_value(st, v, to, args, atys, dty)
            }
            _ => self.havoc(st, "call of unknown callable", args, dty),
        }
    }
}

pub fn closure_kind(ga: &GenericArgs) -> ClosureKind {
    let n = ga.0.len();
    if n >= 3 {
        if let Some(t) = ga.0[n - 3].ty() {
            if let TyI::Int { w, .. } = &*tyi(*t) {
                return match w {
                    8 => ClosureKind::Fn,
                    16 => ClosureKind::FnMut,
                    _ => ClosureKind::FnOnce,
                };
            }
        }
    }
    ClosureKind::FnOnce
}
pub fn elem_ptr(p: N) -> N {
    m().map_t(p, &mut |m, t| match m.tm(t).clone() {
        Tm::Ptr { kind: 0, id, path, idx, lim } => {
            if idx == NONE {
                m.mk(Tm::Ptr { kind: 0, id, path, idx: 0, lim })
            } else if let Some(i) = m.const_of_t(idx) {
                let mut v = path.to_vec();
                v.push(i as u32);
                m.mk(Tm::Ptr { kind: 0, id, path: v.into(), idx: 0, lim })
            } else {
                m.opaque_t(64)
            }
        }
        _ => t,
    })
}
pub fn elem_ty(t: Ty) -> (Ty, Option<u64>) {
    match &*tyi(t) {
        TyI::Array(e, n) => (*e, Some(*n)),
        TyI::Slice(e) => (*e, None),
        _ => (t, None),
    }
}
fn assert_kind(msg: &AssertMessage) -> (&'static str, String) {
    match msg {
        AssertMessage::BoundsCheck { .. } => ("bounds", "index out of bounds".into()),
        AssertMessage::Overflow(op, ..) => ("overflow", format!("arithmetic overflow in {op:?}")),
        AssertMessage::OverflowNeg(_) => ("overflow", "negation overflow".into()),
        AssertMessage::DivisionByZero(_) => ("panic", "division by zero".into()),
        AssertMessage::RemainderByZero(_) => ("panic", "remainder by zero".into()),
        _ => ("panic", "assertion".into()),
    }
}
/// Tuple struct / tuple variant constructors.
fn ctor(d: &FnDef, dty: Ty, args: &[Value]) -> Option<Value> {
    let TyKind::RigidTy(RigidTy::Adt(a, _)) = dty.kind() else { return None };
    let name = d.name().to_string();
    let last = name.rsplit("::").next()?.to_string();
    match a.kind() {
        AdtKind::Struct => Some(agg(args.to_vec())),
        AdtKind::Enum => {
            let i = a.variants().iter().position(|v| v.name().to_string() == last)?;
            Some(enumv(a.num_variants(), i, args.to_vec()))
        }
        _ => None,
    }
}

fn succs(t: &TerminatorKind) -> Vec<usize> {
    match t {
        TerminatorKind::Goto { target } => vec![*target],
        TerminatorKind::SwitchInt { targets, .. } => targets.all_targets(),
        TerminatorKind::Drop { target, .. } => vec![*target],
        TerminatorKind::Call { target, .. } => target.iter().copied().collect(),
        TerminatorKind::Assert { target, .. } => vec![*target],
        _ => vec![],
    }
}

pub fn analyse_body(body: Body, inst: Instance) -> BodyInfo {
    let n = body.blocks.len();
    let su: Vec<Vec<usize>> = body.blocks.iter().map(|b| succs(&b.terminator.kind)).collect();
    // rpo
    let mut post = vec![];
    let mut seen = vec![false; n];
    let mut st: Vec<(usize, usize)> = vec![(0, 0)];
    seen[0] = true;
    while let Some((b, i)) = st.pop() {
        if i < su[b].len() {
            st.push((b, i + 1));
            let s = su[b][i];
            if !seen[s] {
                seen[s] = true;
                st.push((s, 0));
            }
        } else {
            post.push(b);
        }
    }
    let rpo: Vec<usize> = post.iter().rev().copied().collect();
    let mut num = vec![usize::MAX; n];
    for (i, b) in rpo.iter().enumerate() {
        num[*b] = i;
    }
    let mut pred = vec![vec![]; n];
    for &b in &rpo {
        for &s in &su[b] {
            pred[s].push(b);
        }
    }
    // dominators
    let mut idom = vec![usize::MAX; n];
    idom[0] = 0;
    let mut ch = true;
    while ch {
        ch = false;
        for &b in rpo.iter().skip(1) {
            let mut new = usize::MAX;
            for &p in &pred[b] {
                if idom[p] == usize::MAX {
                    continue;
                }
                new = if new == usize::MAX {
                    p
                } else {
                    let (mut x, mut y) = (p, new);
                    while x != y {
                        while num[x] > num[y] {
                            x = idom[x];
                        }
                        while num[y] > num[x] {
                            y = idom[y];
                        }
                    }
                    x
                };
            }
            if new != idom[b] {
                idom[b] = new;
                ch = true;
            }
        }
    }
    let dom = |a: usize, b: usize| -> bool {
        let mut x = b;
        loop {
            if x == a {
                return true;
            }
            if x == 0 || idom[x] == usize::MAX {
                return false;
            }
            x = idom[x];
        }
    };
    let mut loops: Vec<LoopInfo> = vec![];
    for &b in &rpo {
        for &s in &su[b] {
            if dom(s, b) {
                let mut blocks = HashSet::new();
                blocks.insert(s);
                let mut w = vec![b];
                while let Some(x) = w.pop() {
                    if blocks.insert(x) {
                        w.extend(pred[x].iter().copied());
                    }
                }
                match loops.iter_mut().find(|l| l.header == s) {
                    Some(l) => l.blocks.extend(blocks),
                    None => loops.push(LoopInfo { header: s, blocks, parent: None }),
                }
            }
        }
    }
    // nesting
    let nl = loops.len();
    for i in 0..nl {
        let mut best: Option<usize> = None;
        for j in 0..nl {
            if i != j && loops[j].blocks.contains(&loops[i].header) && loops[j].header != loops[i].header && loops[i].blocks.is_subset(&loops[j].blocks) {
                if best.map(|b| loops[j].blocks.len() < loops[b].blocks.len()).unwrap_or(true) {
                    best = Some(j);
                }
            }
        }
        loops[i].parent = best;
    }
    let mut loop_of = vec![None; n];
    for b in 0..n {
        let mut best: Option<usize> = None;
        for (j, l) in loops.iter().enumerate() {
            if l.blocks.contains(&b) && best.map(|x: usize| l.blocks.len() < loops[x].blocks.len()).unwrap_or(true) {
                best = Some(j);
            }
        }
        loop_of[b] = best;
    }
    // liveness
    let mut addr_taken = HashSet::new();
    let mut gen_: Vec<HashSet<usize>> = vec![HashSet::new(); n];
    let mut kill: Vec<HashSet<usize>> = vec![HashSet::new(); n];
    for (bi, b) in body.blocks.iter().enumerate() {
        let (g, k) = (&mut gen_[bi], &mut kill[bi]);
        for s in &b.statements {
            match &s.kind {
                StatementKind::Assign(p, rv) => {
                    uses_rv(rv, &mut |l| {
                        if !k.contains(&l) {
                            g.insert(l);
                        }
                    });
                    match rv {
                        Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => {
                            if !p.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) {
                                addr_taken.insert(p.local);
                            }
                        }
                        _ => {}
                    }
                    def_place(p, g, k);
                }
                StatementKind::SetDiscriminant { place, .. } => {
                    if !k.contains(&place.local) {
                        g.insert(place.local);
                    }
                }
                StatementKind::StorageDead(l) => {
                    k.insert(*l);
                }
                StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => uses_op(o, &mut |l| {
                    if !k.contains(&l) {
                        g.insert(l);
                    }
                }),
                StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                    for o in [&c.src, &c.dst, &c.count] {
                        uses_op(o, &mut |l| {
                            if !k.contains(&l) {
                                g.insert(l);
                            }
                        });
                    }
                }
                _ => {}
            }
        }
        let mut u = |l: usize| {
            if !k.contains(&l) {
                g.insert(l);
            }
        };
        match &b.terminator.kind {
            TerminatorKind::SwitchInt { discr, .. } => uses_op(discr, &mut u),
            TerminatorKind::Assert { cond, .. } => uses_op(cond, &mut u),
            TerminatorKind::Call { func, args, destination, .. } => {
                uses_op(func, &mut u);
                for a in args {
                    uses_op(a, &mut u);
                }
                if !destination.projection.is_empty() {
                    uses_place(destination, &mut u);
                } else {
                    k.insert(destination.local);
                }
            }
            TerminatorKind::Return => u(0),
            _ => {}
        }
    }
    let mut live_in: Vec<HashSet<usize>> = vec![HashSet::new(); n];
    let mut ch = true;
    while ch {
        ch = false;
        for &b in post.iter() {
            let mut out: HashSet<usize> = HashSet::new();
            for &s in &su[b] {
                out.extend(live_in[s].iter().copied());
            }
            let mut inn = gen_[b].clone();
            inn.extend(out.difference(&kill[b]).copied());
            if inn.len() != live_in[b].len() {
                live_in[b] = inn;
                ch = true;
            }
        }
    }
    let name = inst.name().to_string();
    let krate = match inst.ty().kind() {
        TyKind::RigidTy(RigidTy::FnDef(d, _)) => d.krate().name.to_string(),
        TyKind::RigidTy(RigidTy::Closure(d, _)) => d.krate().name.to_string(),
        _ => String::new(),
    };
    BodyInfo { body, rpo, loops, loop_of, live_in, addr_taken, name, local_crate: krate == "dmidecode" }
}
fn uses_place(p: &Place, f: &mut dyn FnMut(usize)) {
    f(p.local);
    for e in &p.projection {
        if let ProjectionElem::Index(l) = e {
            f(*l);
        }
    }
}
fn def_place(p: &Place, g: &mut HashSet<usize>, k: &mut HashSet<usize>) {
    if p.projection.is_empty() {
        k.insert(p.local);
    } else {
        let mut u = |l: usize| {
            if !k.contains(&l) {
                g.insert(l);
            }
        };
        uses_place(p, &mut u);
    }
}
fn uses_op(o: &Operand, f: &mut dyn FnMut(usize)) {
    if let Operand::Copy(p) | Operand::Move(p) = o {
        uses_place(p, f);
    }
}
fn uses_rv(rv: &Rvalue, f: &mut dyn FnMut(usize)) {
    match rv {
        Rvalue::Use(o, _) | Rvalue::Repeat(o, _) | Rvalue::UnaryOp(_, o) | Rvalue::Cast(_, o, _) => uses_op(o, f),
        Rvalue::BinaryOp(_, a, b) | Rvalue::CheckedBinaryOp(_, a, b) => {
            uses_op(a, f);
            uses_op(b, f);
        }
        Rvalue::Aggregate(_, v) => v.iter().for_each(|o| uses_op(o, f)),
        Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) | Rvalue::CopyForDeref(p) | Rvalue::Discriminant(p) | Rvalue::Len(p) => uses_place(p, f),
        Rvalue::ThreadLocalRef(_) => {}
    }
}

/// Flat encoding of a value for use as a key; pointed-to objects are queued.
fn ser(v: &Value, key: &mut Vec<u64>, todo: &mut Vec<u32>) {
    let mut n_ = |n: N, key: &mut Vec<u64>| {
        key.push(n as u64);
        for (_, t) in m().leaves(n) {
            if let Tm::Ptr { kind: 0, id, .. } = m().tm(t) {
                if !todo.contains(id) {
                    todo.push(*id);
                }
            }
        }
    };
    match v {
        Value::Undef => key.push(1 << 41),
        Value::Scalar(n) => n_(*n, key),
        Value::Fat(a, b) => {
            key.push(1 << 42);
            n_(*a, key);
            n_(*b, key);
        }
        Value::Agg(x) => {
            key.push(1 << 43 | x.len() as u64);
            for y in x.iter() {
                ser(y, key, todo);
            }
        }
        Value::Enum { d, vs } => {
            key.push(1 << 44);
            n_(*d, key);
            for x in vs.iter() {
                match x {
                    None => key.push(1 << 45),
                    Some(f) => {
                        key.push(1 << 46 | f.len() as u64);
                        for y in f.iter() {
                            ser(y, key, todo);
                        }
                    }
                }
            }
        }
    }
}
