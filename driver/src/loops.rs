//! Loop summarisation: header φ-cells are discovered by re-running the body until the header state is
//! stable; linear cells get closed forms in the iteration counter; the remaining ones become a canonical
//! recurrence (`LoopDef`) whose exit values are `LoopOut` terms.
use crate::interp::*;
use crate::lin;
use crate::term::*;
use crate::value::*;
use rustc_public::ty::*;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::rc::Rc;

const VAR: u32 = 1 << 29;
const DISC: u32 = 1 << 28;
const FP: u32 = 1 << 27;
const FL: u32 = FP | 1;
const IDX: u32 = 1 << 26;
const LIM: u32 = IDX | 1;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ck {
    Bits(u8),
    Fin(u8),
}
#[derive(Clone, Debug)]
struct Cell {
    obj: usize,
    path: Vec<u32>,
    kind: Ck,
    phi: T,
    init: N,
    hv: N,
    ind: Option<i128>,
    /// induction attempt failed before
    general: bool,
    /// always equal to another cell
    alias: Option<usize>,
    next: N,
}
struct Ctx {
    h: u32,
    k: T,
    cells: Vec<Cell>,
    by: HashMap<(usize, Vec<u32>), usize>,
    /// typed facts about header values: (term, lo, hi)
    facts: Vec<(N, i128, i128)>,
    opaque: bool,
}

fn ptr_tmpl(n: N) -> Option<Vec<(u8, u32, Rc<[u32]>)>> {
    let mut v: Vec<(u8, u32, Rc<[u32]>)> = vec![];
    for (_, t) in m().leaves(n) {
        match m().tm(t) {
            Tm::Ptr { kind, id, path, idx, .. } => {
                if *idx == NONE {
                    return None;
                }
                let x = (*kind, *id, path.clone());
                if !v.contains(&x) {
                    v.push(x);
                }
            }
            _ => return None,
        }
    }
    Some(v)
}
fn ptr_idx(n: N) -> N {
    m().map_t(n, &mut |_, t| match m().tm(t) {
        Tm::Ptr { idx, .. } => *idx,
        _ => 0,
    })
}
fn ptr_lim(n: N) -> N {
    m().map_t(n, &mut |_, t| match m().tm(t).clone() {
        Tm::Ptr { kind: 1, id, lim, .. } => {
            if lim == NONE { m().regions[id as usize].len } else { lim }
        }
        Tm::Ptr { lim, .. } if lim != NONE => lim,
        _ => 0,
    })
}
fn mk_ptr(t: &(u8, u32, Rc<[u32]>), idx: N, lim: N) -> N {
    let base = m().mk(Tm::Ptr { kind: t.0, id: t.1, path: t.2.clone(), idx: 0, lim: NONE });
    let b = m().leaf(base);
    let p = m().ap2(Op2::PtrAdd, b, idx);
    if t.0 == 1 {
        let whole = m().regions[t.1 as usize].len;
        if m().is_leaf(lim) == Some(whole) {
            return p;
        }
        let l = m().ap2(Op2::MSub, lim, idx);
        m().ap2(Op2::PtrLim, p, l)
    } else {
        p
    }
}
fn scalar_kind(ty: Option<Ty>) -> Option<(Ck, bool)> {
    // (kind, is pointer)
    match ty {
        None => Some((Ck::Bits(64), false)),
        Some(t) => match &*tyi(t) {
            TyI::Int { w, .. } => Some((Ck::Bits(*w), false)),
            TyI::Char => Some((Ck::Bits(32), false)),
            TyI::Bool => Some((Ck::Fin(2), false)),
            TyI::Ptr { .. } => Some((Ck::Bits(64), true)),
            _ => None,
        },
    }
}

impl Ctx {
    fn cell(&mut self, obj: usize, path: &[u32], kind: Ck, init: Option<N>, fresh: &mut u32) -> N {
        if let Some(&i) = self.by.get(&(obj, path.to_vec())) {
            return self.cells[i].hv;
        }
        let i = self.cells.len();
        *fresh += 1;
        let w = match kind {
            Ck::Bits(w) => w,
            Ck::Fin(2) => 1,
            Ck::Fin(_) => 8,
        };
        let phi = m().mk(Tm::Phi { h: self.h, i: 1 + i as u32, w });
        let hv = match kind {
            Ck::Bits(1) | Ck::Fin(2) => m().cond_in(phi, &vec![(1, 1)]),
            Ck::Bits(_) => m().leaf(phi),
            Ck::Fin(n) => {
                let parts = (0..n).map(|k| (k as u128, m().cn(k as u128))).collect();
                m().mk_test(phi, parts)
            }
        };
        let init = init.unwrap_or(F);
        self.cells.push(Cell { obj, path: path.to_vec(), kind, phi, init, hv, ind: None, general: false, alias: None, next: F });
        self.by.insert((obj, path.to_vec()), i);
        hv
    }
    fn ptr(&mut self, obj: usize, path: &mut Vec<u32>, e: Option<N>, h: Option<N>, b: N, len: Option<(Option<N>, N, N)>, fresh: &mut u32) -> Option<(N, Option<N>)> {
        // returns new pointer and possibly a new length
        let tb = ptr_tmpl(b)?;
        let th = match h {
            Some(h) => ptr_tmpl(h)?,
            None => vec![],
        };
        let mut t: Vec<_> = vec![];
        for x in tb.iter().chain(th.iter()) {
            if x.0 != 2 && !t.contains(x) {
                t.push(x.clone());
            }
        }
        if t.is_empty() {
            t = tb.clone();
        }
        if t.len() != 1 {
            return None;
        }
        let t = t[0].clone();
        let bi = ptr_idx(b);
        let bl = ptr_lim(b);
        let (hi, hl) = match h {
            Some(h) => (ptr_idx(h), ptr_lim(h)),
            None => (NONE, NONE),
        };
        let ei = e.map(ptr_idx);
        let el = e.map(ptr_lim);
        let idx = if hi == bi {
            hi
        } else {
            path.push(IDX);
            let r = self.cell(obj, path, Ck::Bits(64), ei, fresh);
            path.pop();
            r
        };
        // relation between limit, index and length
        if let Some((eln, hln, bln)) = len {
            let rel = |i: N, l: N, lim: N| -> bool { t.0 == 1 && m().ap2(Op2::MAdd, i, l) == lim };
            let ok_b = rel(bi, bln, bl);
            let ok_e = match (ei, eln, el) {
                (Some(i), Some(l), Some(lim)) => rel(i, l, lim),
                (None, None, _) => true,
                _ => false,
            };
            if ok_b && ok_e && hl == bl && hl != NONE {
                let ln = m().ap2(Op2::MSub, hl, idx);
                self.facts.push((ln, 0, (1 << 63) - 1));
                return Some((mk_ptr(&t, idx, hl), Some(ln)));
            }
            if ok_b && ok_e {
                let ln = if hln == bln {
                    hln
                } else {
                    path.push(FL);
                    let r = self.cell(obj, path, Ck::Bits(64), eln, fresh);
                    path.pop();
                    r
                };
                let lim = m().ap2(Op2::MAdd, idx, ln);
                return Some((mk_ptr(&t, idx, lim), Some(ln)));
            }
        }
        let lim = if hl == bl {
            hl
        } else {
            path.push(LIM);
            let r = self.cell(obj, path, Ck::Bits(64), el, fresh);
            path.pop();
            r
        };
        Some((mk_ptr(&t, idx, lim), None))
    }
    /// New header value given entry value `e`, current header value `h` and back-edge value `b`.
    fn walk(&mut self, obj: usize, path: &mut Vec<u32>, ty: Option<Ty>, e: &Value, h: &Value, b: &Value, fresh: &mut u32) -> Value {
        if same(h, b) || matches!(b, Value::Undef) {
            return h.clone();
        }
        let esc = |e: &Value| match e {
            Value::Scalar(n) => Some(*n),
            _ => None,
        };
        match b {
            Value::Undef => h.clone(),
            Value::Scalar(bn) => {
                let hn = esc(h);
                if hn == Some(*bn) {
                    return h.clone();
                }
                let mut sk = scalar_kind(ty);
                let tl = m().leaves(*bn);
                let ptrish = tl.iter().all(|(_, t)| matches!(m().tm(*t), Tm::Ptr { .. }));
                if ptrish {
                    sk = Some((Ck::Bits(64), true));
                } else if tl.iter().any(|(_, t)| matches!(m().tm(*t), Tm::Text(_) | Tm::FnPtr(_) | Tm::Vt(_) | Tm::Ptr { .. })) {
                    sk = None;
                }
                match sk {
                    Some((_, true)) => {
                        let en = esc(e);
                        if let Some((p, _)) = self.ptr(obj, path, en, hn, *bn, None, fresh) {
                            return Value::Scalar(p);
                        }
                        if std::env::var("LOOPDBG").is_ok() { eprintln!("opaque ptr obj {obj} {path:?} b={} h={} e={}", crate::show::n(*bn), hn.map(crate::show::n).unwrap_or_default(), en.map(crate::show::n).unwrap_or_default()); }
                        self.opaque = true;
                        let o = m().opaque_n(64);
                        Value::Scalar(o)
                    }
                    Some((k, false)) => Value::Scalar(self.cell(obj, path, k, esc(e), fresh)),
                    None => {
                        if std::env::var("LOOPDBG").is_ok() { eprintln!("opaque scalar obj {obj} {path:?} b={}", crate::show::n(*bn)); }
                        self.opaque = true;
                        let o = m().opaque_n(64);
                        Value::Scalar(o)
                    }
                }
            }
            Value::Fat(bp, bl) => {
                let (hp, hl) = match h {
                    Value::Fat(p, l) => (Some(*p), Some(*l)),
                    _ => (None, None),
                };
                let (ep, el) = match e {
                    Value::Fat(p, l) => (Some(*p), Some(*l)),
                    _ => (None, None),
                };
                path.push(FP);
                let r = self.ptr(obj, path, ep, hp, *bp, Some((el, hl.unwrap_or(NONE), *bl)), fresh);
                path.pop();
                match r {
                    None => {
                        if std::env::var("LOOPDBG").is_ok() { eprintln!("opaque fat obj {obj} {path:?} b={} h={:?}", crate::show::n(*bp), hp.map(crate::show::n)); }
                        self.opaque = true;
                        Value::Fat(m().opaque_n(64), m().opaque_n(64))
                    }
                    Some((p, Some(l))) => Value::Fat(p, l),
                    Some((p, None)) => {
                        let l = if hl == Some(*bl) {
                            *bl
                        } else {
                            path.push(FL);
                            let r = self.cell(obj, path, Ck::Bits(64), el, fresh);
                            path.pop();
                            r
                        };
                        Value::Fat(p, l)
                    }
                }
            }
            Value::Agg(bs) => {
                let ftys: Option<Vec<Ty>> = ty.and_then(|t| match &*tyi(t) {
                    TyI::Agg(f) if f.len() == bs.len() => Some(f.iter().map(|x| x.1).collect()),
                    TyI::Array(e, n) if *n as usize == bs.len() => Some(vec![*e; bs.len()]),
                    _ => None,
                });
                if let Value::Agg(hs) = h {
                    if hs.len() != bs.len() {
                        if std::env::var("LOOPDBG").is_ok() { eprintln!("opaque agg obj {obj} {path:?} b={} h={}", crate::show::val(b), crate::show::val(h)); }
                        self.opaque = true;
                        return Value::Undef;
                    }
                }
                let mut out = vec![];
                for (i, x) in bs.iter().enumerate() {
                    path.push(i as u32);
                    let (hv, ev) = (h.field(i), e.field(i));
                    out.push(self.walk(obj, path, ftys.as_ref().map(|f| f[i]), &ev, &hv, x, fresh));
                    path.pop();
                }
                agg(out)
            }
            Value::Enum { d, vs } => {
                let vt: Option<Vec<Vec<(usize, Ty)>>> = ty.and_then(|t| match &*tyi(t) {
                    TyI::Enum { vars, .. } if vars.len() == vs.len() => Some(vars.clone()),
                    _ => None,
                });
                let (hd, hvs) = match h {
                    Value::Enum { d, vs } => (Some(*d), Some(vs.clone())),
                    _ => (None, None),
                };
                let (ed, evs) = match e {
                    Value::Enum { d, vs } => (Some(*d), Some(vs.clone())),
                    _ => (None, None),
                };
                let nd = if hd == Some(*d) {
                    *d
                } else {
                    path.push(DISC);
                    let r = self.cell(obj, path, Ck::Fin(vs.len().min(255) as u8), ed, fresh);
                    path.pop();
                    r
                };
                let get = |s: &Option<Rc<Vec<Option<Rc<Vec<Value>>>>>>, v: usize, f: usize| -> Value {
                    s.as_ref().and_then(|x| x.get(v).cloned().flatten()).and_then(|x| x.get(f).cloned()).unwrap_or(Value::Undef)
                };
                let mut nvs = vec![];
                for v in 0..vs.len() {
                    match &vs[v] {
                        None => nvs.push(hvs.as_ref().and_then(|x| x.get(v).cloned().flatten())),
                        Some(fs) => {
                            let mut o = vec![];
                            for (i, x) in fs.iter().enumerate() {
                                path.push(VAR | v as u32);
                                path.push(i as u32);
                                let fty = vt.as_ref().and_then(|t| t[v].get(i).map(|y| y.1));
                                let (hv, ev) = (get(&hvs, v, i), get(&evs, v, i));
                                o.push(self.walk(obj, path, fty, &ev, &hv, x, fresh));
                                path.pop();
                                path.pop();
                            }
                            nvs.push(Some(Rc::new(o)));
                        }
                    }
                }
                Value::Enum { d: nd, vs: Rc::new(nvs) }
            }
        }
    }
}

/// Back-edge value at a cell's path.
fn get_at(v: &Value, path: &[u32]) -> Option<N> {
    if path.is_empty() {
        return match v {
            Value::Scalar(n) => Some(*n),
            _ => None,
        };
    }
    let p = path[0];
    match v {
        Value::Enum { d, vs } => {
            if p == DISC {
                return Some(*d);
            }
            if p & VAR != 0 {
                let x = vs.get((p & !VAR) as usize)?.as_ref()?;
                return get_at(x.get(path[1] as usize)?, &path[2..]);
            }
            None
        }
        Value::Fat(a, l) => {
            if p == FL {
                return Some(*l);
            }
            if p == FP {
                if path.get(1) == Some(&FL) {
                    return Some(*l);
                }
                return get_at(&Value::Scalar(*a), &path[1..]);
            }
            None
        }
        Value::Scalar(n) => {
            ptr_tmpl(*n)?;
            if p == IDX {
                Some(ptr_idx(*n))
            } else if p == LIM {
                Some(ptr_lim(*n))
            } else {
                None
            }
        }
        Value::Agg(x) => get_at(x.get(p as usize)?, &path[1..]),
        Value::Undef => None,
    }
}
/// Rewrite header values through a substitution of cell φ terms by nodes.
pub fn subst_nodes(n: N, map: &HashMap<T, N>, memo: &mut HashMap<N, N>) -> N {
    // φ of induction cells are only ever replaced when they occur linearly or as region offsets
    m().subst_phi(n, map, memo)
}

/// Over-approximation of the values of `t` on the paths of `n` that reach TT.
fn hull(n: N, t: T, memo: &mut HashMap<N, Option<(i128, i128)>>) -> Option<(i128, i128)> {
    if n == F {
        return None;
    }
    if let Some(r) = memo.get(&n) {
        return *r;
    }
    let full = (-BIG, BIG);
    let r = match m().nd(n).clone() {
        Nd::Leaf(_) => Some(full),
        Nd::Test(v, ps) => {
            let mut acc: Option<(i128, i128)> = None;
            for (i, p) in ps.iter().enumerate() {
                let Some(sub) = hull(p.1, t, memo) else { continue };
                let r = if v == t {
                    let lo = if i == 0 { -BIG } else { m().dec(v, p.0) };
                    let hi = if i + 1 == ps.len() { BIG } else { m().dec(v, ps[i + 1].0) - 1 };
                    (lo.max(sub.0), hi.min(sub.1))
                } else {
                    sub
                };
                acc = Some(match acc {
                    None => r,
                    Some(a) => (a.0.min(r.0), a.1.max(r.1)),
                });
            }
            acc
        }
    };
    memo.insert(n, r);
    r
}
/// the finite bounds that the tests of `t` place on it where the condition can hold
fn tested(n: N, t: T, seen: &mut HashSet<N>) -> Option<(i128, i128)> {
    if n == F || !seen.insert(n) {
        return None;
    }
    let Nd::Test(v, ps) = m().nd(n).clone() else { return None };
    let mut acc: Option<(i128, i128)> = None;
    for (i, p) in ps.iter().enumerate() {
        if p.1 == F {
            continue;
        }
        let r = if v == t {
            let lo = if i == 0 { -BIG } else { m().dec(v, p.0) };
            let hi = if i + 1 == ps.len() { BIG } else { m().dec(v, ps[i + 1].0) - 1 };
            Some((lo, hi))
        } else {
            tested(p.1, t, seen)
        };
        acc = match (acc, r) {
            (None, x) | (x, None) => x,
            (Some(a), Some(b)) => Some((a.0.min(b.0), a.1.max(b.1))),
        };
    }
    acc
}
/// Going on depends on something that can take many values (a length): not a short loop.
fn wide_test(before: N, after: N) -> bool {
    let (mut a, mut b) = (BTreeSet::new(), BTreeSet::new());
    vars_of(before, &mut a, &mut HashSet::new());
    vars_of(after, &mut b, &mut HashSet::new());
    b.difference(&a).any(|t| {
        let (lo, hi) = m().range(*t);
        hi.saturating_sub(lo) > 600
    })
}
fn vars_of(n: N, out: &mut BTreeSet<T>, seen: &mut HashSet<N>) {
    if !seen.insert(n) {
        return;
    }
    if let Nd::Test(v, ps) = m().nd(n).clone() {
        out.insert(v);
        for p in ps.iter() {
            vars_of(p.1, out, seen);
        }
    }
}
fn phis_in(n: N, h: u32) -> BTreeSet<u32> {
    let mut out = HashSet::new();
    m().terms_in(n, &mut out, &mut HashSet::new());
    out.into_iter()
        .filter_map(|t| match m().tm(t) {
            Tm::Phi { h: x, i, .. } if *x == h => Some(*i),
            _ => None,
        })
        .collect()
}
fn height(ns: &[N]) -> u32 {
    let mut out = HashSet::new();
    let mut seen = HashSet::new();
    for n in ns {
        m().terms_in(*n, &mut out, &mut seen);
    }
    out.into_iter()
        .map(|t| match m().tm(t) {
            Tm::LoopOut { l, .. } | Tm::Exists { l, .. } => m().loops[*l as usize].h,
            _ => 0,
        })
        .max()
        .unwrap_or(0)
}

#[derive(Clone)]
pub struct Snap {
    findings: Vec<Finding>,
    discharged: std::collections::BTreeMap<String, u64>,
    proven: std::collections::BTreeMap<String, u64>,
    check_names: std::collections::BTreeMap<String, u64>,
    unmodelled: std::collections::BTreeMap<String, u32>,
    notes: Vec<String>,
}

impl Interp {
    pub fn snap(&self) -> Snap {
        Snap {
            findings: self.findings.clone(),
            discharged: self.discharged.clone(),
            proven: self.proven.clone(),
            check_names: self.check_names.clone(),
            unmodelled: self.unmodelled.clone(),
            notes: self.notes.clone(),
        }
    }
    pub fn unsnap(&mut self, s: Snap) {
        self.findings = s.findings;
        self.discharged = s.discharged;
        self.proven = s.proven;
        self.check_names = s.check_names;
        self.unmodelled = s.unmodelled;
        self.notes = s.notes;
    }
    pub fn run_loop(&mut self, fr: &Frame, lp: usize, st: State) -> Vec<(Tgt, State)> {
        if self.unroll_max > 0 {
            if let Some(r) = self.unroll(fr, lp, st.clone(), self.unroll_max) {
                return r;
            }
            self.note("loop not bounded");
        }
        let outermost = self.solid.is_none();
        if outermost {
            self.solid = Some(self.findings.clone());
        }
        let r = self.summarise(fr, lp, st);
        if outermost {
            self.solid = None;
        }
        r
    }
    fn summarise(&mut self, fr: &Frame, lp: usize, st: State) -> Vec<(Tgt, State)> {
        let header = fr.info.loops[lp].header;
        let mut acc: Vec<(Tgt, State)> = vec![];
        let mut cur = st.clone();
        let s = self.snap();
        for _ in 0..600 {
            let (n0, b0) = (m().nodes.len(), self.n_blocks);
            let (ex, back) = self.region(fr, Some(lp), header, cur.clone());
            if self.fuel == 0 {
                return acc;
            }
            let cheap = m().nodes.len() - n0 < 1500 && self.n_blocks - b0 < 400;
            match back {
                None => {
                    add_exits(&mut acc, ex);
                    return acc;
                }
                Some(b) if ex.is_empty() && b.pc == cur.pc => {
                    cur = b;
                }
                Some(b) => {
                    // a few cheap iterations may be all there are
                    if cheap && self.suppress == 0 && !wide_test(cur.pc, b.pc) {
                        let s1 = self.snap();
                        if let Some(r) = self.few(fr, lp, cur.clone()) {
                            add_exits(&mut acc, r);
                            return acc;
                        }
                        self.unsnap(s1);
                    }
                    self.unsnap(s);
                    return self.sym_loop(fr, lp, st);
                }
            }
        }
        self.note("concrete loop too long");
        let r = self.sym_loop(fr, lp, cur);
        add_exits(&mut acc, r);
        acc
    }
    fn few(&mut self, fr: &Frame, lp: usize, entry: State) -> Option<Vec<(Tgt, State)>> {
        let header = fr.info.loops[lp].header;
        let (n0, b0) = (m().nodes.len(), self.n_blocks);
        let mut acc = vec![];
        let mut cur = entry;
        for _ in 0..20 {
            let (ex, back) = self.region(fr, Some(lp), header, cur);
            add_exits(&mut acc, ex);
            match back {
                None => return Some(acc),
                Some(b) => {
                    if !self.possible(b.pc, TT) {
                        return Some(acc);
                    }
                    cur = b;
                }
            }
            if self.fuel == 0 || m().nodes.len() - n0 > 6000 || self.n_blocks - b0 > 4000 {
                return None;
            }
        }
        None
    }
    fn unroll(&mut self, fr: &Frame, lp: usize, entry: State, max: usize) -> Option<Vec<(Tgt, State)>> {
        let header = fr.info.loops[lp].header;
        let mut acc = vec![];
        let mut cur = entry;
        let snap = self.snap();
        for _ in 0..=max + 1 {
            let (ex, back) = self.region(fr, Some(lp), header, cur);
            add_exits(&mut acc, ex);
            match back {
                None => return Some(acc),
                Some(b) => {
                    if !self.possible(b.pc, TT) {
                        return Some(acc);
                    }
                    cur = b;
                }
            }
            if self.fuel == 0 {
                return Some(acc);
            }
        }
        self.unsnap(snap);
        None
    }
    fn sym_loop(&mut self, fr: &Frame, lp: usize, entry: State) -> Vec<(Tgt, State)> {
        let header = fr.info.loops[lp].header;
        self.n_loops += 1;
        self.fresh_h += 1;
        let h = self.fresh_h;
        let k = m().mk(Tm::Phi { h, i: 0, w: 64 });
        let kn = m().leaf(k);
        let mut cx = Ctx { h, k, cells: vec![], by: HashMap::new(), facts: vec![], opaque: false };
        let amb0 = self.amb;
        let nf0 = lin::phi_facts().len();
        self.amb = m().and(amb0, entry.pc);
        lin::phi_facts().push((k, 0, 1 << 62));
        self.suppress += 1;
        let mut hobjs = entry.objs.clone();
        let mut fresh = 0u32;
        let mut result: Option<(N, State)>;
        let mut rounds = 0;
        let mut no_alias: HashSet<(usize, usize)> = HashSet::new();
        let mut saved: Option<(Vec<Rc<Value>>, Vec<(N, Option<i128>)>)> = None;
        loop {
            rounds += 1;
            let s = State { pc: TT, objs: hobjs.clone() };
            let (_, back) = self.region(fr, Some(lp), header, s);
            result = back.map(|b| (b.pc, b));
            let Some((bpc, b)) = &mut result else { break };
            if self.fuel == 0 {
                break;
            }
            for o in 0..hobjs.len() {
                if !Rc::ptr_eq(&hobjs[o], &b.objs[o]) {
                    b.objs[o] = Rc::new(map_v(&b.objs[o], &mut |n| m().restrict(n, *bpc)));
                }
            }
            let before = cx.cells.len();
            cx.facts.clear();
            let mut changed = false;
            for o in 0..hobjs.len() {
                if Rc::ptr_eq(&hobjs[o], &b.objs[o]) {
                    continue;
                }
                if matches!(*hobjs[o], Value::Undef) {
                    continue;
                }
                let ty = self.obj_tys.get(o).copied();
                let nv = cx.walk(o, &mut vec![], ty, &entry.objs[o], &hobjs[o], &b.objs[o], &mut fresh);
                if !same(&nv, &hobjs[o]) {
                    hobjs[o] = Rc::new(nv);
                    changed = true;
                }
            }
            if self.loopdbg {
                eprintln!("LOOP {} round {rounds} opaque={} cont={}", fr.info.name, cx.opaque, crate::show::node(*bpc, 5));
                for c in &cx.cells {
                    eprintln!("   cell obj{} {:?} {:?} init={} hv={} next={}", c.obj, c.path, c.kind, crate::show::node(c.init, 2), crate::show::node(c.hv, 2), get_at(&b.objs[c.obj], &c.path).map(|n| crate::show::node(n, 3)).unwrap_or_default());
                }
            }
            if cx.cells.len() == before && !changed {
                // stable: look for induction cells
                let mut map: HashMap<T, N> = HashMap::new();
                for c in cx.cells.iter_mut() {
                    let nx = get_at(&b.objs[c.obj], &c.path);
                    c.next = nx.unwrap_or(c.hv);
                    if let (Some(nx), Ck::Bits(w), None, false) = (nx, c.kind, c.ind, c.general) {
                        if w >= 8 {
                            if let Some(t) = m().is_leaf(nx) {
                                let d = m().lin2(1, t, -1, c.phi);
                                let (kk, ts) = m().as_lin(d);
                                if ts.is_empty() && kk != 0 {
                                    let ck = m().mk_lin(0, vec![(kk, k)]);
                                    let ckn = m().leaf(ck);
                                    let v = m().ap2(Op2::MAdd, c.init, ckn);
                                    c.ind = Some(kk);
                                    map.insert(c.phi, v);
                                }
                            }
                        }
                    }
                }
                if !map.is_empty() {
                    let mut memo = HashMap::new();
                    for o in hobjs.iter_mut() {
                        if has_phi(o, h) {
                            *o = Rc::new(map_v(o, &mut |n| subst_nodes(n, &map, &mut memo)));
                        }
                    }
                    for c in cx.cells.iter_mut() {
                        c.hv = subst_nodes(c.hv, &map, &mut memo);
                        if let (Some(_), Ck::Bits(w)) = (c.ind, c.kind) {
                            add_fact(c.hv, 0, ((1u128 << w.min(126)) - 1) as i128);
                        }
                    }
                    continue;
                }
                // cells that start equal and stay equal
                let cont = result.as_ref().unwrap().0;
                let mut failed = false;
                for i in 0..cx.cells.len() {
                    if let Some(r) = cx.cells[i].alias {
                        let (x, y) = (cx.cells[i].next, cx.cells[r].next);
                        if x != y {
                            let eq = m().ap2(Op2::Eq, x, y);
                            let ne = m().not(eq);
                            if self.possible(cont, ne) {
                                no_alias.insert((r, i));
                                failed = true;
                            }
                        }
                    }
                }
                if failed {
                    let (ho, hv) = saved.take().unwrap();
                    hobjs = ho;
                    for (c, v) in cx.cells.iter_mut().zip(hv) {
                        c.hv = v.0;
                        c.ind = v.1;
                        c.alias = None;
                    }
                }
                if saved.is_none() && rounds < 20 {
                    let hv: Vec<(N, Option<i128>)> = cx.cells.iter().map(|c| (c.hv, c.ind)).collect();
                    let mut map: HashMap<T, N> = HashMap::new();
                    for i in 0..cx.cells.len() {
                        let ok = |c: &Cell| c.ind.is_none() && c.alias.is_none() && matches!(c.kind, Ck::Bits(w) if w >= 8) && m().is_leaf(c.hv) == Some(c.phi);
                        if !ok(&cx.cells[i]) || map.contains_key(&cx.cells[i].phi) {
                            continue;
                        }
                        let w = |c: &Cell| match c.kind {
                            Ck::Bits(w) => w,
                            _ => 0,
                        };
                        for j in 0..cx.cells.len() {
                            if j == i || !ok(&cx.cells[j]) || cx.cells[j].init != cx.cells[i].init || no_alias.contains(&(i, j)) || map.contains_key(&cx.cells[j].phi) {
                                continue;
                            }
                            if (w(&cx.cells[i]), i) < (w(&cx.cells[j]), j) {
                                map.insert(cx.cells[j].phi, m().leaf(cx.cells[i].phi));
                                cx.cells[j].alias = Some(i);
                            }
                        }
                    }
                    if !map.is_empty() {
                        saved = Some((hobjs.clone(), hv));
                        let mut memo = HashMap::new();
                        for o in hobjs.iter_mut() {
                            if has_phi(o, h) {
                                *o = Rc::new(map_v(o, &mut |n| subst_nodes(n, &map, &mut memo)));
                            }
                        }
                        for c in cx.cells.iter_mut() {
                            c.hv = subst_nodes(c.hv, &map, &mut memo);
                        }
                        continue;
                    }
                }
                if failed {
                    continue;
                }
                // induction cells must still advance by the same step
                let mut bad = false;
                for c in cx.cells.iter_mut() {
                    if let Some(s) = c.ind {
                        let st_ = m().mk_lin(s, vec![]);
                        let stn = m().leaf(st_);
                        let want = m().ap2(Op2::MAdd, c.hv, stn);
                        if c.next != want {
                            let cont = result.as_ref().unwrap().0;
                            let eq = m().ap2(Op2::Eq, c.next, want);
                            let ne = m().not(eq);
                            if self.possible(cont, ne) {
                                bad = true;
                            }
                        }
                    }
                }
                if bad {
                    self.note("induction variable not stable");
                    break;
                }
                break;
            }
            if rounds > 24 {
                self.note("loop header did not stabilise");
                break;
            }
        }
        for (f, lo, hi) in cx.facts.clone() {
            add_fact(f, lo, hi);
        }
        let mut care = TT;
        for (f, lo, hi) in cx.facts.clone() {
            if !phis_in(f, h).is_empty() {
                let x = outside(f, lo, hi);
                let x = m().not(x);
                care = m().and(care, x);
            }
        }
        let Some((cont, _)) = result else {
            self.suppress -= 1;
            self.amb = amb0;
            lin::phi_facts().truncate(nf0);
            let (ex, _) = self.region(fr, Some(lp), header, entry);
            return ex;
        };
        let cont = m().restrict(cont, care);
        self.amb = m().and(self.amb, care);
        // ---- invariants
        let mut inv: Vec<(T, i128, i128)> = vec![];
        // (a) bounds on linear terms over the counter that the continuation condition gives
        let mut vars = BTreeSet::new();
        vars_of(cont, &mut vars, &mut HashSet::new());
        let mut kbound: Option<i128> = None;
        let mut lin_bounded = false;
        for v in vars.iter().copied() {
            let (c0, ts) = m().as_lin(v);
            let _ = c0;
            let kc = ts.iter().find(|x| x.1 == k).map(|x| x.0).unwrap_or(0);
            if kc == 0 {
                continue;
            }
            let others_inv = ts.iter().all(|x| x.1 == k || { let n = m().leaf(x.1); phis_in(n, h).is_empty() });
            if !others_inv {
                continue;
            }
            let Some((mut lo, mut hi)) = hull(cont, v, &mut HashMap::new()) else { continue };
            if kc > 0 && hi >= BIG || kc < 0 && lo <= -BIG {
                // the condition may bound it without testing it on every path
                if let Some((l, h)) = tested(cont, v, &mut HashSet::new()) {
                    if kc < 0 && l > -BIG {
                        let c = m().cond_in(v, &vec![(-BIG, l - 1)]);
                        if !self.possible(cont, c) {
                            lo = l;
                        }
                    }
                    if kc > 0 && h < BIG {
                        let c = m().cond_in(v, &vec![(h + 1, BIG)]);
                        if !self.possible(cont, c) {
                            hi = h;
                        }
                    }
                }
            }
            // v(K-1) in [lo,hi] for K>=1  =>  v(K) in [lo+kc, hi+kc]
            if kc > 0 && hi < BIG {
                lin_bounded = true;
                let b = hi + kc;
                // must also hold at K = 0
                let v0 = m().subst_t(v, &HashMap::from([(k, 0)]), &mut HashMap::new(), &mut HashMap::new());
                let c = m().cond_in(v0, &vec![(b + 1, BIG)]);
                if !self.possible(TT, c) {
                    inv.push((v, -BIG, b));
                }
                if ts.len() == 1 {
                    kbound = Some(kbound.map_or(div_floor(hi, kc) + 1, |x: i128| x.min(div_floor(hi, kc) + 1)));
                }
            }
            if kc < 0 && lo > -BIG {
                lin_bounded = true;
                let b = lo + kc;
                let v0 = m().subst_t(v, &HashMap::from([(k, 0)]), &mut HashMap::new(), &mut HashMap::new());
                let c = m().cond_in(v0, &vec![(-BIG, b - 1)]);
                if !self.possible(TT, c) {
                    inv.push((v, b, BIG));
                }
                if ts.len() == 1 {
                    let q = div_floor(-lo, -kc) + 1;
                    kbound = Some(kbound.map_or(q, |x: i128| x.min(q)));
                }
            }
        }
        for f in &inv {
            lin::phi_facts().push(*f);
        }
        // constant bound on the counter through invariants
        if kbound.is_none() && lin_bounded {
            for b in [4i128, 16, 40] {
                let c = m().cond_in(k, &vec![(b + 1, BIG)]);
                if !self.possible(TT, c) {
                    kbound = Some(b);
                    break;
                }
            }
        }
        if let Some(b) = kbound {
            if b <= 70 {
                let amb1 = self.amb;
                self.suppress -= 1;
                self.amb = amb0;
                lin::phi_facts().truncate(nf0);
                if let Some(r) = self.unroll(fr, lp, entry.clone(), b.max(0) as usize) {
                    return r;
                }
                self.note("bounded loop did not unroll");
                self.suppress += 1;
                self.amb = amb1;
                lin::phi_facts().push((k, 0, 1 << 62));
                for f in &inv {
                    lin::phi_facts().push(*f);
                }
            }
        }
        // (b) Houdini over general cells: phi <= T, phi >= init
        let gen_: Vec<usize> = (0..cx.cells.len()).filter(|i| cx.cells[*i].ind.is_none() && cx.cells[*i].alias.is_none() && matches!(cx.cells[*i].kind, Ck::Bits(w) if w >= 8)).collect();
        let mut cands: Vec<(usize, T, i128, i128)> = vec![];
        let mut ubs: BTreeSet<T> = BTreeSet::new();
        {
            let mut terms = HashSet::new();
            m().terms_in(cont, &mut terms, &mut HashSet::new());
            for c in &cx.cells {
                m().terms_in(c.next, &mut terms, &mut HashSet::new());
                m().terms_in(c.init, &mut terms, &mut HashSet::new());
            }
            m().terms_in(entry.pc, &mut terms, &mut HashSet::new());
            for t in terms {
                if matches!(m().tm(t), Tm::Len(_)) {
                    ubs.insert(t);
                }
            }
            // loop-invariant terms compared with a general cell
            for v in &vars {
                let (_, ts) = m().as_lin(*v);
                for g in &gen_ {
                    let phi = cx.cells[*g].phi;
                    if let Some((c, _)) = ts.iter().find(|x| x.1 == phi) {
                        let rest: Vec<(i128, T)> = ts.iter().filter(|x| x.1 != phi).map(|x| (if *c > 0 { -x.0 } else { x.0 }, x.1)).collect();
                        let t = m().mk_lin(0, rest);
                        let tn = m().leaf(t);
                        if c.abs() == 1 && phis_in(tn, h).is_empty() && m().const_of_t(t).is_none() {
                            ubs.insert(t);
                        }
                    }
                }
            }
        }
        for g in &gen_ {
            let phi = cx.cells[*g].phi;
            for u in &ubs {
                let t = m().lin2(1, phi, -1, *u);
                cands.push((*g, t, -BIG, 0));
            }
            if let Some(i) = m().is_leaf(cx.cells[*g].init) {
                let t = m().lin2(1, phi, -1, i);
                cands.push((*g, t, 0, BIG));
                cands.push((*g, t, -BIG, 0));
            }
        }
        // initialisation
        cands.retain(|(g, t, lo, hi)| {
            let c = &cx.cells[*g];
            let v0 = subst_nodes(m().leaf(*t), &HashMap::from([(c.phi, c.init)]), &mut HashMap::new());
            let bad = outside(v0, *lo, *hi);
            !self.possible(TT, bad)
        });
        let nf1 = lin::phi_facts().len();
        loop {
            lin::phi_facts().truncate(nf1);
            for c in &cands {
                lin::phi_facts().push((c.1, c.2, c.3));
            }
            let n0 = cands.len();
            let mut keep = vec![];
            for (g, t, lo, hi) in cands.iter() {
                let c = &cx.cells[*g];
                let v1 = subst_nodes(m().leaf(*t), &HashMap::from([(c.phi, c.next)]), &mut HashMap::new());
                let bad = outside(v1, *lo, *hi);
                keep.push(!self.possible(cont, bad));
            }
            let mut i = 0;
            cands.retain(|_| {
                i += 1;
                keep[i - 1]
            });
            if cands.len() == n0 {
                break;
            }
        }
        lin::phi_facts().truncate(nf1);
        for c in &cands {
            lin::phi_facts().push((c.1, c.2, c.3));
            inv.push((c.1, c.2, c.3));
        }
        // ---- termination
        let mut terminates = lin_bounded;
        if !terminates {
            for g in &gen_ {
                let c = &cx.cells[*g];
                let d = m().ap2(Op2::MSub, c.next, c.hv);
                let not_up = outside(d, 1, BIG);
                let not_dn = outside(d, -BIG, -1);
                let bounded = cands.iter().any(|x| x.0 == *g && x.3 == 0 && m().is_leaf(c.init).map(|i| m().lin2(1, c.phi, -1, i) != x.1).unwrap_or(true));
                if bounded && !self.possible(cont, not_up) || !self.possible(cont, not_dn) {
                    terminates = true;
                    break;
                }
            }
        }
        if !terminates {
            // a quantity known to stay non-negative that decreases on every iteration
            let mut map: HashMap<T, N> = HashMap::new();
            let k1 = m().addk(k, 1);
            map.insert(k, m().leaf(k1));
            for c in &cx.cells {
                if c.ind.is_none() {
                    map.insert(c.phi, c.next);
                }
            }
            for (f, lo, _) in cx.facts.clone() {
                if lo < 0 || phis_in(f, h).is_empty() {
                    continue;
                }
                let f1 = subst_nodes(f, &map, &mut HashMap::new());
                let d = m().ap2(Op2::MSub, f1, f);
                let bad = outside(d, -BIG, -1);
                if !self.possible(cont, bad) {
                    terminates = true;
                    break;
                }
            }
        }
        if !terminates {
            // a tested quantity that is bounded while the loop continues and moves towards the bound
            let mut map: HashMap<T, N> = HashMap::new();
            let k1 = m().addk(k, 1);
            map.insert(k, m().leaf(k1));
            for c in &cx.cells {
                if c.ind.is_none() {
                    map.insert(c.phi, c.next);
                }
            }
            for v in vars.iter().copied() {
                let vn = m().leaf(v);
                if !matches!(m().tm(v), Tm::Lin { .. } | Tm::Phi { .. }) || phis_in(vn, h).is_empty() {
                    continue;
                }
                let Some((l, u)) = tested(cont, v, &mut HashSet::new()) else { continue };
                for up in [false, true] {
                    let b = if up { u } else { l };
                    if b.abs() >= BIG {
                        continue;
                    }
                    let off = if up { m().cond_in(v, &vec![(b + 1, BIG)]) } else { m().cond_in(v, &vec![(-BIG, b - 1)]) };
                    if self.possible(cont, off) {
                        continue;
                    }
                    let v1 = subst_nodes(vn, &map, &mut HashMap::new());
                    let d = m().ap2(Op2::MSub, v1, vn);
                    let bad = if up { outside(d, 1, BIG) } else { outside(d, -BIG, -1) };
                    if !self.possible(cont, bad) {
                        terminates = true;
                        break;
                    }
                }
                if terminates {
                    break;
                }
            }
        }
        let hpc = TT;
        // ---- final run
        self.suppress -= 1;
        let nfind = self.findings.len();
        self.loop_ctx.push(h);
        let (mut exits, back) = self.region(fr, Some(lp), header, State { pc: hpc, objs: hobjs.clone() });
        self.loop_ctx.pop();
        let cont = back.as_ref().map(|b| b.pc).unwrap_or(F);
        let cont = m().restrict(cont, care);
        if care != TT {
            for (_, s) in exits.iter_mut() {
                s.pc = m().restrict(s.pc, care);
                for o in s.objs.iter_mut() {
                    if has_phi(o, h) {
                        *o = Rc::new(map_v(o, &mut |n| m().restrict(n, care)));
                    }
                }
            }
        }
        if let Some(b) = &back {
            for c in cx.cells.iter_mut() {
                let nx = get_at(&b.objs[c.obj], &c.path).unwrap_or(c.hv);
                let nx = m().restrict(nx, b.pc);
                c.next = m().restrict(nx, care);
            }
        }
        let site = format!("{}#{}", fr.info.name, lp);
        let mut stuck = F;
        if !terminates {
            // a state in which nothing changes although the loop continues never ends
            let mut all_same = cont;
            for c in &cx.cells {
                if c.ind.is_some() {
                    let dep = phis_in(cont, h);
                    if dep.contains(&0) {
                        all_same = F;
                    }
                    continue;
                }
                let e = m().ap2(Op2::Eq, c.next, c.hv);
                all_same = m().and(all_same, e);
            }
            stuck = all_same;
            if self.suppress == 0 {
                self.loops_report.insert(site.clone(), if stuck != F && self.possible(TT, stuck) { "may be stuck".into() } else { "termination not derived".into() });
            }
        } else if self.suppress == 0 {
            self.loops_report.entry(site.clone()).or_insert_with(|| "terminates".into());
        }
        let amb1 = self.amb;
        self.amb = amb0;
        // ---- canonical definitions
        let defs = Defs::new(&cx, cont);
        let core = defs.core_id;
        let _ = (amb1, stuck);
        if !terminates && self.suppress == 0 {
            let o = m().mk(Tm::LoopOut { l: core, i: 0, w: 64 });
            let d = m().mk(Tm::Op(Op::Misc(DIVERGES), 1, vec![o]));
            let c = m().cond_in(d, &vec![(1, 1)]);
            self.oblige("term", "loop termination", entry.pc, c);
        }
        // closed form of the counter
        let kout = defs.kout;
        // facts at exit
        {
            let facts: Vec<(T, i128, i128)> = lin::phi_facts()[nf0..].to_vec();
            let mut fs = vec![];
            for (t, lo, hi) in facts {
                let n = m().leaf(t);
                let ps = phis_in(n, h);
                if ps.is_empty() || !ps.iter().all(|i| defs.core.contains(i)) {
                    continue;
                }
                let x = defs.out(n);
                if let Some(t) = m().is_leaf(x) {
                    fs.push((t, lo, hi));
                }
            }
            lin::loop_facts().entry(core).or_insert(fs);
        }
        lin::phi_facts().truncate(nf0);
        let _ = kout;
        // findings raised inside
        let inner: Vec<Finding> = self.findings.drain(nfind..).collect();
        for mut f in inner {
            f.cond = defs.exists(f.cond);
            f.cond = m().and(entry.pc, f.cond);
            if f.cond != F {
                self.findings.push(f);
            }
        }
        let total = exits.iter().fold(F, |a, e| m().or(a, e.1.pc));
        let covered = {
            let x = m().or(total, cont);
            x == TT
        };
        let single = exits.len() == 1 && covered;
        let mut out = vec![];
        for (t, mut s) in exits {
            if single {
                let f = defs.out(total);
                defs.post(f);
                s.pc = entry.pc;
            } else {
                let x = defs.out(s.pc);
                s.pc = m().and(entry.pc, x);
            }
            if s.pc == F {
                continue;
            }
            for o in s.objs.iter_mut() {
                if has_phi(o, h) {
                    *o = Rc::new(map_v(o, &mut |n| defs.out(n)));
                }
            }
            out.push((t, s));
        }
        let _ = kn;
        let _ = cx.k;
        out
    }
}
fn outside(v: N, lo: i128, hi: i128) -> N {
    m().map(v, &mut |m, t| {
        let c = m.cond_in(t, &vec![(lo, hi)]);
        m.not(c)
    })
}
fn add_fact(n: N, lo: i128, hi: i128) {
    if let Some(t) = m().is_leaf(n) {
        if matches!(m().tm(t), Tm::Lin { .. }) {
            lin::phi_facts().push((t, lo, hi));
        }
    }
}
fn has_phi(v: &Value, h: u32) -> bool {
    let mut r = false;
    for_v(v, &mut |n| {
        if !r && !phis_in(n, h).is_empty() {
            r = true;
        }
    });
    r
}
fn add_exits(acc: &mut Vec<(Tgt, State)>, ex: Vec<(Tgt, State)>) {
    for (t, s) in ex {
        match acc.iter().position(|x| x.0 == t) {
            Some(i) => {
                let (_, o) = acc.swap_remove(i);
                acc.push((t, merge_states(o, s)));
            }
            None => acc.push((t, s)),
        }
    }
}

/// Canonical recurrences of one loop.
struct Defs {
    h: u32,
    hh: u32,
    core: BTreeSet<u32>,
    core_id: u32,
    kout: Option<N>,
    cells: Vec<(u32, T, N, N, u8)>, // index, phi, init, next, width
    cont: N,
    memo: std::cell::RefCell<HashMap<N, N>>,
    ids: std::cell::RefCell<HashMap<BTreeSet<u32>, (u32, HashMap<u32, u32>)>>,
}
impl Defs {
    fn new(cx: &Ctx, cont: N) -> Defs {
        let h = cx.h;
        let mut cells = vec![];
        for (i, c) in cx.cells.iter().enumerate() {
            if c.ind.is_some() || c.alias.is_some() {
                continue;
            }
            let w = match c.kind {
                Ck::Bits(w) => w,
                Ck::Fin(2) => 1,
                Ck::Fin(_) => 8,
            };
            let nx = m().ite(cont, c.next, c.hv);
            cells.push((1 + i as u32, c.phi, c.init, nx, w));
        }
        let mut all: Vec<N> = vec![cont];
        for c in &cells {
            all.push(c.2);
            all.push(c.3);
        }
        let hh = 1 + height(&all);
        let mut d = Defs { h, hh, core: BTreeSet::new(), core_id: 0, kout: None, cells, cont, memo: Default::default(), ids: Default::default() };
        d.core = d.cone(phis_in(cont, h));
        d.core_id = d.def(&d.core.clone()).0;
        d.kout = d.closed(cx.k);
        d
    }
    fn cone(&self, mut s: BTreeSet<u32>) -> BTreeSet<u32> {
        s.insert(0);
        loop {
            let mut add = BTreeSet::new();
            for c in &self.cells {
                if s.contains(&c.0) {
                    for p in phis_in(c.3, self.h) {
                        if !s.contains(&p) {
                            add.insert(p);
                        }
                    }
                }
            }
            if add.is_empty() {
                return s;
            }
            s.extend(add);
        }
    }
    /// LoopDef for a set of cells; returns its id and the position of each cell.
    fn def(&self, set: &BTreeSet<u32>) -> (u32, HashMap<u32, u32>) {
        if let Some(x) = self.ids.borrow().get(set) {
            return x.clone();
        }
        let mut order: Vec<&(u32, T, N, N, u8)> = self.cells.iter().filter(|c| set.contains(&c.0)).collect();
        order.sort_by_key(|c| (c.4, c.2, c.0));
        let mut map: HashMap<T, T> = HashMap::new();
        let mut pos: HashMap<u32, u32> = HashMap::new();
        let k = m().mk(Tm::Phi { h: self.h, i: 0, w: 64 });
        let k2 = m().mk(Tm::Phi { h: self.hh, i: 0, w: 64 });
        map.insert(k, k2);
        pos.insert(0, 0);
        for (j, c) in order.iter().enumerate() {
            let p = m().mk(Tm::Phi { h: self.hh, i: 1 + j as u32, w: c.4 });
            map.insert(c.1, p);
            pos.insert(c.0, 1 + j as u32);
        }
        let k2n = m().leaf(k2);
        let k3 = m().addk(k2, 1);
        let k3n = m().leaf(k3);
        let _ = k2n;
        let mut cells = vec![(F, k3n, 64u8)];
        for c in order {
            let nx = m().subst(c.3, &map);
            cells.push((c.2, nx, c.4));
        }
        let cont = m().subst(self.cont, &map);
        let id = m().mk_loop(LoopDef { h: self.hh, cells, cont, entry: TT });
        self.ids.borrow_mut().insert(set.clone(), (id, pos.clone()));
        (id, pos)
    }
    /// K at exit, when the continuation condition is a single upper bound on K.
    fn closed(&self, k: T) -> Option<N> {
        let Nd::Test(v, ps) = m().nd(self.cont).clone() else { return None };
        if ps.len() != 2 {
            return None;
        }
        let (c0, ts) = m().as_lin(v);
        let kc = ts.iter().find(|x| x.1 == k)?.0;
        if kc.abs() != 1 || ts.iter().any(|x| x.1 != k && { let n = m().leaf(x.1); !phis_in(n, self.h).is_empty() }) {
            return None;
        }
        let lim = m().dec(v, ps[1].0);
        // v = c0 + kc*K + rest
        let rest: Vec<(i128, T)> = ts.iter().filter(|x| x.1 != k).copied().collect();
        let t = if kc == 1 && ps[0].1 == TT && ps[1].1 == F {
            // c0 + K + rest < lim  =>  K < lim - c0 - rest
            m().mk_lin(lim - c0, rest.iter().map(|x| (-x.0, x.1)).collect())
        } else if kc == -1 && ps[0].1 == F && ps[1].1 == TT {
            // c0 - K + rest >= lim => K <= c0 + rest - lim
            m().mk_lin(c0 - lim + 1, rest)
        } else {
            return None;
        };
        let neg = m().cond_in(t, &vec![(-BIG, -1)]);
        let tn = m().leaf(t);
        Some(m().ite(neg, F, tn))
    }
    /// Value of a node at loop exit.
    fn out(&self, n: N) -> N {
        let ps = phis_in(n, self.h);
        if ps.is_empty() {
            return n;
        }
        if let Some(r) = self.memo.borrow().get(&n) {
            return *r;
        }
        let mut map: HashMap<T, N> = HashMap::new();
        for p in ps {
            if p == 0 {
                let k = m().mk(Tm::Phi { h: self.h, i: 0, w: 64 });
                let v = match self.kout {
                    Some(x) => x,
                    None => {
                        let t = m().mk(Tm::LoopOut { l: self.core_id, i: 0, w: 64 });
                        m().leaf(t)
                    }
                };
                map.insert(k, v);
                continue;
            }
            let c = self.cells.iter().find(|c| c.0 == p).unwrap();
            let (id, pos) = if self.core.contains(&p) {
                self.def(&self.core)
            } else {
                let mut s = self.cone(BTreeSet::from([p]));
                s.extend(self.core.iter().copied());
                self.def(&s)
            };
            let t = m().mk(Tm::LoopOut { l: id, i: pos[&p], w: c.4 });
            let v = m().leaf(t);
            map.insert(c.1, v);
        }
        let r = m().subst_phi(n, &map, &mut HashMap::new());
        self.memo.borrow_mut().insert(n, r);
        r
    }
    fn exists(&self, n: N) -> N {
        let ps = phis_in(n, self.h);
        if ps.is_empty() && m().const_of(n).is_some() {
            return n;
        }
        if ps.is_empty() {
            return n;
        }
        let mut s = self.cone(ps);
        s.extend(self.core.iter().copied());
        let (id, pos) = self.def(&s);
        let mut map: HashMap<T, T> = HashMap::new();
        let k = m().mk(Tm::Phi { h: self.h, i: 0, w: 64 });
        let k2 = m().mk(Tm::Phi { h: self.hh, i: 0, w: 64 });
        map.insert(k, k2);
        for c in &self.cells {
            if let Some(p) = pos.get(&c.0) {
                let q = m().mk(Tm::Phi { h: self.hh, i: *p, w: c.4 });
                map.insert(c.1, q);
            }
        }
        let cond = m().subst(n, &map);
        let t = m().mk(Tm::Exists { l: id, cond });
        m().cond_in(t, &vec![(1, 1)])
    }
    fn post(&self, f: N) {
        m().posts.insert(self.core_id, f);
    }
}
