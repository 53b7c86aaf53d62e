//! Models of compiler intrinsics, of the parts of `core` whose MIR is not available (or needlessly
//! intricate), and of the specification markers used by the harness.
use crate::eqv::str_eq;
use crate::interp::*;
use crate::term::*;
use crate::text;
use crate::value::*;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use rustc_public::ty::*;
use std::collections::HashMap;
use std::rc::Rc;

type R = Option<Option<(State, Value)>>;

fn last(n: &str) -> &str {
    n.rsplit("::").next().unwrap_or(n)
}
pub fn gty(ga: &GenericArgs, i: usize) -> Option<Ty> {
    ga.0.iter().filter_map(|x| x.ty()).nth(i).copied()
}
fn pointee(t: Ty) -> Option<Ty> {
    match &*tyi(t) {
        TyI::Ptr { to, .. } => Some(*to),
        _ => None,
    }
}
/// constant string behind a fat pointer
pub fn const_str(v: &Value) -> Option<String> {
    let Value::Fat(p, l) = v else { return None };
    let n = m().const_of(*l)? as usize;
    let t = m().is_leaf(*p)?;
    if let Tm::Ptr { kind: 1, id, idx, .. } = m().tm(t).clone() {
        let o = m().const_of_t(idx)? as usize;
        let b = m().regions[id as usize].bytes.clone()?;
        return String::from_utf8(b.get(o..o + n)?.to_vec()).ok();
    }
    if n == 0 { Some(String::new()) } else { None }
}
fn strip_lim(t: T) -> T {
    match m().tm(t).clone() {
        Tm::Ptr { kind, id, path, idx, .. } => m().mk(Tm::Ptr { kind, id, path, idx, lim: NONE }),
        _ => t,
    }
}
/// apply a function of (pointer term, length term) over two nodes
fn map_pl(p: N, l: N, f: &mut dyn FnMut(T, T) -> N) -> N {
    m().map(p, &mut |m_, tp| m_.map(l, &mut |_, tl| f(tp, tl)))
}
pub fn utf8_ok(p: N, l: N) -> N {
    map_pl(p, l, &mut |tp, tl| {
        if tl == 0 {
            return TT;
        }
        if let (Tm::Ptr { kind: 1, id, idx, .. }, Some(n)) = (m().tm(tp).clone(), m().const_of_t(tl)) {
            if let (Some(b), Some(o)) = (m().regions[id as usize].bytes.clone(), m().const_of_t(idx)) {
                let s = b.get(o as usize..o as usize + n as usize);
                return if s.map(|s| std::str::from_utf8(s).is_ok()).unwrap_or(false) { TT } else { F };
            }
            if let (Some(o), true) = (m().const_of_t(idx), n <= 4096) {
                let k = &m().regions[id as usize].known;
                if let Some(s) = (o..o + n).map(|i| k.get(&(i as usize)).copied()).collect::<Option<Vec<u8>>>() {
                    return if std::str::from_utf8(&s).is_ok() { TT } else { F };
                }
            }
        }
        let t = m().mk(Tm::Op(Op::Utf8Ok, 1, vec![strip_lim(tp), tl]));
        m().cond_in(t, &vec![(1, 1)])
    })
}
/// A value of type `t` that is a fixed (uninterpreted) function of a byte string.
fn func_of(t: Ty, code: &mut u32, p: N, l: N) -> Value {
    let mut term = |w: u8| {
        *code += 1;
        let c = *code;
        map_pl(p, l, &mut |tp, tl| {
            let t = m().mk(Tm::Op(Op::Misc(c), w, vec![strip_lim(tp), tl]));
            if w == 1 { m().cond_in(t, &vec![(1, 1)]) } else { m().leaf(t) }
        })
    };
    match &*tyi(t) {
        TyI::Int { w, .. } => Value::Scalar(term(*w)),
        TyI::Bool => Value::Scalar(term(1)),
        TyI::Agg(fs) => agg(fs.iter().map(|f| func_of(f.1, code, p, l)).collect()),
        TyI::Enum { vars, .. } if vars.len() == 2 => {
            let d = term(1);
            Value::Enum { d, vs: Rc::new(vars.iter().map(|fs| Some(Rc::new(fs.iter().map(|f| func_of(f.1, code, p, l)).collect::<Vec<_>>()))).collect()) }
        }
        _ => opaque(t),
    }
}

impl Interp {
    pub fn model(&mut self, name: &str) -> Option<FnDef> {
        self.models.get(name).copied()
    }
    pub fn call_model(&mut self, st: State, name: &str, ga: &GenericArgs, args: Vec<Value>, atys: &[Ty], dty: Ty) -> R {
        let d = self.model(name)?;
        match Instance::resolve(d, ga) {
            Ok(i) => {
                let _ = atys;
                Some(self.call_instance(st, i, args, dty))
            }
            Err(_) => None,
        }
    }
    fn panic(&mut self, st: &State, what: &str) -> Option<(State, Value)> {
        self.oblige("panic", what, st.pc, TT);
        None
    }

    // ------------------------------------------------------------ before resolution
    pub fn intercept(&mut self, st: &State, name: &str, ga: &GenericArgs, args: &[Value], atys: &[Ty], dty: Ty) -> R {
        let l = last(name);
        // specification markers
        if let Some(i) = name.find("mk::") {
            if i == 0 || name[..i].ends_with("verif_harness::") {
                return self.marker(st, &name[i + 4..], ga, args, atys, dty);
            }
        }
        // closures
        if matches!(l, "call" | "call_mut" | "call_once") && (name.contains("ops::Fn") || name.contains("ops::function::Fn")) {
            let fty = gty(ga, 0)?;
            let tup = args.get(1)?.clone();
            let av: Vec<Value> = match &tup {
                Value::Agg(v) => v.to_vec(),
                _ => return None,
            };
            let aty: Vec<Ty> = match &*tyi(atys[1]) {
                TyI::Agg(f) => f.iter().map(|x| x.1).collect(),
                _ => vec![],
            };
            if let TyKind::RigidTy(RigidTy::Dynamic(..)) = fty.kind() {
                return None;
            }
            // a type with call operators of its own
            let mut base = fty;
            while let TyKind::RigidTy(RigidTy::Ref(_, t, _)) = base.kind() {
                base = t;
            }
            if let TyKind::RigidTy(RigidTy::Adt(..) | RigidTy::Dynamic(..)) = base.kind() {
                return None;
            }
            // the callee is passed by reference for call / call_mut
            if l == "call_once" {
                return Some(self.call_value(st.clone(), args[0].clone(), fty, av, &aty, dty));
            }
            return Some(self.call_value(st.clone(), args[0].clone(), atys[0], av, &aty, dty));
        }
        // element-wise construction of arrays
        if l == "map" && name.contains("array::<impl") || l == "from_fn" && name.contains("array::from_fn") {
            let (TyKind::RigidTy(RigidTy::Array(ot, n)), at) = (dty.kind(), atys.last()?) else { return None };
            let n = n.eval_target_usize().ok()?;
            let it = if l == "map" { elem_ty(atys[0]).0 } else { Ty::usize_ty() };
            if n > 64 {
                return None;
            }
            let mut s = st.clone();
            let f = self.alloc(&mut s, *at, args.last()?.clone());
            let mut out = vec![];
            for i in 0..n as usize {
                let x = if l == "map" { args[0].field(i) } else { Value::Scalar(m().cn(i as u128)) };
                let r = Ty::new_ref(rustc_public::ty::Region { kind: RegionKind::ReErased }, *at, Mutability::Mut);
                match self.call_value(s, Value::Scalar(obj_ptr(f, &[], NONE)), r, vec![x], &[it], ot) {
                    Some((s2, v)) => {
                        s = s2;
                        out.push(v);
                    }
                    None => return Some(None),
                }
            }
            return Some(Some((s, agg(out))));
        }
        if l == "abs_diff" && name.contains("num::<impl u") {
            let (x, y) = (args[0].sc(), args[1].sc());
            let lt = m().ap2(Op2::Ult, x, y);
            let (a, b) = (m().ap2(Op2::MSub, y, x), m().ap2(Op2::MSub, x, y));
            return Some(Some((st.clone(), Value::Scalar(m().ite(lt, a, b)))));
        }
        // iterator consumers
        if name.starts_with("std::iter::Iterator::") || name.starts_with("core::iter::Iterator::") || name.contains("::Iterator::") && !name.starts_with('<') {
            if let Some(r) = self.iter_model(st, l, ga, args, atys, dty) {
                return Some(r);
            }
        }
        if l == "extend" || l == "from_iter" || l == "collect" {
            return None;
        }
        None
    }
    fn iter_model(&mut self, st: &State, l: &str, ga: &GenericArgs, args: &[Value], atys: &[Ty], dty: Ty) -> R {
        if !matches!(l, "nth" | "count" | "last" | "fold" | "for_each" | "any" | "all" | "find" | "find_map" | "position" | "max" | "min" | "sum" | "reduce" | "eq" | "ne" | "max_by_key" | "min_by_key" | "try_for_each") {
            return None;
        }
        self.model(l)?;
        if l == "nth" {
            // slices have their own
            let own = gty(ga, 0).and_then(adt_name).map(|n| n.ends_with("slice::Iter") || n.ends_with("slice::iter::Iter")).unwrap_or(false);
            if own {
                return None;
            }
        }
        // a type of the crate under analysis may override the method: analyse that instead
        if let Some(d) = self.cur_def {
            if let Ok(i) = Instance::resolve(d, ga) {
                if let TyKind::RigidTy(RigidTy::FnDef(rd, _)) = i.ty().kind() {
                    if self.def_name(rd).1 == "dmidecode" {
                        return None;
                    }
                }
            }
        }
        self.call_model(st.clone(), l, ga, args.to_vec(), atys, dty)
    }
    // ------------------------------------------------------------ markers
    fn marker(&mut self, st: &State, name: &str, ga: &GenericArgs, args: &[Value], atys: &[Ty], dty: Ty) -> R {
        let base = name.split("::<").next().unwrap_or(name);
        let nm = |v: &Value| const_str(v).unwrap_or_else(|| "?".into());
        match base {
            "assume" => {
                let mut s = st.clone();
                let c = args[0].sc();
                let care = m().and(st.pc, self.amb);
                let c = m().restrict(c, care);
                if c == F || !self.possible(st.pc, c) {
                    return Some(None);
                }
                if st.pc == TT && self.loop_ctx.is_empty() && self.suppress == 0 {
                    self.amb = m().and(self.amb, c);
                } else {
                    s.pc = m().and(st.pc, c);
                    if s.pc == F {
                        return Some(None);
                    }
                }
                Some(Some((s, unit())))
            }
            "check" => {
                let n = nm(&args[0]);
                let c = args[1].sc();
                self.do_check(st, &n, c);
                Some(Some((st.clone(), unit())))
            }
            "check_eq" => {
                let n = nm(&args[0]);
                let t = gty(ga, 0)?;
                let (a, b) = if is_sized(t) {
                    (self.read_ptr(st, args[1].sc(), t), self.read_ptr(st, args[2].sc(), t))
                } else {
                    (args[1].clone(), args[2].clone())
                };
                let (a, b) = (map_v(&a, &mut |n| m().restrict(n, st.pc)), map_v(&b, &mut |n| m().restrict(n, st.pc)));
                let c = if is_sized(t) {
                    self.deep_eq(st, t, &a, &b)
                } else {
                    self.deep_eq(st, atys[1], &a, &b)
                };
                if self.trace_checks {
                    eprintln!("CHECK {n}\n  a={}\n  b={}\n  c={}", crate::show::val(&a), crate::show::val(&b), crate::show::node(c, 3));
                }
                self.do_check(st, &n, c);
                Some(Some((st.clone(), unit())))
            }
            "same" => {
                let t = gty(ga, 0)?;
                let (a, b) = (self.read_ptr(st, args[0].sc(), t), self.read_ptr(st, args[1].sc(), t));
                let c = self.deep_eq(st, t, &a, &b);
                Some(Some((st.clone(), Value::Scalar(c))))
            }
            "reach" => {
                let n = nm(&args[0]);
                if self.suppress == 0 {
                    let p = self.possible(st.pc, TT);
                    let e = self.reached.entry(n).or_insert(false);
                    *e |= p;
                }
                Some(Some((st.clone(), unit())))
            }
            "text" | "debug" => {
                let t = gty(ga, 0)?;
                let mut s = st.clone();
                let fty = self.fmt_ty()?;
                let id = self.alloc(&mut s, fty, new_fmt(Spec::default()));
                let fp = Value::Scalar(obj_ptr(id, &[], NONE));
                let g = GenericArgs(vec![GenericArgKind::Type(t)]);
                let md = if base == "text" { "fmt_display" } else { "fmt_debug" };
                let rty = self.fn_ret(md, &g)?;
                let r = self.call_model(s, md, &g, vec![args[0].clone(), fp.clone()], &[], rty)?;
                let Some((s2, res)) = r else { return Some(None) };
                let mut tx = self.obj(&s2, id).field(0).sc();
                if let Value::Enum { d, .. } = res {
                    let bad = m().leaf(text::lit("<fmt error>"));
                    let e = m().to_bool(d);
                    tx = m().ite(e, bad, tx);
                }
                let mut s2 = s2;
                s2.objs.truncate(id as usize);
                self.obj_tys.truncate(id as usize);
                Some(Some((s2, agg(vec![Value::Scalar(tx)]))))
            }
            "textf" => {
                let mut s = st.clone();
                let fty = self.fmt_ty()?;
                let id = self.alloc(&mut s, fty, new_fmt(Spec::default()));
                let fp = obj_ptr(id, &[], NONE);
                let r = self.write_arguments(s, fp, &args[0]);
                let Some(mut s2) = r else { return Some(None) };
                let tx = self.obj(&s2, id).field(0).sc();
                s2.objs.truncate(id as usize);
                self.obj_tys.truncate(id as usize);
                Some(Some((s2, agg(vec![Value::Scalar(tx)]))))
            }
            "text_eq" => {
                let (a, b) = (args[0].sc(), args[1].sc());
                let c = m().ap2(Op2::Eq, a, b);
                if self.trace_checks {
                    eprintln!("TEXT\n  a={}\n  b={}\n  c={}", crate::show::node(a, 6), crate::show::node(b, 6), crate::show::node(c, 3));
                }
                Some(Some((st.clone(), Value::Scalar(c))))
            }
            "within" => {
                // (inner, outer): is the memory of `inner` inside the memory of `outer`?
                let ((p, l), (q, k)) = (args[0].fat(), args[1].fat());
                let mut acc = F;
                for (c1, tp) in m().leaves(p) {
                    for (c2, tq) in m().leaves(q) {
                        if let (Tm::Ptr { kind: 1, id, idx, .. }, Tm::Ptr { kind: 1, id: i2, idx: x2, .. }) = (m().tm(tp).clone(), m().tm(tq).clone()) {
                            if id != i2 {
                                continue;
                            }
                            let c = m().and(c1, c2);
                            let (ni, nx) = (m().leaf(idx), m().leaf(x2));
                            let (e1, e2) = (m().ap2(Op2::MAdd, ni, l), m().ap2(Op2::MAdd, nx, k));
                            let a = m().ap2(Op2::MSub, ni, nx);
                            let b = m().ap2(Op2::MSub, e2, e1);
                            let ok1 = m().map(a, &mut |m, t| m.cond_in(t, &vec![(0, BIG)]));
                            let ok2 = m().map(b, &mut |m, t| m.cond_in(t, &vec![(0, BIG)]));
                            let ok = m().and(ok1, ok2);
                            let ok = m().and(ok, c);
                            acc = m().or(acc, ok);
                        }
                    }
                }
                Some(Some((st.clone(), Value::Scalar(acc))))
            }
            "offset" => {
                // offset of the start of `inner` from the start of `outer`
                let ((p, _), (q, _)) = (args[0].fat(), args[1].fat());
                let d = m().ap2(Op2::PtrDiff, p, q);
                Some(Some((st.clone(), Value::Scalar(d))))
            }
            "is_utf8" => {
                let (p, l) = args[0].fat();
                Some(Some((st.clone(), Value::Scalar(utf8_ok(p, l)))))
            }
            "str" => {
                // bytes known to be valid UTF-8, as a str
                Some(Some((st.clone(), args[0].clone())))
            }
            "buffer" => {
                // (length, number of given bytes, those bytes)
                let c = |i: usize| m().const_of(args[i].sc()).unwrap_or(0);
                let (n, k, v) = (c(0), c(1) as usize, c(2));
                let (p, _) = crate::value::new_region("buf");
                let l = m().c(n);
                let r = m().regions.last_mut().unwrap();
                r.len = l;
                r.known = (0..k).map(|i| (i, (v >> (8 * i)) as u8)).collect();
                Some(Some((st.clone(), Value::Fat(p, m().leaf(l)))))
            }
            "fix" => {
                // a byte of a buffer has a given value, from the start
                let (p, _) = args[0].fat();
                let c = |i: usize| m().const_of(args[i].sc()).unwrap_or(0);
                if let Some(crate::term::Tm::Ptr { kind: 1, id, .. }) = m().is_leaf(p).map(|t| m().tm(t).clone()) {
                    m().regions[id as usize].known.insert(c(1) as usize, c(2) as u8);
                }
                Some(Some((st.clone(), unit())))
            }
            "unroll" => {
                self.unroll_max = m().const_of(args[0].sc()).unwrap_or(0) as usize;
                Some(Some((st.clone(), unit())))
            }
            "cut_strings" => {
                self.cut_strings = true;
                Some(Some((st.clone(), unit())))
            }
            "nth_string" => {
                // the idx-th string of the structure under analysis, left uninterpreted
                let r = match self.str_region {
                    Some(r) => r,
                    None => {
                        let len = m().mk(Tm::Atom { name: Rc::from("strings.len"), w: 31 });
                        m().regions.push(crate::term::Region { name: "strings".into(), bytes: None, known: Default::default(), len });
                        let r = m().regions.len() as u32 - 1;
                        self.str_region = Some(r);
                        r
                    }
                };
                let k = args[0].sc();
                let d = m().map(k, &mut |m, t| {
                    let o = m.mk(Tm::Op(Op::Misc(900), 1, vec![t]));
                    m.cond_in(o, &vec![(1, 1)])
                });
                let p = m().map(k, &mut |m, t| {
                    let o = m.mk(Tm::Op(Op::Misc(901), 31, vec![t]));
                    let n = m.mk(Tm::Op(Op::Misc(902), 31, vec![t]));
                    let lim = m.lin2(1, o, 1, n);
                    let q = m.mk(Tm::Ptr { kind: 1, id: r, path: Rc::from(vec![]), idx: o, lim });
                    m.leaf(q)
                });
                let l = m().map(k, &mut |m, t| {
                    let o = m.mk(Tm::Op(Op::Misc(902), 31, vec![t]));
                    m.leaf(o)
                });
                Some(Some((st.clone(), Value::Enum { d, vs: Rc::new(vec![Some(Rc::new(vec![])), Some(Rc::new(vec![Value::Fat(p, l)]))]) })))
            }
            "trace" => {
                eprintln!("TRACE {} pc={}", nm(&args[0]), crate::show::node(st.pc, 8));
                for (a, t) in args.iter().zip(atys).skip(1) {
                    let v = match pointee(*t) {
                        Some(x) if is_sized(x) => self.read_ptr(st, a.sc(), x),
                        _ => a.clone(),
                    };
                    eprintln!("   {}", crate::show::val(&v));
                }
                Some(Some((st.clone(), unit())))
            }
            "havoc" => Some(Some((st.clone(), opaque(dty)))),
            _ => None,
        }
    }
    pub fn do_check(&mut self, st: &State, name: &str, c: N) {
        if self.suppress > 0 {
            return;
        }
        self.n_checks += 1;
        *self.check_names.entry(name.to_string()).or_default() += 1;
        let nc = m().not(c);
        let nc = m().restrict(nc, st.pc);
        if nc == F || !self.possible(st.pc, nc) {
            *self.proven.entry(name.to_string()).or_default() += 1;
            return;
        }
        self.oblige("check", name, st.pc, nc);
    }
    pub fn fmt_ty(&mut self) -> Option<Ty> {
        let d = self.model("fmt_unit")?;
        let i = Instance::resolve(d, &GenericArgs(vec![])).ok()?;
        let b = self.body_of(i)?;
        pointee(b.body.arg_locals()[0].ty)
    }
    fn fn_ret(&mut self, n: &str, ga: &GenericArgs) -> Option<Ty> {
        let d = self.model(n)?;
        let i = Instance::resolve(d, ga).ok()?;
        let b = self.body_of(i)?;
        Some(b.body.locals()[0].ty)
    }

    // ------------------------------------------------------------ formatting
    fn fmt_push(&mut self, st: &mut State, f: N, piece: N) {
        // append a text node to the formatter object(s) behind f
        let fty = self.fmt_ty().unwrap();
        let v = self.read_ptr(st, f, fty);
        let tx = v.field(0);
        let cur = match tx {
            Value::Scalar(n) => n,
            _ => m().opaque_n(64),
        };
        let nt = m().ap2(Op2::TextCat, cur, piece);
        let mut fs: Vec<Value> = match &v {
            Value::Agg(x) => x.to_vec(),
            _ => return,
        };
        fs[0] = Value::Scalar(nt);
        self.write_ptr(st, f, &agg(fs));
    }
    fn fmt_spec(&mut self, st: &State, f: N) -> Option<Spec> {
        let fty = self.fmt_ty()?;
        let v = self.read_ptr(st, f, fty);
        let g = |i: usize| -> Option<u128> {
            match v.field(i) {
                Value::Scalar(n) => m().const_of(n),
                _ => None,
            }
        };
        Some(text::spec_of(g(1)? as u32, g(2)? as u16, g(3)? as u16))
    }
    /// Interpret format_args! template bytes.
    pub fn write_arguments(&mut self, mut st: State, f: N, args: &Value) -> Option<State> {
        // args: shadow Agg([template fat, args pointer, from_str flag])
        let Value::Agg(a) = args else {
            let o = m().opaque_t(64);
            let n = m().leaf(o);
            self.fmt_push(&mut st, f, n);
            return Some(st);
        };
        let (tp, _) = a[0].fat();
        let av = a[1].clone();
        // template pointers may differ by path
        let leaves = m().leaves(tp);
        let mut out: Option<State> = None;
        for (c, t) in leaves {
            let mut s = st.clone();
            s.pc = m().and(st.pc, c);
            if s.pc == F {
                continue;
            }
            let r = self.write_template(s, f, t, &map_v(&av, &mut |n| m().restrict(n, c)));
            if let Some(s) = r {
                out = Some(match out {
                    None => s,
                    Some(o) => merge_states(o, s),
                });
            }
        }
        out
    }
    fn write_template(&mut self, mut st: State, f: N, tp: T, av: &Value) -> Option<State> {
        let an = match av {
            Value::Scalar(n) | Value::Fat(n, _) => *n,
            _ => m().opaque_n(64),
        };
        // plain string: args pointer encodes the length
        let data = match m().tm(tp).clone() {
            Tm::Ptr { kind: 1, id, idx, .. } => match (m().regions[id as usize].bytes.clone(), m().const_of_t(idx)) {
                (Some(b), Some(o)) => Some((b, o as usize)),
                _ => None,
            },
            _ => None,
        };
        let is_len = m().leaves(an).iter().all(|(_, t)| matches!(m().tm(*t), Tm::Ptr { kind: 2, .. } | Tm::C(_)));
        if is_len {
            let ln = m().map_t(an, &mut |m, t| match m.tm(t).clone() {
                Tm::Ptr { kind: 2, idx, .. } => idx,
                _ => t,
            });
            if let (Some(v), Some((b, o))) = (m().const_of(ln), &data) {
                let n = (v >> 1) as usize;
                let s = String::from_utf8_lossy(b.get(*o..*o + n).unwrap_or(&[])).to_string();
                let t = m().leaf(text::lit(&s));
                self.fmt_push(&mut st, f, t);
                return Some(st);
            }
        }
        let Some((b, o)) = data else {
            self.note("format template is not constant");
            let n = m().opaque_n(64);
            self.fmt_push(&mut st, f, n);
            return Some(st);
        };
        let mut i = o;
        let mut next_arg = 0usize;
        let aty = self.arg_ty();
        loop {
            let n = *b.get(i)?;
            i += 1;
            if n == 0 {
                return Some(st);
            }
            if n < 0x80 {
                let s = String::from_utf8_lossy(&b[i..i + n as usize]).to_string();
                i += n as usize;
                let t = m().leaf(text::lit(&s));
                self.fmt_push(&mut st, f, t);
                continue;
            }
            if n == 0x80 {
                let k = u16::from_le_bytes([b[i], b[i + 1]]) as usize;
                i += 2;
                let s = String::from_utf8_lossy(&b[i..i + k]).to_string();
                i += k;
                let t = m().leaf(text::lit(&s));
                self.fmt_push(&mut st, f, t);
                continue;
            }
            let mut flags = (' ' as u32) | 3 << 29;
            let (mut w, mut p) = (0u16, 0u16);
            if n & 1 != 0 {
                flags = u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
                i += 4;
            }
            if n & 2 != 0 {
                w = u16::from_le_bytes([b[i], b[i + 1]]);
                i += 2;
            }
            if n & 4 != 0 {
                p = u16::from_le_bytes([b[i], b[i + 1]]);
                i += 2;
            }
            let mut ai = next_arg;
            if n & 8 != 0 {
                ai = u16::from_le_bytes([b[i], b[i + 1]]) as usize;
                i += 2;
            }
            next_arg = ai + 1;
            let get_arg = |me: &mut Interp, st: &State, k: usize| -> Value {
                match aty {
                    Some(t) => me.slice_elem(st, an, k, t),
                    None => Value::Undef,
                }
            };
            if n & 16 != 0 {
                let v = get_arg(self, &st, w as usize);
                match v.field(3) {
                    Value::Scalar(c) if m().const_of(c).is_some() => {
                        w = m().const_of(c).unwrap() as u16;
                    }
                    _ => {
                        self.note("runtime width");
                        flags &= !(1 << 27);
                    }
                }
            }
            if n & 32 != 0 {
                let v = get_arg(self, &st, p as usize);
                match v.field(3) {
                    Value::Scalar(c) if m().const_of(c).is_some() => {
                        p = m().const_of(c).unwrap() as u16;
                    }
                    _ => {
                        self.note("runtime precision");
                        flags &= !(1 << 28);
                    }
                }
            }
            let arg = get_arg(self, &st, ai);
            let kind = match arg.field(2) {
                Value::Scalar(k) => m().const_of(k),
                _ => None,
            };
            let vt = match arg.field(1) {
                Value::Scalar(v) => m().leaves(v),
                _ => vec![],
            };
            let ptr = arg.field(0);
            if kind.is_none() || vt.len() != 1 || matches!(ptr, Value::Undef) {
                self.note("format argument not resolved");
                let o = m().opaque_n(64);
                self.fmt_push(&mut st, f, o);
                continue;
            }
            let Tm::Vt(vk) = m().tm(vt[0].1).clone() else { continue };
            let ty = consts().vts[vk as usize];
            let md = match kind.unwrap() {
                0 => "fmt_display",
                1 => "fmt_debug",
                2 => "fmt_lower_hex",
                3 => "fmt_upper_hex",
                4 => "fmt_binary",
                5 => "fmt_octal",
                _ => "fmt_display",
            };
            // a formatter with these options sharing the text
            let fty = self.fmt_ty()?;
            let outer = self.read_ptr(&st, f, fty);
            let id = self.alloc(&mut st, fty, agg(vec![outer.field(0), Value::Scalar(m().cn(flags as u128)), Value::Scalar(m().cn(w as u128)), Value::Scalar(m().cn(p as u128))]));
            let fp = Value::Scalar(obj_ptr(id, &[], NONE));
            let g = GenericArgs(vec![GenericArgKind::Type(ty)]);
            let rty = self.fn_ret(md, &g)?;
            let r = self.call_model(st, md, &g, vec![ptr, fp], &[], rty)?;
            let (mut s2, _res) = r?;
            let tx = self.obj(&s2, id).field(0);
            s2.objs.truncate(id as usize);
            self.obj_tys.truncate(id as usize);
            let mut fs: Vec<Value> = match &outer {
                Value::Agg(x) => x.to_vec(),
                _ => return None,
            };
            fs[0] = tx;
            self.write_ptr(&mut s2, f, &agg(fs));
            st = s2;
        }
    }
    fn arg_ty(&mut self) -> Option<Ty> {
        self.argument_ty
    }
    fn ok_unit(&self) -> Value {
        Value::Enum { d: F, vs: Rc::new(vec![Some(Rc::new(vec![unit()])), Some(Rc::new(vec![unit()]))]) }
    }
    fn push_str(&mut self, st: &mut State, f: N, v: &Value) {
        let (p, l) = v.fat();
        let tx = map_pl(p, l, &mut |tp, tl| {
            let t = text::push(text::nil(), Piece::Str(strip_lim(tp), tl));
            m().leaf(t)
        });
        self.fmt_push(st, f, tx);
    }
    fn pad_str(&mut self, st: &mut State, f: N, v: &Value) {
        let Some(spec) = self.fmt_spec(st, f) else {
            self.note("formatter options unknown");
            let o = m().opaque_n(64);
            self.fmt_push(st, f, o);
            return;
        };
        if text::default_spec(&spec) {
            return self.push_str(st, f, v);
        }
        let (p, l) = v.fat();
        let tx = map_pl(p, l, &mut |tp, tl| {
            let inner = text::push(text::nil(), Piece::Str(strip_lim(tp), tl));
            let t = text::push(text::nil(), Piece::Pad { spec, inner });
            m().leaf(t)
        });
        self.fmt_push(st, f, tx);
    }
    fn lit(&mut self, st: &mut State, f: N, s: &str) {
        let t = m().leaf(text::lit(s));
        self.fmt_push(st, f, t);
    }
    fn fmt_model(&mut self, st: &State, name: &str, ga: &GenericArgs, args: &[Value], atys: &[Ty], dty: Ty) -> R {
        let l = last(name);
        let mut s = st.clone();
        // <T as Display>::fmt for primitive T
        if l == "fmt" && args.len() == 2 {
            let kind = if name.contains("Display") {
                'd'
            } else if name.contains("Debug") {
                '?'
            } else if name.contains("LowerHex") {
                'x'
            } else if name.contains("UpperHex") {
                'X'
            } else if name.contains("Binary") {
                'b'
            } else if name.contains("Octal") {
                'o'
            } else {
                return None;
            };
            let to = pointee(atys.first().copied().or(None)?)?;
            let f = args[1].sc();
            match &*tyi(to) {
                TyI::Int { w, signed } => {
                    let (w, sg) = (*w, *signed);
                    let v = self.read_ptr(st, args[0].sc(), to).sc();
                    let Some(spec) = self.fmt_spec(st, f) else {
                        let o = m().opaque_n(64);
                        self.fmt_push(&mut s, f, o);
                        return Some(Some((s, self.ok_unit())));
                    };
                    let kind = if kind == '?' {
                        if spec.flags & (1 << 25) != 0 {
                            'x'
                        } else if spec.flags & (1 << 26) != 0 {
                            'X'
                        } else {
                            'd'
                        }
                    } else {
                        kind
                    };
                    let tx = m().map_t(v, &mut |_, t| text::push(text::nil(), Piece::Int { kind, w, signed: sg, spec, v: t }));
                    self.fmt_push(&mut s, f, tx);
                    return Some(Some((s, self.ok_unit())));
                }
                TyI::Float(w) => {
                    let w = *w;
                    let v = self.read_ptr(st, args[0].sc(), to).sc();
                    let Some(spec) = self.fmt_spec(st, f) else { return None };
                    let k = if kind == '?' { 'F' } else { 'f' };
                    let tx = m().map_t(v, &mut |_, t| text::push(text::nil(), Piece::Int { kind: k, w, signed: true, spec, v: t }));
                    self.fmt_push(&mut s, f, tx);
                    return Some(Some((s, self.ok_unit())));
                }
                TyI::Bool => {
                    let v = self.read_ptr(st, args[0].sc(), to).sc();
                    let (a, b) = (m().leaf(text::lit("true")), m().leaf(text::lit("false")));
                    let tx = m().ite(v, a, b);
                    self.fmt_push(&mut s, f, tx);
                    return Some(Some((s, self.ok_unit())));
                }
                TyI::Char => {
                    let v = self.read_ptr(st, args[0].sc(), to).sc();
                    let tx = m().map_t(v, &mut |_, t| text::push(text::nil(), Piece::Char(t)));
                    self.fmt_push(&mut s, f, tx);
                    return Some(Some((s, self.ok_unit())));
                }
                TyI::Str => {
                    if kind == 'd' {
                        self.pad_str(&mut s, f, &args[0]);
                    } else {
                        self.lit(&mut s, f, "\"");
                        self.push_str(&mut s, f, &args[0]);
                        self.lit(&mut s, f, "\"");
                    }
                    return Some(Some((s, self.ok_unit())));
                }
                TyI::Agg(fs) if fs.is_empty() && kind == '?' => {
                    self.lit(&mut s, f, "()");
                    return Some(Some((s, self.ok_unit())));
                }
                _ => {
                    if let Some(n) = adt_name(to) {
                        if n.contains("Utf8Error") || n.ends_with("fmt::Error") || n.ends_with("Arguments") {
                            if n.ends_with("Arguments") {
                                let v = self.read_ptr(st, args[0].sc(), to);
                                let r = self.write_arguments(s, f, &v);
                                return Some(r.map(|s| (s, self.ok_unit())));
                            }
                            let v = self.read_ptr(st, args[0].sc(), to);
                            let mut key = vec![];
                            for_v(&v, &mut |n| key.push(n));
                            // an uninterpreted rendering of the value
                            let mut acc: N = m().leaf(text::lit(&format!("<{n}>")));
                            for k in key {
                                let piece = m().map_t(k, &mut |_, t| text::push(text::nil(), Piece::Int { kind: 'd', w: 64, signed: false, spec: text::spec_of(' ' as u32 | 3 << 29, 0, 0), v: t }));
                                acc = m().ap2(Op2::TextCat, acc, piece);
                            }
                            self.fmt_push(&mut s, f, acc);
                            return Some(Some((s, self.ok_unit())));
                        }
                    }
                }
            }
            return None;
        }
        let is_fmt = name.contains("fmt::Formatter");
        if is_fmt || name.contains("fmt::Write") && atys.first().and_then(|t| pointee(*t)).and_then(adt_name).map(|n| n.ends_with("Formatter")).unwrap_or(false) {
            let f = args.first().map(|a| a.sc()).unwrap_or(F);
            let ok = |me: &Interp, s: State| Some(Some((s, me.ok_unit())));
            match l {
                "write_str" => {
                    self.push_str(&mut s, f, &args[1]);
                    return ok(self, s);
                }
                "pad" => {
                    self.pad_str(&mut s, f, &args[1]);
                    return ok(self, s);
                }
                "write_char" => {
                    let v = args[1].sc();
                    let tx = m().map_t(v, &mut |_, t| text::push(text::nil(), Piece::Char(t)));
                    self.fmt_push(&mut s, f, tx);
                    return ok(self, s);
                }
                "write_fmt" => {
                    let r = self.write_arguments(s, f, &args[1]);
                    return Some(r.map(|s| (s, self.ok_unit())));
                }
                "alternate" | "sign_plus" | "sign_minus" | "sign_aware_zero_pad" | "debug_lower_hex" | "debug_upper_hex" => {
                    let bit = match l {
                        "sign_plus" => 21,
                        "sign_minus" => 22,
                        "alternate" => 23,
                        "sign_aware_zero_pad" => 24,
                        "debug_lower_hex" => 25,
                        _ => 26,
                    };
                    let fty = self.fmt_ty()?;
                    let v = self.read_ptr(st, f, fty);
                    if let Value::Scalar(n) = v.field(1) {
                        if let Some(c) = m().const_of(n) {
                            return Some(Some((s, Value::Scalar(if c >> bit & 1 == 1 { TT } else { F }))));
                        }
                    }
                    return Some(Some((s, opaque(dty))));
                }
                "width" | "precision" => {
                    let sp = self.fmt_spec(st, f);
                    let v = match sp {
                        Some(sp) => match if l == "width" { sp.width } else { sp.prec } {
                            Some(x) => some(Value::Scalar(m().cn(x as u128))),
                            None => none(),
                        },
                        None => opaque(dty),
                    };
                    return Some(Some((s, v)));
                }
                _ => {}
            }
            if l == "debug_c_like_enum_write_str" {
                if let Some(names) = const_str(&args[1]) {
                    let mut ok = true;
                    let tx = m().map(args[2].sc(), &mut |mm, t| match mm.const_of_t(t).and_then(|k| names.get(k as usize..)) {
                        Some(x) => {
                            let x = x.split(' ').next().unwrap_or("").to_string();
                            let t = text::lit(&x);
                            m().leaf(t)
                        }
                        None => {
                            ok = false;
                            let t = text::lit("?");
                            m().leaf(t)
                        }
                    });
                    if ok {
                        self.fmt_push(&mut s, f, tx);
                        return Some(Some((s, self.ok_unit())));
                    }
                }
                return None;
            }
            if l.starts_with("debug_struct_field") && l.ends_with("_finish") || l.starts_with("debug_tuple_field") && l.ends_with("_finish") || l == "debug_struct_fields_finish" || l == "debug_tuple_fields_finish" {
                // one string "Name field1 field2 ..", then the values
                let is_struct = l.starts_with("debug_struct");
                let mut st2 = s;
                let mut vals: Vec<(Value, Ty)> = vec![];
                if l.contains("_fields_") {
                    let (vp, vl) = args[2].fat();
                    let n = m().const_of(vl).unwrap_or(0) as usize;
                    let vt = elem_ty(pointee(atys[2])?).0;
                    for i in 0..n {
                        let v = self.slice_elem(&st2, vp, i, vt);
                        vals.push((v, vt));
                    }
                } else {
                    for i in 2..args.len() {
                        vals.push((args[i].clone(), atys[i]));
                    }
                }
                let names: Option<Vec<String>> = if is_struct { const_str(&args[1]).map(|x| x.split(' ').map(|x| x.to_string()).collect()) } else { None };
                match &names {
                    Some(n) => self.lit(&mut st2, f, &n[0].clone()),
                    None => self.push_str(&mut st2, f, &args[1]),
                }
                self.lit(&mut st2, f, if is_struct { " { " } else { "(" });
                for (i, (v, t)) in vals.into_iter().enumerate() {
                    if i > 0 {
                        self.lit(&mut st2, f, ", ");
                    }
                    if let Some(n) = &names {
                        self.lit(&mut st2, f, &format!("{}: ", n.get(i + 1).cloned().unwrap_or_default()));
                    }
                    // &dyn Debug
                    let dynty = pointee(t)?;
                    let g = GenericArgs(vec![GenericArgKind::Type(dynty)]);
                    let rty = self.fn_ret("fmt_debug", &g)?;
                    let r = self.call_model(st2, "fmt_debug", &g, vec![v, Value::Scalar(f)], &[], rty)?;
                    let Some((s3, _)) = r else { return Some(None) };
                    st2 = s3;
                }
                self.lit(&mut st2, f, if is_struct { " }" } else { ")" });
                return Some(Some((st2, self.ok_unit())));
            }
            if matches!(l, "debug_list" | "debug_set" | "debug_map" | "debug_struct" | "debug_tuple") {
                // builder shadow: the formatter pointer
                if args.len() > 1 {
                    self.push_str(&mut s, f, &args[1]);
                }
                let kind = match l {
                    "debug_list" => 0,
                    "debug_set" | "debug_map" => 1,
                    "debug_struct" => 2,
                    _ => 3,
                };
                if kind < 2 {
                    self.lit(&mut s, f, if kind == 0 { "[" } else { "{" });
                }
                let b = agg(vec![Value::Scalar(f), Value::Scalar(m().cn(kind)), Value::Scalar(m().cn(0))]);
                return Some(Some((s, if kind < 2 { agg(vec![b]) } else { b })));
            }
            if l == "new" || l == "wrap_buf" {
                return None;
            }
        }
        if name.contains("builders::Debug") || ["List", "Struct", "Tuple", "Set", "Map"].iter().any(|k| name.contains(&format!("fmt::Debug{k}::"))) {
            let bt = pointee(atys[0])?;
            let bv = self.read_ptr(st, args[0].sc(), bt);
            let nested = !matches!(bv.field(0), Value::Scalar(_));
            let bv = if nested { bv.field(0).clone() } else { bv };
            let f = bv.field(0).sc();
            let (Some(kind), Some(has)) = (m().const_of(bv.field(1).sc()), m().const_of(bv.field(2).sc())) else {
                self.note("formatter helper state unknown");
                return None;
            };
            let used = agg(vec![Value::Scalar(f), Value::Scalar(m().cn(kind)), Value::Scalar(m().cn(1))]);
            let used = if nested { agg(vec![used]) } else { used };
            match l {
                "entry" | "field" | "key" | "value" => {
                    let mut i = 1;
                    if l == "value" {
                        self.lit(&mut s, f, ": ");
                    } else {
                        self.lit(&mut s, f, if has != 0 { ", " } else if kind == 2 { " { " } else if kind == 3 { "(" } else { "" });
                    }
                    self.write_ptr(&mut s, args[0].sc(), &used);
                    if l == "field" && args.len() == 3 {
                        self.push_str(&mut s, f, &args[1]);
                        self.lit(&mut s, f, ": ");
                        i = 2;
                    }
                    let mut st2 = s;
                    for j in i..args.len() {
                        let dynty = pointee(atys[j])?;
                        let g = GenericArgs(vec![GenericArgKind::Type(dynty)]);
                        let rty = self.fn_ret("fmt_debug", &g)?;
                        let r = self.call_model(st2, "fmt_debug", &g, vec![args[j].clone(), Value::Scalar(f)], &[], rty)?;
                        let Some((s3, _)) = r else { return Some(None) };
                        st2 = s3;
                        if l == "entry" && j + 1 < args.len() {
                            self.lit(&mut st2, f, ": ");
                        }
                    }
                    return Some(Some((st2, args[0].clone())));
                }
                "entries" => {
                    let g = ga.clone();
                    let mut tys: Vec<GenericArgKind> = g.0.iter().filter(|x| x.ty().is_some()).cloned().collect();
                    // generics: D, I
                    let n = tys.len();
                    if n >= 2 {
                        tys = tys[n - 2..].to_vec();
                    }
                    let g2 = GenericArgs(tys);
                    let r = self.call_model(s, "debug_entries", &g2, vec![args[1].clone(), Value::Scalar(f)], &[], Ty::new_tuple(&[]))?;
                    return Some(r.map(|(s, _)| (s, args[0].clone())));
                }
                "finish" | "finish_non_exhaustive" => {
                    let end = match kind {
                        0 => "]",
                        1 => "}",
                        2 if has != 0 => " }",
                        3 if has != 0 => ")",
                        _ => "",
                    };
                    self.lit(&mut s, f, end);
                    return Some(Some((s, self.ok_unit())));
                }
                _ => {}
            }
        }
        None
    }

    // ------------------------------------------------------------ after resolution
    #[allow(clippy::too_many_arguments)]
    pub fn intercept_resolved(&mut self, st: &State, name: &str, krate: &str, ga: &GenericArgs, args: &[Value], atys: &[Ty], dty: Ty, inst: Instance) -> R {
        if krate == "dmidecode" && self.cut_strings && last(name) == "find_string" && name.contains("RawStructure") {
            return self.call_model(st.clone(), "cut_find_string", &GenericArgs(vec![]), args.to_vec(), atys, dty);
        }
        if krate == "dmidecode" || krate == "verif_harness" {
            return None;
        }
        let l = last(name);
        if matches!(&*tyi(dty), TyI::Never) {
            let what = if name.contains("panic_bounds_check") { "index out of bounds" } else { l };
            return Some(self.panic(st, what));
        }
        if name.contains("fmt::") || l == "fmt" {
            if name.contains("Argument") {
                if let Some(k) = match l {
                    "new_display" => Some(0u128),
                    "new_debug" => Some(1),
                    "new_lower_hex" => Some(2),
                    "new_upper_hex" => Some(3),
                    "new_binary" => Some(4),
                    "new_octal" => Some(5),
                    _ => None,
                } {
                    let t = gty(ga, 0)?;
                    return Some(Some((st.clone(), agg(vec![args[0].clone(), Value::Scalar(vtable(t)), Value::Scalar(m().cn(k)), Value::Undef]))));
                }
                if l == "from_usize" {
                    let v = self.read_ptr(st, args[0].sc(), pointee(atys[0])?);
                    return Some(Some((st.clone(), agg(vec![args[0].clone(), Value::Undef, Value::Undef, v]))));
                }
                if name.contains("Arguments") {
                    match l {
                        "new" => {
                            // template: &[u8; N], args: &[Argument; M]
                            let t = elem_ptr(args[0].sc());
                            self.argument_ty = pointee(atys[1]).map(|t| elem_ty(t).0);
                            let a = elem_ptr(args[1].sc());
                            return Some(Some((st.clone(), agg(vec![Value::Fat(t, F), Value::Scalar(a)]))));
                        }
                        "from_str" | "from_str_nonconst" | "new_const" => {
                            let (p, ln) = match &args[0] {
                                Value::Fat(p, l) => (*p, *l),
                                _ => return None,
                            };
                            let n = m().map_t(ln, &mut |m, t| m.mk_lin(1, vec![(2, t)]));
                            return Some(Some((st.clone(), agg(vec![Value::Fat(p, ln), Value::Scalar(n)]))));
                        }
                        _ => {}
                    }
                }
            }
            if let Some(r) = self.fmt_model(st, name, ga, args, atys, dty) {
                return Some(r);
            }
        }
        if let Some(r) = self.slice_model(st, name, l, ga, args, atys, dty) {
            return Some(r);
        }
        if let Some(r) = self.misc_model(st, name, l, ga, args, atys, dty, inst) {
            return Some(r);
        }
        None
    }
    /// slices, strings and their iterators
    fn slice_model(&mut self, st: &State, name: &str, l: &str, ga: &GenericArgs, args: &[Value], atys: &[Ty], dty: Ty) -> R {
        let mut s = st.clone();
        // slice::Iter shadow
        let self_iter = atys.first().and_then(|t| {
            let t2 = pointee(*t).unwrap_or(*t);
            let n = adt_name(t2)?;
            if n.ends_with("slice::Iter") || n.ends_with("slice::iter::Iter") { Some((t2, pointee(*t).is_some())) } else { None }
        });
        if (name.contains("slice::Iter<") || name.contains("slice::Iter::<") || name.contains("slice::iter::Iter")) && l == "new" {
            return Some(Some((s, agg(vec![args[0].clone()]))));
        }
        if let Some((it, by_ref)) = self_iter {
            let et = match it.kind() {
                TyKind::RigidTy(RigidTy::Adt(_, g)) => gty(&g, 0)?,
                _ => return None,
            };
            let cur = if by_ref { self.read_ptr(st, args[0].sc(), it) } else { args[0].clone() };
            let (p, n) = cur.field(0).fat();
            let zero = m().cn(0);
            let one = m().cn(1);
            match l {
                "next" | "next_back" if by_ref => {
                    let empty = m().ap2(Op2::Eq, n, zero);
                    let has = m().not(empty);
                    let has = self.under(st, has);
                    let n1 = m().map_t(n, &mut |m, t| if t == 0 { t } else { m.addk(t, -1) });
                    let (np, item) = if l == "next" {
                        (self.ptr_offset(p, one, et), p)
                    } else {
                        (p, self.ptr_offset(p, n1, et))
                    };
                    let nn = m().ite(has, n1, n);
                    let np = m().ite(has, np, p);
                    self.write_ptr(&mut s, args[0].sc(), &agg(vec![Value::Fat(np, nn)]));
                    return Some(Some((s, option(has, Value::Scalar(item)))));
                }
                "nth" if by_ref => {
                    let i = args[1].sc();
                    let has = m().ap2(Op2::Ult, i, n);
                    let has = self.under(st, has);
                    let item = self.ptr_offset(p, i, et);
                    let np = self.ptr_offset(item, one, et);
                    let end = self.ptr_offset(p, n, et);
                    let rest = m().ap2(Op2::MSub, n, i);
                    let rest = m().map_t(rest, &mut |m, t| m.addk(t, -1));
                    let nn = m().ite(has, rest, zero);
                    let np = m().ite(has, np, end);
                    self.write_ptr(&mut s, args[0].sc(), &agg(vec![Value::Fat(np, nn)]));
                    return Some(Some((s, option(has, Value::Scalar(item)))));
                }
                "advance_by" => return None,
                "len" => return Some(Some((s, Value::Scalar(n)))),
                "size_hint" => return Some(Some((s, agg(vec![Value::Scalar(n), some(Value::Scalar(n))])))),
                "count" => return Some(Some((s, Value::Scalar(n)))),
                "as_slice" | "as_ref" => return Some(Some((s, Value::Fat(p, n)))),
                "clone" => return Some(Some((s, cur))),
                "is_empty" => {
                    let e = m().ap2(Op2::Eq, n, zero);
                    return Some(Some((s, Value::Scalar(e))));
                }
                "__iterator_get_unchecked" => {
                    let q = self.ptr_offset(p, args[1].sc(), et);
                    return Some(Some((s, Value::Scalar(q))));
                }
                "into_iter" => return Some(Some((s, cur))),
                _ => {}
            }
        }
        // chunk and window iterators: shadow Agg([slice, size, position])
        for (k, nmk) in [(0, "Chunks"), (1, "ChunksExact"), (2, "Windows")] {
            let is = atys.first().and_then(|t| adt_name(pointee(*t).unwrap_or(*t))).map(|n| n.ends_with(&format!("slice::{nmk}")) || n.ends_with(&format!("slice::iter::{nmk}"))).unwrap_or(false);
            let (a, b) = (format!("slice::{nmk}<"), format!("slice::{nmk}::<"));
            if l == "new" && args.len() == 2 && (name.contains(&a) || name.contains(&b) || name.contains(&format!("slice::iter::{nmk}::"))) {
                let sz = match (&args[1], k) {
                    (Value::Agg(_), _) => {
                        let mut r = None;
                        for_v(&args[1], &mut |n| r = Some(n));
                        r?
                    }
                    (x, _) => x.sc(),
                };
                let z = m().cn(0);
                return Some(Some((s, agg(vec![args[0].clone(), Value::Scalar(sz), Value::Scalar(z)]))));
            }
            if is && matches!(l, "clone" | "count" | "len" | "size_hint" | "last") {
                let cur = match pointee(atys[0]) {
                    Some(it) => self.read_ptr(st, args[0].sc(), it),
                    None => args[0].clone(),
                };
                if l == "clone" {
                    return Some(Some((s, cur)));
                }
                let ((_, n), sz, pos) = (cur.field(0).fat(), cur.field(1).sc(), cur.field(2).sc());
                let rem = m().ap2(Op2::MSub, n, pos);
                let (zero, one) = (m().cn(0), m().cn(1));
                let cnt = match k {
                    2 => {
                        let r = m().ap2(Op2::MAdd, rem, one);
                        let r = m().ap2(Op2::MSub, r, sz);
                        let ok = m().map(r, &mut |m, t| m.cond_in(t, &vec![(1, BIG)]));
                        m().ite(ok, r, zero)
                    }
                    1 => m().ap2(Op2::Bin(Op::Div, 64), rem, sz),
                    _ => {
                        // (rem - 1) / size + 1, and nothing when nothing is left
                        let some = m().map(rem, &mut |m, t| m.cond_in(t, &vec![(1, BIG)]));
                        let r = m().ap2(Op2::MSub, rem, one);
                        let r = m().ite(some, r, zero);
                        let q = m().ap2(Op2::Bin(Op::Div, 64), r, sz);
                        let q = m().ap2(Op2::MAdd, q, one);
                        m().ite(some, q, zero)
                    }
                };
                if l == "last" {
                    let et = match atys[0].kind() {
                        TyKind::RigidTy(RigidTy::Adt(_, g)) => gty(&g, 0)?,
                        _ => return None,
                    };
                    let Some(c) = m().const_of(cnt) else { return Some(self.havoc(s, &format!("{nmk}::last"), args.to_vec(), dty)) };
                    let has = if c == 0 { F } else { TT };
                    let step = if k == 2 { one } else { sz };
                    let c = m().cn(c.max(1) - 1);
                    let d = m().ap2(Op2::MMul, step, c);
                    let at = m().ap2(Op2::MAdd, pos, d);
                    let ip = self.ptr_offset(cur.field(0).fat().0, at, et);
                    let il = if k == 0 { m().ap2(Op2::MSub, n, at) } else { sz };
                    return Some(Some((s, option(has, Value::Fat(ip, il)))));
                }
                let v = if l == "size_hint" { agg(vec![Value::Scalar(cnt), some(Value::Scalar(cnt))]) } else { Value::Scalar(cnt) };
                return Some(Some((s, v)));
            }
            let skip = match l {
                "nth" if is => {
                    let j = m().const_of(args[1].sc());
                    if j.is_none() || j > Some(1 << 20) {
                        return Some(self.havoc(s, &format!("{nmk}::nth"), args.to_vec(), dty));
                    }
                    j
                }
                _ => None,
            };
            if is && (l == "next" || skip.is_some()) {
                let it = pointee(atys[0])?;
                let et = match it.kind() {
                    TyKind::RigidTy(RigidTy::Adt(_, g)) => gty(&g, 0)?,
                    _ => return None,
                };
                let cur = self.read_ptr(st, args[0].sc(), it);
                let ((p, n), sz, mut pos) = (cur.field(0).fat(), cur.field(1).sc(), cur.field(2).sc());
                let step = if k == 2 { m().cn(1) } else { sz };
                if let Some(j) = skip {
                    let j = m().cn(j);
                    let d = m().ap2(Op2::MMul, step, j);
                    pos = m().ap2(Op2::MAdd, pos, d);
                }
                let end = m().ap2(Op2::MAdd, pos, sz);
                let room = m().ap2(Op2::MSub, n, end);
                let full = m().map(room, &mut |m, t| m.cond_in(t, &vec![(0, BIG)]));
                let rem = m().ap2(Op2::MSub, n, pos);
                let has = if k == 0 { m().map(rem, &mut |m, t| m.cond_in(t, &vec![(1, BIG)])) } else { full };
                let has = self.under(st, has);
                let full = self.under(st, full);
                let np = m().ap2(Op2::MAdd, pos, step);
                let stay = if skip.is_some() { n } else { pos };
                let np = m().ite(has, np, stay);
                let ip = self.ptr_offset(p, pos, et);
                let il = if k == 0 { m().ite(full, sz, rem) } else { sz };
                self.write_ptr(&mut s, args[0].sc(), &agg(vec![cur.field(0), Value::Scalar(sz), Value::Scalar(np)]));
                return Some(Some((s, option(has, Value::Fat(ip, il)))));
            }
            if is && matches!(l, "last" | "next_back" | "nth_back" | "__iterator_get_unchecked" | "remainder") {
                return Some(self.havoc(s, &format!("{nmk}::{l}"), args.to_vec(), dty));
            }
            if is && l != "next" && l != "into_iter" {
                self.note(&format!("{nmk}::{l} not modelled"));
            }
        }
        if name.contains("slice::") && matches!(l, "from_raw_parts" | "from_raw_parts_mut") && args.len() == 2 {
            let e = gty(ga, 0)?;
            let (p, n) = (args[0].sc(), args[1].sc());
            let sz = size_of(e).max(1);
            let nb = if sz == 1 { n } else { let k = m().cn(sz as u128); m().ap2(Op2::MMul, n, k) };
            self.span_obligation(st, p, nb);
            return Some(Some((s, Value::Fat(p, n))));
        }
        if name.contains("str::") || name.contains("<impl str>") {
            match l {
                "from_utf8" => {
                    let (p, n) = args[0].fat();
                    let ok = utf8_ok(p, n);
                    let err = m().not(ok);
                    let et = match &*tyi(dty) {
                        TyI::Enum { vars, .. } => vars[1].first().map(|x| x.1)?,
                        _ => return None,
                    };
                    let mut code = 40;
                    let ev = func_of(et, &mut code, p, n);
                    return Some(Some((s, Value::Enum { d: err, vs: Rc::new(vec![Some(Rc::new(vec![args[0].clone()])), Some(Rc::new(vec![ev]))]) })));
                }
                "from_utf8_unchecked" => {
                    let (p, n) = args[0].fat();
                    let ok = utf8_ok(p, n);
                    let bad = m().not(ok);
                    self.oblige("utf8", "text is not known to be valid UTF-8", st.pc, bad);
                    return Some(Some((s, args[0].clone())));
                }
                "len" | "as_bytes" | "as_ptr" | "is_empty" if name.contains("<impl str>") => {
                    let (p, n) = args[0].fat();
                    let v = match l {
                        "len" => Value::Scalar(n),
                        "as_bytes" => Value::Fat(p, n),
                        "is_empty" => {
                            let z = m().cn(0);
                            Value::Scalar(m().ap2(Op2::Eq, n, z))
                        }
                        _ => Value::Scalar(p),
                    };
                    return Some(Some((s, v)));
                }
                _ => {}
            }
        }
        if l == "memchr" || name.contains("memchr::memchr") {
            let g = GenericArgs(vec![]);
            return self.call_model(s, "memchr", &g, args.to_vec(), atys, dty);
        }
        if l == "is_ascii" && matches!(args.first(), Some(Value::Fat(..))) {
            let g = GenericArgs(vec![]);
            return self.call_model(s, "ascii", &g, args.to_vec(), atys, dty);
        }
        // slice equality
        if matches!(l, "eq" | "ne" | "equal" | "equal_same_length") && args.len() >= 2 {
            if let (Some(x), Some(y)) = (atys.first().and_then(|t| pointee(*t)), atys.get(1).and_then(|t| pointee(*t))) {
                let bytes = |t: Ty| match &*tyi(t) {
                    TyI::Str => true,
                    TyI::Slice(e) => byte_like(*e) && size_of(*e) == 1,
                    _ => false,
                };
                if bytes(x) && bytes(y) && l != "equal_same_length" {
                    let ((p, n), (q, k)) = (args[0].fat(), args[1].fat());
                    let mut e = str_eq(p, n, q, k);
                    if l == "ne" {
                        e = m().not(e);
                    }
                    return Some(Some((s, Value::Scalar(e))));
                }
            }
        }
        None
    }
    /// condition simplified with what is known at this point
    pub fn under(&self, st: &State, c: N) -> N {
        let care = m().and(st.pc, self.amb);
        let c = m().restrict(c, care);
        if c == TT || c == F {
            return c;
        }
        let nc = m().not(c);
        if !self.possible(st.pc, nc) {
            TT
        } else if !self.possible(st.pc, c) {
            F
        } else {
            c
        }
    }
    /// obligation: n bytes starting at p lie inside what p was derived from
    pub fn span_obligation(&mut self, st: &State, p: N, n: N) {
        let fail = m().map(p, &mut |m_, t| match m_.tm(t).clone() {
            Tm::Ptr { kind: 1, id, idx, lim, .. } => {
                let lim = if lim == NONE { m_.regions[id as usize].len } else { lim };
                let i = m_.leaf(idx);
                let e = m_.ap2(Op2::MAdd, i, n);
                let l = m_.leaf(lim);
                let d = m_.ap2(Op2::MSub, e, l);
                let a = m_.map(d, &mut |m, t| m.cond_in(t, &vec![(1, BIG)]));
                let b = m_.cond_in(idx, &vec![(-BIG, -1)]);
                m_.or(a, b)
            }
            _ => F,
        });
        self.oblige("oob", "slice extends past the data", st.pc, fail);
    }
    #[allow(clippy::too_many_arguments)]
    fn misc_model(&mut self, st: &State, name: &str, l: &str, ga: &GenericArgs, args: &[Value], atys: &[Ty], dty: Ty, inst: Instance) -> R {
        let _ = (ga, inst, dty, atys);
        let s = st.clone();
        if l == "black_box" {
            return Some(Some((s, args[0].clone())));
        }
        if name.contains("Hasher") || name.contains("hash::") && l.starts_with("write") {
            // hashing: appended to the hasher object by the harness hasher
            return None;
        }
        if name.contains("mem::") && l == "drop" || name.ends_with("drop_in_place") {
            return Some(Some((s, unit())));
        }
        if l == "precondition_check" {
            return Some(Some((s, unit())));
        }
        None
    }

    // ------------------------------------------------------------ intrinsics
    #[allow(clippy::too_many_arguments)]
    pub fn intrinsic(&mut self, mut st: State, name: &str, ga: &GenericArgs, args: Vec<Value>, atys: &[Ty], dty: Ty, inst: Option<Instance>) -> Option<(State, Value)> {
        let t0 = gty(ga, 0);
        let sc = |n: N| Value::Scalar(n);
        let k = |v: u128| Value::Scalar(m().cn(v));
        let pc = st.pc;
        let r: Value = match name {
            "size_of" => k(size_of(t0?) as u128),
            "align_of" | "min_align_of" | "pref_align_of" => match t0?.layout() {
                Ok(l) => k(l.shape().abi_align as u128),
                _ => k(1),
            },
            "size_of_val" => match &*tyi(t0?) {
                TyI::Slice(e) => {
                    let (_, n) = args[0].fat();
                    let s = m().cn(size_of(*e) as u128);
                    sc(m().ap2(Op2::MMul, n, s))
                }
                TyI::Str => sc(args[0].fat().1),
                TyI::Dyn => opaque(dty),
                _ => k(size_of(t0?) as u128),
            },
            "align_of_val" | "min_align_of_val" => k(1),
            "needs_drop" => sc(F),
            "type_name" => {
                let (p, l) = const_region(format!("{}", t0?).as_bytes());
                Value::Fat(p, l)
            }
            "is_val_statically_known" => sc(F),
            "ub_checks" | "contract_checks" => sc(F),
            "overflow_checks" => sc(TT),
            "assume" => {
                st.pc = m().and(st.pc, args[0].sc());
                unit()
            }
            "likely" | "unlikely" => args[0].clone(),
            "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "forget" => unit(),
            "black_box" => args[0].clone(),
            "select_unpredictable" => merge(args[0].sc(), &args[1], &args[2]),
            "abort" => return self.panic(&st, "abort"),
            "unreachable" => return None,
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" => {
                let t = t0?;
                let op = match name {
                    "wrapping_add" => Op::Add,
                    "wrapping_sub" => Op::Sub,
                    _ => Op::Mul,
                };
                sc(self.wrapping(pc, op, width(t), args[0].sc(), args[1].sc(), signed(t)))
            }
            "unchecked_add" => self.binop(pc, BinOp::AddUnchecked, &args[0], &args[1], t0?, t0?),
            "unchecked_sub" => self.binop(pc, BinOp::SubUnchecked, &args[0], &args[1], t0?, t0?),
            "unchecked_mul" => self.binop(pc, BinOp::MulUnchecked, &args[0], &args[1], t0?, t0?),
            "unchecked_div" | "exact_div" => self.binop(pc, BinOp::Div, &args[0], &args[1], t0?, t0?),
            "unchecked_rem" => self.binop(pc, BinOp::Rem, &args[0], &args[1], t0?, t0?),
            "unchecked_shl" => self.binop(pc, BinOp::ShlUnchecked, &args[0], &args[1], t0?, atys[1]),
            "unchecked_shr" => self.binop(pc, BinOp::ShrUnchecked, &args[0], &args[1], t0?, atys[1]),
            "disjoint_bitor" => self.binop(pc, BinOp::BitOr, &args[0], &args[1], t0?, t0?),
            "add_with_overflow" => self.checked(pc, BinOp::Add, &args[0], &args[1], t0?, t0?, false),
            "sub_with_overflow" => self.checked(pc, BinOp::Sub, &args[0], &args[1], t0?, t0?, false),
            "mul_with_overflow" => self.checked(pc, BinOp::Mul, &args[0], &args[1], t0?, t0?, false),
            "saturating_add" | "saturating_sub" if !signed(t0?) => {
                let w = width(t0?);
                let (x, y) = (args[0].sc(), args[1].sc());
                let add = name == "saturating_add";
                let ov = if add { m().ap2(Op2::OvAdd(w), x, y) } else { m().ap2(Op2::OvSub(w), x, y) };
                let v = if add { m().ap2(Op2::MAdd, x, y) } else { m().ap2(Op2::MSub, x, y) };
                let lim = if add { m().cn(mask(w)) } else { F };
                sc(m().ite(ov, lim, v))
            }
            "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" | "ctlz_nonzero" | "cttz_nonzero" => {
                let w = width(t0?);
                let op = match name {
                    "ctpop" => Op::Ctpop,
                    "ctlz" | "ctlz_nonzero" => Op::Ctlz,
                    "cttz" | "cttz_nonzero" => Op::Cttz,
                    "bswap" => Op::Bswap,
                    _ => Op::Bitrev,
                };
                sc(m().map_t(args[0].sc(), &mut |m, t| m.op1(op, w, t)))
            }
            "rotate_left" | "rotate_right" => {
                let t = t0?;
                let w = width(t);
                if let Some(n) = m().const_of(args[1].sc()) {
                    let n = (n % w as u128) as u128;
                    let (a, b) = if name == "rotate_left" { (n, (w as u128 - n) % w as u128) } else { ((w as u128 - n) % w as u128, n) };
                    let (an, bn) = (k(a), k(b));
                    let x = self.binop(pc, BinOp::ShlUnchecked, &args[0], &an, t, atys[1]);
                    let y = self.binop(pc, BinOp::ShrUnchecked, &args[0], &bn, t, atys[1]);
                    self.binop(pc, BinOp::BitOr, &x, &y, t, t)
                } else {
                    return self.havoc(st, name, args, dty);
                }
            }
            "discriminant_value" => {
                let t = t0?;
                let v = self.read_ptr(&st, args[0].sc(), t);
                self.discriminant(&v, t)
            }
            "three_way_compare" => self.binop(pc, BinOp::Cmp, &args[0], &args[1], t0?, t0?),
            "transmute" | "transmute_unchecked" => {
                let from = atys.first().copied()?;
                transmute(&args[0], from, dty)
            }
            "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => self.read_ptr(&st, args[0].sc(), t0?),
            "write_via_move" | "volatile_store" => {
                self.write_ptr(&mut st, args[0].sc(), &args[1]);
                unit()
            }
            "copy_nonoverlapping" | "copy" => {
                self.copy_n(&mut st, args[0].sc(), args[1].sc(), args[2].sc(), t0?);
                unit()
            }
            "write_bytes" => {
                self.note("write_bytes");
                unit()
            }
            "typed_swap_nonoverlapping" => {
                let t = t0?;
                let a = self.read_ptr(&st, args[0].sc(), t);
                let b = self.read_ptr(&st, args[1].sc(), t);
                self.write_ptr(&mut st, args[0].sc(), &b);
                self.write_ptr(&mut st, args[1].sc(), &a);
                unit()
            }
            "offset" | "arith_offset" => {
                let e = pointee(atys[0])?;
                sc(self.ptr_offset(args[0].sc(), args[1].sc(), e))
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let e = pointee(atys[0])?;
                let d = m().ap2(Op2::PtrDiff, args[0].sc(), args[1].sc());
                let sz = size_of(e);
                let region = m().leaves(args[0].sc()).iter().any(|(_, t)| matches!(m().tm(*t), Tm::Ptr { kind: 1, .. }));
                if sz > 1 && region {
                    let n = m().cn(sz as u128);
                    sc(m().ap2(Op2::Bin(Op::Div, 64), d, n))
                } else {
                    sc(d)
                }
            }
            "ptr_guaranteed_cmp" => opaque(dty),
            "ptr_metadata" => match &args[0] {
                Value::Fat(_, l) => sc(*l),
                _ => unit(),
            },
            "aggregate_raw_ptr" => match (&args[0], &args[1]) {
                (Value::Scalar(p), Value::Scalar(l)) => Value::Fat(*p, *l),
                (p, _) => p.clone(),
            },
            "slice_get_unchecked" => {
                let (p, n) = args[0].fat();
                let e = elem_ty(pointee(atys[0])?).0;
                let i = args[1].sc();
                // index must be below the length
                let lt = m().ap2(Op2::Ult, i, n);
                let bad = m().not(lt);
                self.oblige("oob", "unchecked index past the slice", st.pc, bad);
                sc(self.ptr_offset(p, i, e))
            }
            "compare_bytes" => {
                let (p, q, n) = (args[0].sc(), args[1].sc(), args[2].sc());
                if let Some(c) = m().const_of(n).filter(|c| *c <= 16) {
                    let u8t = Ty::unsigned_ty(UintTy::U8);
                    let (lo, hi) = (m().cn(0xffff_ffff), m().cn(1));
                    let mut r = m().cn(0);
                    let mut bs = vec![];
                    for i in 0..c {
                        let k = m().cn(i);
                        let (x, y) = (self.ptr_offset(p, k, u8t), self.ptr_offset(q, k, u8t));
                        bs.push((self.read_ptr(&st, x, u8t).sc(), self.read_ptr(&st, y, u8t).sc()));
                    }
                    for (x, y) in bs.into_iter().rev() {
                        let (e, l) = (m().ap2(Op2::Eq, x, y), m().ap2(Op2::Ult, x, y));
                        let d = m().ite(l, lo, hi);
                        r = m().ite(e, r, d);
                    }
                    return Some((st, sc(r)));
                }
                let e = str_eq(p, n, q, n);
                let o = map3(p, q, n, &mut |a, b, c| {
                    // some non-zero value
                    let t = m().mk(Tm::Op(Op::StrCmp, 31, vec![strip_lim(a), strip_lim(b), c]));
                    let t = m().addk(t, 1);
                    m().leaf(t)
                });
                sc(m().ite(e, F, o))
            }
            "raw_eq" => {
                let t = t0?;
                let (a, b) = (self.read_ptr(&st, args[0].sc(), t), self.read_ptr(&st, args[1].sc(), t));
                sc(self.deep_eq(&st, t, &a, &b))
            }
            "const_eval_select" => {
                // (tuple args, const fn, runtime fn): the runtime one
                let f = args[2].clone();
                let fty = atys[2];
                let av = match &args[0] {
                    Value::Agg(v) => v.to_vec(),
                    _ => return self.havoc(st, name, args, dty),
                };
                let aty = match &*tyi(atys[0]) {
                    TyI::Agg(f) => f.iter().map(|x| x.1).collect::<Vec<_>>(),
                    _ => vec![],
                };
                return self.call_value(st, f, fty, av, &aty, dty);
            }
            "is_val_statically_known_" => sc(F),
            "caller_location" => Value::Scalar(dangling(8)),
            "type_id" => opaque(dty),
            "variant_count" => match &*tyi(t0?) {
                TyI::Enum { vars, .. } => k(vars.len() as u128),
                _ => k(0),
            },
            "fabsf32" | "fabsf64" => opaque(dty),
            _ => {
                // intrinsics with a fallback body
                if let Some(i) = inst {
                    if self.body_of(i).is_some() {
                        return self.call_instance(st, i, args, dty);
                    }
                }
                return self.havoc(st, &format!("intrinsic {name}"), args, dty);
            }
        };
        let _: Option<HashMap<u8, u8>> = None;
        Some((st, r))
    }
}
fn map3(p: N, q: N, n: N, f: &mut dyn FnMut(T, T, T) -> N) -> N {
    m().map(p, &mut |m1, a| m1.map(q, &mut |m2, b| m2.map(n, &mut |_, c| f(a, b, c))))
}
pub fn new_fmt(_s: Spec) -> Value {
    agg(vec![
        Value::Scalar(m().leaf(text::nil())),
        Value::Scalar(m().cn((' ' as u128) | 3 << 29)),
        Value::Scalar(m().cn(0)),
        Value::Scalar(m().cn(0)),
    ])
}
