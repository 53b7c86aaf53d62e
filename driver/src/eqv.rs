//! Equality of byte strings and of structured values.
use crate::interp::{Interp, State};
use crate::term::*;
use crate::value::*;
use rustc_public::ty::Ty;

/// Equality of two byte strings given as pointer and length terms.
pub fn str_eq_t(p: T, l: T, q: T, k: T) -> N {
    let le = m().eq_t(l, k);
    if le == F {
        return F;
    }
    if p == q {
        return le;
    }
    let (a, b) = (m().tm(p).clone(), m().tm(q).clone());
    if let (Tm::Ptr { kind: 1, id, idx, .. }, Tm::Ptr { kind: 1, id: i2, idx: x2, .. }) = (&a, &b) {
        let n = m().const_of_t(l).or(m().const_of_t(k));
        if let Some(n) = n {
            if n <= 64 {
                let mut acc = le;
                for i in 0..n {
                    let (o1, o2) = (m().addk(*idx, i as i128), m().addk(*x2, i as i128));
                    let (u, v) = (m().load(*id, o1, 1), m().load(*i2, o2, 1));
                    let e = m().eq_t(u, v);
                    acc = m().and(acc, e);
                    if acc == F {
                        return F;
                    }
                }
                return acc;
            }
        }
        let same_start = if id == i2 { m().eq_t(*idx, *x2) } else { F };
        if same_start == TT {
            return le;
        }
        let strip = |t: &Tm| if let Tm::Ptr { kind, id, path, idx, .. } = t { m().mk(Tm::Ptr { kind: *kind, id: *id, path: path.clone(), idx: *idx, lim: NONE }) } else { NONE };
        let (mut x, mut y) = ((strip(&a), l), (strip(&b), k));
        if x > y {
            std::mem::swap(&mut x, &mut y);
        }
        let t = m().mk(Tm::Op(Op::StrEq, 1, vec![x.0, x.1, y.0, y.1]));
        let c = m().cond_in(t, &vec![(1, 1)]);
        // identical start and length are equal; otherwise the contents decide
        let c2 = m().or(same_start, c);
        return m().and(le, c2);
    }
    // empty strings are equal wherever they point
    let z = m().cond_in(l, &vec![(0, 0)]);
    let both0 = m().and(z, le);
    if both0 == le {
        return le;
    }
    let o = m().mk(Tm::Op(Op::StrEq, 1, vec![p, l, q, k]));
    let c = m().cond_in(o, &vec![(1, 1)]);
    let c = m().and(c, le);
    m().or(both0, c)
}
pub fn str_eq(p: N, l: N, q: N, k: N) -> N {
    if p == q {
        return m().ap2(Op2::Eq, l, k);
    }
    let mut acc = F;
    for (c1, tp) in m().leaves(p) {
        for (c2, tq) in m().leaves(q) {
            let c12 = m().and(c1, c2);
            if c12 == F {
                continue;
            }
            let (lr, kr) = (m().restrict(l, c12), m().restrict(k, c12));
            for (c3, tl) in m().leaves(lr) {
                let c123 = m().and(c12, c3);
                if c123 == F {
                    continue;
                }
                for (c4, tk) in m().leaves(kr) {
                    let c = m().and(c123, c4);
                    if c == F {
                        continue;
                    }
                    let e = str_eq_t(tp, tl, tq, tk);
                    let e = m().and(c, e);
                    acc = m().or(acc, e);
                }
            }
        }
    }
    acc
}

impl Interp {
    /// Structural equality of two values of type `t` (independent of PartialEq).
    pub fn deep_eq(&mut self, st: &State, t: Ty, a: &Value, b: &Value) -> N {
        if same(a, b) {
            return TT;
        }
        match (&*tyi(t), a, b) {
            (_, Value::Undef, _) | (_, _, Value::Undef) => {
                let o = m().opaque_t(1);
                m().cond_in(o, &vec![(1, 1)])
            }
            (TyI::Ptr { to, fat: true }, Value::Fat(p, l), Value::Fat(q, k)) => match &*tyi(*to) {
                TyI::Str => str_eq(*p, *l, *q, *k),
                TyI::Slice(e) if byte_like(*e) && size_of(*e) == 1 => str_eq(*p, *l, *q, *k),
                TyI::Slice(e) => {
                    let le = m().ap2(Op2::Eq, *l, *k);
                    if le == F {
                        return F;
                    }
                    let n = m().const_of(*l).or(m().const_of(*k));
                    let Some(n) = n else {
                        let pe = m().ap2(Op2::Eq, *p, *q);
                        if pe == TT {
                            return le;
                        }
                        let o = m().opaque_t(1);
                        return m().cond_in(o, &vec![(1, 1)]);
                    };
                    let mut acc = le;
                    for i in 0..n.min(4096) {
                        let x = self.slice_elem(st, *p, i as usize, *e);
                        let y = self.slice_elem(st, *q, i as usize, *e);
                        let c = self.deep_eq(st, *e, &x, &y);
                        acc = m().and(acc, c);
                    }
                    acc
                }
                _ => {
                    let o = m().opaque_t(1);
                    m().cond_in(o, &vec![(1, 1)])
                }
            },
            (TyI::Ptr { to, fat: false }, Value::Scalar(p), Value::Scalar(q)) => {
                let x = self.read_ptr(st, *p, *to);
                let y = self.read_ptr(st, *q, *to);
                self.deep_eq(st, *to, &x, &y)
            }
            (TyI::Agg(fs), Value::Agg(x), Value::Agg(y)) if fs.len() == x.len() && x.len() == y.len() => {
                let mut acc = TT;
                for (i, (_, ft)) in fs.iter().enumerate() {
                    let c = self.deep_eq(st, *ft, &x[i], &y[i]);
                    acc = m().and(acc, c);
                    if acc == F {
                        break;
                    }
                }
                acc
            }
            (TyI::Array(e, _), Value::Agg(x), Value::Agg(y)) if x.len() == y.len() => {
                let mut acc = TT;
                for (p, q) in x.iter().zip(y.iter()) {
                    let c = self.deep_eq(st, *e, p, q);
                    acc = m().and(acc, c);
                }
                acc
            }
            (TyI::Enum { vars, .. }, Value::Enum { d, vs }, Value::Enum { d: e, vs: ws }) => {
                let mut acc = m().ap2(Op2::Eq, *d, *e);
                for (i, fs) in vars.iter().enumerate() {
                    if fs.is_empty() || acc == F {
                        continue;
                    }
                    let iv = m().cn(i as u128);
                    let is = m().ap2(Op2::Eq, *d, iv);
                    let both = m().and(is, acc);
                    if both == F {
                        continue;
                    }
                    let mut fe = TT;
                    if let (Some(x), Some(y)) = (&vs[i], &ws[i]) {
                        for (j, (_, ft)) in fs.iter().enumerate() {
                            let xr = map_v(&x[j], &mut |n| m().restrict(n, both));
                            let yr = map_v(&y[j], &mut |n| m().restrict(n, both));
                            let c = self.deep_eq(st, *ft, &xr, &yr);
                            fe = m().and(fe, c);
                        }
                    }
                    // is -> fe
                    let nis = m().not(is);
                    let imp = m().or(nis, fe);
                    acc = m().and(acc, imp);
                }
                acc
            }
            (_, Value::Scalar(x), Value::Scalar(y)) => m().ap2(Op2::Eq, *x, *y),
            (_, Value::Fat(p, l), Value::Fat(q, k)) => {
                let x = m().ap2(Op2::Eq, *p, *q);
                let y = m().ap2(Op2::Eq, *l, *k);
                m().and(x, y)
            }
            (_, Value::Agg(x), Value::Agg(y)) if x.is_empty() && y.is_empty() => TT,
            _ => {
                let o = m().opaque_t(1);
                m().cond_in(o, &vec![(1, 1)])
            }
        }
    }
}
