//! Formatted text as a sequence of pieces.
use crate::term::*;
use std::rc::Rc;

pub fn nil() -> T {
    m().mk(Tm::Text(Rc::new([])))
}
pub fn lit(s: &str) -> T {
    push(nil(), Piece::Lit(s.into()))
}
pub fn default_spec(s: &Spec) -> bool {
    s.width.is_none() && s.prec.is_none() && s.flags & 0x1f == 0
}
// flags (>> 21): bit0 '+', bit1 '-', bit2 '#', bit3 '0', bit4 x?, bit5 X?, align in bits 8..9
pub fn spec_of(flags: u32, width: u16, prec: u16) -> Spec {
    Spec {
        flags: (flags >> 21) & 0x3f | ((flags >> 29) & 3) << 8,
        fill: flags & 0x1f_ffff,
        width: (flags >> 27 & 1 == 1).then_some(width),
        prec: (flags >> 28 & 1 == 1).then_some(prec),
    }
}
fn pad_to(s: String, spec: &Spec, def_right: bool) -> String {
    let n = s.chars().count();
    let w = spec.width.unwrap_or(0) as usize;
    if n >= w {
        return s;
    }
    let fill = char::from_u32(spec.fill).unwrap_or(' ');
    let k = w - n;
    let (l, r) = match spec.flags >> 8 & 3 {
        0 => (0, k),
        1 => (k, 0),
        2 => (k / 2, k - k / 2),
        _ => if def_right { (k, 0) } else { (0, k) },
    };
    let mut o = String::new();
    for _ in 0..l { o.push(fill); }
    o.push_str(&s);
    for _ in 0..r { o.push(fill); }
    o
}
pub fn render_str(s: &str, spec: &Spec) -> String {
    let s: String = match spec.prec {
        Some(p) => s.chars().take(p as usize).collect(),
        None => s.to_string(),
    };
    pad_to(s, spec, false)
}
pub fn render_int(kind: char, w: u8, signed: bool, spec: &Spec, v: u128) -> String {
    let v = v & mask(w);
    if kind == 'f' || kind == 'F' {
        let x = if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) };
        let s = match (w, spec.prec) {
            (32, Some(p)) => format!("{:.*}", p as usize, f32::from_bits(v as u32)),
            (_, Some(p)) => format!("{:.*}", p as usize, x),
            (32, None) if kind == 'F' => format!("{:?}", f32::from_bits(v as u32)),
            (32, None) => format!("{}", f32::from_bits(v as u32)),
            (_, None) if kind == 'F' => format!("{:?}", x),
            (_, None) => format!("{}", x),
        };
        return pad_to(s, spec, true);
    }
    let neg = signed && kind == 'd' && v >> (w - 1) & 1 == 1;
    let mag = if neg { (!v).wrapping_add(1) & mask(w) } else { v };
    let digits = match kind {
        'x' => format!("{mag:x}"),
        'X' => format!("{mag:X}"),
        'b' => format!("{mag:b}"),
        'o' => format!("{mag:o}"),
        _ => format!("{mag}"),
    };
    let mut prefix = String::new();
    if neg {
        prefix.push('-');
    } else if spec.flags & 1 != 0 {
        prefix.push('+');
    }
    if spec.flags & 4 != 0 {
        match kind {
            'x' | 'X' => prefix.push_str("0x"),
            'b' => prefix.push_str("0b"),
            'o' => prefix.push_str("0o"),
            _ => {}
        }
    }
    if spec.flags & 8 != 0 {
        let w = spec.width.unwrap_or(0) as usize;
        let mut o = prefix.clone();
        while o.len() + digits.len() < w {
            o.push('0');
        }
        return o + &digits;
    }
    pad_to(prefix + &digits, spec, true)
}
fn const_str(p: T, l: T) -> Option<String> {
    let n = m().const_of_t(l)? as usize;
    if n == 0 {
        return Some(String::new());
    }
    if let Tm::Ptr { kind: 1, id, idx, .. } = m().tm(p).clone() {
        let o = m().const_of_t(idx)? as usize;
        let b = m().regions[id as usize].bytes.clone()?;
        return String::from_utf8(b.get(o..o + n)?.to_vec()).ok();
    }
    None
}
pub fn push(t: T, p: Piece) -> T {
    let mut v: Vec<Piece> = match m().tm(t) {
        Tm::Text(ps) => ps.to_vec(),
        _ => vec![Piece::Pad { spec: Spec::default(), inner: t }],
    };
    push_v(&mut v, p);
    m().mk(Tm::Text(v.into()))
}
fn push_v(v_: &mut Vec<Piece>, p: Piece) {
    let p = match p {
        Piece::Str(a, b) => match const_str(a, b) {
            Some(s) => Piece::Lit(s.into()),
            None => Piece::Str(a, b),
        },
        Piece::Int { kind, w, signed, spec, v } => match m().const_of_t(v) {
            Some(c) => Piece::Lit(render_int(kind, w, signed, &spec, c).into()),
            None => {
                // u8/u16/... print alike
                let (_, hi) = m().range(v);
                let signed = signed && hi >= 1i128 << (w - 1).min(120);
                // "#": the prefix is text of its own where nothing comes before it
                let (mut spec, mut v0) = (spec, None);
                if kind != 'f' && kind != 'F' {
                    spec.prec = None; // means nothing for integers
                }
                spec.flags &= !2;
                if kind == 'd' {
                    spec.flags &= !4;
                }
                let zero = spec.flags & 8 != 0;
                if spec.flags & 4 != 0 && matches!(kind, 'x' | 'X' | 'b' | 'o') && (zero || spec.width.is_none()) && spec.flags & 1 == 0 {
                    spec.flags &= !4;
                    spec.width = spec.width.map(|w| w.saturating_sub(2));
                    v0 = Some(match kind { 'b' => "0b", 'o' => "0o", _ => "0x" });
                }
                // zero padding that never happens
                if zero {
                    let w = spec.width.unwrap_or(0);
                    if w <= 1 {
                        spec.flags &= !8;
                        spec.width = None;
                    } else {
                        spec.fill = ' ' as u32;
                        spec.flags |= 3 << 8;
                    }
                }
                if let Some(x) = v0 {
                    push_v(v_, Piece::Lit(x.into()));
                }
                let w2 = if signed || kind == 'f' || kind == 'F' { w } else { 128 };
                Piece::Int { kind, w: w2, signed, spec, v }
            }
        },
        Piece::Char(c) => match m().const_of_t(c).and_then(|c| char::from_u32(c as u32)) {
            Some(ch) => Piece::Lit(ch.to_string().into()),
            None => Piece::Char(c),
        },
        Piece::Pad { spec, inner } => match m().tm(inner).clone() {
            Tm::Text(ps) if ps.iter().all(|p| matches!(p, Piece::Lit(_))) => {
                let s: String = ps.iter().map(|p| if let Piece::Lit(s) = p { s.to_string() } else { String::new() }).collect();
                Piece::Lit(render_str(&s, &spec).into())
            }
            Tm::Text(ps) if spec == Spec::default() => {
                for q in ps.iter() {
                    push_v(v_, q.clone());
                }
                return;
            }
            _ => Piece::Pad { spec, inner },
        },
        x => x,
    };
    if let Piece::Lit(s) = &p {
        if s.is_empty() {
            return;
        }
        if let Some(Piece::Lit(l)) = v_.last_mut() {
            *l = format!("{l}{s}").into();
            return;
        }
    }
    v_.push(p);
}
pub fn cat(a: T, b: T) -> T {
    match m().tm(b).clone() {
        Tm::Text(ps) => {
            if ps.is_empty() {
                return a;
            }
            let mut v: Vec<Piece> = match m().tm(a) {
                Tm::Text(ps) => ps.to_vec(),
                _ => vec![Piece::Pad { spec: Spec::default(), inner: a }],
            };
            for p in ps.iter() {
                push_v(&mut v, p.clone());
            }
            m().mk(Tm::Text(v.into()))
        }
        _ => push(a, Piece::Pad { spec: Spec::default(), inner: b }),
    }
}
pub fn text_eq(a: &[Piece], b: &[Piece]) -> N {
    let mut a: Vec<Piece> = a.to_vec();
    let mut b: Vec<Piece> = b.to_vec();
    // common prefix
    loop {
        if a.is_empty() || b.is_empty() {
            break;
        }
        if a[0] == b[0] {
            a.remove(0);
            b.remove(0);
            continue;
        }
        if let (Piece::Lit(x), Piece::Lit(y)) = (&a[0], &b[0]) {
            let (x, y) = (x.clone(), y.clone());
            if x.starts_with(&*y) {
                a[0] = Piece::Lit(x[y.len()..].into());
                b.remove(0);
                continue;
            }
            if y.starts_with(&*x) {
                b[0] = Piece::Lit(y[x.len()..].into());
                a.remove(0);
                continue;
            }
            return F;
        }
        break;
    }
    loop {
        if a.is_empty() || b.is_empty() {
            break;
        }
        let (x, y) = (a.last().unwrap().clone(), b.last().unwrap().clone());
        if x == y {
            a.pop();
            b.pop();
            continue;
        }
        if let (Piece::Lit(x), Piece::Lit(y)) = (&x, &y) {
            if x.ends_with(&**y) {
                let n = x.len() - y.len();
                *a.last_mut().unwrap() = Piece::Lit(x[..n].into());
                b.pop();
                continue;
            }
            if y.ends_with(&**x) {
                let n = y.len() - x.len();
                *b.last_mut().unwrap() = Piece::Lit(y[..n].into());
                a.pop();
                continue;
            }
            return F;
        }
        break;
    }
    if a.is_empty() && b.is_empty() {
        return TT;
    }
    if a.is_empty() {
        std::mem::swap(&mut a, &mut b);
    }
    if b.is_empty() {
        let mut acc = TT;
        for p in &a {
            match p {
                Piece::Lit(_) => return F,
                Piece::Str(_, l) => {
                    let c = m().cond_in(*l, &vec![(0, 0)]);
                    acc = m().and(acc, c);
                }
                Piece::Int { .. } | Piece::Char(_) => return F,
                _ => {
                    let ta = m().mk(Tm::Text(a.clone().into()));
                    let tb = nil();
                    let t = m().mk(Tm::Op(Op::EqOp, 1, vec![ta.min(tb), ta.max(tb)]));
                    return m().cond_in(t, &vec![(1, 1)]);
                }
            }
        }
        return acc;
    }
    if a.len() == 1 && b.len() == 1 {
        match (&a[0], &b[0]) {
            (Piece::Int { kind, w, signed, spec, v }, Piece::Int { kind: k2, w: w2, signed: s2, spec: sp2, v: v2 }) if kind == k2 && w == w2 && signed == s2 && spec == sp2 && *kind != 'f' && *kind != 'F' => {
                return m().eq_t(*v, *v2);
            }
            (Piece::Str(p, l), Piece::Str(p2, l2)) => {
                return crate::eqv::str_eq_t(*p, *l, *p2, *l2);
            }
            (Piece::Str(p, l), Piece::Lit(s)) | (Piece::Lit(s), Piece::Str(p, l)) => {
                let (cp, cl) = crate::value::const_region(s.as_bytes());
                let (cp, cl) = (m().is_leaf(cp).unwrap(), m().is_leaf(cl).unwrap());
                return crate::eqv::str_eq_t(*p, *l, cp, cl);
            }
            _ => {}
        }
    }
    let ta = m().mk(Tm::Text(a.into()));
    let tb = m().mk(Tm::Text(b.into()));
    let t = m().mk(Tm::Op(Op::EqOp, 1, vec![ta.min(tb), ta.max(tb)]));
    m().cond_in(t, &vec![(1, 1)])
}
