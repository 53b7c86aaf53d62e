//! Human-readable rendering of terms, for reports and debugging.
use crate::term::*;
use crate::value::*;

pub fn term(t: T) -> String {
    term_d(t, 6)
}
pub fn term_d(t: T, d: u32) -> String {
    if t == NONE {
        return "-".into();
    }
    if d == 0 {
        return "…".into();
    }
    let g = |x: &T| term_d(*x, d - 1);
    match m().tm(t).clone() {
        Tm::C(v) => {
            if v > 9 { format!("{v:#x}") } else { format!("{v}") }
        }
        Tm::Atom { name, .. } => name.to_string(),
        Tm::Len(r) => format!("{}.len", m().regions[r as usize].name),
        Tm::Load { r, off, n } => format!("{}[{}]{}", m().regions[r as usize].name, g(&off), if n > 1 { format!(":{}", n) } else { String::new() }),
        Tm::Lin { k, ts } => {
            let mut s = String::new();
            for (c, x) in ts {
                if !s.is_empty() {
                    s.push_str(if c < 0 { " - " } else { " + " });
                } else if c < 0 {
                    s.push('-');
                }
                if c.abs() != 1 {
                    s.push_str(&format!("{}*", c.abs()));
                }
                s.push_str(&g(&x));
            }
            if k != 0 || s.is_empty() {
                s.push_str(&format!("{:+}", k));
            }
            format!("({s})")
        }
        Tm::Tab { base, tab } => format!("tab{}({})", tab, g(&base)),
        Tm::Cat(v) => format!("cat({})", v.iter().map(g).collect::<Vec<_>>().join(",")),
        Tm::Op(o, w, v) => format!("{:?}{}({})", o, w, v.iter().map(g).collect::<Vec<_>>().join(", ")),
        Tm::Ptr { kind, id, path, idx, lim } => match kind {
            1 => format!("&{}+{}{}", m().regions[id as usize].bytes.as_ref().map(|b| format!("{:?}", String::from_utf8_lossy(b))).unwrap_or(m().regions[id as usize].name.clone()), g(&idx), if lim == NONE { String::new() } else { format!("<{}", g(&lim)) }),
            0 => format!("&obj{}{:?}[{}]", id, path, if idx == NONE { "".into() } else { g(&idx) }),
            _ => format!("@{}", g(&idx)),
        },
        Tm::FnPtr(k) => format!("fn{k}"),
        Tm::Vt(k) => format!("vt{k}"),
        Tm::Phi { h, i, .. } => format!("φ{h}.{i}"),
        Tm::LoopOut { l, i, .. } => format!("out{l}.{i}"),
        Tm::Exists { l, cond } => format!("∃{l}({})", node(cond, d - 1)),
        Tm::Text(p) => format!(
            "\"{}\"",
            p.iter()
                .map(|p| match p {
                    Piece::Lit(s) => s.to_string(),
                    Piece::Str(a, b) => format!("{{str {} {}}}", g(a), g(b)),
                    Piece::Int { kind, v, .. } => format!("{{{kind} {}}}", g(v)),
                    Piece::Char(c) => format!("{{char {}}}", g(c)),
                    Piece::Pad { inner, .. } => format!("{{pad {}}}", g(inner)),
                    Piece::Unknown(k) => format!("{{?{k}}}"),
                })
                .collect::<String>()
        ),
        Tm::Opaque(k, _) => format!("?{k}"),
    }
}
pub fn node(n: N, d: u32) -> String {
    match m().nd(n).clone() {
        Nd::Leaf(t) => term(t),
        Nd::Test(v, ps) => {
            if d == 0 {
                return format!("[{}…]", term_d(v, 3));
            }
            let mut s = format!("[{}: ", term_d(v, 5));
            for (i, p) in ps.iter().enumerate() {
                if i > 12 {
                    s.push_str("..");
                    break;
                }
                if i > 0 {
                    s.push_str("; ");
                    s.push_str(&format!("{}→", m().dec(v, p.0)));
                }
                s.push_str(&node(p.1, d - 1));
            }
            s.push(']');
            s
        }
    }
}
pub fn val(v: &Value) -> String {
    match v {
        Value::Scalar(n) => node(*n, 3),
        Value::Fat(p, l) => format!("fat({}, {})", node(*p, 2), node(*l, 2)),
        Value::Agg(x) => format!("({})", x.iter().map(val).collect::<Vec<_>>().join(", ")),
        Value::Enum { d, vs } => {
            if let Some(c) = m().const_of(*d) {
                return format!("v{}({})", c, vs.get(c as usize).cloned().flatten().map(|x| x.iter().map(val).collect::<Vec<_>>().join(", ")).unwrap_or_default());
            }
            format!(
                "enum{{{}; {}}}",
                node(*d, 3),
                vs.iter()
                    .enumerate()
                    .filter_map(|(i, x)| x.as_ref().filter(|x| !x.is_empty()).map(|x| format!("v{}({})", i, x.iter().map(val).collect::<Vec<_>>().join(", "))))
                    .collect::<Vec<_>>()
                    .join(" ")
            )
        }
        Value::Undef => "undef".into(),
    }
}
pub fn n(x: N) -> String {
    node(x, 6)
}
