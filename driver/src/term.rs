//! Value domain: hash-consed terms and interval decision diagrams (IDDs) over them.
//!
//! Every scalar the analysis tracks is an IDD: inner nodes test a term against a partition of its
//! value range, leaves are terms. Booleans are IDDs with leaves 0/1.
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;
pub type N = u32;
pub const F: N = 0;
pub const TT: N = 1;
pub const NONE: T = u32::MAX;
pub const BIG: i128 = 1 << 126;
/// `Op::Misc` code of "this loop never ends"
pub const DIVERGES: u32 = 998;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Op {
    Add, Sub, Mul, Div, Rem, And, Or, Xor, Shl, Shr, Sar, SExt(u8), Trunc, SDiv, SRem,
    Ctpop, Ctlz, Cttz, Bswap, Bitrev,
    /// boolean facts about byte strings: region pointer, length
    Utf8Ok,
    /// 1 iff the two byte strings (p1,l1,p2,l2) are equal
    StrEq,
    /// three-way comparison of byte strings, as i32 bits
    StrCmp,
    /// unsigned / signed comparison kept as an opaque boolean
    Ult, Slt, EqOp,
    /// select byte i of an array value
    Misc(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Tm {
    C(u128),
    Atom { name: Rc<str>, w: u8 },
    Len(u32),
    Load { r: u32, off: T, n: u8 },
    Lin { k: i128, ts: Vec<(i128, T)> },
    Tab { base: T, tab: u32 },
    Cat(Vec<T>),
    Op(Op, u8, Vec<T>),
    /// pointer: kind 0 = object, 1 = byte region, 2 = dangling/integer
    Ptr { kind: u8, id: u32, path: Rc<[u32]>, idx: T, lim: T },
    FnPtr(u32),
    Vt(u32),
    Phi { h: u32, i: u32, w: u8 },
    LoopOut { l: u32, i: u32, w: u8 },
    Exists { l: u32, cond: N },
    Text(Rc<[Piece]>),
    Opaque(u32, u8),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Piece {
    Lit(Rc<str>),
    /// bytes of a string: pointer term, length term
    Str(T, T),
    /// integer: kind ('d','x','X','b','o'), width bits, signed, flags word, fill/width/precision spec, value
    Int { kind: char, w: u8, signed: bool, spec: Spec, v: T },
    Char(T),
    /// padded sub-text
    Pad { spec: Spec, inner: T },
    Unknown(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct Spec {
    pub flags: u32,
    pub fill: u32,
    pub width: Option<u16>,
    pub prec: Option<u16>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Nd {
    Leaf(T),
    Test(T, Rc<[(u128, N)]>),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op2 {
    And, Or,
    Bin(Op, u8),
    Eq,
    Ult,
    Slt(u8),
    /// mathematical sum / difference (exactness established by the caller)
    MAdd, MSub, MMul,
    /// overflow predicates at width w
    OvAdd(u8), OvSub(u8), OvMul(u8), OvSAdd(u8), OvSSub(u8), OvSMul(u8),
    /// pointer plus element offset (in elements of the pointee)
    PtrAdd,
    /// set pointer limit to idx+len
    PtrLim,
    /// byte at pointer + offset
    LoadAt(u8),
    PtrDiff,
    TextCat,
    /// combine bytes: a | b << 8*n
    CatHi(u8),
}

pub type Set = Vec<(i128, i128)>;

#[derive(Clone)]
pub struct Region {
    pub name: String,
    /// Some for constant data
    pub bytes: Option<Rc<[u8]>>,
    /// leading bytes that are given
    pub known: HashMap<usize, u8>,
    pub len: T,
}

#[derive(Clone, Debug)]
pub struct LoopDef {
    pub h: u32,
    /// (init, next, width) per cell; cell 0 is the iteration counter
    pub cells: Vec<(N, N, u8)>,
    pub cont: N,
    pub entry: N,
}

#[derive(Default)]
pub struct Mgr {
    pub terms: Vec<Tm>,
    tmap: HashMap<Tm, T>,
    pub nodes: Vec<Nd>,
    nmap: HashMap<Nd, N>,
    memo2: HashMap<(Op2, N, N), N>,
    memo_ite: HashMap<(N, N, N), N>,
    memo_restrict: HashMap<(N, N), N>,
    pub tabs: Vec<Rc<[i128]>>,
    tabmap: HashMap<Rc<[i128]>, u32>,
    rng: Vec<(i128, i128)>,
    b8: Vec<T>,
    pub regions: Vec<Region>,
    pub loops: Vec<LoopDef>,
    pub loopmap: HashMap<(Vec<(N, N, u8)>, N, N), u32>,
    pub opaque: u32,
    /// condition (over LoopOut terms) known to hold after a loop
    pub posts: HashMap<u32, N>,
    pub feas_memo: HashMap<(N, u32), bool>,
}

static mut MGR: *mut Mgr = std::ptr::null_mut();
pub fn m() -> &'static mut Mgr {
    unsafe {
        if MGR.is_null() {
            MGR = Box::into_raw(Box::new(Mgr::new()));
        }
        &mut *MGR
    }
}
static mut CLOCK: Option<(std::time::Instant, u64)> = None;
pub static mut FOUND: bool = false;
static mut BEGAN: Option<std::time::Instant> = None;
/// Time for one entry: its own limit, and what the run as a whole has left.
pub fn start_clock() {
    let get = |k: &str, d: u64| std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    let began = unsafe { *(&raw mut BEGAN).as_mut().unwrap().get_or_insert_with(std::time::Instant::now) };
    let left = get("DMI_TOTAL", 100000).saturating_sub(began.elapsed().as_secs());
    // (with something to report already, the rest is looked at briefly)
    let some = if unsafe { FOUND } { 15 } else { u64::MAX };
    start_clock_for(get("DMI_DEADLINE", 60).min(left.max(3)).min(some));
}
pub fn start_clock_for(secs: u64) {
    unsafe { CLOCK = Some((std::time::Instant::now(), secs)) }
}
/// Give up on the entry being analysed when its time is used up.
pub fn tick() {
    unsafe {
        if let Some((t, s)) = CLOCK {
            if t.elapsed().as_secs() >= s {
                CLOCK = None;
                panic!("time limit");
            }
        }
    }
}
/// Give up on the entry when its time or its memory is used up.
fn weigh() {
    tick();
    let pages = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0);
    let limit = std::env::var("DMI_MEM_MB").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(5000);
    if pages * 4096 >> 20 > limit {
        unsafe { CLOCK = None }
        panic!("memory limit");
    }
}
unsafe extern "C" {
    fn malloc_trim(pad: usize) -> i32;
}
pub fn reset() {
    unsafe {
        if !MGR.is_null() {
            drop(Box::from_raw(MGR));
            MGR = std::ptr::null_mut();
            malloc_trim(0);
        }
        MGR = Box::into_raw(Box::new(Mgr::new()));
    }
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
fn clampi(v: u128) -> i128 {
    if v > BIG as u128 { BIG } else { v as i128 }
}
fn sat(a: i128) -> i128 {
    a.clamp(-BIG, BIG)
}
fn satmul(a: i128, b: i128) -> i128 {
    a.checked_mul(b).map(sat).unwrap_or(if (a < 0) != (b < 0) { -BIG } else { BIG })
}

impl Mgr {
    pub fn new() -> Self {
        let mut s = Mgr::default();
        assert_eq!(s.mk(Tm::C(0)), 0);
        assert_eq!(s.mk(Tm::C(1)), 1);
        assert_eq!(s.leaf(0), F);
        assert_eq!(s.leaf(1), TT);
        s
    }
    pub fn tm(&self, t: T) -> &Tm {
        &self.terms[t as usize]
    }
    pub fn mk(&mut self, t: Tm) -> T {
        if let Some(&i) = self.tmap.get(&t) {
            return i;
        }
        let r = self.range_of(&t);
        let i = self.terms.len() as T;
        let b8 = match &t {
            Tm::Tab { base, .. } => *base,
            Tm::Load { n: 1, .. } => i,
            Tm::Atom { w, .. } | Tm::Phi { w, .. } | Tm::LoopOut { w, .. } if *w <= 8 => i,
            Tm::Lin { ts, .. } if ts.len() == 1 => self.b8[ts[0].1 as usize],
            Tm::Op(_, w, _) if *w <= 8 => i,
            _ => NONE,
        };
        self.terms.push(t.clone());
        self.rng.push(r);
        self.b8.push(b8);
        self.tmap.insert(t, i);
        i
    }
    pub fn c(&mut self, v: u128) -> T {
        self.mk(Tm::C(v))
    }
    pub fn cn(&mut self, v: u128) -> N {
        let t = self.c(v);
        self.leaf(t)
    }
    pub fn leaf(&mut self, t: T) -> N {
        self.node(Nd::Leaf(t))
    }
    fn node(&mut self, n: Nd) -> N {
        if let Some(&i) = self.nmap.get(&n) {
            return i;
        }
        let i = self.nodes.len() as N;
        if i & 0xffff == 0xffff {
            weigh();
        }
        self.nodes.push(n.clone());
        self.nmap.insert(n, i);
        i
    }
    pub fn nd(&self, n: N) -> &Nd {
        &self.nodes[n as usize]
    }
    pub fn is_leaf(&self, n: N) -> Option<T> {
        match self.nd(n) {
            Nd::Leaf(t) => Some(*t),
            _ => None,
        }
    }
    pub fn const_of_t(&self, t: T) -> Option<u128> {
        match self.tm(t) {
            Tm::C(v) => Some(*v),
            _ => None,
        }
    }
    pub fn const_of(&self, n: N) -> Option<u128> {
        self.is_leaf(n).and_then(|t| self.const_of_t(t))
    }
    pub fn opaque_t(&mut self, w: u8) -> T {
        self.opaque += 1;
        if std::env::var("OPQ").is_ok() { eprintln!("OPQ {} {}", self.opaque, std::backtrace::Backtrace::force_capture().to_string().lines().filter(|l| l.contains("dmistat::")).take(7).map(|l| l.trim().to_string()).collect::<Vec<_>>().join(" < ")); }
        let o = self.opaque;
        self.mk(Tm::Opaque(o, w))
    }
    pub fn opaque_n(&mut self, w: u8) -> N {
        let t = self.opaque_t(w);
        self.leaf(t)
    }
    pub fn range(&self, t: T) -> (i128, i128) {
        self.rng[t as usize]
    }
    fn range_of(&self, t: &Tm) -> (i128, i128) {
        let full = |w: u8| (0, clampi(mask(w)));
        match t {
            Tm::C(v) => (clampi(*v), clampi(*v)),
            Tm::Atom { w, .. } => full(*w),
            Tm::Len(_) => (0, (1 << 63) - 1),
            Tm::Load { n, .. } => full(n.saturating_mul(8).min(128)),
            Tm::Lin { k, ts } => {
                let (mut lo, mut hi) = (*k, *k);
                for (c, t) in ts {
                    let (l, h) = self.range(*t);
                    let (a, b) = (satmul(*c, l), satmul(*c, h));
                    lo = sat(lo + a.min(b));
                    hi = sat(hi + a.max(b));
                }
                (lo, hi)
            }
            Tm::Tab { tab, .. } => {
                let t = &self.tabs[*tab as usize];
                (*t.iter().min().unwrap(), *t.iter().max().unwrap())
            }
            Tm::Cat(v) => {
                let hi = self.range(*v.last().unwrap()).1;
                let sh = 8 * (v.len() - 1);
                if sh + 8 > 126 { (0, BIG) } else { (0, (hi << sh) + ((1 << sh) - 1)) }
            }
            Tm::Op(op, w, a) => match op {
                Op::And => (0, a.iter().map(|x| self.range(*x).1).min().unwrap().min(full(*w).1)),
                Op::Rem => {
                    let (_, h) = self.range(a[1]);
                    (0, self.range(a[0]).1.min((h - 1).max(0)))
                }
                Op::Div => {
                    let (l, _) = self.range(a[1]);
                    (0, self.range(a[0]).1 / l.max(1))
                }
                Op::Shr => {
                    let (l, _) = self.range(a[1]);
                    (0, self.range(a[0]).1 >> l.clamp(0, 126))
                }
                Op::Mul if a.len() == 2 => {
                    let p = satmul(self.range(a[0]).1, self.range(a[1]).1);
                    (0, p.min(full(*w).1))
                }
                Op::Ult | Op::Slt | Op::EqOp | Op::Utf8Ok | Op::StrEq => (0, 1),
                Op::Ctpop | Op::Ctlz | Op::Cttz => (0, 128),
                _ => full(*w),
            },
            Tm::Phi { w, .. } | Tm::LoopOut { w, .. } => full(*w),
            Tm::Exists { .. } => (0, 1),
            Tm::Opaque(_, w) => full(*w),
            _ => (0, BIG),
        }
    }

    // ---------------------------------------------------------------- linear forms
    pub fn as_lin(&self, t: T) -> (i128, Vec<(i128, T)>) {
        match self.tm(t) {
            Tm::C(v) if *v <= BIG as u128 => (*v as i128, vec![]),
            Tm::Lin { k, ts } => (*k, ts.clone()),
            _ => (0, vec![(1, t)]),
        }
    }
    pub fn mk_lin(&mut self, k: i128, ts: Vec<(i128, T)>) -> T {
        let mut k = k;
        let mut v: Vec<(i128, T)> = vec![];
        let mut flat = vec![];
        for (c, t) in ts {
            let (k2, ts2) = self.as_lin(t);
            k = sat(k + satmul(c, k2));
            for (c2, t2) in ts2 {
                flat.push((satmul(c, c2), t2));
            }
        }
        flat.sort_by_key(|x| x.1);
        for (c, t) in flat {
            match v.last_mut() {
                Some(l) if l.1 == t => l.0 += c,
                _ => v.push((c, t)),
            }
        }
        v.retain(|x| x.0 != 0);
        // merge functions of one byte
        let mut bases: Vec<T> = v
            .iter()
            .filter(|x| matches!(self.tm(x.1), Tm::Tab { .. }))
            .map(|x| self.b8[x.1 as usize])
            .collect();
        bases.sort();
        bases.dedup();
        for b in bases {
            let grp: Vec<(i128, T)> = v.iter().filter(|x| self.b8[x.1 as usize] == b).cloned().collect();
            if grp.len() == 1 && v.len() > 1 && grp[0].0 == 1 {
                // keep as is, but move tab[0] offset out for a canonical form
            }
            let mut tab = vec![0i128; 256];
            for (c, t) in &grp {
                let tt = self.table(*t);
                for i in 0..256 {
                    tab[i] += c * tt[i];
                }
            }
            v.retain(|x| self.b8[x.1 as usize] != b);
            let hi = self.range(b).1.clamp(0, 255) as usize;
            let d = if hi >= 1 { tab[1] - tab[0] } else { 0 };
            if (0..=hi).all(|i| tab[i] == tab[0] + d * i as i128) {
                k = sat(k + tab[0]);
                if d != 0 {
                    v.push((d, b));
                }
            } else if v.is_empty() && k == 0 {
                let t = self.mk_tab(b, tab);
                return t;
            } else {
                let k0 = tab[0];
                k = sat(k + k0);
                for x in tab.iter_mut() {
                    *x -= k0;
                }
                if v.is_empty() {
                    for x in tab.iter_mut() {
                        *x += k;
                    }
                    return self.mk_tab(b, tab);
                }
                let g = {
                    // sign-normalise so that t and -t share the table
                    let f = tab.iter().find(|x| **x != 0).copied().unwrap();
                    if f < 0 { -1 } else { 1 }
                };
                for x in tab.iter_mut() {
                    *x *= g;
                }
                let t = self.mk_tab(b, tab);
                v.push((g, t));
            }
        }
        v.sort_by_key(|x| x.1);
        if v.is_empty() {
            if k < 0 {
                // negative constant: only meaningful as a mathematical value
                return self.mk(Tm::Lin { k, ts: vec![] });
            }
            return self.c(k as u128);
        }
        if k == 0 && v.len() == 1 && v[0].0 == 1 {
            return v[0].1;
        }
        if k == 0 && v.len() > 1 {
            if let Some(t) = self.lin_as_load(&v) {
                return t;
            }
        }
        self.mk(Tm::Lin { k, ts: v })
    }
    fn lin_as_load(&mut self, v: &[(i128, T)]) -> Option<T> {
        let mut bytes: Vec<T> = vec![NONE; 16];
        for (c, t) in v {
            if *c <= 0 {
                return None;
            }
            let lg = c.trailing_zeros();
            if *c != 1i128 << lg || lg % 8 != 0 {
                return None;
            }
            let n = match self.tm(*t) {
                Tm::Load { n, .. } => *n as usize,
                _ => return None,
            };
            let bs = self.bytes_of(*t, n)?;
            for (i, b) in bs.into_iter().enumerate() {
                let p = lg as usize / 8 + i;
                if p >= 16 || bytes[p] != NONE {
                    return None;
                }
                bytes[p] = b;
            }
        }
        let n = bytes.iter().rposition(|b| *b != NONE)? + 1;
        let bs = bytes[..n].to_vec();
        if bs.iter().any(|b| *b == NONE) {
            return None;
        }
        let t = self.mk_cat(bs);
        matches!(self.tm(t), Tm::Load { .. }).then_some(t)
    }
    pub fn lin2(&mut self, ca: i128, a: T, cb: i128, b: T) -> T {
        self.mk_lin(0, vec![(ca, a), (cb, b)])
    }
    pub fn addk(&mut self, a: T, k: i128) -> T {
        self.mk_lin(k, vec![(1, a)])
    }

    // ---------------------------------------------------------------- byte tables
    pub fn base8(&self, t: T) -> T {
        self.b8[t as usize]
    }
    pub fn table(&self, t: T) -> Vec<i128> {
        match self.tm(t) {
            Tm::Tab { tab, .. } => self.tabs[*tab as usize].to_vec(),
            Tm::C(v) => vec![*v as i128; 256],
            Tm::Lin { k, ts } => {
                let inner = self.table(ts[0].1);
                inner.iter().map(|x| k + ts[0].0 * x).collect()
            }
            _ => (0..256).collect(),
        }
    }
    pub fn mk_tab(&mut self, base: T, mut tab: Vec<i128>) -> T {
        let hi = self.range(base).1.clamp(0, 255) as usize;
        for i in hi + 1..256 {
            tab[i] = tab[hi];
        }
        if tab.iter().all(|x| *x == tab[0]) && tab[0] >= 0 {
            return self.c(tab[0] as u128);
        }
        if (0..=hi).all(|i| tab[i] == i as i128) {
            return base;
        }
        let d = tab[1] - tab[0];
        if (0..=hi).all(|i| tab[i] == tab[0] + d * i as i128) {
            return self.mk(Tm::Lin { k: tab[0], ts: vec![(d, base)] });
        }
        let rc: Rc<[i128]> = tab.into();
        let id = match self.tabmap.get(&rc) {
            Some(i) => *i,
            None => {
                let i = self.tabs.len() as u32;
                self.tabs.push(rc.clone());
                self.tabmap.insert(rc, i);
                i
            }
        };
        self.mk(Tm::Tab { base, tab: id })
    }

    // ---------------------------------------------------------------- bytes
    pub fn bytes_of(&mut self, t: T, n: usize) -> Option<Vec<T>> {
        let v: Vec<T> = match self.tm(t).clone() {
            Tm::C(v) => (0..16).map(|i| ((v >> (8 * i)) & 0xff) as u8).map(|b| self.c(b as u128)).collect(),
            Tm::Load { r, off, n } => (0..n)
                .map(|i| {
                    let o = self.addk(off, i as i128);
                    self.load(r, o, 1)
                })
                .collect(),
            Tm::Cat(v) => v,
            Tm::Lin { k: 0, ts } if ts.iter().all(|x| x.0 > 0 && (x.0 as u128).is_power_of_two() && x.0.trailing_zeros() % 8 == 0) => {
                let mut out = vec![0; 16];
                for (c, t) in ts {
                    let p = (c.trailing_zeros() / 8) as usize;
                    let (lo, hi) = self.range(t);
                    if lo < 0 {
                        return None;
                    }
                    let nb = (0..16).find(|i| hi < 1i128 << (8 * (i + 1)).min(126)).unwrap_or(16) + 1;
                    let bs = self.bytes_of(t, nb)?;
                    for (i, b) in bs.into_iter().enumerate() {
                        if b == 0 {
                            continue;
                        }
                        if p + i >= 16 || out[p + i] != 0 {
                            return None;
                        }
                        out[p + i] = b;
                    }
                }
                out
            }
            _ => {
                let (lo, hi) = self.range(t);
                if lo >= 0 && hi <= 255 { vec![t] } else { return None }
            }
        };
        let mut v = v;
        if v.len() < n {
            v.resize(n, 0);
        }
        if v[n..].iter().any(|x| *x != 0) {
            v.truncate(n);
        }
        v.truncate(n);
        Some(v)
    }
    pub fn mk_cat(&mut self, mut v: Vec<T>) -> T {
        while v.len() > 1 && *v.last().unwrap() == 0 {
            v.pop();
        }
        if v.len() == 1 {
            return v[0];
        }
        if v.iter().all(|t| self.const_of_t(*t).is_some()) {
            let mut r = 0u128;
            for (i, t) in v.iter().enumerate() {
                r |= self.const_of_t(*t).unwrap() << (8 * i);
            }
            return self.c(r);
        }
        if v[0] == 0 {
            let z = v.iter().position(|x| *x != 0).unwrap();
            let rest = v[z..].to_vec();
            let t = self.mk_cat(rest);
            if 8 * v.len() <= 120 {
                return self.mk_lin(0, vec![(1i128 << (8 * z), t)]);
            }
            return self.mk(Tm::Cat(v));
        }
        // contiguous loads
        if let Tm::Load { r, off, n: 1 } = *self.tm(v[0]) {
            let mut ok = true;
            for (i, t) in v.iter().enumerate().skip(1) {
                let o = self.addk(off, i as i128);
                match self.tm(*t) {
                    Tm::Load { r: r2, off: o2, n: 1 } if *r2 == r && *o2 == o => {}
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                return self.mk(Tm::Load { r, off, n: v.len() as u8 });
            }
        }
        self.mk(Tm::Cat(v))
    }
    pub fn load(&mut self, r: u32, off: T, n: u8) -> T {
        if let (Some(b), Some(o)) = (self.regions[r as usize].bytes.clone(), self.const_of_t(off)) {
            let o = o as usize;
            if o.checked_add(n as usize).map(|e| e <= b.len()).unwrap_or(false) {
                let mut v = 0u128;
                for i in (0..n as usize).rev() {
                    v = (v << 8) | b[o + i] as u128;
                }
                return self.c(v);
            }
        }
        // a constant table indexed by a function of one byte
        if let (Some(b), true) = (self.regions[r as usize].bytes.clone(), n <= 8) {
            let base = self.base8(off);
            if base != NONE {
                let at = |o: i128| {
                    if o < 0 || o + n as i128 > b.len() as i128 {
                        return 0; // such a read is reported where it happens
                    }
                    (0..n as usize).rev().fold(0i128, |v, i| v << 8 | b[o as usize + i] as i128)
                };
                let tab: Vec<i128> = self.table(off).into_iter().map(at).collect();
                return self.mk_tab(base, tab);
            }
        }
        if let Some(o) = self.const_of_t(off) {
            let k = &self.regions[r as usize].known;
            if !k.is_empty() {
                let bs: Option<Vec<u8>> = (0..n as usize).map(|i| k.get(&(o as usize + i)).copied()).collect();
                if let Some(bs) = bs {
                    let v = bs.iter().rev().fold(0u128, |v, b| v << 8 | *b as u128);
                    return self.c(v);
                }
            }
        }
        self.mk(Tm::Load { r, off, n })
    }

    // ---------------------------------------------------------------- operations on terms
    pub fn fold(op: Op, w: u8, a: u128, b: u128) -> Option<u128> {
        let mk = mask(w);
        let sg = |v: u128| -> i128 {
            if w >= 128 { v as i128 } else if v >> (w - 1) & 1 == 1 { v as i128 - (1i128 << w) } else { v as i128 }
        };
        Some(match op {
            Op::Add => a.wrapping_add(b) & mk,
            Op::Sub => a.wrapping_sub(b) & mk,
            Op::Mul => a.wrapping_mul(b) & mk,
            Op::Div => a.checked_div(b)?,
            Op::Rem => a.checked_rem(b)?,
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Shl => if b >= 128 { 0 } else { (a << b) & mk },
            Op::Shr => if b >= 128 { 0 } else { (a & mk) >> b },
            Op::Sar => (sg(a) >> b.min(127)) as u128 & mk,
            Op::SDiv => sg(a).checked_div(sg(b))? as u128 & mk,
            Op::SRem => sg(a).checked_rem(sg(b))? as u128 & mk,
            Op::Trunc => a & mk,
            Op::SExt(from) => {
                let v = if from < 128 && a >> (from - 1) & 1 == 1 { a | !mask(from) } else { a };
                v & mk
            }
            Op::Ctpop => a.count_ones() as u128,
            Op::Ctlz => (a & mk).leading_zeros() as u128 - (128 - w as u128),
            Op::Cttz => if a & mk == 0 { w as u128 } else { a.trailing_zeros() as u128 },
            Op::Bswap => {
                let mut r = 0;
                for i in 0..w / 8 {
                    r = (r << 8) | (a >> (8 * i) & 0xff);
                }
                r
            }
            Op::Bitrev => {
                let mut r = 0;
                for i in 0..w {
                    r = (r << 1) | (a >> i & 1);
                }
                r
            }
            Op::Ult => (a < b) as u128,
            Op::Slt => (sg(a) < sg(b)) as u128,
            Op::EqOp => (a == b) as u128,
            _ => return None,
        })
    }
    pub fn op1(&mut self, op: Op, w: u8, a: T) -> T {
        if let Some(v) = self.const_of_t(a) {
            if let Some(r) = Self::fold(op, w, v, 0) {
                return self.c(r);
            }
        }
        let b = self.base8(a);
        if b != NONE && w <= 127 {
            let ta = self.table(a);
            let tab: Option<Vec<i128>> = ta.iter().map(|x| Self::fold(op, w, *x as u128 & mask(w.max(64)), 0).map(|v| v as i128)).collect();
            if let Some(tab) = tab {
                return self.mk_tab(b, tab);
            }
        }
        match op {
            Op::Trunc => {
                let (lo, hi) = self.range(a);
                if lo >= 0 && hi <= clampi(mask(w)) {
                    return a;
                }
                if w == 1 {
                    let one = 1;
                    return self.op2(Op::And, 8, a, one);
                }
                if w % 8 == 0 {
                    if let Some(bs) = self.bytes_of(a, (w / 8) as usize) {
                        return self.mk_cat(bs);
                    }
                    if let Tm::Op(o @ (Op::Add | Op::Sub | Op::Mul | Op::Trunc), w2, args) = self.tm(a).clone() {
                        if w2 >= w {
                            if o == Op::Trunc {
                                return self.op1(Op::Trunc, w, args[0]);
                            }
                        }
                    }
                }
            }
            Op::SExt(from) => {
                let (_, hi) = self.range(a);
                if hi < 1i128 << (from - 1) {
                    return a;
                }
            }
            Op::Bswap => {
                if let Some(mut bs) = self.bytes_of(a, (w / 8) as usize) {
                    bs.reverse();
                    return self.mk_cat(bs);
                }
            }
            _ => {}
        }
        self.mk(Tm::Op(op, w, vec![a]))
    }
    pub fn op2(&mut self, op: Op, w: u8, a: T, b: T) -> T {
        let (ca, cb) = (self.const_of_t(a), self.const_of_t(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = Self::fold(op, w, x, y) {
                return self.c(r);
            }
        }
        // constant masks and shifts distribute over byte-wise or
        if w == 8 && matches!(op, Op::And | Op::Shl | Op::Shr) {
            for (x, cst, first) in [(a, cb, true), (b, ca, false)] {
                if !first && op != Op::And {
                    continue;
                }
                if let (Some(cv), Tm::Op(Op::Or, _, args)) = (cst, self.tm(x).clone()) {
                    let cc = self.c(cv);
                    let mut acc = 0;
                    for y in args {
                        let z = self.op2(op, 8, y, cc);
                        acc = self.op2(Op::Or, 8, acc, z);
                    }
                    return acc;
                }
            }
        }
        let (ba, bb) = (self.base8(a), self.base8(b));
        let base = if ba != NONE && (bb == ba || cb.is_some()) {
            ba
        } else if bb != NONE && ca.is_some() {
            bb
        } else {
            NONE
        };
        if base != NONE && w <= 127 {
            let (x, y) = (self.table(a), self.table(b));
            let mw = mask(w);
            let tab: Option<Vec<i128>> = (0..256)
                .map(|i| Self::fold(op, w, x[i] as u128 & mw, y[i] as u128 & mw).map(|v| v as i128))
                .collect();
            if let Some(tab) = tab {
                return self.mk_tab(base, tab);
            }
        }
        let fits = |s: &Self, t: T| {
            let (l, h) = s.range(t);
            l >= 0 && h <= clampi(mask(w)) && h < BIG
        };
        match op {
            Op::Add | Op::Sub => {
                let t = self.lin2(1, a, if op == Op::Add { 1 } else { -1 }, b);
                if fits(self, t) {
                    return t;
                }
                if op == Op::Sub && a == b {
                    return 0;
                }
                let mut v = vec![a, b];
                if op == Op::Add {
                    v.sort();
                }
                if cb == Some(0) {
                    return a;
                }
                return self.mk(Tm::Op(op, w, v));
            }
            Op::Mul => {
                let (t, c) = match (ca, cb) {
                    (Some(c), _) => (b, Some(c)),
                    (_, Some(c)) => (a, Some(c)),
                    _ => (a, None),
                };
                if let Some(c) = c {
                    if c <= 1 << 64 {
                        let r = self.mk_lin(0, vec![(c as i128, t)]);
                        if fits(self, r) {
                            return r;
                        }
                    }
                }
                let mut v = vec![a, b];
                v.sort();
                let (ra, rb) = (self.range(a), self.range(b));
                let w = if ra.0 >= 0 && rb.0 >= 0 && satmul(ra.1, rb.1) <= clampi(mask(w)) { 127 } else { w };
                return self.mk(Tm::Op(op, w, v));
            }
            Op::Shl => {
                if let Some(s) = cb {
                    if s < 64 {
                        let r = self.mk_lin(0, vec![(1i128 << s, a)]);
                        if fits(self, r) {
                            return r;
                        }
                    }
                    if w % 8 == 0 {
                        if let Some(t) = self.shift_bytes(a, w, s as i32) {
                            return t;
                        }
                    }
                }
            }
            Op::Shr => {
                if let Some(s) = cb {
                    if s == 0 {
                        return a;
                    }
                    if w % 8 == 0 {
                        if let Some(t) = self.shift_bytes(a, w, -(s as i32)) {
                            return t;
                        }
                    }
                }
            }
            Op::Div => {
                if let Some(c) = cb {
                    if c == 1 {
                        return a;
                    }
                    if let Tm::Lin { k, ts } = self.tm(a).clone() {
                        let c = c as i128;
                        if c > 0 && k % c == 0 && ts.iter().all(|x| x.0 % c == 0) {
                            return self.mk_lin(k / c, ts.iter().map(|x| (x.0 / c, x.1)).collect());
                        }
                    }
                    if c.is_power_of_two() {
                        let s = self.c(c.trailing_zeros() as u128);
                        return self.op2(Op::Shr, w, a, s);
                    }
                }
            }
            Op::Rem => {
                if let Some(c) = cb {
                    if self.range(a).0 >= 0 && self.range(a).1 < clampi(c) {
                        return a;
                    }
                    if c.is_power_of_two() {
                        let s = self.c(c - 1);
                        return self.op2(Op::And, w, a, s);
                    }
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if a == b {
                    return if op == Op::Xor { 0 } else { a };
                }
                if ca == Some(0) {
                    return if op == Op::And { 0 } else { b };
                }
                if cb == Some(0) {
                    return if op == Op::And { 0 } else { a };
                }
                if op == Op::And {
                    if cb == Some(mask(w)) {
                        return a;
                    }
                    if ca == Some(mask(w)) {
                        return b;
                    }
                }
                if w > 8 && w % 8 == 0 {
                    let n = (w / 8) as usize;
                    if let (Some(x), Some(y)) = (self.bytes_of(a, n), self.bytes_of(b, n)) {
                        let v: Vec<T> = x.into_iter().zip(y).map(|(p, q)| self.op2(op, 8, p, q)).collect();
                        return self.mk_cat(v);
                    }
                }
                if w <= 8 {
                    // distribute constant masks over byte-wise or
                    for (x, cst) in [(a, cb), (b, ca)] {
                        if let (Some(cv), Tm::Op(Op::Or, _, args), Op::And) = (cst, self.tm(x).clone(), op) {
                            let cc = self.c(cv);
                            let mut acc = 0;
                            for y in args {
                                let z = self.op2(Op::And, 8, y, cc);
                                acc = self.op2(Op::Or, 8, acc, z);
                            }
                            return acc;
                        }
                    }
                }
                let mut v = vec![];
                for t in [a, b] {
                    match self.tm(t) {
                        Tm::Op(o, w2, args) if *o == op && *w2 == w => v.extend(args.iter().copied()),
                        _ => v.push(t),
                    }
                }
                v.sort();
                if op != Op::Xor {
                    v.dedup();
                }
                return self.mk(Tm::Op(op, w, v));
            }
            _ => {}
        }
        self.mk(Tm::Op(op, w, vec![a, b]))
    }
    fn shift_bytes(&mut self, a: T, w: u8, s: i32) -> Option<T> {
        let n = (w / 8) as usize;
        let bs = self.bytes_of(a, n)?;
        let (q, r) = ((s.unsigned_abs() / 8) as usize, s.unsigned_abs() % 8);
        if n < 2 && r != 0 {
            return None;
        }
        let get = |i: i64| -> T { if i < 0 || i as usize >= n { 0 } else { bs[i as usize] } };
        let mut out = vec![];
        for i in 0..n as i64 {
            let t = if s >= 0 {
                let (x, y) = (get(i - q as i64), get(i - q as i64 - 1));
                if r == 0 { x } else {
                    let (r1, r2) = (self.c(r as u128), self.c(8 - r as u128));
                    let p = self.op2(Op::Shl, 8, x, r1);
                    let z = self.op2(Op::Shr, 8, y, r2);
                    self.op2(Op::Or, 8, p, z)
                }
            } else {
                let (x, y) = (get(i + q as i64), get(i + q as i64 + 1));
                if r == 0 { x } else {
                    let (r1, r2) = (self.c(r as u128), self.c(8 - r as u128));
                    let p = self.op2(Op::Shr, 8, x, r1);
                    let z = self.op2(Op::Shl, 8, y, r2);
                    self.op2(Op::Or, 8, p, z)
                }
            };
            out.push(t);
        }
        Some(self.mk_cat(out))
    }

    // ---------------------------------------------------------------- tests
    pub fn enc(&self, var: T, v: i128) -> u128 {
        if matches!(self.tm(var), Tm::Lin { .. }) { (v.clamp(-BIG, BIG) + BIG) as u128 } else { v.max(0) as u128 }
    }
    pub fn dec(&self, var: T, v: u128) -> i128 {
        if matches!(self.tm(var), Tm::Lin { .. }) { v as i128 - BIG } else { clampi(v) }
    }
    fn raw_test(&mut self, var: T, set: &Set, a: N, b: N) -> N {
        // a inside the set, b outside
        let (lo, hi) = self.range(var);
        let mut parts: Vec<(u128, N)> = vec![];
        let mut cur = lo;
        for (l, h) in set {
            let (l, h) = ((*l).max(lo), (*h).min(hi));
            if l > h {
                continue;
            }
            if l > cur {
                parts.push((self.enc(var, cur), b));
            }
            parts.push((self.enc(var, l), a));
            cur = h + 1;
        }
        if cur <= hi {
            parts.push((self.enc(var, cur), b));
        }
        self.mk_test(var, parts)
    }
    pub fn mk_test(&mut self, var: T, parts: Vec<(u128, N)>) -> N {
        let mut v: Vec<(u128, N)> = vec![];
        for p in parts {
            if v.last().map(|l| l.1) != Some(p.1) {
                v.push(p);
            }
        }
        if v.len() == 1 {
            return v[0].1;
        }
        v[0].0 = 0;
        self.node(Nd::Test(var, v.into()))
    }
    pub fn top(&self, n: N) -> T {
        match self.nd(n) {
            Nd::Leaf(_) => NONE,
            Nd::Test(v, _) => *v,
        }
    }
    fn select(&mut self, var: T, parts: Vec<(u128, N)>) -> N {
        if parts.iter().all(|p| self.top(p.1) > var) {
            return self.mk_test(var, parts);
        }
        let mut acc = parts.last().unwrap().1;
        for i in (0..parts.len() - 1).rev() {
            // acc applies for values >= parts[i+1].0
            let lim = parts[i + 1].0;
            let c = self.mk_test(var, vec![(0, TT), (lim, F)]);
            acc = self.ite(c, parts[i].1, acc);
        }
        acc
    }
    pub fn cond_in(&mut self, t: T, set: &Set) -> N {
        let (lo, hi) = self.range(t);
        if set.iter().any(|(l, h)| *l <= lo && hi <= *h) {
            return TT;
        }
        if !set.iter().any(|(l, h)| *l <= hi && lo <= *h) {
            return F;
        }
        match self.tm(t).clone() {
            Tm::C(v) => {
                let v = clampi(v);
                if set.iter().any(|(l, h)| *l <= v && v <= *h) { TT } else { F }
            }
            Tm::Tab { base, tab } => {
                let tb = self.tabs[tab as usize].clone();
                let hi = self.range(base).1.clamp(0, 255);
                let mut s: Set = vec![];
                for i in 0..=hi {
                    let v = tb[i as usize];
                    if set.iter().any(|(l, h)| *l <= v && v <= *h) {
                        match s.last_mut() {
                            Some(x) if x.1 == i - 1 => x.1 = i,
                            _ => s.push((i, i)),
                        }
                    }
                }
                self.cond_in(base, &s)
            }
            Tm::Load { n, .. } if n > 1 && n <= 15 => {
                let b = self.bytes_of(t, n as usize).unwrap();
                self.bytes_in(&b, set)
            }
            Tm::Cat(b) if b.len() <= 15 => self.bytes_in(&b, set),
            Tm::Lin { k, ts } if ts.len() == 1 => {
                let (c, x) = ts[0];
                let mut s: Set = vec![];
                for (l, h) in set {
                    // c*v + k in [l,h]
                    let (a, b) = (l.saturating_sub(k), h.saturating_sub(k));
                    let (a, b) = if c > 0 { (div_ceil(a, c), div_floor(b, c)) } else { (div_ceil(b, c), div_floor(a, c)) };
                    if a <= b {
                        s.push((a, b));
                    }
                }
                s.sort();
                self.cond_in(x, &s)
            }
            Tm::Lin { k, ts } => {
                let mut g = 0i128;
                for (c, _) in &ts {
                    g = gcd(g, *c);
                }
                if ts[0].0 < 0 {
                    g = -g;
                }
                let var = self.mk(Tm::Lin { k: 0, ts: ts.iter().map(|x| (x.0 / g, x.1)).collect() });
                let mut s: Set = vec![];
                for (l, h) in set {
                    let (a, b) = (l.saturating_sub(k), h.saturating_sub(k));
                    let (a, b) = if g > 0 { (div_ceil(a, g), div_floor(b, g)) } else { (div_ceil(b, g), div_floor(a, g)) };
                    if a <= b {
                        s.push((a.clamp(-BIG, BIG), b.clamp(-BIG, BIG)));
                    }
                }
                s.sort();
                self.raw_test(var, &s, TT, F)
            }
            Tm::Op(Op::Or, w, args) if w <= 8 && set.len() == 1 && set[0] == (0, 0) => {
                let mut acc = TT;
                for a in args {
                    let c = self.cond_in(a, &vec![(0, 0)]);
                    acc = self.and(acc, c);
                }
                acc
            }
            Tm::Op(Op::EqOp, _, args) => {
                // boolean
                let has0 = set.iter().any(|(l, h)| *l <= 0 && 0 <= *h);
                let has1 = set.iter().any(|(l, h)| *l <= 1 && 1 <= *h);
                let _ = args;
                let c = self.raw_test(t, &vec![(1, 1)], TT, F);
                match (has0, has1) {
                    (true, true) => TT,
                    (false, false) => F,
                    (false, true) => c,
                    (true, false) => self.not(c),
                }
            }
            _ => self.raw_test(t, set, TT, F),
        }
    }
    fn bytes_in(&mut self, b: &[T], set: &Set) -> N {
        let max = (1i128 << (8 * b.len())) - 1;
        let mut acc = F;
        for (l, h) in set {
            let (l, h) = ((*l).max(0), (*h).min(max));
            if l > h {
                continue;
            }
            let x = self.bytes_ge(b, l);
            let y = if h == max { F } else { self.bytes_ge(b, h + 1) };
            let ny = self.not(y);
            let z = self.and(x, ny);
            acc = self.or(acc, z);
        }
        acc
    }
    fn bytes_ge(&mut self, b: &[T], c: i128) -> N {
        if c <= 0 {
            return TT;
        }
        // from least significant to most significant
        let mut acc = TT;
        for (i, t) in b.iter().enumerate() {
            let ci = (c >> (8 * i)) & 0xff;
            let gt = self.cond_in(*t, &vec![(ci + 1, 255)]);
            let eq = self.cond_in(*t, &vec![(ci, ci)]);
            let z = self.and(eq, acc);
            acc = self.or(gt, z);
        }
        acc
    }
    pub fn eq_t(&mut self, a: T, b: T) -> N {
        if a == b {
            return TT;
        }
        match (self.tm(a).clone(), self.tm(b).clone()) {
            (Tm::Ptr { kind, id, path, idx, .. }, Tm::Ptr { kind: k2, id: i2, path: p2, idx: x2, .. }) => {
                if kind != k2 || id != i2 || path != p2 {
                    return F;
                }
                if idx == x2 {
                    return TT;
                }
                if idx == NONE || x2 == NONE {
                    return F;
                }
                return self.eq_t(idx, x2);
            }
            (Tm::Ptr { .. }, Tm::C(_)) | (Tm::C(_), Tm::Ptr { .. }) => return F,
            (Tm::Text(p), Tm::Text(q)) => return crate::text::text_eq(&p, &q),
            (Tm::FnPtr(_), Tm::FnPtr(_)) => return F,
            _ => {}
        }
        if let (Some(x), Some(y)) = (self.const_of_t(a), self.const_of_t(b)) {
            return if x == y { TT } else { F };
        }
        // bytewise equality of wide values
        let wide = |s: &Self, t: T| matches!(s.tm(t), Tm::Load { n, .. } if *n > 1) || matches!(s.tm(t), Tm::Cat(_));
        if wide(self, a) && (wide(self, b) || self.const_of_t(b).is_some()) || wide(self, b) && self.const_of_t(a).is_some() {
            let n = 16;
            if let (Some(x), Some(y)) = (self.bytes_of(a, n), self.bytes_of(b, n)) {
                let mut acc = TT;
                for (p, q) in x.into_iter().zip(y) {
                    let e = self.eq_t(p, q);
                    acc = self.and(acc, e);
                }
                return acc;
            }
        }
        let (ra, rb) = (self.range(a), self.range(b));
        if ra.1 >= BIG || rb.1 >= BIG {
            let (x, y) = (a.min(b), a.max(b));
            let t = self.mk(Tm::Op(Op::EqOp, 1, vec![x, y]));
            return self.cond_in(t, &vec![(1, 1)]);
        }
        let d = self.lin2(1, a, -1, b);
        self.cond_in(d, &vec![(0, 0)])
    }
    pub fn ult_t(&mut self, a: T, b: T) -> N {
        if a == b {
            return F;
        }
        if let (Tm::Ptr { kind, id, path, idx, .. }, Tm::Ptr { kind: k2, id: i2, path: p2, idx: x2, .. }) = (self.tm(a).clone(), self.tm(b).clone()) {
            if kind == k2 && id == i2 && path == p2 && idx != NONE && x2 != NONE {
                return self.ult_t(idx, x2);
            }
        }
        if let (Some(x), Some(y)) = (self.const_of_t(a), self.const_of_t(b)) {
            return if x < y { TT } else { F };
        }
        let (ra, rb) = (self.range(a), self.range(b));
        if ra.1 >= BIG || rb.1 >= BIG {
            let t = self.mk(Tm::Op(Op::Ult, 1, vec![a, b]));
            return self.cond_in(t, &vec![(1, 1)]);
        }
        let d = self.lin2(1, a, -1, b);
        self.cond_in(d, &vec![(-BIG, -1)])
    }

    // ---------------------------------------------------------------- IDD operations
    pub fn not(&mut self, a: N) -> N {
        self.ite(a, F, TT)
    }
    pub fn and(&mut self, a: N, b: N) -> N {
        self.ap2(Op2::And, a, b)
    }
    pub fn or(&mut self, a: N, b: N) -> N {
        self.ap2(Op2::Or, a, b)
    }
    pub fn to_bool(&mut self, n: N) -> N {
        match self.nd(n).clone() {
            Nd::Leaf(t) => {
                if t <= 1 {
                    n
                } else {
                    self.cond_in(t, &vec![(1, BIG)])
                }
            }
            Nd::Test(v, ps) => {
                if self.is_bool(n) {
                    return n;
                }
                let parts = ps.iter().map(|p| (p.0, self.to_bool(p.1))).collect();
                self.select(v, parts)
            }
        }
    }
    fn is_bool(&self, n: N) -> bool {
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![n];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            match self.nd(x) {
                Nd::Leaf(t) => {
                    if *t > 1 {
                        return false;
                    }
                }
                Nd::Test(_, ps) => st.extend(ps.iter().map(|p| p.1)),
            }
        }
        true
    }
    fn child(ps: &[(u128, N)], v: u128) -> N {
        let i = ps.partition_point(|p| p.0 <= v);
        ps[i - 1].1
    }
    pub fn ap2(&mut self, op: Op2, a: N, b: N) -> N {
        match op {
            Op2::And => {
                if a == F || b == F {
                    return F;
                }
                if a == TT || a == b {
                    return b;
                }
                if b == TT {
                    return a;
                }
            }
            Op2::Or => {
                if a == TT || b == TT {
                    return TT;
                }
                if a == F || a == b {
                    return b;
                }
                if b == F {
                    return a;
                }
            }
            Op2::Eq if a == b => return TT,
            _ => {}
        }
        let (a, b) = match op {
            Op2::And | Op2::Or | Op2::Eq | Op2::MAdd if a > b => (b, a),
            _ => (a, b),
        };
        if let Some(&r) = self.memo2.get(&(op, a, b)) {
            return r;
        }
        let r = match (self.nd(a).clone(), self.nd(b).clone()) {
            (Nd::Leaf(x), Nd::Leaf(y)) => self.leaf2(op, x, y),
            (na, nb) => {
                let va = if let Nd::Test(v, _) = &na { *v } else { NONE };
                let vb = if let Nd::Test(v, _) = &nb { *v } else { NONE };
                let v = va.min(vb);
                let pa: Rc<[(u128, N)]> = match &na {
                    Nd::Test(x, p) if *x == v => p.clone(),
                    _ => vec![(0, a)].into(),
                };
                let pb: Rc<[(u128, N)]> = match &nb {
                    Nd::Test(x, p) if *x == v => p.clone(),
                    _ => vec![(0, b)].into(),
                };
                let mut starts: Vec<u128> = pa.iter().chain(pb.iter()).map(|p| p.0).collect();
                starts.sort();
                starts.dedup();
                let parts = starts.iter().map(|s| (*s, self.ap2(op, Self::child(&pa, *s), Self::child(&pb, *s)))).collect();
                self.select(v, parts)
            }
        };
        self.memo2.insert((op, a, b), r);
        r
    }
    pub fn ite(&mut self, c: N, a: N, b: N) -> N {
        if c == TT || a == b {
            return a;
        }
        if c == F {
            return b;
        }
        if a == TT && b == F {
            return c;
        }
        if let Some(&r) = self.memo_ite.get(&(c, a, b)) {
            return r;
        }
        let r = match self.nd(c).clone() {
            Nd::Leaf(t) => {
                let cc = self.cond_in(t, &vec![(1, BIG)]);
                if cc == c {
                    panic!("boolean leaf {:?}", self.tm(t));
                }
                self.ite(cc, a, b)
            }
            Nd::Test(..) => {
                let v = self.top(c).min(self.top(a)).min(self.top(b));
                let get = |s: &Self, n: N| -> Rc<[(u128, N)]> {
                    match s.nd(n) {
                        Nd::Test(x, p) if *x == v => p.clone(),
                        _ => vec![(0, n)].into(),
                    }
                };
                let (pc, pa, pb) = (get(self, c), get(self, a), get(self, b));
                let mut starts: Vec<u128> = pc.iter().chain(pa.iter()).chain(pb.iter()).map(|p| p.0).collect();
                starts.sort();
                starts.dedup();
                let parts = starts
                    .iter()
                    .map(|s| (*s, self.ite(Self::child(&pc, *s), Self::child(&pa, *s), Self::child(&pb, *s))))
                    .collect();
                self.select(v, parts)
            }
        };
        self.memo_ite.insert((c, a, b), r);
        r
    }
    /// Simplify `f` using the knowledge that `care` holds.
    pub fn restrict(&mut self, f: N, care: N) -> N {
        if care == TT || care == F || matches!(self.nd(f), Nd::Leaf(_)) {
            return f;
        }
        if let Some(&r) = self.memo_restrict.get(&(f, care)) {
            return r;
        }
        let (vf, vc) = (self.top(f), self.top(care));
        let r = if vc < vf {
            // existentially quantify the variable out of the care set
            let ps = match self.nd(care) {
                Nd::Test(_, p) => p.clone(),
                _ => unreachable!(),
            };
            let mut acc = F;
            for p in ps.iter() {
                acc = self.or(acc, p.1);
            }
            self.restrict(f, acc)
        } else {
            let pf = match self.nd(f) {
                Nd::Test(_, p) => p.clone(),
                _ => unreachable!(),
            };
            let pc: Rc<[(u128, N)]> = match self.nd(care) {
                Nd::Test(x, p) if *x == vf => p.clone(),
                _ => vec![(0, care)].into(),
            };
            let mut starts: Vec<u128> = pf.iter().chain(pc.iter()).map(|p| p.0).collect();
            starts.sort();
            starts.dedup();
            let mut parts: Vec<(u128, Option<N>)> = vec![];
            for s in starts {
                let cc = Self::child(&pc, s);
                if cc == F {
                    parts.push((s, None));
                } else {
                    let x = self.restrict(Self::child(&pf, s), cc);
                    parts.push((s, Some(x)));
                }
            }
            if parts.iter().all(|p| p.1.is_none()) {
                return f;
            }
            // fill don't-cares from the neighbours
            let mut last = parts.iter().find_map(|p| p.1).unwrap();
            let mut v = vec![];
            for (s, x) in parts {
                if let Some(x) = x {
                    last = x;
                }
                v.push((s, last));
            }
            self.select(vf, v)
        };
        self.memo_restrict.insert((f, care), r);
        r
    }
    pub fn map1(&mut self, n: N, memo: &mut HashMap<N, N>, f: &mut dyn FnMut(&mut Mgr, T) -> N) -> N {
        if let Some(&r) = memo.get(&n) {
            return r;
        }
        let r = match self.nd(n).clone() {
            Nd::Leaf(t) => f(self, t),
            Nd::Test(v, ps) => {
                let parts = ps.iter().map(|p| (p.0, self.map1(p.1, memo, f))).collect();
                self.select(v, parts)
            }
        };
        memo.insert(n, r);
        r
    }
    pub fn map(&mut self, n: N, f: &mut dyn FnMut(&mut Mgr, T) -> N) -> N {
        self.map1(n, &mut HashMap::new(), f)
    }
    pub fn map_t(&mut self, n: N, f: &mut dyn FnMut(&mut Mgr, T) -> T) -> N {
        self.map(n, &mut |m, t| {
            let r = f(m, t);
            m.leaf(r)
        })
    }
    /// Distinct leaves with the condition under which each is reached.
    pub fn leaves(&mut self, n: N) -> Vec<(N, T)> {
        let mut ts = vec![];
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![n];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            match self.nd(x) {
                Nd::Leaf(t) => ts.push(*t),
                Nd::Test(_, ps) => st.extend(ps.iter().map(|p| p.1)),
            }
        }
        ts.sort();
        ts.dedup();
        if ts.len() == 1 {
            return vec![(TT, ts[0])];
        }
        ts.into_iter()
            .map(|t| {
                let c = self.map(n, &mut |_, x| if x == t { TT } else { F });
                (c, t)
            })
            .collect()
    }
    fn in_w(&mut self, t: T, w: u8, signed: bool) -> N {
        let set = if signed { vec![(-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)] } else { vec![(0, clampi(mask(w)))] };
        let c = self.cond_in(t, &set);
        self.not(c)
    }
    fn signed_t(&mut self, t: T, w: u8) -> Option<T> {
        // mathematical signed value, only when the sign is known
        let (lo, hi) = self.range(t);
        if lo >= 0 && hi < 1i128 << (w - 1) {
            return Some(t);
        }
        if let Some(v) = self.const_of_t(t) {
            if v >> (w - 1) & 1 == 1 {
                return Some(self.mk_lin(v as i128 - (1i128 << w), vec![]));
            }
        }
        None
    }
    fn leaf2(&mut self, op: Op2, a: T, b: T) -> N {
        match op {
            Op2::And => {
                let (x, y) = (self.cond_in(a, &vec![(1, BIG)]), self.cond_in(b, &vec![(1, BIG)]));
                self.and(x, y)
            }
            Op2::Or => {
                let (x, y) = (self.cond_in(a, &vec![(1, BIG)]), self.cond_in(b, &vec![(1, BIG)]));
                self.or(x, y)
            }
            Op2::Bin(o, w) => {
                let t = match o {
                    Op::Trunc | Op::SExt(_) | Op::Ctpop | Op::Ctlz | Op::Cttz | Op::Bswap | Op::Bitrev | Op::Misc(1..=3) => self.op1(o, w, a),
                    _ => self.op2(o, w, a, b),
                };
                self.leaf(t)
            }
            Op2::Eq => self.eq_t(a, b),
            Op2::Ult => self.ult_t(a, b),
            Op2::Slt(w) => {
                if let (Some(x), Some(y)) = (self.signed_t(a, w), self.signed_t(b, w)) {
                    let d = self.lin2(1, x, -1, y);
                    return self.cond_in(d, &vec![(-BIG, -1)]);
                }
                let (ba, bb) = (self.base8(a), self.base8(b));
                let base = if ba != NONE && (bb == ba || self.const_of_t(b).is_some()) { ba } else if bb != NONE && self.const_of_t(a).is_some() { bb } else { NONE };
                if base != NONE {
                    let t = self.op2(Op::Slt, w, a, b);
                    return self.cond_in(t, &vec![(1, 1)]);
                }
                let t = self.mk(Tm::Op(Op::Slt, w, vec![a, b]));
                self.cond_in(t, &vec![(1, 1)])
            }
            Op2::MAdd => {
                let t = self.lin2(1, a, 1, b);
                self.leaf(t)
            }
            Op2::MSub => {
                let t = self.lin2(1, a, -1, b);
                self.leaf(t)
            }
            Op2::MMul => {
                let t = if let Some(c) = self.const_of_t(a).filter(|c| *c < 1 << 64) {
                    self.mk_lin(0, vec![(c as i128, b)])
                } else if let Some(c) = self.const_of_t(b).filter(|c| *c < 1 << 64) {
                    self.mk_lin(0, vec![(c as i128, a)])
                } else {
                    let w = 64;
                    self.op2(Op::Mul, w, a, b)
                };
                self.leaf(t)
            }
            Op2::OvAdd(w) => {
                if w == 128 {
                    return if let (Some(x), Some(y)) = (self.const_of_t(a), self.const_of_t(b)) { if x.checked_add(y).is_none() { TT } else { F } } else { let o = self.opaque_t(1); self.cond_in(o, &vec![(1, 1)]) };
                }
                let t = self.lin2(1, a, 1, b);
                self.in_w(t, w, false)
            }
            Op2::OvSub(w) => {
                if w == 128 {
                    return self.ult_t(a, b);
                }
                let t = self.lin2(1, a, -1, b);
                self.in_w(t, w, false)
            }
            Op2::OvMul(w) => {
                let (ra, rb) = (self.range(a), self.range(b));
                if satmul(ra.1, rb.1) <= clampi(mask(w)) {
                    return F;
                }
                let (cst, x) = match (self.const_of_t(a), self.const_of_t(b)) {
                    (Some(c), _) => (c, b),
                    (_, Some(c)) => (c, a),
                    _ => {
                        let p = self.mk(Tm::Op(Op::Mul, 127, vec![a.min(b), a.max(b)]));
                        return self.cond_in(p, &vec![(clampi(mask(w)) + 1, BIG)]);
                    }
                };
                if cst < 1 << 64 && w <= 64 {
                    let t = self.mk_lin(0, vec![(cst as i128, x)]);
                    return self.in_w(t, w, false);
                }
                let o = self.opaque_t(1);
                self.cond_in(o, &vec![(1, 1)])
            }
            Op2::OvSAdd(w) | Op2::OvSSub(w) | Op2::OvSMul(w) => {
                if let (Some(x), Some(y)) = (self.signed_t(a, w), self.signed_t(b, w)) {
                    let t = match op {
                        Op2::OvSAdd(_) => self.lin2(1, x, 1, y),
                        Op2::OvSSub(_) => self.lin2(1, x, -1, y),
                        _ => {
                            let (kx, tx) = self.as_lin(x);
                            let (ky, ty) = self.as_lin(y);
                            if tx.is_empty() {
                                self.mk_lin(0, vec![(kx, y)])
                            } else if ty.is_empty() {
                                self.mk_lin(0, vec![(ky, x)])
                            } else {
                                let o = self.opaque_t(1);
                                return self.cond_in(o, &vec![(1, 1)]);
                            }
                        }
                    };
                    return self.in_w(t, w, true);
                }
                let o = self.opaque_t(1);
                self.cond_in(o, &vec![(1, 1)])
            }
            Op2::PtrAdd => match self.tm(a).clone() {
                Tm::Ptr { kind, id, path, idx, lim } => {
                    let t = if idx == NONE {
                        if b == 0 { a } else { self.opaque_t(64) }
                    } else {
                        let i = self.lin2(1, idx, 1, b);
                        self.mk(Tm::Ptr { kind, id, path, idx: i, lim })
                    };
                    self.leaf(t)
                }
                _ => {
                    if b == 0 {
                        return self.leaf(a);
                    }
                    self.opaque_n(64)
                }
            },
            Op2::PtrLim => match self.tm(a).clone() {
                Tm::Ptr { kind: 1, id, path, idx, .. } => {
                    let l = self.lin2(1, idx, 1, b);
                    let t = self.mk(Tm::Ptr { kind: 1, id, path, idx, lim: l });
                    self.leaf(t)
                }
                _ => self.leaf(a),
            },
            Op2::LoadAt(n) => match self.tm(a).clone() {
                Tm::Ptr { kind: 1, id, idx, .. } => {
                    let o = self.lin2(1, idx, 1, b);
                    let t = self.load(id, o, n);
                    self.leaf(t)
                }
                _ => self.opaque_n(8 * n),
            },
            Op2::PtrDiff => match (self.tm(a).clone(), self.tm(b).clone()) {
                (Tm::Ptr { kind, id, path, idx, .. }, Tm::Ptr { kind: k2, id: i2, path: p2, idx: x2, .. })
                    if kind == k2 && id == i2 && path == p2 && idx != NONE && x2 != NONE =>
                {
                    let t = self.lin2(1, idx, -1, x2);
                    self.leaf(t)
                }
                _ => self.opaque_n(64),
            },
            Op2::TextCat => {
                let t = crate::text::cat(a, b);
                self.leaf(t)
            }
            Op2::CatHi(n) => {
                let lo = self.bytes_of(a, n as usize);
                let (bl, bh) = self.range(b);
                let nb = (1..16).find(|i| bl >= 0 && bh < 1i128 << (8 * i)).unwrap_or(16);
                let hi = self.bytes_of(b, nb as usize);
                let t = match (lo, hi) {
                    (Some(mut l), Some(h)) => {
                        l.extend(h);
                        self.mk_cat(l)
                    }
                    _ => self.opaque_t(128),
                };
                self.leaf(t)
            }
        }
    }

    // ---------------------------------------------------------------- substitution
    /// Replace terms by terms (used to rename loop variables); rebuilds through the smart constructors.
    pub fn subst_t(&mut self, t: T, map: &HashMap<T, T>, memo: &mut HashMap<T, T>, memon: &mut HashMap<N, N>) -> T {
        if let Some(&r) = map.get(&t) {
            return r;
        }
        if let Some(&r) = memo.get(&t) {
            return r;
        }
        let r = match self.tm(t).clone() {
            Tm::Load { r, off, n } => {
                let o = self.subst_t(off, map, memo, memon);
                self.load(r, o, n)
            }
            Tm::Lin { k, ts } => {
                let v = ts.into_iter().map(|(c, x)| (c, self.subst_t(x, map, memo, memon))).collect();
                self.mk_lin(k, v)
            }
            Tm::Tab { base, tab } => {
                let b = self.subst_t(base, map, memo, memon);
                if b == base {
                    t
                } else {
                    let tb = self.tabs[tab as usize].clone();
                    let bb = self.base8(b);
                    if let Some(c) = self.const_of_t(b) {
                        self.c(tb[(c as usize).min(255)] as u128)
                    } else if bb != NONE {
                        let ti = self.table(b);
                        let nt = ti.iter().map(|x| tb[(*x).clamp(0, 255) as usize]).collect();
                        self.mk_tab(bb, nt)
                    } else {
                        self.opaque_t(64)
                    }
                }
            }
            Tm::Cat(v) => {
                let v = v.into_iter().map(|x| self.subst_t(x, map, memo, memon)).collect();
                self.mk_cat(v)
            }
            Tm::Op(op, w, args) => {
                let a: Vec<T> = args.iter().map(|x| self.subst_t(*x, map, memo, memon)).collect();
                if a == args {
                    t
                } else {
                    match (op, a.len()) {
                        (Op::Utf8Ok | Op::StrEq | Op::StrCmp | Op::Ult | Op::Slt | Op::EqOp | Op::Misc(_), _) => self.mk(Tm::Op(op, w, a)),
                        (Op::Add, 2) if w == 8 || true => {
                            if a.len() == 2 { self.op2(op, w, a[0], a[1]) } else { self.mk(Tm::Op(op, w, a)) }
                        }
                        (_, 1) => self.op1(op, w, a[0]),
                        (_, _) => {
                            let mut acc = a[0];
                            for x in &a[1..] {
                                acc = self.op2(op, w, acc, *x);
                            }
                            acc
                        }
                    }
                }
            }
            Tm::Ptr { kind, id, path, idx, lim } => {
                let i = if idx == NONE { NONE } else { self.subst_t(idx, map, memo, memon) };
                let l = if lim == NONE { NONE } else { self.subst_t(lim, map, memo, memon) };
                self.mk(Tm::Ptr { kind, id, path, idx: i, lim: l })
            }
            Tm::LoopOut { l, i, w } => {
                let l2 = self.subst_loop(l, map, memo, memon);
                if l2 == l { t } else { self.mk(Tm::LoopOut { l: l2, i, w }) }
            }
            Tm::Exists { l, cond } => {
                let l2 = self.subst_loop(l, map, memo, memon);
                let c2 = self.subst_n(cond, map, memo, memon);
                self.mk(Tm::Exists { l: l2, cond: c2 })
            }
            Tm::Text(ps) => {
                let mut acc = crate::text::nil();
                for p in ps.iter() {
                    let q = match p {
                        Piece::Str(a, b) => Piece::Str(self.subst_t(*a, map, memo, memon), self.subst_t(*b, map, memo, memon)),
                        Piece::Int { kind, w, signed, spec, v } => {
                            Piece::Int { kind: *kind, w: *w, signed: *signed, spec: *spec, v: self.subst_t(*v, map, memo, memon) }
                        }
                        Piece::Char(c) => Piece::Char(self.subst_t(*c, map, memo, memon)),
                        Piece::Pad { spec, inner } => Piece::Pad { spec: *spec, inner: self.subst_t(*inner, map, memo, memon) },
                        x => x.clone(),
                    };
                    acc = crate::text::push(acc, q);
                }
                acc
            }
            _ => t,
        };
        memo.insert(t, r);
        r
    }
    fn subst_loop(&mut self, l: u32, map: &HashMap<T, T>, memo: &mut HashMap<T, T>, memon: &mut HashMap<N, N>) -> u32 {
        let d = self.loops[l as usize].clone();
        let cells: Vec<(N, N, u8)> = d
            .cells
            .iter()
            .map(|(i, n, w)| (self.subst_n(*i, map, memo, memon), self.subst_n(*n, map, memo, memon), *w))
            .collect();
        let cont = self.subst_n(d.cont, map, memo, memon);
        let entry = self.subst_n(d.entry, map, memo, memon);
        if cells == d.cells && cont == d.cont && entry == d.entry {
            return l;
        }
        let nl = self.mk_loop(LoopDef { h: d.h, cells, cont, entry });
        if let (Some(p), true) = (self.posts.get(&l).copied(), !self.posts.contains_key(&nl)) {
            self.posts.insert(nl, p);
            let q = self.subst_n(p, map, memo, memon);
            self.posts.insert(nl, q);
        }
        let lf = crate::lin::loop_facts();
        if let (Some(fs), true) = (lf.get(&l).cloned(), !lf.contains_key(&nl)) {
            lf.insert(nl, vec![]);
            let v = fs.into_iter().map(|(t, a, b)| (self.subst_t(t, map, memo, memon), a, b)).collect();
            crate::lin::loop_facts().insert(nl, v);
        }
        nl
    }
    pub fn mk_loop(&mut self, d: LoopDef) -> u32 {
        let key = (d.cells.clone(), d.cont, d.entry);
        if let Some(&i) = self.loopmap.get(&key) {
            return i;
        }
        let i = self.loops.len() as u32;
        self.loops.push(d);
        self.loopmap.insert(key, i);
        i
    }
    pub fn subst_n(&mut self, n: N, map: &HashMap<T, T>, memo: &mut HashMap<T, T>, memon: &mut HashMap<N, N>) -> N {
        if let Some(&r) = memon.get(&n) {
            return r;
        }
        let r = match self.nd(n).clone() {
            Nd::Leaf(t) => {
                let x = self.subst_t(t, map, memo, memon);
                self.leaf(x)
            }
            Nd::Test(v, ps) => {
                let v2 = self.subst_t(v, map, memo, memon);
                let kids: Vec<(u128, N)> = ps.iter().map(|p| (p.0, self.subst_n(p.1, map, memo, memon))).collect();
                if v2 == v {
                    self.select(v, kids)
                } else {
                    // rebuild through cond_in
                    let mut acc = kids.last().unwrap().1;
                    for i in (0..kids.len() - 1).rev() {
                        let lim = self.dec(v, kids[i + 1].0);
                        let c = self.cond_in(v2, &vec![(-BIG, lim - 1)]);
                        acc = self.ite(c, kids[i].1, acc);
                    }
                    acc
                }
            }
        };
        memon.insert(n, r);
        r
    }
    pub fn subst(&mut self, n: N, map: &HashMap<T, T>) -> N {
        if map.is_empty() {
            return n;
        }
        self.subst_n(n, map, &mut HashMap::new(), &mut HashMap::new())
    }
    fn kids(&self, t: T) -> Vec<T> {
        match self.tm(t) {
            Tm::Load { off, .. } => vec![*off],
            Tm::Lin { ts, .. } => ts.iter().map(|x| x.1).collect(),
            Tm::Tab { base, .. } => vec![*base],
            Tm::Cat(v) | Tm::Op(_, _, v) => v.clone(),
            Tm::Ptr { idx, lim, .. } => [*idx, *lim].into_iter().filter(|x| *x != NONE).collect(),
            Tm::Text(ps) => {
                let mut v = vec![];
                for p in ps.iter() {
                    match p {
                        Piece::Str(a, b) => v.extend([*a, *b]),
                        Piece::Int { v: x, .. } | Piece::Char(x) => v.push(*x),
                        Piece::Pad { inner, .. } => v.push(*inner),
                        _ => {}
                    }
                }
                v
            }
            _ => vec![],
        }
    }
    fn nary(&mut self, ch: &[N], acc: &mut Vec<T>, f: &mut dyn FnMut(&mut Mgr, &[T]) -> N) -> N {
        if ch.is_empty() {
            return f(self, acc);
        }
        if let Some(t) = self.is_leaf(ch[0]) {
            acc.push(t);
            let r = self.nary(&ch[1..], acc, f);
            acc.pop();
            return r;
        }
        let rest = ch[1..].to_vec();
        self.map(ch[0], &mut |m, t| {
            acc.push(t);
            let r = m.nary(&rest, acc, f);
            acc.pop();
            r
        })
    }
    /// Substitute terms by nodes.
    pub fn subst_phi(&mut self, n: N, map: &HashMap<T, N>, memo: &mut HashMap<N, N>) -> N {
        if map.is_empty() {
            return n;
        }
        if map.values().all(|x| self.is_leaf(*x).is_some()) {
            let mp: HashMap<T, T> = map.iter().map(|(k, v)| (*k, self.is_leaf(*v).unwrap())).collect();
            return self.subst(n, &mp);
        }
        if let Some(r) = memo.get(&n) {
            return *r;
        }
        let r = match self.nd(n).clone() {
            Nd::Leaf(t) => self.subst_phi_t(t, map, memo),
            Nd::Test(v, ps) => {
                let vn = self.subst_phi_t(v, map, memo);
                let kids: Vec<(u128, N)> = ps.iter().map(|p| (p.0, self.subst_phi(p.1, map, memo))).collect();
                if self.is_leaf(vn) == Some(v) {
                    self.select(v, kids)
                } else {
                    let mut acc = kids.last().unwrap().1;
                    for i in (0..kids.len() - 1).rev() {
                        let lim = self.dec(v, kids[i + 1].0);
                        let c = self.map(vn, &mut |m, t| m.cond_in(t, &vec![(-BIG, lim - 1)]));
                        acc = self.ite(c, kids[i].1, acc);
                    }
                    acc
                }
            }
        };
        memo.insert(n, r);
        r
    }
    fn subst_phi_t(&mut self, t: T, map: &HashMap<T, N>, memo: &mut HashMap<N, N>) -> N {
        if let Some(r) = map.get(&t) {
            return *r;
        }
        match self.tm(t).clone() {
            Tm::LoopOut { l, i, w } => {
                let l2 = self.subst_phi_loop(l, map, memo);
                let x = self.mk(Tm::LoopOut { l: l2, i, w });
                return self.leaf(x);
            }
            Tm::Exists { l, cond } => {
                let l2 = self.subst_phi_loop(l, map, memo);
                let c = self.subst_phi(cond, map, memo);
                let x = self.mk(Tm::Exists { l: l2, cond: c });
                return self.leaf(x);
            }
            _ => {}
        }
        let ks = self.kids(t);
        if ks.is_empty() {
            return self.leaf(t);
        }
        let ns: Vec<N> = ks.iter().map(|k| self.subst_phi_t(*k, map, memo)).collect();
        self.nary(&ns, &mut vec![], &mut |m, v| {
            let mp: HashMap<T, T> = ks.iter().copied().zip(v.iter().copied()).filter(|(a, b)| a != b).collect();
            if mp.is_empty() {
                return m.leaf(t);
            }
            let x = m.subst_t(t, &mp, &mut HashMap::new(), &mut HashMap::new());
            m.leaf(x)
        })
    }
    fn subst_phi_loop(&mut self, l: u32, map: &HashMap<T, N>, memo: &mut HashMap<N, N>) -> u32 {
        let d = self.loops[l as usize].clone();
        let cells: Vec<(N, N, u8)> = d.cells.iter().map(|(i, n, w)| (self.subst_phi(*i, map, memo), self.subst_phi(*n, map, memo), *w)).collect();
        let cont = self.subst_phi(d.cont, map, memo);
        if cells == d.cells && cont == d.cont {
            return l;
        }
        let nl = self.mk_loop(LoopDef { h: d.h, cells, cont, entry: d.entry });
        if let (Some(p), true) = (self.posts.get(&l).copied(), !self.posts.contains_key(&nl)) {
            self.posts.insert(nl, p);
            let mp: HashMap<T, N> = map.clone();
            let q = self.subst_phi(p, &mp, memo);
            self.posts.insert(nl, q);
        }
        let lf = crate::lin::loop_facts();
        if let (Some(fs), true) = (lf.get(&l).cloned(), !lf.contains_key(&nl)) {
            lf.insert(nl, vec![]);
            let mut v = vec![];
            for (t, a, b) in fs {
                let n = self.subst_phi_t(t, map, memo);
                if let Some(t) = self.is_leaf(n) {
                    v.push((t, a, b));
                }
            }
            crate::lin::loop_facts().insert(nl, v);
        }
        nl
    }
    /// All terms (including nested ones) that occur in a node.
    pub fn terms_in(&self, n: N, out: &mut std::collections::HashSet<T>, seen: &mut std::collections::HashSet<N>) {
        if !seen.insert(n) {
            return;
        }
        match self.nd(n) {
            Nd::Leaf(t) => self.terms_in_t(*t, out, seen),
            Nd::Test(v, ps) => {
                self.terms_in_t(*v, out, seen);
                for p in ps.iter() {
                    self.terms_in(p.1, out, seen);
                }
            }
        }
    }
    pub fn terms_in_t(&self, t: T, out: &mut std::collections::HashSet<T>, seen: &mut std::collections::HashSet<N>) {
        if !out.insert(t) {
            return;
        }
        match self.tm(t) {
            Tm::Load { off, .. } => self.terms_in_t(*off, out, seen),
            Tm::Lin { ts, .. } => ts.iter().for_each(|x| self.terms_in_t(x.1, out, seen)),
            Tm::Tab { base, .. } => self.terms_in_t(*base, out, seen),
            Tm::Cat(v) | Tm::Op(_, _, v) => v.iter().for_each(|x| self.terms_in_t(*x, out, seen)),
            Tm::Ptr { idx, lim, .. } => {
                if *idx != NONE {
                    self.terms_in_t(*idx, out, seen);
                }
                if *lim != NONE {
                    self.terms_in_t(*lim, out, seen);
                }
            }
            Tm::LoopOut { l, .. } => self.terms_in_loop(*l, out, seen),
            Tm::Exists { l, cond } => {
                self.terms_in_loop(*l, out, seen);
                self.terms_in(*cond, out, seen);
            }
            Tm::Text(ps) => {
                for p in ps.iter() {
                    match p {
                        Piece::Str(a, b) => {
                            self.terms_in_t(*a, out, seen);
                            self.terms_in_t(*b, out, seen);
                        }
                        Piece::Int { v, .. } | Piece::Char(v) => self.terms_in_t(*v, out, seen),
                        Piece::Pad { inner, .. } => self.terms_in_t(*inner, out, seen),
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    fn terms_in_loop(&self, l: u32, out: &mut std::collections::HashSet<T>, seen: &mut std::collections::HashSet<N>) {
        let d = &self.loops[l as usize];
        for (i, n, _) in &d.cells {
            self.terms_in(*i, out, seen);
            self.terms_in(*n, out, seen);
        }
        self.terms_in(d.cont, out, seen);
    }
    pub fn size(&self, n: N) -> usize {
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![n];
        while let Some(x) = st.pop() {
            if seen.insert(x) {
                if let Nd::Test(_, ps) = self.nd(x) {
                    st.extend(ps.iter().map(|p| p.1));
                }
            }
        }
        seen.len()
    }
}

pub fn div_floor(a: i128, b: i128) -> i128 {
    let q = a / b;
    if a % b != 0 && ((a < 0) != (b < 0)) { q - 1 } else { q }
}
pub fn div_ceil(a: i128, b: i128) -> i128 {
    let q = a / b;
    if a % b != 0 && ((a < 0) == (b < 0)) { q + 1 } else { q }
}
pub fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}
