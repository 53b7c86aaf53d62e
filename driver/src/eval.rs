//! Concrete reading of the symbolic normal forms: used only to confirm that the condition attached
//! to a finding is satisfiable (a finding whose condition has no confirmed valuation is reported as
//! undecided, never as a violation).
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum V {
    I(i128),
    P(u8, u32, Rc<[u32]>, i128),
    S(String),
}
impl V {
    fn i(&self) -> Option<i128> {
        if let V::I(x) = self { Some(*x) } else { None }
    }
}
pub struct Env {
    pub atoms: BTreeMap<String, i128>,
    pub lens: BTreeMap<u32, i128>,
    pub bytes: BTreeMap<(u32, i128), u8>,
    pub fill: u8,
    pub misc: HashMap<(u32, Vec<V>), i128>,
    pub salt: u64,
    phi: HashMap<(u32, u32), V>,
    loops: HashMap<u32, Option<Rc<Vec<V>>>>,
    fuel: u64,
    /// a loop was seen to return to an earlier state
    pub stuck: Option<u32>,
}
fn hash(s: u64, x: u64) -> u64 {
    let mut z = s.wrapping_mul(0x9e3779b97f4a7c15) ^ x.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(1);
        hash(self.0, 0x1234567)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn pick(&mut self, lo: i128, hi: i128) -> i128 {
        if hi <= lo {
            return lo;
        }
        match self.below(5) {
            0 => lo,
            1 => hi,
            2 => lo + (self.below(4) as i128).min(hi - lo),
            _ => {
                let span = (hi - lo).min(1 << 60) as u64;
                let s = if self.below(2) == 0 { span.min(300) } else { span };
                lo + self.below(s.saturating_add(1)) as i128
            }
        }
    }
}
impl Env {
    pub fn new(salt: u64) -> Env {
        Env { atoms: BTreeMap::new(), lens: BTreeMap::new(), bytes: BTreeMap::new(), fill: 0, misc: HashMap::new(), salt, phi: HashMap::new(), loops: HashMap::new(), fuel: 2_000_000, stuck: None }
    }
    pub fn refresh(&mut self) {
        self.loops.clear();
        self.phi.clear();
        self.fuel = 2_000_000;
        self.stuck = None;
    }
    fn len(&self, r: u32) -> i128 {
        self.lens.get(&r).copied().unwrap_or(0)
    }
    fn byte(&self, r: u32, o: i128) -> u8 {
        let b = self.any_byte(r, o);
        // what a string lookup gives is text
        match &*m().regions[r as usize].name {
            "strings" if b & 0x7f == 0 => b'A',
            "strings" => b & 0x7f,
            _ => b,
        }
    }
    fn any_byte(&self, r: u32, o: i128) -> u8 {
        if let Some(b) = &m().regions[r as usize].bytes {
            return if o >= 0 { b.get(o as usize).copied().unwrap_or(0) } else { 0 };
        }
        if let Some(b) = usize::try_from(o).ok().and_then(|o| m().regions[r as usize].known.get(&o).copied()) {
            return b;
        }
        if let Some(b) = self.bytes.get(&(r, o)) {
            return *b;
        }
        match self.fill {
            0 => 0,
            // runs of letters ended by single NULs
            1 => if o % 5 == 4 { 0 } else { b'A' + (o % 26) as u8 },
            2 => b'A' + (o % 26) as u8,
            _ => hash(self.salt, ((r as u64) << 40) ^ o as u64) as u8,
        }
    }
    fn slice(&self, p: &V, l: i128) -> Option<Vec<u8>> {
        if !(0..=100_000).contains(&l) {
            return None;
        }
        match p {
            V::P(1, id, _, idx) => Some((0..l).map(|i| self.byte(*id, *idx + i)).collect()),
            _ if l == 0 => Some(vec![]),
            _ => None,
        }
    }
    pub fn cond(&mut self, n: N) -> Option<bool> {
        self.node(n)?.i().map(|x| x != 0)
    }
    pub fn node(&mut self, mut n: N) -> Option<V> {
        loop {
            self.fuel = self.fuel.checked_sub(1)?;
            match m().nd(n).clone() {
                Nd::Leaf(t) => return self.term(t),
                Nd::Test(v, ps) => {
                    let x = match self.term(v)? {
                        V::I(x) => x,
                        _ => return None,
                    };
                    let e = m().enc(v, x);
                    let i = ps.partition_point(|p| p.0 <= e).max(1) - 1;
                    n = ps[i].1;
                }
            }
        }
    }
    fn run(&mut self, l: u32, mut each: Option<(N, &mut bool)>) -> Option<Rc<Vec<V>>> {
        let free = self.phi.is_empty();
        if free && each.is_none() {
            if let Some(Some(r)) = self.loops.get(&l) {
                return Some(r.clone());
            }
        }
        let d = m().loops[l as usize].clone();
        let saved: Vec<((u32, u32), Option<V>)> = (0..d.cells.len() as u32).map(|i| ((d.h, i), self.phi.get(&(d.h, i)).cloned())).collect();
        let r = (|| -> Option<Vec<V>> {
            let mut cur: Vec<V> = vec![];
            for c in &d.cells {
                cur.push(self.node(c.0)?);
            }
            let mut seen: HashSet<Vec<V>> = HashSet::new();
            for it in 0.. {
                if it > 70_000 {
                    return None;
                }
                for (i, v) in cur.iter().enumerate() {
                    self.phi.insert((d.h, i as u32), v.clone());
                }
                if let Some((c, hit)) = each.as_mut() {
                    if self.cond(*c)? {
                        **hit = true;
                        return Some(cur);
                    }
                }
                if !self.cond(d.cont)? {
                    return Some(cur);
                }
                let mut nx = vec![];
                for c in &d.cells {
                    nx.push(self.node(c.1)?);
                }
                if it < 2000 && !seen.insert(nx[1..].to_vec()) {
                    // cell 0 only counts iterations; does anything depend on it?
                    let k = m().mk(Tm::Phi { h: d.h, i: 0, w: 64 });
                    let mut used = HashSet::new();
                    for c in &d.cells[1..] {
                        m().terms_in(c.1, &mut used, &mut HashSet::new());
                    }
                    m().terms_in(d.cont, &mut used, &mut HashSet::new());
                    if !used.contains(&k) {
                        self.stuck = Some(l);
                        return None;
                    }
                }
                cur = nx;
            }
            None
        })();
        for (k, v) in saved {
            match v {
                Some(v) => {
                    self.phi.insert(k, v);
                }
                None => {
                    self.phi.remove(&k);
                }
            }
        }
        let r = r.map(Rc::new);
        if free && each.is_none() {
            self.loops.insert(l, r.clone());
        }
        r
    }
    pub fn text(&mut self, t: T) -> Option<String> {
        match self.term(t)? {
            V::S(s) => Some(s),
            _ => None,
        }
    }
    pub fn term(&mut self, t: T) -> Option<V> {
        if t == NONE {
            return None;
        }
        self.fuel = self.fuel.checked_sub(1)?;
        let lo = |w: u8, x: u128| V::I((x & mask(w)) as i128);
        Some(match m().tm(t).clone() {
            Tm::C(v) => V::I(v as i128),
            Tm::Atom { name, w } => match self.atoms.get(&*name) {
                Some(v) => V::I(*v),
                None => {
                    let mut h = self.salt;
                    for b in name.bytes() {
                        h = hash(h, b as u64);
                    }
                    lo(w.min(31), h as u128)
                }
            },
            Tm::Len(r) => V::I(self.len(r)),
            Tm::Load { r, off, n } => {
                let o = self.term(off)?.i()?;
                let mut x: u128 = 0;
                for i in 0..n.min(16) as i128 {
                    x |= (self.byte(r, o + i) as u128) << (8 * i);
                }
                V::I(x as i128)
            }
            Tm::Lin { k, ts } => {
                let mut s = k;
                for (c, x) in ts {
                    s = s.checked_add(c.checked_mul(self.term(x)?.i()?)?)?;
                }
                V::I(s)
            }
            Tm::Tab { base, tab } => {
                let b = self.term(base)?.i()?;
                V::I(m().tabs[tab as usize][b.clamp(0, 255) as usize])
            }
            Tm::Cat(v) => {
                let mut x: u128 = 0;
                for (i, b) in v.into_iter().enumerate() {
                    x |= ((self.term(b)?.i()? as u128) & 0xff) << (8 * i);
                }
                V::I(x as i128)
            }
            Tm::Op(op, w, a) => match op {
                Op::Utf8Ok => {
                    let (p, l) = (self.term(a[0])?, self.term(a[1])?.i()?);
                    V::I(std::str::from_utf8(&self.slice(&p, l)?).is_ok() as i128)
                }
                Op::StrEq | Op::StrCmp => {
                    let (p, l, q, k) = (self.term(a[0])?, self.term(a[1])?.i()?, self.term(a[2])?, self.term(a[3])?.i()?);
                    let (x, y) = (self.slice(&p, l)?, self.slice(&q, k)?);
                    if op == Op::StrEq {
                        V::I((x == y) as i128)
                    } else {
                        return None;
                    }
                }
                Op::EqOp => {
                    let (x, y) = (self.term(a[0])?, self.term(a[1])?);
                    V::I((x == y) as i128)
                }
                Op::Misc(DIVERGES) => {
                    let Tm::LoopOut { l, .. } = m().tm(a[0]).clone() else { return None };
                    let was = self.stuck.take();
                    let r = self.run(l, None);
                    let st = std::mem::replace(&mut self.stuck, was);
                    match (r, st) {
                        (Some(_), _) => V::I(0),
                        (None, Some(x)) if x == l => V::I(1),
                        _ => return None,
                    }
                }
                Op::Misc(c) => {
                    let mut v = vec![];
                    for x in a {
                        v.push(self.term(x)?);
                    }
                    if c < 20 {
                        return float(c, w, &v);
                    }
                    if (41..=43).contains(&c) && v.len() == 2 {
                        // what is wrong with a byte string that is not UTF-8: how much is valid, is more than a piece missing, how much is bad
                        let e = std::str::from_utf8(&self.slice(&v[0], v[1].i()?)?).err()?;
                        return Some(V::I(match c {
                            41 => e.valid_up_to() as i128,
                            42 => e.error_len().is_some() as i128,
                            _ => e.error_len()? as i128,
                        }));
                    }
                    if !(900..1000).contains(&c) && c < 100_000 {
                        return None;
                    }
                    let key = (c, v);
                    match self.misc.get(&key) {
                        Some(x) => V::I(*x),
                        None => {
                            let h = hash(self.salt ^ c as u64, key.1.iter().map(|x| x.i().unwrap_or(7) as u64).fold(1, hash)) as i128;
                            match c {
                                900 => V::I(h & 1),
                                901 => V::I((h & 0x3f) * 8),
                                902 => V::I(1 + (h & 3)),
                                _ => lo(w, h as u128),
                            }
                        }
                    }
                }
                _ => {
                    let mut acc = self.term(a[0])?.i()? as u128;
                    if a.len() == 1 {
                        return Mgr::fold(op, w, acc, 0).map(|x| V::I(x as i128));
                    }
                    for x in &a[1..] {
                        acc = Mgr::fold(op, w, acc, self.term(*x)?.i()? as u128)?;
                    }
                    V::I(acc as i128)
                }
            },
            Tm::Ptr { kind, id, path, idx, .. } => {
                let i = if idx == NONE { 0 } else { self.term(idx)?.i()? };
                V::P(kind, id, path, i)
            }
            Tm::FnPtr(k) => V::P(8, k, Rc::new([]), 0),
            Tm::Vt(k) => V::P(9, k, Rc::new([]), 0),
            Tm::Phi { h, i, .. } => self.phi.get(&(h, i))?.clone(),
            Tm::LoopOut { l, i, .. } => self.run(l, None)?.get(i as usize)?.clone(),
            Tm::Exists { l, cond } => {
                let mut hit = false;
                let r = self.run(l, Some((cond, &mut hit)));
                if hit {
                    V::I(1)
                } else {
                    r?;
                    V::I(0)
                }
            }
            Tm::Text(ps) => {
                let mut s = String::new();
                for p in ps.iter() {
                    match p {
                        Piece::Lit(x) => s.push_str(x),
                        Piece::Str(a, b) => {
                            let (p, l) = (self.term(*a)?, self.term(*b)?.i()?);
                            s.push_str(&String::from_utf8_lossy(&self.slice(&p, l)?));
                        }
                        Piece::Int { kind, w, signed, spec, v } => {
                            let x = self.term(*v)?.i()? as u128;
                            s.push_str(&crate::text::render_int(*kind, *w, *signed, spec, x));
                        }
                        Piece::Char(c) => s.push(char::from_u32(self.term(*c)?.i()? as u32)?),
                        Piece::Pad { spec, inner } => {
                            let x = self.text(*inner)?;
                            s.push_str(&crate::text::render_str(&x, spec));
                        }
                        Piece::Unknown(_) => return None,
                    }
                }
                V::S(s)
            }
            Tm::Opaque(..) => return None,
        })
    }
    pub fn describe(&self) -> String {
        let mut out = vec![];
        for (r, l) in &self.lens {
            let n = (*l).clamp(0, 96);
            let hx: Vec<String> = (0..n).map(|i| format!("{:02x}", self.byte(*r, i))).collect();
            out.push(format!("{}.len={} {}=[{}{}]", m().regions[*r as usize].name, l, m().regions[*r as usize].name, hx.join(" "), if *l > n { " .." } else { "" }));
        }
        for (a, v) in &self.atoms {
            out.push(format!("{a}={v}"));
        }
        let mut ms: Vec<String> = self.misc.iter().map(|((c, a), v)| format!("string#{}:{}={v}", a.first().and_then(|x| x.i()).unwrap_or(-1), c)).collect();
        ms.sort();
        out.extend(ms);
        out.join("; ")
    }
}

pub enum Verdict {
    /// a valuation under which the condition holds
    Refuted(String),
    /// the condition could not be decided
    Undecided(String),
}

/// Look for a valuation of the inputs under which `cond` holds.
pub fn witness(cond: N) -> Verdict {
    let mut rng = Rng(12345);
    let mut terms = HashSet::new();
    m().terms_in(cond, &mut terms, &mut HashSet::new());
    let mut regs: HashSet<u32> = HashSet::new();
    let mut maxoff: i128 = 4;
    for t in &terms {
        match m().tm(*t) {
            Tm::Len(r) => {
                regs.insert(*r);
            }
            Tm::Load { r, off, n } if m().regions[*r as usize].bytes.is_none() => {
                regs.insert(*r);
                if let Some(o) = m().const_of_t(*off) {
                    if o < 4096 {
                        maxoff = maxoff.max(o as i128 + *n as i128);
                    }
                }
            }
            Tm::Ptr { kind: 1, id, .. } if m().regions[*id as usize].bytes.is_none() => {
                regs.insert(*id);
            }
            _ => {}
        }
    }
    let mut unknown = 0;
    let t0 = std::time::Instant::now();
    let tries = 600;
    for k in 0..tries {
        if t0.elapsed().as_secs_f64() > 8.0 {
            break;
        }
        let path = if k == 0 { crate::lin::feas_path(cond) } else { random_path(cond, &mut rng, k % 3 == 0) };
        let Some(path) = path else { continue };
        let mut env = Env::new(rng.next());
        env.fill = match k % 7 { 0 | 1 | 2 => 0, 3 => 1, 4 => 2, _ => if rng.below(2) == 0 { 0 } else { 3 } };
        for r in &regs {
            let l = match rng.below(6) {
                0 => maxoff + 2,
                1 => maxoff + rng.below(8) as i128,
                2 => 300,
                3 => 520,
                4 => rng.below(64) as i128,
                _ => rng.below(300) as i128,
            };
            let l = m().const_of_t(m().regions[*r as usize].len).map(|c| c as i128).unwrap_or(l);
            env.lens.insert(*r, l);
        }
        for t in &terms {
            if let Tm::Atom { name, w } = m().tm(*t).clone() {
                let v = rng.pick(0, (mask(w.min(100))) as i128);
                env.atoms.insert(name.to_string(), v);
            }
        }
        let mut order: Vec<&(T, i128, i128)> = path.iter().collect();
        order.sort_by_key(|l| match m().tm(l.0) {
            Tm::Atom { .. } | Tm::Load { .. } | Tm::Tab { .. } => 0,
            Tm::Len(_) => 1,
            Tm::Lin { .. } => 2,
            _ => 3,
        });
        let mut locked: HashSet<(u32, i128)> = HashSet::new();
        let mut locked_atoms: HashSet<String> = HashSet::new();
        let mut mult: HashMap<T, Vec<(T, i128, i128)>> = HashMap::new();
        for l in &order {
            let b = m().base8(l.0);
            let b = if b == NONE { l.0 } else { b };
            mult.entry(b).or_default().push(**l);
        }
        for round in 0..3 {
            env.refresh();
            let mut ok = true;
            for l in &order {
                let cur = env.term(l.0).and_then(|v| v.i());
                if let Some(c) = cur {
                    if c >= l.1 && c <= l.2 {
                        if round == 0 {
                            lock(l.0, &mut env, &mut locked, &mut locked_atoms);
                        }
                        continue;
                    }
                }
                ok = false;
                adjust(l, &mult, &mut env, &mut rng, &mut locked, &mut locked_atoms);
                env.refresh();
            }
            if ok {
                break;
            }
        }
        env.refresh();
        match env.cond(cond) {
            Some(true) => return Verdict::Refuted(env.describe()),
            Some(false) => {}
            None => unknown += 1,
        }
    }
    Verdict::Undecided(if unknown > 0 { format!("{unknown} candidate valuations could not be evaluated") } else { "no confirming valuation found".into() })
}
fn lock(t: T, env: &mut Env, locked: &mut HashSet<(u32, i128)>, la: &mut HashSet<String>) {
    match m().tm(t).clone() {
        Tm::Load { r, off, n: 1 } => {
            if let Some(o) = env.term(off).and_then(|v| v.i()) {
                let b = env.byte(r, o);
                env.bytes.insert((r, o), b);
                locked.insert((r, o));
            }
        }
        Tm::Tab { base, .. } => lock(base, env, locked, la),
        Tm::Atom { name, .. } => {
            la.insert(name.to_string());
        }
        _ => {}
    }
}
fn set_base(t: T, v: i128, env: &mut Env, locked: &mut HashSet<(u32, i128)>, la: &mut HashSet<String>) -> bool {
    match m().tm(t).clone() {
        Tm::Atom { name, .. } => {
            la.insert(name.to_string());
            env.atoms.insert(name.to_string(), v);
            true
        }
        Tm::Load { r, off, n } => {
            if let Some(o) = env.term(off).and_then(|v| v.i()) {
                for i in 0..n as i128 {
                    env.bytes.insert((r, o + i), (v >> (8 * i)) as u8);
                    locked.insert((r, o + i));
                }
            }
            true
        }
        Tm::Len(r) => {
            if v < 0 || v > 1 << 40 {
                return false;
            }
            env.lens.insert(r, v);
            true
        }
        Tm::Op(Op::Misc(c), _, a) if c >= 100 => {
            let mut k = vec![];
            for x in a {
                match env.term(x) {
                    Some(v) => k.push(v),
                    None => return false,
                }
            }
            env.misc.insert((c, k), v);
            true
        }
        _ => false,
    }
}
/// 1: from an unsigned number, 2: to double precision, 3: to single precision, 10 to 13: arithmetic; all as bits
fn float(c: u32, w: u8, v: &[V]) -> Option<V> {
    let x = v[0].i()? as u128;
    let bits = |f: f32, d: f64| Some(V::I(if w == 32 { f.to_bits() as i128 } else { d.to_bits() as i128 }));
    match c {
        1 => bits(x as f32, x as f64),
        2 => bits(0.0, f32::from_bits(x as u32) as f64),
        3 => bits(f64::from_bits(x as u64) as f32, 0.0),
        10..=13 => {
            let y = v.get(1)?.i()? as u128;
            let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
            let (p, q) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
            match c {
                10 => bits(a + b, p + q),
                11 => bits(a - b, p - q),
                12 => bits(a * b, p * q),
                _ => bits(a / b, p / q),
            }
        }
        _ => None,
    }
}
fn adjust(l: &(T, i128, i128), mult: &HashMap<T, Vec<(T, i128, i128)>>, env: &mut Env, rng: &mut Rng, locked: &mut HashSet<(u32, i128)>, la: &mut HashSet<String>) {
    let (t, lo, hi) = *l;
    match m().tm(t).clone() {
        Tm::Atom { .. } | Tm::Load { n: 1, .. } | Tm::Tab { .. } => {
            let b = m().base8(t);
            if b == NONE {
                let v = rng.pick(lo, hi);
                set_base(t, v, env, locked, la);
                return;
            }
            // all constraints on the same byte
            let cs = mult.get(&b).cloned().unwrap_or_default();
            let good: Vec<i128> = (0..256i128)
                .filter(|v| {
                    cs.iter().all(|c| {
                        let x = if c.0 == b { *v } else { m().table(c.0)[*v as usize] };
                        x >= c.1 && x <= c.2
                    })
                })
                .collect();
            if good.is_empty() {
                return;
            }
            let v = match rng.below(4) {
                0 => good[0],
                1 => good[good.len() - 1],
                _ => good[rng.below(good.len() as u64) as usize],
            };
            set_base(b, v, env, locked, la);
        }
        Tm::Len(_) | Tm::Op(Op::Misc(_), ..) => {
            let v = rng.pick(lo, hi.min(if matches!(m().tm(t), Tm::Len(_)) { lo.max(0) + 600 } else { hi }));
            set_base(t, v, env, locked, la);
        }
        Tm::Lin { .. } => {
            let Some(cur) = env.term(t).and_then(|v| v.i()) else { return };
            let target = if cur < lo { lo + (rng.below(3) as i128).min(hi.saturating_sub(lo)) } else { hi - (rng.below(3) as i128).min(hi.saturating_sub(lo)) };
            if target <= -BIG || target >= BIG {
                return;
            }
            let (_, ts) = m().as_lin(t);
            // prefer lengths, then free atoms, then bytes
            let mut cand: Vec<(i128, T)> = ts.clone();
            cand.sort_by_key(|x| match m().tm(x.1) {
                Tm::Len(_) => 0,
                Tm::Atom { name, .. } => 1 + 3 * la.contains(&**name) as u32,
                Tm::Load { .. } => 2,
                _ => 3,
            });
            for (c, x) in cand {
                let Some(v) = env.term(x).and_then(|v| v.i()) else { continue };
                let d = target - cur;
                let nv = v + if d % c == 0 { d / c } else { d / c + if (d < 0) == (c < 0) { 1 } else { -1 } };
                let (rl, rh) = m().range(x);
                if nv < rl || nv > rh {
                    continue;
                }
                if set_base(x, nv, env, locked, la) {
                    return;
                }
            }
        }
        Tm::Op(_, _, a) => {
            for x in a {
                if let Tm::Atom { .. } | Tm::Load { .. } = m().tm(x) {
                    let (rl, rh) = m().range(x);
                    let v = rng.pick(rl, rh);
                    set_base(x, v, env, locked, la);
                }
            }
        }
        _ => {}
    }
}
fn random_path(n: N, rng: &mut Rng, lin: bool) -> Option<Vec<(T, i128, i128)>> {
    let mut lits = vec![];
    let mut budget = 400;
    fn go(n: N, rng: &mut Rng, lin: bool, lits: &mut Vec<(T, i128, i128)>, budget: &mut i32) -> bool {
        match m().nd(n).clone() {
            Nd::Leaf(t) => t != 0,
            Nd::Test(v, ps) => {
                let (rlo, rhi) = m().range(v);
                let mut order: Vec<usize> = (0..ps.len()).filter(|i| ps[*i].1 != F).collect();
                for i in (1..order.len()).rev() {
                    order.swap(i, rng.below(i as u64 + 1) as usize);
                }
                for i in order {
                    *budget -= 1;
                    if *budget < 0 {
                        return false;
                    }
                    let lo = if i == 0 { rlo } else { m().dec(v, ps[i].0) };
                    let hi = if i + 1 < ps.len() { m().dec(v, ps[i + 1].0) - 1 } else { rhi };
                    lits.push((v, lo, hi));
                    if !(lin && crate::lin::contradictory(lits)) && go(ps[i].1, rng, lin, lits, budget) {
                        return true;
                    }
                    lits.pop();
                }
                false
            }
        }
    }
    if go(n, rng, lin, &mut lits, &mut budget) { Some(lits) } else { None }
}
