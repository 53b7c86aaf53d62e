//! Linear reasoning over the literals of a decision-diagram path: interval bounds and
//! Fourier-Motzkin elimination. Only ever used to show that a path is impossible.
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};

/// sum(c*x) + k >= 0
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ineq {
    pub k: i128,
    pub c: BTreeMap<T, i128>,
}

/// Linear facts known about the results of a loop: (linear term, lo, hi).
static mut LOOPFACTS: *mut HashMap<u32, Vec<(T, i128, i128)>> = std::ptr::null_mut();
pub fn loop_facts() -> &'static mut HashMap<u32, Vec<(T, i128, i128)>> {
    unsafe {
        if LOOPFACTS.is_null() {
            LOOPFACTS = Box::into_raw(Box::default());
        }
        &mut *LOOPFACTS
    }
}
static mut PHIFACTS: *mut Vec<(T, i128, i128)> = std::ptr::null_mut();
/// Facts about the iteration variables of the loops being analysed.
pub fn phi_facts() -> &'static mut Vec<(T, i128, i128)> {
    unsafe {
        if PHIFACTS.is_null() {
            PHIFACTS = Box::into_raw(Box::default());
        }
        &mut *PHIFACTS
    }
}
pub fn reset() {
    let c = cache();
    c.atoms.clear();
    c.memo.clear();
    c.deep.clear();
    c.ctx.clear();
    loop_facts().clear();
    phi_facts().clear();
}

type Lits = Vec<(T, i128, i128)>;

struct Sys {
    qs: Vec<Ineq>,
    atoms: HashSet<T>,
    todo: Vec<T>,
    bounds: HashMap<T, (i128, i128)>,
}
impl Sys {
    /// expand a term into a linear form over atoms
    fn lin(&mut self, t: T, c: i128, out: &mut Ineq) -> bool {
        match m().tm(t).clone() {
            Tm::C(v) => {
                if v > BIG as u128 {
                    return false;
                }
                match c.checked_mul(v as i128).and_then(|x| out.k.checked_add(x)) {
                    Some(k) => out.k = k,
                    None => return false,
                }
                true
            }
            Tm::Lin { k, ts } => {
                match c.checked_mul(k).and_then(|x| out.k.checked_add(x)) {
                    Some(k) => out.k = k,
                    None => return false,
                }
                for (d, x) in ts {
                    let Some(cd) = c.checked_mul(d) else { return false };
                    if !self.lin(x, cd, out) {
                        return false;
                    }
                }
                true
            }
            Tm::Load { n, .. } if n > 1 && n <= 8 => {
                let bs = m().bytes_of(t, n as usize).unwrap();
                for (i, b) in bs.into_iter().enumerate() {
                    if !self.lin(b, c * (1i128 << (8 * i)), out) {
                        return false;
                    }
                }
                true
            }
            Tm::Cat(bs) if bs.len() <= 8 => {
                for (i, b) in bs.into_iter().enumerate() {
                    if !self.lin(b, c * (1i128 << (8 * i)), out) {
                        return false;
                    }
                }
                true
            }
            _ => {
                *out.c.entry(t).or_insert(0) += c;
                if self.atoms.insert(t) {
                    self.todo.push(t);
                }
                true
            }
        }
    }
    fn add(&mut self, t: T, lo: i128, hi: i128) {
        if lo > -BIG {
            let mut q = Ineq { k: -lo, c: BTreeMap::new() };
            if self.lin(t, 1, &mut q) {
                self.qs.push(q);
            }
        }
        if hi < BIG {
            let mut q = Ineq { k: hi, c: BTreeMap::new() };
            if self.lin(t, -1, &mut q) {
                self.qs.push(q);
            }
        }
    }
    fn facts(&mut self, lits: &Lits) {
        let mut loops_done = HashSet::new();
        let mut guard = 0;
        while let Some(t) = self.todo.pop() {
            guard += 1;
            if guard > 120 {
                break;
            }
            // range of the atom, refined by the path
            let (mut lo, mut hi) = m().range(t);
            if let Some((l, h)) = self.bounds.get(&t) {
                lo = lo.max(*l);
                hi = hi.min(*h);
            }
            match m().tm(t).clone() {
                Tm::Tab { base, tab } => {
                    if let Some((l, h)) = self.bounds.get(&base).copied() {
                        let tb = m().tabs[tab as usize].clone();
                        let (l, h) = (l.clamp(0, 255), h.clamp(0, 255));
                        if l <= h {
                            let s = &tb[l as usize..=h as usize];
                            lo = lo.max(*s.iter().min().unwrap());
                            hi = hi.min(*s.iter().max().unwrap());
                        }
                    }
                    // relation to the base when the table is bounded by it
                    let tb = m().tabs[tab as usize].clone();
                    if (0..256).all(|i| tb[i] <= i as i128) && self.atoms.contains(&base) {
                        let mut q = Ineq { k: 0, c: BTreeMap::new() };
                        if self.lin(base, 1, &mut q) {
                            *q.c.entry(t).or_insert(0) -= 1;
                            self.qs.push(q);
                        }
                    }
                }
                Tm::Op(Op::Div, _, a) => {
                    if let Some(c) = m().const_of_t(a[1]) {
                        self.div_facts(t, a[0], c as i128);
                    }
                }
                Tm::Op(Op::Shr, _, a) => {
                    if let Some(c) = m().const_of_t(a[1]) {
                        if c < 64 {
                            self.div_facts(t, a[0], 1i128 << c);
                        }
                    }
                }
                Tm::Op(Op::Rem | Op::And, _, a) => {
                    for x in a.iter().take(2) {
                        if m().const_of_t(*x).is_none() {
                            let mut q = Ineq { k: 0, c: BTreeMap::new() };
                            if self.lin(*x, 1, &mut q) {
                                *q.c.entry(t).or_insert(0) -= 1;
                                self.qs.push(q);
                            }
                        }
                    }
                }
                Tm::Op(Op::Mul, w, a) => self.mul_facts(t, w, a[0], a[1]),
                Tm::LoopOut { l, .. } => {
                    if loops_done.insert(l) {
                        if let Some(fs) = loop_facts().get(&l).cloned() {
                            for (ft, l, h) in fs {
                                self.add(ft, l, h);
                            }
                        }
                    }
                }
                Tm::Phi { h, .. } => {
                    if loops_done.insert(h | 1 << 31) {
                        for (ft, l, hh) in phi_facts().clone() {
                            let mut s = HashSet::new();
                            m().terms_in_t(ft, &mut s, &mut HashSet::new());
                            if s.contains(&t) {
                                self.add(ft, l, hh);
                            }
                        }
                    }
                }
                _ => {}
            }
            if lo > -BIG {
                self.qs.push(Ineq { k: -lo, c: [(t, 1)].into() });
            }
            if hi < BIG {
                self.qs.push(Ineq { k: hi, c: [(t, -1)].into() });
            }
        }
        let _ = lits;
    }
    fn bound(&self, t: T) -> (i128, i128) {
        let (mut lo, mut hi) = m().range(t);
        if let Some((l, h)) = self.bounds.get(&t) {
            lo = lo.max(*l);
            hi = hi.min(*h);
        }
        (lo, hi)
    }
    /// (a - al)(b - bl) >= 0 and its three companions, for a product that does not wrap
    fn mul_facts(&mut self, p: T, w: u8, a: T, b: T) {
        let (ra, rb) = (m().range(a), m().range(b));
        const LIM: i128 = 1 << 32;
        if ra.0 < 0 || rb.0 < 0 || ra.1 > LIM || rb.1 > LIM || (w < 127 && ra.1 * rb.1 >= 1i128 << w) {
            return;
        }
        let ((al, ah), (bl, bh)) = (self.bound(a), self.bound(b));
        for (x, y, s) in [(al, bl, 1), (ah, bh, 1), (al, bh, -1), (ah, bl, -1)] {
            // s * (p - x*b - y*a + x*y) >= 0
            let mut q = Ineq { k: s * x * y, c: BTreeMap::new() };
            if self.lin(b, -s * x, &mut q) && self.lin(a, -s * y, &mut q) {
                *q.c.entry(p).or_insert(0) += s;
                self.qs.push(q);
            }
        }
    }
    fn div_facts(&mut self, q: T, a: T, c: i128) {
        if c <= 0 {
            return;
        }
        // c*q <= a <= c*q + c-1
        let mut x = Ineq { k: 0, c: BTreeMap::new() };
        if self.lin(a, 1, &mut x) {
            *x.c.entry(q).or_insert(0) -= c;
            self.qs.push(x);
        }
        let mut y = Ineq { k: c - 1, c: BTreeMap::new() };
        if self.lin(a, -1, &mut y) {
            *y.c.entry(q).or_insert(0) += c;
            self.qs.push(y);
        }
    }
}

type Memo = HashMap<(u32, Vec<(T, i128, i128)>), bool>;
struct Cache {
    atoms: HashMap<T, std::rc::Rc<Vec<T>>>,
    memo: Memo,
    ctx: HashMap<Vec<(T, i128, i128)>, u32>,
    deep: Memo,
}
static mut CACHE: *mut Cache = std::ptr::null_mut();
fn cache() -> &'static mut Cache {
    unsafe {
        if CACHE.is_null() {
            CACHE = Box::into_raw(Box::new(Cache { atoms: HashMap::new(), memo: HashMap::new(), ctx: HashMap::new(), deep: HashMap::new() }));
        }
        &mut *CACHE
    }
}
fn ctx_id() -> u32 {
    let c = cache();
    if let Some(i) = c.ctx.get(&**phi_facts()) {
        return *i;
    }
    let i = c.ctx.len() as u32;
    c.ctx.insert(phi_facts().clone(), i);
    i
}
/// atoms of the linear form of a term, including those its own facts mention
fn atoms_of(t: T) -> std::rc::Rc<Vec<T>> {
    if let Some(a) = cache().atoms.get(&t) {
        return a.clone();
    }
    let mut s = Sys { qs: vec![], atoms: HashSet::new(), todo: vec![], bounds: HashMap::new() };
    let mut q = Ineq { k: 0, c: BTreeMap::new() };
    s.lin(t, 1, &mut q);
    let mut out: BTreeMap<T, ()> = BTreeMap::new();
    for a in s.atoms.iter().copied().collect::<Vec<_>>() {
        out.insert(a, ());
        let mut deep = |x: T| {
            let mut s = Sys { qs: vec![], atoms: HashSet::new(), todo: vec![], bounds: HashMap::new() };
            let mut q = Ineq { k: 0, c: BTreeMap::new() };
            s.lin(x, 1, &mut q);
            for y in s.atoms {
                out.insert(y, ());
            }
        };
        match m().tm(a).clone() {
            Tm::Tab { base, .. } => deep(base),
            Tm::Op(Op::Div | Op::Shr | Op::Rem | Op::And | Op::Mul, _, v) => {
                for x in v {
                    deep(x);
                }
            }
            _ => {}
        }
    }
    let r = std::rc::Rc::new(out.into_keys().collect::<Vec<_>>());
    cache().atoms.insert(t, r.clone());
    r
}

/// true if the literals are linearly contradictory, given that they were not before the last one
pub fn contradictory(lits: &Lits) -> bool {
    let Some(last) = lits.last() else { return false };
    // literals connected to the last one
    let mut set: HashSet<T> = atoms_of(last.0).iter().copied().collect();
    set.insert(last.0);
    let mut used = vec![false; lits.len()];
    let mut loops: HashSet<u32> = HashSet::new();
    let mut phis: HashSet<u32> = HashSet::new();
    loop {
        let mut ch = false;
        for (i, l) in lits.iter().enumerate() {
            if used[i] {
                continue;
            }
            let at = atoms_of(l.0);
            if set.contains(&l.0) || at.iter().any(|a| set.contains(a)) {
                used[i] = true;
                for a in at.iter() {
                    ch |= set.insert(*a);
                }
                ch |= set.insert(l.0);
            }
        }
        for t in set.iter().copied().collect::<Vec<_>>() {
            match m().tm(t) {
                Tm::LoopOut { l, .. } => {
                    let l = *l;
                    if loops.insert(l) {
                        if let Some(fs) = loop_facts().get(&l) {
                            for f in fs {
                                for a in atoms_of(f.0).iter() {
                                    ch |= set.insert(*a);
                                }
                            }
                        }
                    }
                }
                Tm::Phi { .. } => {
                    if phis.insert(t) {
                        for f in phi_facts().iter() {
                            let at = atoms_of(f.0);
                            if at.contains(&t) {
                                for a in at.iter() {
                                    ch |= set.insert(*a);
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if !ch {
            break;
        }
    }
    let mut comp: Lits = lits.iter().zip(&used).filter(|x| *x.1).map(|x| *x.0).collect();
    comp.sort();
    comp.dedup();
    let key = (ctx_id(), comp);
    if let Some(r) = cache().memo.get(&key) {
        return *r;
    }
    let r = contradictory_(&key.1);
    cache().memo.insert(key, r);
    r
}
fn contradictory_(lits: &Lits) -> bool {
    let mut s = Sys { qs: vec![], atoms: HashSet::new(), todo: vec![], bounds: HashMap::new() };
    for (t, l, h) in lits {
        let e = s.bounds.entry(*t).or_insert((-BIG, BIG));
        e.0 = e.0.max(*l);
        e.1 = e.1.min(*h);
        if e.0 > e.1 {
            return true;
        }
    }
    let mut any = false;
    for (t, l, h) in lits {
        if lin_like(*t) {
            any = true;
            s.add(*t, *l, *h);
        }
    }
    if !any {
        return false;
    }
    s.facts(lits);
    fm(s.qs)
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Row {
    c: Vec<i128>,
    k: i128,
}
/// normalise; Some(true) = contradiction, Some(false) = trivial
fn row_norm(r: &mut Row) -> Option<bool> {
    let mut g = 0;
    for v in &r.c {
        g = gcd(g, *v);
    }
    if g == 0 {
        return Some(r.k < 0);
    }
    if g > 1 {
        for v in r.c.iter_mut() {
            *v /= g;
        }
        r.k = div_floor(r.k, g);
    }
    None
}
/// keep the strongest of rows with equal coefficients; None = contradiction
fn tidy(mut rs: Vec<Row>) -> Option<Vec<Row>> {
    let mut out: Vec<Row> = vec![];
    rs.sort();
    for r in rs {
        match out.last() {
            Some(o) if o.c == r.c => {}
            _ => out.push(r),
        }
    }
    Some(out)
}
fn comb(p: &Row, fa: i128, n: &Row, fb: i128) -> Option<Row> {
    let k = p.k.checked_mul(fa)?.checked_add(n.k.checked_mul(fb)?)?;
    let mut c = Vec::with_capacity(p.c.len());
    for (x, y) in p.c.iter().zip(&n.c) {
        let v = x.checked_mul(fa)?.checked_add(y.checked_mul(fb)?)?;
        if v.abs() > 1 << 80 {
            return None;
        }
        c.push(v);
    }
    Some(Row { c, k })
}
fn fm(qs: Vec<Ineq>) -> bool {
    let mut vars: Vec<T> = vec![];
    for q in &qs {
        for t in q.c.keys() {
            if !vars.contains(t) {
                vars.push(*t);
            }
        }
    }
    vars.sort();
    let mut rows: Vec<Row> = vec![];
    for q in qs {
        let mut r = Row { c: vars.iter().map(|t| q.c.get(t).copied().unwrap_or(0)).collect(), k: q.k };
        match row_norm(&mut r) {
            Some(true) => return true,
            Some(false) => {}
            None => rows.push(r),
        }
    }
    let nv = vars.len();
    for _ in 0..2 * nv + 2 {
        rows = match tidy(rows) {
            None => return true,
            Some(r) => r,
        };
        if rows.is_empty() {
            return false;
        }
        // opposite rows
        let mut eq: Option<(usize, usize)> = None;
        for i in 0..rows.len() {
            let neg: Vec<i128> = rows[i].c.iter().map(|x| -x).collect();
            if let Ok(j) = rows.binary_search_by(|r| r.c.cmp(&neg)) {
                let s = rows[i].k + rows[j].k;
                if s < 0 {
                    return true;
                }
                if s == 0 && eq.is_none() {
                    if let Some(v) = (0..nv).filter(|v| rows[i].c[*v].abs() == 1).max_by_key(|v| rows.iter().filter(|r| r.c[*v] != 0).count()) {
                        eq = Some((i, v));
                    }
                }
            }
        }
        if let Some((i, v)) = eq {
            let e = rows[i].clone();
            let neg: Vec<i128> = e.c.iter().map(|x| -x).collect();
            let mut next = vec![];
            for r in rows.into_iter() {
                if r.c == e.c || r.c == neg {
                    if r.c[v] != 0 && (r.c == e.c && r.k == e.k || r.c == neg && r.k == -e.k) {
                        continue;
                    }
                }
                if r.c[v] == 0 {
                    next.push(r);
                    continue;
                }
                // r - (r_v / e_v) * e
                let f = -r.c[v] * e.c[v];
                match comb(&r, 1, &e, f) {
                    Some(mut q) => match row_norm(&mut q) {
                        Some(true) => return true,
                        Some(false) => {}
                        None => next.push(q),
                    },
                    None => {}
                }
            }
            rows = next;
            continue;
        }
        // cheapest variable
        let mut best: Option<(i64, usize)> = None;
        for v in 0..nv {
            let (mut p, mut n) = (0i64, 0i64);
            for r in &rows {
                if r.c[v] > 0 {
                    p += 1
                } else if r.c[v] < 0 {
                    n += 1
                }
            }
            if p + n == 0 {
                continue;
            }
            let cost = p * n - p - n;
            if best.map_or(true, |b| cost < b.0) {
                best = Some((cost, v));
            }
        }
        let Some((cost, v)) = best else { return false };
        if cost > 500 {
            return false;
        }
        let (mut pos, mut neg, mut next) = (vec![], vec![], vec![]);
        for r in rows {
            if r.c[v] > 0 {
                pos.push(r)
            } else if r.c[v] < 0 {
                neg.push(r)
            } else {
                next.push(r)
            }
        }
        for p in &pos {
            for n in &neg {
                let (a, b) = (p.c[v], -n.c[v]);
                let g = gcd(a, b);
                if let Some(mut q) = comb(p, b / g, n, a / g) {
                    match row_norm(&mut q) {
                        Some(true) => return true,
                        Some(false) => {}
                        None => next.push(q),
                    }
                }
            }
        }
        if next.len() > 700 {
            return false;
        }
        rows = next;
    }
    false
}

fn lin_like(t: T) -> bool {
    matches!(m().tm(t), Tm::Lin { .. } | Tm::LoopOut { .. } | Tm::Phi { .. } | Tm::Op(Op::Div | Op::Shr | Op::Rem | Op::And | Op::Mul, ..))
}

/// Can the condition hold? `false` is a proof that it cannot.
pub fn feasible(n: N) -> bool {
    if n == F {
        return false;
    }
    if n == TT {
        return true;
    }
    let key = (n, ctx_id());
    if let Some(&r) = m().feas_memo.get(&key) {
        return r;
    }
    let mut budget = 3000;
    let r = feas(n, &mut vec![], &mut budget, false);
    m().feas_memo.insert(key, r);
    r
}
/// A path that could not be refuted.
pub fn feas_path(n: N) -> Option<Lits> {
    let mut l = vec![];
    let mut budget = 3000;
    if feas(n, &mut l, &mut budget, true) { Some(l) } else { None }
}
fn feas(n: N, lits: &mut Lits, budget: &mut i32, keep: bool) -> bool {
    tick();
    match m().nd(n).clone() {
        Nd::Leaf(t) => t != 0 && !deep(lits),
        Nd::Test(v, ps) => {
            let (rlo, rhi) = m().range(v);
            // prefer larger subtrees last: try leaves first
            let mut order: Vec<usize> = (0..ps.len()).collect();
            order.sort_by_key(|i| m().is_leaf(ps[*i].1).is_none());
            for i in order {
                let c = ps[i].1;
                if c == F {
                    continue;
                }
                let lo = if i == 0 { rlo } else { m().dec(v, ps[i].0) };
                let hi = if i + 1 < ps.len() { m().dec(v, ps[i + 1].0) - 1 } else { rhi };
                *budget -= 1;
                if *budget < 0 {
                    return true;
                }
                lits.push((v, lo, hi));
                let bad = lits.iter().any(|l| lin_like(l.0)) && contradictory(lits);
                if !bad && feas(c, lits, budget, keep) {
                    if !keep {
                        lits.pop();
                    }
                    return true;
                }
                lits.pop();
            }
            false
        }
    }
}

/// A stronger contradiction test for complete paths: values fixed by the path are propagated into
/// array offsets and products, loads at provably equal offsets are identified, and the factors of
/// products are split at 0, 1 and 2.
fn deep(lits: &Lits) -> bool {
    let mut terms = HashSet::new();
    let mut seen = HashSet::new();
    for l in lits {
        m().terms_in_t(l.0, &mut terms, &mut seen);
    }
    let sym = terms.iter().any(|t| match m().tm(*t) {
        Tm::Op(Op::Mul, ..) | Tm::LoopOut { .. } => true,
        Tm::Load { off, .. } => m().const_of_t(*off).is_none(),
        _ => false,
    });
    if !sym {
        return false;
    }
    let mut key = lits.clone();
    key.sort();
    key.dedup();
    let k = (ctx_id(), key);
    if let Some(r) = cache().deep.get(&k) {
        return *r;
    }
    let r = deep_(lits.clone(), 0);
    cache().deep.insert(k, r);
    r
}
fn merge(lits: &Lits) -> Option<Lits> {
    let mut b: BTreeMap<T, (i128, i128)> = BTreeMap::new();
    for (t, l, h) in lits {
        if let Some(c) = m().const_of_t(*t) {
            if c < BIG as u128 && ((c as i128) < *l || c as i128 > *h) {
                return None;
            }
            continue;
        }
        let r = m().range(*t);
        let e = b.entry(*t).or_insert(r);
        e.0 = e.0.max(*l);
        e.1 = e.1.min(*h);
        if e.0 > e.1 {
            return None;
        }
    }
    Some(b.into_iter().map(|(t, (l, h))| (t, l, h)).collect())
}
fn has_loop(t: T) -> bool {
    let mut s = HashSet::new();
    m().terms_in_t(t, &mut s, &mut HashSet::new());
    s.iter().any(|x| matches!(m().tm(*x), Tm::LoopOut { .. } | Tm::Exists { .. } | Tm::Phi { .. }))
}
/// Can the condition hold under the literals?
fn holds_under(n: N, lits: &Lits, extra: &mut Lits, budget: &mut i32) -> bool {
    match m().nd(n).clone() {
        Nd::Leaf(t) => t != 0,
        Nd::Test(v, ps) => {
            let (mut lo, mut hi) = m().range(v);
            for (t, l, h) in lits.iter().chain(extra.iter()) {
                if *t == v {
                    lo = lo.max(*l);
                    hi = hi.min(*h);
                }
            }
            for (i, p) in ps.iter().enumerate() {
                if p.1 == F {
                    continue;
                }
                let a = if i == 0 { -BIG } else { m().dec(v, p.0) };
                let b = if i + 1 < ps.len() { m().dec(v, ps[i + 1].0) - 1 } else { BIG };
                let (x, y) = (a.max(lo), b.min(hi));
                if x > y {
                    continue;
                }
                *budget -= 1;
                if *budget < 0 {
                    return true;
                }
                extra.push((v, x, y));
                let mut all = lits.clone();
                all.extend(extra.iter().copied());
                let r = !(lin_like(v) && contradictory_(&all)) && holds_under(p.1, lits, extra, budget);
                extra.pop();
                if r {
                    return true;
                }
            }
            false
        }
    }
}
/// A loop that ran at least once satisfied its condition at the start; one that did not run did not.
fn loop_start(lits: &Lits, terms: &HashSet<T>) -> bool {
    let mut ls: Vec<u32> = terms.iter().filter_map(|t| match m().tm(*t) { Tm::LoopOut { l, i: 0, .. } => Some(*l), _ => None }).collect();
    ls.sort();
    ls.dedup();
    for l in ls {
        let k = m().mk(Tm::LoopOut { l, i: 0, w: 64 });
        let mut pos = lits.iter().any(|(t, lo, _)| *t == k && *lo >= 1);
        if !pos {
            let mut x = lits.clone();
            x.push((k, 0, 0));
            pos = contradictory_(&x);
        }
        if !pos {
            continue;
        }
        let d = m().loops[l as usize].clone();
        let mut map: HashMap<T, N> = HashMap::new();
        for (i, c) in d.cells.iter().enumerate() {
            let p = m().mk(Tm::Phi { h: d.h, i: i as u32, w: c.2 });
            map.insert(p, c.0);
        }
        let c0 = crate::loops::subst_nodes(d.cont, &map, &mut HashMap::new());
        if !holds_under(c0, lits, &mut vec![], &mut 60) {
            return true;
        }
    }
    false
}
fn deep_(lits: Lits, depth: u32) -> bool {
    tick();
    let Some(mut lits) = merge(&lits) else { return true };
    // propagate fixed values
    for _ in 0..4 {
        let mut map: HashMap<T, T> = HashMap::new();
        for (t, l, h) in &lits {
            if l == h && *l >= 0 && matches!(m().tm(*t), Tm::Atom { .. } | Tm::Load { n: 1, .. }) {
                map.insert(*t, m().c(*l as u128));
            }
        }
        let mut ch = false;
        let mut out: Lits = vec![];
        for (t, l, h) in &lits {
            if map.contains_key(t) || has_loop(*t) {
                out.push((*t, *l, *h));
                continue;
            }
            let n = m().subst_t(*t, &map, &mut HashMap::new(), &mut HashMap::new());
            if n != *t {
                ch = true;
                let (mut l, mut h, mut n) = (*l, *h, n);
                if let Tm::Lin { k, ts } = m().tm(n).clone() {
                    if ts.len() == 1 && ts[0].0 == 1 {
                        n = ts[0].1;
                        l -= k;
                        h -= k;
                    } else if ts.len() == 1 && ts[0].0 == -1 {
                        n = ts[0].1;
                        (l, h) = (k - h, k - l);
                    }
                }
                out.push((n, l, h));
            } else {
                out.push((*t, *l, *h));
            }
        }
        match merge(&out) {
            None => return true,
            Some(o) => lits = o,
        }
        if !ch {
            break;
        }
    }
    if contradictory_(&lits) {
        return true;
    }
    if depth == 0 {
        let mut terms = HashSet::new();
        for l in &lits {
            m().terms_in_t(l.0, &mut terms, &mut HashSet::new());
        }
        if loop_start(&lits, &terms) {
            return true;
        }
    }
    // loads at equal offsets
    let mut terms = HashSet::new();
    for l in &lits {
        if !has_loop(l.0) {
            m().terms_in_t(l.0, &mut terms, &mut HashSet::new());
        }
    }
    let mut loads: Vec<T> = terms.iter().copied().filter(|t| matches!(m().tm(*t), Tm::Load { n: 1, .. })).collect();
    loads.sort();
    let parts = |t: T| match m().tm(t) {
        Tm::Load { r, off, .. } => (*r, *off),
        _ => unreachable!(),
    };
    let symb: Vec<T> = loads.iter().copied().filter(|t| m().const_of_t(parts(*t).1).is_none()).collect();
    let mut tries = 0;
    for a in &symb {
        for b in &loads {
            let ((ra, oa), (rb, ob)) = (parts(*a), parts(*b));
            if a == b || ra != rb || tries > 40 {
                continue;
            }
            let d = m().lin2(1, oa, -1, ob);
            let (l, h) = m().range(d);
            if l > 0 || h < 0 {
                continue;
            }
            tries += 1;
            let mut x = lits.clone();
            x.push((d, 1, BIG));
            let mut y = lits.clone();
            y.push((d, -BIG, -1));
            if contradictory_(&x) && contradictory_(&y) {
                let map: HashMap<T, T> = [(*a, *b)].into();
                let out: Lits = lits.iter().map(|(t, l, h)| (if has_loop(*t) { *t } else { m().subst_t(*t, &map, &mut HashMap::new(), &mut HashMap::new()) }, *l, *h)).collect();
                return deep_(out, depth + 1);
            }
        }
    }
    // split the factors of products
    if depth < 3 {
        let mut fs: Vec<T> = vec![];
        for t in &terms {
            if let Tm::Op(Op::Mul, _, a) = m().tm(*t) {
                fs.extend(a.iter().copied());
            }
        }
        fs.sort();
        fs.dedup();
        for f in fs {
            let mut r = m().range(f);
            for (t, l, h) in &lits {
                if *t == f {
                    r = (r.0.max(*l), r.1.min(*h));
                }
            }
            let mut cuts = vec![];
            for c in [(0, 0), (1, 1), (2, BIG)] {
                let x = (c.0.max(r.0), c.1.min(r.1));
                if x.0 <= x.1 {
                    cuts.push(x);
                }
            }
            if cuts.len() < 2 {
                continue;
            }
            let all = cuts.iter().all(|c| {
                let mut x = lits.clone();
                x.push((f, c.0, c.1));
                deep_(x, depth + 1)
            });
            if all {
                return true;
            }
        }
    }
    false
}
