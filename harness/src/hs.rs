//! Equality and hashing.
use crate::mk;
use core::hash::{Hash, Hasher};
/// What a value tells a hasher, as a sum in which every part has its own weight.
#[derive(Clone, Copy)]
pub struct Told { n: u64, s: u64 }
impl Told {
    fn add(&mut self, x: u64) {
        self.n += 1;
        self.s += self.n * x;
    }
}
impl Hasher for Told {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            self.add(b[i] as u64);
            i += 1;
        }
    }
    fn write_u8(&mut self, x: u8) { self.add(x as u64) }
    fn write_usize(&mut self, x: usize) { self.add(x as u64) }
}
fn told<T: Hash>(t: &T) -> Told {
    let mut h = Told { n: 0, s: 0 };
    t.hash(&mut h);
    h
}
pub fn eq<T: PartialEq + Clone>(name: &'static str, a: &T, b: &T, want: bool) {
    let copy = a.clone();
    mk::check("h.copy", copy == *a);
    mk::check(name, (a == b) == want);
    mk::check(name, (a != b) == !want);
}
pub fn hash<T: PartialEq + Hash>(name: &'static str, a: &T, b: &T) {
    if a == b {
        let (x, y) = (told(a), told(b));
        mk::check(name, x.n == y.n && x.s == y.s);
    }
}
/// Are the bytes from `i` up to `e` the same?
pub fn alike(a: &[u8], b: &[u8], i: usize, e: usize) -> bool {
    let mut same = true;
    let mut i = i;
    while i < e && same {
        same = a[i] == b[i];
        i += 1;
    }
    same
}
