//! Reference algorithms: what the table format says, written as plainly as possible.
/// Number of bytes of the string table starting at the front of `s` (through the double NUL).
pub fn table_len(s: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i + 1 < s.len() {
        if s[i] == 0 && s[i + 1] == 0 {
            return Some(i + 2);
        }
        i += 1;
    }
    None
}
/// Where the `k`-th (one-based) string of the table `s` starts and ends, if there is one and it and
/// all before it are valid UTF-8.
pub fn nth(s: &[u8], k: usize) -> Option<(usize, usize)> {
    let mut p = 0;
    let mut i = 0;
    while i < k - 1 {
        let (_, b) = string_at(s, p)?;
        p = b + 1;
        i += 1;
    }
    string_at(s, p)
}
/// The non-empty, valid UTF-8 string starting at `p`.
pub fn string_at(s: &[u8], p: usize) -> Option<(usize, usize)> {
    if p >= s.len() || s[p] == 0 {
        return None;
    }
    let mut e = p;
    while e < s.len() && s[e] != 0 {
        e += 1;
    }
    if crate::mk::is_utf8(&s[p..e]) { Some((p, e)) } else { None }
}
/// Position and generation (2 or 3) of the first entry point anchor on a paragraph boundary.
pub fn anchor(b: &[u8]) -> Option<(usize, u8)> {
    let mut i = 0;
    while i < b.len() {
        if b.len() - i >= 4 && b[i] == 0x5f && b[i + 1] == 0x53 && b[i + 2] == 0x4d && b[i + 3] == 0x5f {
            return Some((i, 2));
        }
        if b.len() - i >= 5 && b[i] == 0x5f && b[i + 1] == 0x53 && b[i + 2] == 0x4d && b[i + 3] == 0x33 && b[i + 4] == 0x5f {
            return Some((i, 3));
        }
        i += 16;
    }
    None
}
/// Sum of the first `n` bytes of `b`, modulo 256.
pub fn sum(b: &[u8], n: usize) -> u8 {
    let mut s = 0u8;
    let mut i = 0;
    while i < n {
        s = s.wrapping_add(b[i]);
        i += 1;
    }
    s
}
