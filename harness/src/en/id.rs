//! Ways of writing things down that the analyser has to see through (its own regression entries,
//! not about the code under analysis; run by tools/selftest.py).
use crate::mk;
use core::convert::{TryFrom, TryInto};
pub fn array_map(x: u32) { let b = x.to_le_bytes().map(|v| v ^ 0xff); mk::check("i", u32::from_le_bytes(b) == !x); }
pub fn array_from_fn(b: &[u8]) { mk::assume(b.len() == 8); let a: [u8; 4] = core::array::from_fn(|i| b[i + 2]); mk::check("i", a[0] == b[2] && a[3] == b[5]); }
pub fn array_iter_map(b: [u8; 4]) { let mut s = 0u32; for v in b.iter().map(|v| *v as u32) { s += v; } mk::check("i", s == b[0] as u32 + b[1] as u32 + b[2] as u32 + b[3] as u32); }
pub fn array_into_iter(b: [u8; 4]) { let mut s = 0u32; for v in b { s = s << 8 | v as u32; } mk::check("i", s == u32::from_be_bytes(b)); }
pub fn array_fold(b: [u8; 4]) { let s = b.iter().fold(0u32, |a, v| a << 8 | u32::from(*v)); mk::check("i", s == u32::from_be_bytes(b)); }
pub fn array_rev(b: [u8; 4]) { let s = b.iter().rev().fold(0u32, |a, v| a << 8 | u32::from(*v)); mk::check("i", s == u32::from_le_bytes(b)); }
pub fn array_zip(a: [u8; 3], b: [u8; 3]) { let e = a.iter().zip(b.iter()).all(|(x, y)| x == y); mk::check("i", e == (a == b)); }
pub fn array_any(a: [u8; 3]) { mk::check("i", a.iter().any(|x| *x == 7) == (a[0] == 7 || a[1] == 7 || a[2] == 7)); }
pub fn array_contains(a: [u8; 3], v: u8) { mk::check("i", a.contains(&v) == (a[0] == v || a[1] == v || a[2] == v)); }
pub fn array_position(a: [u8; 3]) { mk::check("i", a.iter().position(|x| *x == 7) == if a[0] == 7 { Some(0) } else if a[1] == 7 { Some(1) } else if a[2] == 7 { Some(2) } else { None }); }
pub fn array_sum(a: [u8; 3]) { let s: u32 = a.iter().map(|x| *x as u32).sum(); mk::check("i", s == a[0] as u32 + a[1] as u32 + a[2] as u32); }
pub fn array_enumerate(a: [u8; 3]) { let mut s = 0usize; for (i, v) in a.iter().enumerate() { if *v != 0 { s += i; } } mk::check("i", s == (a[1] != 0) as usize + 2 * (a[2] != 0) as usize); }
pub fn slice_first(b: &[u8]) { mk::check("i", b.first().copied() == if b.len() > 0 { Some(b[0]) } else { None }); }
pub fn slice_pattern(b: &[u8]) { if let [x, y, rest @ ..] = b { mk::check("i", *x == b[0] && *y == b[1] && rest.len() == b.len() - 2); } else { mk::check("i2", b.len() < 2); } }
pub fn slice_pattern_exact(b: &[u8]) { if let [x, _, y] = b { mk::check("i", b.len() == 3 && *x == b[0] && *y == b[2]); } else { mk::check("i2", b.len() != 3); } }
pub fn slice_try_into(b: &[u8]) { mk::assume(b.len() >= 6); let a: [u8; 4] = b[2..6].try_into().unwrap(); mk::check("i", a[0] == b[2] && a[3] == b[5]); }
pub fn slice_try_from(b: &[u8]) { let r = <[u8; 2]>::try_from(b); mk::check("i", r.is_ok() == (b.len() == 2)); if let Ok(a) = r { mk::check("i2", a[1] == b[1]); } }
pub fn slice_get_range(b: &[u8], i: usize) { let r = i.checked_add(2).and_then(|e| b.get(i..e)); mk::check("i", r.is_some() == (b.len() >= 2 && i <= b.len() - 2)); if let Some(s) = r { mk::check("i2", s[1] == b[i + 1]); } }
pub fn slice_split_at(b: &[u8], i: usize) { if i <= b.len() { let (x, y) = b.split_at(i); mk::check("i", x.len() == i && y.len() == b.len() - i); } }
pub fn slice_split_first(b: &[u8]) { if let Some((x, r)) = b.split_first() { mk::check("i", *x == b[0] && r.len() + 1 == b.len()); } }
pub fn slice_split_last(b: &[u8]) { if let Some((x, r)) = b.split_last() { mk::check("i", *x == b[b.len() - 1] && r.len() + 1 == b.len()); } }
pub fn slice_last(b: &[u8]) { mk::check("i", b.last().is_some() == (b.len() > 0)); if let Some(x) = b.last() { mk::check("i2", *x == b[b.len() - 1]); } }
pub fn slice_starts_with(b: &[u8]) { mk::check("i", b.starts_with(b"_SM_") == (b.len() >= 4 && b[0] == 0x5f && b[1] == 0x53 && b[2] == 0x4d && b[3] == 0x5f)); }
pub fn slice_eq(b: &[u8]) { mk::check("i", (b == &[1u8, 2][..]) == (b.len() == 2 && b[0] == 1 && b[1] == 2)); }
pub fn slice_get_eq(b: &[u8]) { mk::check("i", (b.get(..2) == Some(&[1u8, 2][..])) == (b.len() >= 2 && b[0] == 1 && b[1] == 2)); }
pub fn slice_strip_prefix(b: &[u8]) { match b.strip_prefix(&[1u8, 2]) { Some(r) => mk::check("i", b[0] == 1 && b[1] == 2 && r.len() == b.len() - 2), None => mk::check("i2", b.len() < 2 || b[0] != 1 || b[1] != 2) } }
pub fn slice_first_chunk(b: &[u8]) { match b.first_chunk::<4>() { Some(a) => mk::check("i", a[3] == b[3]), None => mk::check("i2", b.len() < 4) } }
pub fn slice_is_empty(b: &[u8]) { mk::check("i", b.is_empty() == (b.len() == 0)); }
pub fn slice_chunks(b: &[u8]) { mk::assume(b.len() == 6); let mut s = 0u32; for c in b.chunks(2) { s += c[0] as u32; } mk::check("i", s == b[0] as u32 + b[2] as u32 + b[4] as u32); }
pub fn slice_chunks_exact(b: &[u8]) { mk::assume(b.len() == 7); let mut s = 0u32; for c in b.chunks_exact(2) { s += c[1] as u32; } mk::check("i", s == b[1] as u32 + b[3] as u32 + b[5] as u32); }
pub fn slice_windows(b: &[u8]) { mk::assume(b.len() == 4); mk::unroll(8); let r = b.windows(2).position(|w| w[0] == 0 && w[1] == 0); mk::check("i", r.is_some() == (b[0] == 0 && b[1] == 0 || b[1] == 0 && b[2] == 0 || b[2] == 0 && b[3] == 0)); }
pub fn slice_iter_take(b: &[u8]) { mk::assume(b.len() == 5); let s: u32 = b.iter().take(2).map(|v| *v as u32).sum(); mk::check("i", s == b[0] as u32 + b[1] as u32); }
pub fn slice_iter_skip(b: &[u8]) { mk::assume(b.len() == 4); let s: u32 = b.iter().skip(2).map(|v| *v as u32).sum(); mk::check("i", s == b[2] as u32 + b[3] as u32); }
pub fn slice_iter_nth(b: &[u8], n: usize) { let x = b.iter().nth(n); mk::check("i", x.is_some() == (n < b.len())); if let Some(v) = x { mk::check("i2", *v == b[n]); } }
pub fn slice_iter_filter(b: [u8; 3]) { let n = b.iter().filter(|v| **v > 9).count(); mk::check("i", n == (b[0] > 9) as usize + (b[1] > 9) as usize + (b[2] > 9) as usize); }
pub fn slice_iter_copied(b: [u8; 3]) { let n = b.iter().copied().max(); mk::check("i", n.unwrap() >= b[1]); }
pub fn slice_step_by(b: &[u8]) { mk::assume(b.len() == 6); let mut s = 0u32; for i in (0..b.len()).step_by(2) { s += b[i] as u32; } mk::check("i", s == b[0] as u32 + b[2] as u32 + b[4] as u32); }
pub fn range_contains(x: u8) { mk::check("i", (0x80..=0xfe).contains(&x) == (x >= 0x80 && x < 0xff)); mk::check("i2", (3..7).contains(&x) == (x >= 3 && x < 7)); }
pub fn range_loop(b: &[u8]) { mk::assume(b.len() == 3); let mut s = 0u32; for i in 0..3 { s = s * 2 + b[i] as u32; } mk::check("i", s == b[0] as u32 * 4 + b[1] as u32 * 2 + b[2] as u32); }
pub fn range_rev(b: &[u8]) { mk::assume(b.len() == 3); let mut s = 0u32; for i in (0..3).rev() { s = s * 2 + b[i] as u32; } mk::check("i", s == b[2] as u32 * 4 + b[1] as u32 * 2 + b[0] as u32); }
pub fn option_combinators(x: Option<u8>) { mk::check("i", x.map(|v| v as u16 + 1).filter(|v| *v > 5).unwrap_or(0) == match x { Some(v) if v > 4 => v as u16 + 1, _ => 0 }); }
pub fn option_zip(x: Option<u8>, y: Option<u8>) { mk::check("i", x.zip(y).is_some() == (x.is_some() && y.is_some())); }
pub fn option_and_then(x: Option<u8>) { mk::check("i", x.and_then(|v| v.checked_sub(3)) == match x { Some(v) if v >= 3 => Some(v - 3), _ => None }); }
pub fn option_ok_or(x: Option<u8>) { mk::check("i", x.ok_or(1u8).is_ok() == x.is_some()); }
pub fn option_take(x: Option<u8>) { let mut y = x; let z = y.take(); mk::check("i", y.is_none() && z == x); }
pub fn option_is_some_and(x: Option<u8>) { mk::check("i", x.is_some_and(|v| v == 4) == (x == Some(4))); }
pub fn option_map_or(x: Option<u8>) { mk::check("i", x.map_or(true, |v| v < 4) == !matches!(x, Some(4..=255))); }
pub fn option_xor(x: Option<u8>, y: Option<u8>) { mk::check("i", x.or(y).is_some() == (x.is_some() || y.is_some())); }
pub fn bool_then(x: u8) { mk::check("i", (x > 3).then(|| x - 3) == x.checked_sub(4).map(|v| v + 1)); }
pub fn bool_then_some(x: u8) { mk::check("i", (x > 3).then_some(x) == if x > 3 { Some(x) } else { None }); }
pub fn result_chain(x: u8) { let r: Result<u8, u8> = if x > 3 { Ok(x) } else { Err(x) }; mk::check("i", r.map(|v| v / 2).or_else(|e| if e == 0 { Err(()) } else { Ok(e) }).ok() == if x > 3 { Some(x / 2) } else if x == 0 { None } else { Some(x) }); }
fn q(x: u8) -> Option<u8> { let y = x.checked_add(10)?; let z = y.checked_mul(2)?; Some(z) }
pub fn question(x: u8) { mk::check("i", q(x).is_some() == (x as u16 * 2 + 20 <= 255)); }
pub fn wrapping(x: u8) { mk::check("i", x.wrapping_add(200).wrapping_sub(200) == x); }
pub fn saturating(x: u8) { mk::check("i", x.saturating_sub(4) == if x > 4 { x - 4 } else { 0 }); mk::check("i2", x.saturating_add(4) == if x < 251 { x + 4 } else { 255 }); }
pub fn saturating_mul(x: u8) { mk::check("i", x.saturating_mul(2) == if x < 128 { x * 2 } else { 255 }); }
pub fn overflowing(x: u8) { let (v, o) = x.overflowing_add(6); mk::check("i", o == (x > 249) && v == x.wrapping_add(6)); }
pub fn checked_shl(x: u8) { mk::check("i", 1u32.checked_shl(x as u32).is_some() == (x < 32)); }
pub fn rotate(x: u16) { mk::check("i", x.rotate_left(8) == x.swap_bytes()); }
pub fn be(x: u16) { mk::check("i", u16::from_be(x) == x.swap_bytes() && u16::from_be_bytes(x.to_le_bytes()) == x.swap_bytes()); }
pub fn min_max(x: u8) { mk::check("i", x.min(9) <= 9 && x.max(9) >= 9 && core::cmp::min(x, 3) <= x); }
pub fn clamp(x: u8) { let y = x.clamp(3, 9); mk::check("i", y >= 3 && y <= 9 && (x < 3 || x > 9 || y == x)); }
pub fn abs_diff(x: u8, y: u8) { mk::check("i", x.abs_diff(y) == if x > y { x - y } else { y - x }); }
pub fn count_ones(x: u8) { mk::check("i", (x & 1).count_ones() == (x & 1) as u32); }
pub fn is_power(x: u8) { mk::assume(x < 4); mk::check("i", x.is_power_of_two() == (x == 1 || x == 2)); }
pub fn try_from_int(x: u16) { mk::check("i", u8::try_from(x).ok() == if x < 256 { Some(x as u8) } else { None }); }
pub fn shift_pieces(x: u32) { mk::check("i", x >> 16 << 16 | x & 0xffff == x); }
pub fn divide(x: u16) { mk::check("i", x / 256 == x >> 8 && x % 256 == x & 255); }
pub fn div_rem(x: u16) { mk::check("i", x / 10 * 10 + x % 10 == x); }
pub fn div_ceil(x: u16) { mk::check("i", x.div_ceil(256) == (x >> 8) + (x & 255 != 0) as u16); }
pub fn multiple(x: u16) { mk::check("i", (x % 16 == 0) == (x & 15 == 0)); }
pub fn lookup(x: u8) { const T: [u8; 4] = [3, 1, 4, 1]; mk::check("i", T[(x & 3) as usize] == match x & 3 { 0 => 3, 2 => 4, _ => 1 }); }
pub fn lookup_get(x: u8) { const T: [u8; 4] = [3, 1, 4, 1]; mk::check("i", T.get(x as usize).copied() == match x { 0 => Some(3), 2 => Some(4), 1 | 3 => Some(1), _ => None }); }
static S: [&str; 3] = ["a", "bb", "ccc"];
pub fn lookup_str(x: u8) { if let Some(s) = S.get(x as usize) { mk::check("i", s.len() == x as usize + 1); } else { mk::check("i2", x > 2); } }
pub fn lookup_table(x: u8) { const T: [(u8, &str); 3] = [(1, "one"), (5, "five"), (9, "nine")]; let r = T.iter().find(|(k, _)| *k == x).map(|(_, v)| *v); mk::check("i", r == match x { 1 => Some("one"), 5 => Some("five"), 9 => Some("nine"), _ => None }); }
pub fn str_eq(x: u8) { let s = if x == 0 { "a" } else { "b" }; mk::check("i", (s == "a") == (x == 0)); }
pub fn mem_replace(x: u8) { let mut v = x; let o = core::mem::replace(&mut v, 3); mk::check("i", o == x && v == 3); }
pub fn mem_swap(x: u8, y: u8) { let (mut a, mut b) = (x, y); core::mem::swap(&mut a, &mut b); mk::check("i", a == y && b == x); }
pub fn mem_take(x: u8) { let mut a = x; let b = core::mem::take(&mut a); mk::check("i", a == 0 && b == x); }
pub fn closure_capture(x: u8, y: u8) { let mut n = 0; let mut f = |v: u8| { n += v as u32; n }; f(x); let z = f(y); mk::check("i", z == x as u32 + y as u32); }
pub fn fn_pointer(x: u8) { let f: fn(u8) -> u8 = if x > 3 { |v| v - 1 } else { |v| v + 1 }; mk::check("i", f(x) == if x > 3 { x - 1 } else { x + 1 }); }
pub fn dyn_fn(x: u8) { let c = |v: u8| v ^ 1; let f: &dyn Fn(u8) -> u8 = &c; mk::check("i", f(x) == x ^ 1); }
pub fn generics(x: u8, y: u16) { fn generic<T: Into<u32>>(t: T) -> u32 { t.into() + 1 } mk::check("i", generic(x) == x as u32 + 1 && generic(y) == y as u32 + 1); }
pub fn while_let(b: &[u8]) { mk::assume(b.len() == 3); let mut it = b.iter(); let mut s = 0u32; while let Some(v) = it.next() { s += *v as u32; } mk::check("i", s == b[0] as u32 + b[1] as u32 + b[2] as u32); }
pub fn loop_break(x: u8) { let mut k = 0u32; let r = loop { if k == 3 || k == x as u32 { break k; } k += 1; }; mk::check("i", r == if x < 3 { x as u32 } else { 3 }); }
pub fn labelled(x: u8) { let r = 'a: { if x < 3 { break 'a 1; } if x < 6 { break 'a 2; } 3 }; mk::check("i", r == if x < 3 { 1 } else if x < 6 { 2 } else { 3 }); }
pub fn let_else(x: Option<u8>) { let Some(v) = x else { mk::check("i", x.is_none()); return; }; mk::check("i2", x == Some(v)); }
pub fn match_ranges(x: u8) { let r = match x { 0 => 0, 1..=9 => 1, 10 | 12 | 14 => 2, n if n % 2 == 1 => 3, _ => 4 }; mk::check("i", r == if x == 0 { 0 } else if x < 10 { 1 } else if x == 10 || x == 12 || x == 14 { 2 } else if x & 1 == 1 { 3 } else { 4 }); }
pub fn match_binding(x: u8) { let r = match x { n @ 3..=9 => n - 3, n => n }; mk::check("i", r == if x >= 3 && x <= 9 { x - 3 } else { x }); }
pub fn tuple_match(x: u8, y: bool) { let r = match (x, y) { (0, true) => 1, (0, false) => 2, (_, true) => 3, _ => 4 }; mk::check("i", r == if x == 0 { if y { 1 } else { 2 } } else if y { 3 } else { 4 }); }
pub fn ordering(x: u8, y: u8) { use core::cmp::Ordering::*; let r = match x.cmp(&y) { Less => 1, Equal => 2, Greater => 3 }; mk::check("i", r == if x < y { 1 } else if x == y { 2 } else { 3 }); }
pub fn tuple_cmp(x: u8, y: u8) { mk::check("i", ((x, y) >= (2, 6)) == (x > 2 || x == 2 && y >= 6)); }
pub fn array_cmp(x: [u8; 2]) { mk::check("i", (x >= [2, 6]) == (x[0] > 2 || x[0] == 2 && x[1] >= 6)); }
pub fn scan(b: [u8; 3]) { let s = b.iter().scan(0u32, |a, v| { *a += *v as u32; Some(*a) }).last(); mk::check("i", s == Some(b[0] as u32 + b[1] as u32 + b[2] as u32)); }
pub fn chain(x: u8, y: u8) { let s: u32 = core::iter::once(x).chain(core::iter::once(y)).map(u32::from).sum(); mk::check("i", s == x as u32 + y as u32); }
pub fn take_while(b: [u8; 3]) { let n = b.iter().take_while(|v| **v != 0).count(); mk::check("i", n == if b[0] == 0 { 0 } else if b[1] == 0 { 1 } else if b[2] == 0 { 2 } else { 3 }); }
pub fn flat_map(x: Option<u8>) { let n = x.iter().chain(x.iter()).count(); mk::check("i", n == 2 * x.is_some() as usize); }
pub fn filter_map(b: [u8; 3]) { let n: u32 = b.iter().filter_map(|v| v.checked_sub(9)).map(u32::from).sum(); mk::check("i", n == b[0].saturating_sub(9) as u32 + b[1].saturating_sub(9) as u32 + b[2].saturating_sub(9) as u32); }
pub fn try_fold(b: [u8; 3]) { let n = b.iter().try_fold(0u8, |a, v| a.checked_add(*v)); mk::check("i", n.is_some() == (b[0] as u32 + b[1] as u32 + b[2] as u32 <= 255)); }
pub fn min_by(b: [u8; 2]) { mk::check("i", *b.iter().min().unwrap() <= b[0]); }
pub fn successors(x: u8) { let n = core::iter::successors(Some(x & 3), |v| v.checked_sub(1)).count(); mk::check("i", n == (x & 3) as usize + 1); }
pub fn from_fn(x: u8) { let mut k = x & 3; let n = core::iter::from_fn(|| if k == 0 { None } else { k -= 1; Some(k) }).count(); mk::check("i", n == (x & 3) as usize); }
pub fn peekable(b: [u8; 2]) { let mut i = b.iter().peekable(); let p = i.peek().map(|v| **v); mk::check("i", p == Some(b[0]) && i.next() == Some(&b[0]) && i.next() == Some(&b[1]) && i.next().is_none()); }
pub fn rposition(b: [u8; 3]) { mk::check("i", b.iter().rposition(|v| *v == 0).is_some() == (b[0] == 0 || b[1] == 0 || b[2] == 0)); }
pub fn cell(x: u8) { let c = core::cell::Cell::new(x); c.set(c.get() ^ 1); mk::check("i", c.get() == x ^ 1); }
pub fn split_zero(b: &[u8]) { mk::assume(b.len() == 3); mk::unroll(8); let f = b.split(|v| *v == 0).next().unwrap(); mk::check("i", f.len() == if b[0] == 0 { 0 } else if b[1] == 0 { 1 } else if b[2] == 0 { 2 } else { 3 }); }
pub fn splitn(b: &[u8]) { mk::assume(b.len() == 3); mk::unroll(8); let f = b.splitn(2, |v| *v == 0).nth(1); mk::check("i", f.map(|s| s.len()) == if b[0] == 0 { Some(2) } else if b[1] == 0 { Some(1) } else if b[2] == 0 { Some(0) } else { None }); }
pub fn memchr(b: &[u8]) { mk::assume(b.len() == 3); mk::unroll(8); mk::check("i", b.iter().position(|v| *v == 0).is_some() == b.contains(&0)); }
pub fn copy_from(b: &[u8]) { mk::assume(b.len() >= 4); let mut a = [0u8; 4]; a.copy_from_slice(&b[..4]); mk::check("i", a[2] == b[2]); let mut c = [0u8; 4]; c[1..3].copy_from_slice(&b[..2]); mk::check("i2", c[1] == b[0] && c[2] == b[1] && c[0] == 0); }
pub fn index_loop_write(b: [u8; 4]) { let mut a = [0u8; 4]; for i in 0..4 { a[3 - i] = b[i]; } mk::check("i", u32::from_le_bytes(a) == u32::from_be_bytes(b)); }
pub fn array_reverse(b: [u8; 4]) { let mut a = b; a.reverse(); mk::check("i", u32::from_le_bytes(a) == u32::from_be_bytes(b)); }
pub fn array_swap(b: [u8; 4]) { let mut a = b; a.swap(0, 3); a.swap(1, 2); mk::check("i", u32::from_le_bytes(a) == u32::from_be_bytes(b)); }
pub fn iter_mut(b: [u8; 3]) { let mut a = b; for v in a.iter_mut() { *v ^= 1; } mk::check("i", a[0] == b[0] ^ 1 && a[2] == b[2] ^ 1); }
pub fn unsafe_get(b: &[u8], i: usize) { if i < b.len() { let v = unsafe { *b.get_unchecked(i) }; mk::check("i", v == b[i]); } }
pub fn ptr_read(b: &[u8]) { if b.len() >= 4 { let v = unsafe { core::ptr::read_unaligned(b.as_ptr() as *const u32) }; mk::check("i", v == u32::from_le_bytes([b[0], b[1], b[2], b[3]])); } }
pub fn ptr_add(b: &[u8]) { if b.len() >= 4 { let v = unsafe { *b.as_ptr().add(3) }; mk::check("i", v == b[3]); } }
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
pub struct V { a: u8, b: u8 }
impl core::ops::BitAnd for V { type Output = V; fn bitand(self, o: V) -> V { V { a: self.a & o.a, b: self.b & o.b } } }
pub fn derived_ord(x: V, y: V) { mk::check("i", (x >= y) == (x.a > y.a || x.a == y.a && x.b >= y.b)); }
pub fn derived_eq(x: V, y: V) { mk::check("i", (x == y) == (x.a == y.a && x.b == y.b)); }
pub fn operator(x: V) { mk::check("i", x & x == x); }
pub fn default(x: V) { mk::check("i", V { b: x.b, ..Default::default() } == V { a: 0, b: x.b }); }
fn rec(n: u8) -> u32 { if n == 0 { 0 } else { 1 + rec(n - 1) } }
pub fn recursion(x: u8) { mk::assume(x < 3); mk::check("i", rec(x) == x as u32); }
pub fn early(b: &[u8]) { let r = (|| { if b.len() < 2 { return None; } if b[0] == 3 { return Some(1); } Some(b[1]) })(); mk::check("i", r == if b.len() < 2 { None } else if b[0] == 3 { Some(1) } else { Some(b[1]) }); }
pub fn trait_object(x: u8) { trait T { fn v(&self) -> u8; } struct A(u8); struct B; impl T for A { fn v(&self) -> u8 { self.0 } } impl T for B { fn v(&self) -> u8 { 9 } } let a = A(x); let t: &dyn T = if x > 3 { &a } else { &B }; mk::check("i", t.v() == if x > 3 { x } else { 9 }); }
pub fn ascii(x: u8) { mk::check("i", x.is_ascii_digit() == (x >= 0x30 && x <= 0x39) && x.is_ascii_control() == (x < 32 || x == 127) && x.is_ascii() == (x < 128)); }
pub fn ascii_graphic(x: u8) { mk::check("i", x.is_ascii_graphic() == (x > 32 && x < 127)); mk::check("i2", x.is_ascii_whitespace() == matches!(x, 9 | 10 | 12 | 13 | 32)); }
pub fn trim(b: &[u8]) { mk::assume(b.len() == 2); mk::unroll(8); let t = b.trim_ascii_start(); mk::check("i", t.len() <= 2); }
pub fn nonzero(x: u8) { mk::check("i", core::num::NonZeroU8::new(x).map(|v| v.get()) == if x == 0 { None } else { Some(x) }); }
pub fn ilog(x: u8) { mk::assume(x >= 8 && x < 16); mk::check("i", x.ilog2() == 3); }
pub fn signed(x: i8) { mk::check("i", (x < 0) == (x as u8 >= 128)); mk::check("i2", (x as i16).unsigned_abs() as u8 == x.unsigned_abs()); }
pub fn sign_extend(x: u8) { mk::check("i", (x as i8 as i16 as u16) == if x >= 128 { x as u16 | 0xff00 } else { x as u16 }); }
pub fn const_block(x: u8) { const M: u8 = { let mut i = 0; let mut r = 0; while i < 3 { r |= 1 << i; i += 1; } r }; mk::check("i", x & M == x & 7); }
pub fn cow_like(b: &[u8]) { let e: &[u8] = &[]; let s = b.get(2..).unwrap_or(e); mk::check("i", s.len() == b.len().saturating_sub(2)); let t = b.get(2..).unwrap_or_default(); mk::check("i2", t.len() == s.len()); }
pub fn iter_len(b: &[u8]) { mk::check("i", b.iter().len() == b.len() && b.iter().size_hint().0 == b.len()); }
pub fn iter_as_slice(b: &[u8]) { let mut i = b.iter(); i.next(); mk::check("i", i.as_slice().len() == b.len().saturating_sub(1)); }
pub fn text_concat(x: u8) { let a = mk::textf(format_args!("{}-{}", x, "k")); let b = mk::textf(format_args!("{x}-k")); mk::check("i", mk::text_eq(a, b)); }
pub fn text_match(x: u8) { let s = match x { 0 => "zero", 1 => "one", _ => "many" }; let a = mk::textf(format_args!("<{}>", s)); let b = if x == 0 { mk::textf(format_args!("<zero>")) } else if x == 1 { mk::textf(format_args!("<one>")) } else { mk::textf(format_args!("<many>")) }; mk::check("i", mk::text_eq(a, b)); }
pub fn text_hex(x: u8) { let a = mk::textf(format_args!("{:#04x}", x)); let b = mk::textf(format_args!("0x{:02x}", x)); mk::check("i", mk::text_eq(a, b)); }
