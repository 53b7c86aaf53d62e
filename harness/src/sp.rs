//! Shared vocabulary of the per-structure specifications.
use crate::mk;
use dmidecode::*;
/// SMBIOS version at least `maj.min`.
pub fn ver(ep: &EntryPointV3, maj: u8, min: u8) -> bool { let (a, b) = (ep.major, ep.minor); a > maj || (a == maj && b >= min) }
pub fn w(b: &[u8], o: usize) -> u16 { b[o] as u16 | (b[o + 1] as u16) << 8 }
pub fn d(b: &[u8], o: usize) -> u32 { w(b, o) as u32 | (w(b, o + 2) as u32) << 16 }
pub fn q(b: &[u8], o: usize) -> u64 { d(b, o) as u64 | (d(b, o + 4) as u64) << 32 }
/// The string a (non-zero) index refers to; index 0 means "no string".
pub fn st(b: &[u8], o: usize) -> &'static str { sx(b[o]) }
pub fn sx(k: u8) -> &'static str { if k == 0 { "" } else { match mk::nth_string(k) { Some(s) => s, None => "" } } }
pub fn ok(k: u8) -> bool { k == 0 || mk::nth_string(k).is_some() }
pub fn when<T>(c: bool, f: impl FnOnce() -> T) -> Option<T> { if c { Some(f()) } else { None } }
pub fn size(x: u16) -> cache::CacheSize { if x & 0x8000 == 0 { cache::CacheSize::Granularity1K(x & 0x7fff) } else { cache::CacheSize::Granularity64K(x & 0x7fff) } }
pub fn size2(x: u32) -> cache::CacheSize2 { if x & 0x8000_0000 == 0 { cache::CacheSize2::Granularity1K(x & 0x7fff_ffff) } else { cache::CacheSize2::Granularity64K(x & 0x7fff_ffff) } }
pub fn peer(n: &'static str, d: system_slots::Device, buf: &[u8], o: usize) {
    mk::check("f.peer.segment", d.segment_group_number == w(buf, o));
    mk::check("f.peer.bus", d.bus_number == buf[o + 2]);
    mk::check("f.peer.device", u8::from(d.device_and_function_number) == buf[o + 3]);
    mk::check("f.peer.width", d.data_bus_width == buf[o + 4]);
}
pub fn access(method: u8, a: u32) -> system_event_log::AccessMethod {
    use system_event_log::AccessMethod::*;
    let (b0, b1, b2) = (a as u8, (a >> 8) as u8, (a >> 16) as u8);
    if method == 0 { IndexedIoOne8bitIndexOne8bitData { index: b0, data: b2 } }
    else if method == 1 { IndexedIoTwo8bitIndexOne8bitData { index: [b0, b1], data: b2 } }
    else if method == 2 { IndexedIoOne16bitIndexOne8bitData { index: a as u16, data: b2 } }
    else if method == 3 { MemoryMappedPhysicaAddress { physical_address: a } }
    else if method == 4 { GeneralPurposeNonVolatileData { gpnv_handle: a as u16 } }
    else if method >= 0x80 { OemSpecific { method, address: a } }
    else { Available { method, address: a } }
}
#[macro_export]
macro_rules! fld { ($n:literal, $a:expr, $b:expr) => { mk::check_eq(concat!("f.", $n), &$a, &$b); } }
#[macro_export]
macro_rules! opt { ($n:literal, $a:expr, $c:expr, $b:expr) => {{
    mk::check(concat!("p.", $n), $a.is_some() == $c);
    let want = if $c { Some($b) } else { None };
    mk::check_eq(concat!("f.", $n), &$a, &want);
}} }
#[macro_export]
macro_rules! txt { ($n:literal, $a:expr, $buf:expr, $o:expr) => {{
    mk::check(concat!("s.", $n, ".valid"), sp::ok($buf[$o]));
    mk::check_eq(concat!("s.", $n), $a, sp::st($buf, $o));
}} }
#[macro_export]
macro_rules! opt_txt { ($n:literal, $a:expr, $c:expr, $buf:expr, $o:expr) => {{
    mk::check(concat!("p.", $n), $a.is_some() == $c);
    if let Some(x) = $a {
        if $c {
            mk::check(concat!("s.", $n, ".valid"), sp::ok($buf[$o]));
            mk::check_eq(concat!("s.", $n), x, sp::st($buf, $o));
        }
    }
}} }
/// Every error must be justified by the bytes.
#[macro_export]
macro_rules! errs { ($e:expr, $buf:expr, $info:expr, $short:expr, $need:expr, [$($c:expr => $o:expr),* $(,)?]) => {
    match $e {
        MalformedStructureError::InvalidFormattedSectionLength(i, h, _, n) => {
            let need: usize = $need;
            mk::check("e.length", $short);
            mk::check("e.length.need", need > 255 || n == need as u8);
            mk::check("e.length.less", need > 255 || sp::exact($buf[0]) || $buf[1] < n);
            mk::check("e.length.which", i == $info && h == sp::w($buf, 2));
        }
        MalformedStructureError::InvalidSlice(_) => mk::check("e.slice", $short),
        MalformedStructureError::InvalidStringIndex(i, h, k) => {
            mk::check("e.string", k != 0 && !sp::ok(k) && (false $(|| ($c && $buf[$o] == k))*));
            mk::check("e.string.which", i == $info && h == sp::w($buf, 2));
        }
        _ => mk::check("e.kind", false),
    }
} }
/// Structures whose length has to be one number: there a length error can be about a longer structure too.
pub fn exact(kind: u8) -> bool {
    matches!(kind, 9 | 15 | 18..=22)
}
/// The shape of a per-structure specification.
#[macro_export]
macro_rules! spec { ($name:ident, $kind:expr, $var:ident, $short:expr, $need:expr, [$($refs:tt)*], |$buf:ident, $ep:ident, $l:ident, $sh:ident, $s:ident| $body:block) => {
    pub fn $name($buf: &[u8], $ep: EntryPointV3) {
        let r = fr::first($buf, $ep, $kind);
        let $l = $buf[1] as usize;
        let $sh: bool = $short;
        match r {
            Some(Ok(Structure::$var($s))) => {
                mk::reach("accepted");
                mk::check("e.accepted", !$sh);
                fld!("handle", $s.handle, sp::w($buf, 2));
                $body
            }
            Some(Err(e)) => { errs!(e, $buf, InfoType::$var, $sh, $need, [$($refs)*]) }
            _ => mk::check("v.kind", false),
        }
    }
} }
/// The outcome of looking up string number `k` of the first structure of `buf`.
pub fn found(buf: &[u8], k: u8, r: Result<&str, MalformedStructureError>) {
    use crate::rf;
    let l = buf[1] as usize;
    if k == 0 {
        mk::check("s.zero", matches!(r, Ok(s) if s.is_empty()));
        return;
    }
    let want = rf::nth(&buf[l..l + rf::table_len(&buf[l..]).unwrap()], k as usize);
    mk::check("s.found", r.is_ok() == want.is_some());
    match (r, want) {
        (Ok(s), Some((a, b))) => {
            mk::check("s.start", mk::offset(s.as_bytes(), buf) == l + a);
            mk::check("s.end", s.len() == b - a);
        }
        (Err(e), _) => match e {
            MalformedStructureError::InvalidStringIndex(i, h, n) => mk::check("s.error", i == InfoType::Oem(128) && h == w(buf, 2) && n == k),
            _ => mk::check("s.error", false),
        },
        _ => {}
    }
}
/// Step `n` of a list of strings.
pub fn strings(t: &[u8], mut it: StructureStrings<'_>, n: usize) {
    use crate::rf;
    let mut p = 0;
    let mut k = 0;
    while k < n {
        match (it.next(), rf::string_at(t, p)) {
            (Some(_), Some((_, b))) => p = b + 1,
            _ => return,
        }
        k += 1;
    }
    let (r, want) = (it.next(), rf::string_at(t, p));
    mk::check("s.step.some", r.is_some() == want.is_some());
    if let (Some(s), Some((a, b))) = (r, want) {
        mk::check("s.step.start", mk::offset(s.as_bytes(), t) == a);
        mk::check("s.step.len", s.len() == b - a);
    }
}
/// What searching `all` must report when the first anchor is at the front of `b`.
pub fn entry(r: Result<EntryPoint, InvalidEntryPointError>, b: &[u8], two: bool) {
    use crate::rf;
    let (size, len, major, minor) = if two { (0x1f, 5, 6, 7) } else { (0x18, 6, 7, 8) };
    if b.len() < size {
        mk::check("a.truncated", matches!(r, Err(InvalidEntryPointError::BadSize(n)) if n as usize == b.len()));
        return;
    }
    let l = b[len] as usize;
    if l < size {
        mk::check("a.small", matches!(r, Err(InvalidEntryPointError::BadSize(n)) if n as usize == l));
        return;
    }
    if b[major] < 2 {
        mk::check("a.old", matches!(r, Err(InvalidEntryPointError::TooOldVersion(n)) if n == b[major]));
        return;
    }
    if b.len() < l {
        mk::check("a.cut", matches!(r, Err(InvalidEntryPointError::BadSize(n)) if n as usize == b.len()));
        return;
    }
    let sum = rf::sum(b, l);
    if sum != 0 {
        mk::check("a.checksum", matches!(r, Err(InvalidEntryPointError::BadChecksum(n)) if n == sum));
        return;
    }
    mk::check("a.accepted", r.is_ok());
    if let Ok(e) = r {
        fields(e, b, two);
    }
}
pub fn fields(e: EntryPoint, b: &[u8], two: bool) {
    mk::check("a.generation", matches!(e, EntryPoint::V2(_)) == two);
    match e {
        EntryPoint::V2(p) => {
            mk::check("a.v2.signature", p.signature == d(b, 0));
            mk::check("a.v2.checksum", p.checksum == b[4]);
            mk::check("a.v2.len", p.len == b[5]);
            mk::check("a.v2.major", p.major == b[6]);
            mk::check("a.v2.minor", p.minor == b[7]);
            mk::check("a.v2.struct_max", p.struct_max == w(b, 8));
            mk::check("a.v2.revision", p.revision == b[10]);
            mk::check("a.v2.formatted", p.formatted == [b[11], b[12], b[13], b[14], b[15]]);
            mk::check("a.v2.dmi_signature", p.dmi_signature == [b[16], b[17], b[18], b[19], b[20]]);
            mk::check("a.v2.dmi_checksum", p.dmi_checksum == b[21]);
            mk::check("a.v2.smbios_len", p.smbios_len == w(b, 22));
            mk::check("a.v2.smbios_address", p.smbios_address == d(b, 24));
            mk::check("a.v2.smbios_count", p.smbios_count == w(b, 28));
            mk::check("a.v2.bcd_revision", p.bcd_revision == b[30]);
        }
        EntryPoint::V3(p) => {
            mk::check("a.v3.signature", p.signature == [b[0], b[1], b[2], b[3], b[4]]);
            mk::check("a.v3.checksum", p.checksum == b[5]);
            mk::check("a.v3.len", p.len == b[6]);
            mk::check("a.v3.major", p.major == b[7]);
            mk::check("a.v3.minor", p.minor == b[8]);
            mk::check("a.v3.docrev", p.docrev == b[9]);
            mk::check("a.v3.revision", p.revision == b[10]);
            mk::check("a.v3.smbios_len_max", p.smbios_len_max == d(b, 12));
            mk::check("a.v3.smbios_address", p.smbios_address == q(b, 16));
        }
    }
}
/// Type codes that are handed over undecoded.
pub fn raw(k: u8) -> bool { !(k <= 4 || (k >= 7 && k <= 9) || (k >= 11 && k <= 22)) }
/// The type code a decoded structure stands for (255 for a raw one).
pub fn code(s: &Structure<'_>) -> usize {
    match s {
        Structure::Bios(_) => 0,
        Structure::System(_) => 1,
        Structure::BaseBoard(_) => 2,
        Structure::Enclosure(_) => 3,
        Structure::Processor(_) => 4,
        Structure::Cache(_) => 7,
        Structure::PortConnector(_) => 8,
        Structure::SystemSlots(_) => 9,
        Structure::OemStrings(_) => 11,
        Structure::SystemConfigurationOptions(_) => 12,
        Structure::BiosLanguage(_) => 13,
        Structure::GroupAssociations(_) => 14,
        Structure::SystemEventLog(_) => 15,
        Structure::PhysicalMemoryArray(_) => 16,
        Structure::MemoryDevice(_) => 17,
        Structure::MemoryError32(_) => 18,
        Structure::MemoryArrayMappedAddress(_) => 19,
        Structure::MemoryDeviceMappedAddress(_) => 20,
        Structure::BuiltInPointingDevice(_) => 21,
        Structure::PortableBattery(_) => 22,
        Structure::Other(_) => 255,
    }
}
/// The parts of a cache configuration word, as it prints.
#[derive(Debug)]
pub struct CacheConfiguration {
    pub level: cache::CacheLevel,
    pub socketed: bool,
    pub location: cache::CacheLocation,
    pub enabled_at_boot_time: bool,
    pub operational_mode: cache::CacheOperationalMode,
}
#[derive(Debug)]
pub struct ContainedElement {
    pub type_: enclosure::ContainedElementType,
    pub minimum: u8,
    pub maximum: u8,
}
/// What one step of the walk must report when the next structure starts at `pos`; true if nothing follows.
pub fn step(buf: &[u8], ep: &EntryPointV3, limit: usize, pos: usize, r: Option<Result<Structure<'_>, MalformedStructureError>>) -> bool {
    use crate::rf;
    let more = pos < limit && limit - pos >= 4;
    let (kind, l) = if more { (buf[pos], buf[pos + 1] as usize) } else { (0, 0) };
    let sized = more && l >= 4 && pos + l < limit;
    let t = if sized { rf::table_len(&buf[pos + l..]) } else { None };
    mk::check("w.more", r.is_some() == more);
    match &r {
        None => {}
        Some(Err(MalformedStructureError::BadSize(o, x))) => {
            mk::check("w.size", more && !sized && *o as usize == pos && *x as usize == l);
        }
        Some(Err(MalformedStructureError::UnterminatedStrings(o))) => {
            mk::check("w.unterminated", sized && t.is_none() && *o as usize == pos);
        }
        Some(x) => {
            mk::check("w.framed", t.is_some());
            if let Ok(Structure::Other(x)) = x {
                mk::check("w.info", x.info == InfoType::from(kind));
                mk::check("w.length", x.length as usize == l);
                mk::check("w.handle", x.handle == w(buf, pos + 2));
                mk::check("w.version", x.version.major == ep.major && x.version.minor == ep.minor);
                mk::check("w.data", mk::offset(x.data, buf) == pos + 4);
                mk::check("w.data.len", x.data.len() == l - 4);
            }
        }
    }
    t.is_none() || (ep.major >= 3 && kind == 127)
}
/// The first six items of a list of strings.
pub fn list<'a>(t: &[u8], mut it: impl Iterator<Item = &'a str>) {
    use crate::rf;
    let mut p = 0;
    let mut k = 0;
    while k < 6 {
        let (r, want) = (it.next(), rf::string_at(t, p));
        mk::check("s.item.some", r.is_some() == want.is_some());
        match (r, want) {
            (Some(s), Some((a, b))) => {
                mk::check("s.item.start", mk::offset(s.as_bytes(), t) == a);
                mk::check("s.item.len", s.len() == b - a);
                p = b + 1;
            }
            _ => return,
        }
        k += 1;
    }
}
/// Three steps over a table of eighteen bytes that starts with a raw structure.
pub fn walked(mut ep: EntryPointV3, limit: usize) {
    use crate::rf;
    mk::cut_strings();
    mk::unroll(40);
    let buf = mk::buffer(18, 2, 0x04_80);
    ep.smbios_len_max = limit as u32;
    let mut s = EntryPoint::V3(ep).structures(buf);
    if step(buf, &ep, limit, 0, s.next()) {
        mk::check("w.ended", s.next().is_none());
        return;
    }
    let pos = 4 + rf::table_len(&buf[4..]).unwrap();
    if pos < limit { mk::assume(buf[pos] >= 126); }
    if step(buf, &ep, limit, pos, s.next()) {
        mk::check("w.ended", s.next().is_none());
        mk::check("w.ended.still", s.next().is_none());
        return;
    }
    let l = buf[pos + 1] as usize;
    let pos = pos + l + rf::table_len(&buf[pos + l..]).unwrap();
    if pos < limit { mk::assume(buf[pos] >= 126); }
    step(buf, &ep, limit, pos, s.next());
}
/// A buffer with entry points at the given places (position, generation, own length) and no other anchor.
pub fn skeleton(n: usize, at: &[(usize, u8, u8)]) -> &'static [u8] {
    let b = mk::buffer(n, 0, 0);
    let mut i = 0;
    while i < n {
        mk::fix(b, i, 0);
        i += 16;
    }
    let mut k = 0;
    while k < at.len() {
        let (p, g, l) = at[k];
        mk::fix(b, p, b'_');
        mk::fix(b, p + 1, b'S');
        mk::fix(b, p + 2, b'M');
        if g == 2 {
            mk::fix(b, p + 3, b'_');
            mk::fix(b, p + 5, l);
        } else {
            mk::fix(b, p + 3, b'3');
            mk::fix(b, p + 4, b'_');
            mk::fix(b, p + 6, l);
        }
        k += 1;
    }
    b
}
/// A table of structures (kind, formatted length, number of strings).
pub fn table(n: usize, at: &[(u8, usize, usize)]) -> &'static [u8] {
    let b = mk::buffer(n, 0, 0);
    let (mut p, mut k) = (0, 0);
    while k < at.len() {
        let (kind, l, strings) = at[k];
        mk::fix(b, p, kind);
        mk::fix(b, p + 1, l as u8);
        p += l;
        let mut s = 0;
        while s < strings {
            mk::fix(b, p + 1, 0);
            p += 2;
            s += 1;
        }
        mk::fix(b, p, 0);
        p += 1;
        if strings == 0 {
            mk::fix(b, p, 0);
            p += 1;
        }
        k += 1;
    }
    let (mut p, mut k) = (0, 0);
    while k < at.len() {
        let mut s = 0;
        while s < at[k].2 {
            mk::assume(b[p + at[k].1 + 2 * s] != 0);
            s += 1;
        }
        p += at[k].1 + if s == 0 { 2 } else { 2 * s + 1 };
        k += 1;
    }
    b
}
pub fn framed(at: &[(u8, usize, usize)]) -> usize {
    let (mut p, mut k) = (0, 0);
    while k < at.len() {
        p += at[k].1 + if at[k].2 == 0 { 2 } else { 2 * at[k].2 + 1 };
        k += 1;
    }
    p
}
/// Every structure of the table comes out, in order, up to the end-of-table marker.
pub fn sequence(e: EntryPoint, b: &[u8], at: &[(u8, usize, usize)]) {
    let v = e.to_version();
    let mut s = e.structures(b);
    let (mut p, mut k) = (0, 0);
    while k < at.len() {
        let (kind, l, strings) = at[k];
        match s.next() {
            Some(Ok(Structure::Other(x))) => {
                mk::check("w.raw", raw(kind) && x.info == InfoType::from(kind) && x.length as usize == l);
                mk::check("w.handle", x.handle == w(b, p + 2));
                mk::check("w.version", x.version.major == v.major && x.version.minor == v.minor);
                mk::check("w.data", mk::offset(x.data, b) == p + 4 && x.data.len() == l - 4);
            }
            Some(Ok(x)) => mk::check("w.decoded", code(&x) == kind as usize),
            Some(Err(MalformedStructureError::BadSize(..) | MalformedStructureError::UnterminatedStrings(..))) => mk::check("w.framed", false),
            Some(Err(_)) => mk::check("w.refused", !raw(kind)),
            None => mk::check("w.some", false),
        }
        if kind == 127 && v.major >= 3 {
            break;
        }
        p += l + if strings == 0 { 2 } else { 2 * strings + 1 };
        k += 1;
    }
    mk::check("w.ended", s.next().is_none());
    mk::check("w.ended.still", s.next().is_none());
}
/// A structure of `l` bytes and kind `k` followed by `n` strings of one character each.
pub fn many(l: usize, k: u8, n: usize) -> &'static [u8] {
    let b = mk::buffer(l + 2 * n + 1, 2, (l << 8) as u64 + k as u64);
    let mut i = l;
    while i < l + 2 * n {
        mk::fix(b, i + 1, 0);
        i += 2;
    }
    mk::fix(b, i, 0);
    let mut i = l;
    while i < l + 2 * n {
        text(b, i, 1);
        i += 2;
    }
    b
}
/// Is the string the `k`th one, `l` being where they start?
pub fn kth(b: &[u8], l: usize, k: usize, s: &str) -> bool {
    s.len() == 1 && mk::offset(s.as_bytes(), b) == l + 2 * (k - 1)
}
/// A long list of strings is complete, in order, and ends.
pub fn all<'a>(b: &[u8], l: usize, n: usize, mut it: impl Iterator<Item = &'a str>) {
    let mut k = 1;
    while k <= n {
        match it.next() {
            Some(s) => mk::check("s.many.item", kth(b, l, k, s)),
            None => {
                mk::check("s.many.some", false);
                return;
            }
        }
        k += 1;
    }
    mk::check("s.many.end", it.next().is_none());
    mk::check("s.many.end.still", it.next().is_none());
}
/// After the structures of the table comes one that cannot be framed: it is reported once, then nothing.
pub fn broken(e: EntryPoint, b: &[u8], at: &[(u8, usize, usize)], unterminated: bool) {
    let mut s = e.structures(b);
    let mut k = 0;
    while k < at.len() {
        mk::check("w.before", matches!(s.next(), Some(Ok(Structure::Other(_)))));
        k += 1;
    }
    let p = framed(at);
    match s.next() {
        Some(Err(MalformedStructureError::BadSize(o, l))) => mk::check("w.size", !unterminated && o as usize == p && l == b[p + 1]),
        Some(Err(MalformedStructureError::UnterminatedStrings(o))) => mk::check("w.unterminated", unterminated && o as usize == p),
        _ => mk::check("w.reported", false),
    }
    mk::check("w.ended", s.next().is_none());
    mk::check("w.ended.still", s.next().is_none());
}
/// The last structure of a table: its kind, its length, and strings that do not end.
pub fn tail(b: &[u8], p: usize, l: u8) {
    mk::fix(b, p, 0x80);
    mk::fix(b, p + 1, l);
    let mut i = p + if l < 4 { 4 } else { l as usize };
    while i < b.len() {
        mk::fix(b, i, b'a');
        i += 1;
    }
}
/// A structure of kind `k` with strings of the given lengths.
pub fn written(k: u8, at: &[usize]) -> &'static [u8] {
    let (mut n, mut i) = (6, 0);
    while i < at.len() {
        n += at[i] + 1;
        i += 1;
    }
    let b = mk::buffer(n, 2, 0x05_00 + k as u64);
    mk::fix(b, 4, at.len() as u8);
    let (mut p, mut i) = (5, 0);
    while i < at.len() {
        p += at[i] + 1;
        mk::fix(b, p - 1, 0);
        i += 1;
    }
    mk::fix(b, p, 0);
    let (mut p, mut i) = (5, 0);
    while i < at.len() {
        text(b, p, at[i]);
        p += at[i] + 1;
        i += 1;
    }
    b
}
/// There is a string of that length there.
pub fn text(b: &[u8], p: usize, n: usize) {
    let mut j = p;
    while j < p + n {
        mk::assume(b[j] != 0);
        j += 1;
    }
    mk::assume(mk::is_utf8(&b[p..p + n]));
}
/// Two structures, the first with a string of `n` characters (any, or a row of the same).
pub fn wide(n: usize, any: bool) -> &'static [u8] {
    let b = mk::buffer(4 + n + 2 + 4 + 2, 2, 0x04_80);
    let mut p = if any { 4 + n } else { 4 };
    while p < 4 + n {
        mk::fix(b, p, b'a');
        p += 1;
    }
    mk::fix(b, p, 0);
    mk::fix(b, p + 1, 0);
    mk::fix(b, p + 2, 0x81);
    mk::fix(b, p + 3, 4);
    mk::fix(b, p + 6, 0);
    mk::fix(b, p + 7, 0);
    if any {
        text(b, 4, n);
    }
    b
}
/// However an iteration of `n` items is driven, the same items come out.
pub fn driven<I: Iterator + Clone + PartialEq>(it: I, n: usize) {
    let mut k = 0;
    let mut at = it.clone();
    while k < n {
        let x = at.clone().next();
        mk::check("h.still", at == at.clone() && !(at != at.clone()));
        mk::check("h.moved", (at == it) == (k == 0) && (it != at) == (k != 0));
        mk::check("i.some", x.is_some());
        mk::check("i.skip", mk::same(&it.clone().nth(k), &x));
        let (lo, hi) = at.size_hint();
        mk::check("i.hint", lo <= n - k && !matches!(hi, Some(h) if h < n - k));
        mk::check("i.count", at.clone().count() == n - k);
        if k + 1 == n {
            mk::check("i.last", mk::same(&it.clone().last(), &x));
        } else {
            let mut on = at.clone();
            let y = on.nth(1);
            let mut step = at.clone();
            step.next();
            mk::check("i.skip.one", mk::same(&step.next(), &y));
            mk::check("i.skip.on", mk::same(&step.next(), &on.next()));
        }
        mk::check("i.clone", mk::same(&at.next(), &x));
        k += 1;
    }
    mk::check("i.end", at.clone().next().is_none() && at.clone().nth(0).is_none() && at.clone().nth(1).is_none());
    mk::check("i.count.none", at.clone().count() == 0);
    mk::check("i.skip.end", it.clone().nth(n).is_none());
    let (mut m, mut all) = (0, it.clone());
    it.for_each(|x| {
        mk::check("i.each", mk::same(&all.next(), &Some(x)));
        m += 1;
    });
    mk::check("i.each.all", m == n);
}
/// The formatted area of one structure of the given kind and length, without strings.
pub fn plain(k: u8, l: usize) -> &'static [u8] {
    let b = mk::buffer(l + 2, 2, (l << 8) as u64 + k as u64);
    mk::fix(b, l, 0);
    mk::fix(b, l + 1, 0);
    b
}
