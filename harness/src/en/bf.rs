//! Bit fields: every bit is reported once, with its own meaning.
use crate::{ly, mk, sp};
use dmidecode::bitfield::{BitField, Flag, FlagType, Position};
use dmidecode::*;
macro_rules! field { ($n:ident, $t:ty, $ly:ident, $bits:literal, $below:expr) => {
    pub fn $n(c: $t) {
        let want = ly::$ly();
        let v = c.value();
        let mut it = c.iter();
        let mut i = 0usize;
        while i < $bits {
            let f = it.next();
            mk::check("b.more", f.is_some());
            if let Some(f) = f {
                mk::check("b.position", f.position.0 == i);
                mk::check("b.set", f.is_set == ((v >> i) & 1 == 1));
                mk::check_eq("b.meaning", &f.type_, &want[i]);
            }
            i += 1;
        }
        mk::check("b.end", it.next().is_none());
    }
    pub mod $n {
        use super::*;
        /// Exactly the set, meaningful bits, lowest first.
        pub fn significants(c: $t) {
            let want = ly::$ly();
            let v = c.value();
            // (the walk is the same for every layout: the widest one is taken up to a limit)
            mk::assume($below == 0 || v < $below);
            let mut it = c.significants();
            let mut i = 0usize;
            while i < $bits {
                if (v >> i) & 1 == 1 && matches!(want[i], FlagType::Significant(..)) {
                    let f = it.next();
                    mk::check("b.significant", f.is_some());
                    if let Some(f) = f {
                        mk::check("b.significant.position", f.position.0 == i);
                        mk::check("b.significant.set", f.is_set);
                        mk::check_eq("b.significant.meaning", &f.type_, &want[i]);
                    }
                }
                i += 1;
            }
            mk::check("b.significant.end", it.next().is_none());
        }
        /// Exactly the maximal runs of reserved bits of one description.
        pub fn reserved(c: $t) {
            let want = ly::$ly();
            let mut it = c.reserved();
            let mut i = 0usize;
            while i < $bits {
                let mut j = i + 1;
                if let FlagType::Reserved(d) = want[i] {
                    while j < $bits && mk::same(&want[j], &want[i]) { j += 1; }
                    let r = it.next();
                    mk::check("b.reserved", r.is_some());
                    if let Some(r) = r {
                        mk::check("b.reserved.start", *r.range.start() == i);
                        mk::check("b.reserved.end", *r.range.end() == j - 1);
                        mk::check_eq("b.reserved.description", r.description, d);
                    }
                }
                i = j;
            }
            mk::check("b.reserved.last", it.next().is_none());
        }
    }
} }
field!(c_log_status, system_event_log::LogStatus, LogStatus, 8, 0);
field!(c_slot1, system_slots::SlotCharacteristics1, SlotCharacteristics1, 8, 0);
field!(c_slot2, system_slots::SlotCharacteristics2, SlotCharacteristics2, 8, 0);
field!(c_language, bios_language::LanguageFlags, LanguageFlags, 8, 0);
field!(c_bios, dmidecode::bios::Characteristics, Characteristics, 64, 0);
field!(c_bios1, dmidecode::bios::CharacteristicsExtension1, CharacteristicsExtension1, 8, 0);
field!(c_bios2, dmidecode::bios::CharacteristicsExtension2, CharacteristicsExtension2, 8, 0);
field!(c_post, system_event_log::log_record_format::PostResults, PostResults, 64, 1 << 24);

macro_rules! collect { ($n:ident, $t:ty, $bits:literal) => {
    /// A set of positions collected into a number has exactly those bits.
    pub fn $n(a: usize, b: usize, c: usize) {
        mk::assume(a < $bits && b < $bits && c < $bits);
        let set = [Position(a), Position(b), Position(c)];
        let want: $t = 1 << a | 1 << b | 1 << c;
        let r: $t = set.iter().collect();
        mk::check("b.collect.ref", r == want);
        let r: $t = set.iter().copied().collect();
        mk::check("b.collect", r == want);
        let r: $t = [Position(a)].iter().copied().collect();
        mk::check("b.collect.one", r == 1 << a);
        let r: $t = [Position(a); 0].iter().collect();
        mk::check("b.collect.none", r == 0);
        mk::check("b.position.value", *set[0] == a);
    }
} }
collect!(collect_u8, u8, 8);
collect!(collect_u16, u16, 16);
collect!(collect_u32, u32, 32);
collect!(collect_u64, u64, 64);
collect!(collect_u128, u128, 128);
collect!(collect_usize, usize, 64);
/// A flag reads as its meaning, or in the alternate form as its description.
pub fn text(f: Flag<'static>) {
    let (a, b) = match f.type_ {
        FlagType::Significant(m, d) => (m, d),
        FlagType::Reserved(n) => (n, n),
        FlagType::Unknown => ("Unknown", "Unknown"),
    };
    mk::check("d.flag", mk::text_eq(mk::text(&f), mk::text(a)));
    mk::check("d.flag.alt", mk::text_eq(mk::textf(format_args!("{:#}", f)), mk::text(b)));
}
