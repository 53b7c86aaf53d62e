//! Inputs whose skeleton (anchors, framing) is given and whose contents are arbitrary.
use crate::{mk, sp, sp::*};
use dmidecode::*;
macro_rules! skeletons { ($($n:ident $len:literal $p:literal $two:literal [$($at:expr),*]),* $(,)?) => { $(
    /// What is found where the anchors are known, whatever else the buffer holds.
    pub fn $n() {
        mk::unroll(300);
        let b = skeleton($len, &[$($at),*]);
        let r = EntryPoint::search(b);
        mk::check("a.some", !matches!(r, Err(InvalidEntryPointError::NotFound)));
        sp::entry(r, &b[$p..], $two);
    }
)* } }
skeletons!(
    front_2 0x1f 0 true [(0, 2, 0x1f)],
    front_3 0x18 0 false [(0, 3, 0x18)],
    later_2 0x50 0x30 true [(0x30, 2, 0x1f)],
    later_3 0x60 0x40 false [(0x40, 3, 0x18)],
    both_23 0x40 0 true [(0, 2, 0x1f), (0x20, 3, 0x18)],
    both_32 0x40 0 false [(0, 3, 0x18), (0x20, 2, 0x1f)],
    twice_2 0x60 0x10 true [(0x10, 2, 0x1f), (0x30, 2, 0x1f)],
    twice_3 0x60 0x20 false [(0x20, 3, 0x18), (0x40, 3, 0x18)],
    far_3 0x410 0x3f0 false [(0x3f0, 3, 0x18)],
    long_2 0x40 0 true [(0, 2, 0x30)],
    long_3 0x40 0 false [(0, 3, 0x20)],
    cut_2 0x40 0x10 true [(0x10, 2, 0x31)],
    small_2 0x40 0x10 true [(0x10, 2, 0x1e)],
    small_3 0x40 0x10 false [(0x10, 3, 0x17)],
    short_2 0x1e 0 true [(0, 2, 0x1e)],
    short_3 0x17 0 false [(0, 3, 0x17)],
    decoy_2 0x60 0x30 true [(0x08, 2, 0x1f), (0x30, 2, 0x1f)],
    decoy_3 0x60 0x30 false [(0x11, 3, 0x18), (0x30, 3, 0x18), (0x4f, 3, 0x18)],
    whole_3 0xff 0 false [(0, 3, 0xff)],
);

macro_rules! tables { ($($n:ident $two:ident $more:literal [$($at:expr),*]),* $(,)?) => { $(
    pub fn $n(mut ep: EntryPointV3) {
        mk::unroll(300);
        let at = [$($at),*];
        let b = table(framed(&at) + $more, &at);
        ep.smbios_len_max = framed(&at) as u32;
        sequence(EntryPoint::V3(ep), b, &at);
    }
    pub fn $two(mut old: EntryPointV2) {
        mk::unroll(300);
        let at = [$($at),*];
        let b = table(framed(&at) + $more, &at);
        old.smbios_len = framed(&at) as u16;
        sequence(EntryPoint::V2(old), b, &at);
    }
)* } }
const LINE: (u8, usize, usize) = (0x90, 4, 0);
tables!(
    table_one table_one_2 0 [(0x80, 4, 0)],
    table_few table_few_2 0 [(0x80, 4, 0), (0x85, 9, 2), (126, 6, 1), (0xff, 5, 3)],
    table_long table_long_2 3 [(0x80, 255, 1), (0x81, 254, 0), (0x82, 128, 4)],
    table_end table_end_2 0 [(0x80, 5, 1), (127, 4, 0), (0x81, 4, 0), (127, 4, 0)],
    table_mixed table_mixed_2 8 [(0x80, 5, 1), (11, 5, 2), (5, 16, 0), (6, 12, 1), (10, 6, 1), (23, 13, 0), (0x7e, 4, 0)],
    table_many table_many_2 0 [LINE, LINE, LINE, LINE, LINE, LINE, LINE, LINE, LINE, LINE, LINE, LINE, LINE, LINE, LINE, LINE, LINE, LINE, LINE, LINE,
        LINE, LINE, LINE, LINE, LINE, LINE, LINE, LINE, LINE, LINE, LINE, LINE, LINE, LINE, LINE, LINE, LINE, LINE, LINE, LINE],
    table_refused_0 table_refused_0_2 0 [(0, 4, 0), LINE],
    table_refused_1 table_refused_1_2 0 [(1, 4, 0), LINE],
    table_refused_2 table_refused_2_2 0 [(2, 4, 0), LINE],
    table_refused_3 table_refused_3_2 0 [(3, 4, 0), LINE],
    table_refused_4 table_refused_4_2 0 [(4, 4, 0), LINE],
    table_refused_7 table_refused_7_2 0 [(7, 4, 0), LINE],
    table_refused_8 table_refused_8_2 0 [(8, 4, 0), LINE],
    table_refused_9 table_refused_9_2 0 [(9, 4, 0), LINE],
    table_refused_11 table_refused_11_2 0 [(11, 4, 0), LINE],
    table_refused_12 table_refused_12_2 0 [(12, 4, 0), LINE],
    table_refused_13 table_refused_13_2 0 [(13, 4, 0), LINE],
    table_refused_14 table_refused_14_2 0 [(14, 4, 0), LINE],
    table_refused_15 table_refused_15_2 0 [(15, 4, 0), LINE],
    table_refused_16 table_refused_16_2 0 [(16, 4, 0), LINE],
    table_refused_17 table_refused_17_2 0 [(17, 4, 0), LINE],
    table_refused_18 table_refused_18_2 0 [(18, 4, 0), LINE],
    table_refused_19 table_refused_19_2 0 [(19, 4, 0), LINE],
    table_refused_20 table_refused_20_2 0 [(20, 4, 0), LINE],
    table_refused_21 table_refused_21_2 0 [(21, 4, 0), LINE],
    table_refused_22 table_refused_22_2 0 [(22, 4, 0), LINE],
    table_kind_0 table_kind_0_2 0 [(0, 26, 0), LINE],
    table_kind_1 table_kind_1_2 0 [(1, 27, 0), LINE],
    table_kind_2 table_kind_2_2 0 [(2, 15, 0), LINE],
    table_kind_3 table_kind_3_2 0 [(3, 21, 0), LINE],
    table_kind_4 table_kind_4_2 0 [(4, 48, 0), LINE],
    table_kind_7 table_kind_7_2 0 [(7, 27, 0), LINE],
    table_kind_8 table_kind_8_2 0 [(8, 9, 0), LINE],
    table_kind_9 table_kind_9_2 0 [(9, 17, 0), LINE],
    table_kind_11 table_kind_11_2 0 [(11, 5, 0), LINE],
    table_kind_12 table_kind_12_2 0 [(12, 5, 0), LINE],
    table_kind_13 table_kind_13_2 0 [(13, 22, 0), LINE],
    table_kind_14 table_kind_14_2 0 [(14, 8, 0), LINE],
    table_kind_15 table_kind_15_2 0 [(15, 23, 0), LINE],
    table_kind_16 table_kind_16_2 0 [(16, 23, 0), LINE],
    table_kind_17 table_kind_17_2 0 [(17, 40, 0), LINE],
    table_kind_18 table_kind_18_2 0 [(18, 23, 0), LINE],
    table_kind_19 table_kind_19_2 0 [(19, 31, 0), LINE],
    table_kind_20 table_kind_20_2 0 [(20, 35, 0), LINE],
    table_kind_21 table_kind_21_2 0 [(21, 7, 0), LINE],
    table_kind_22 table_kind_22_2 0 [(22, 26, 0), LINE],
    table_len_5 table_len_5_2 0 [LINE, (0x80, 5, 0), (0, 5, 0), LINE],
    table_len_6 table_len_6_2 0 [LINE, (0x80, 6, 0), (0, 6, 0), LINE],
    table_len_7 table_len_7_2 0 [LINE, (0x80, 7, 0), (0, 7, 0), LINE],
    table_len_8 table_len_8_2 0 [LINE, (0x80, 8, 0), (0, 8, 0), LINE],
    table_len_9 table_len_9_2 0 [LINE, (0x80, 9, 0), (0, 9, 0), LINE],
    table_len_10 table_len_10_2 0 [LINE, (0x80, 10, 0), (0, 10, 0), LINE],
    table_len_11 table_len_11_2 0 [LINE, (0x80, 11, 0), (0, 11, 0), LINE],
    table_len_12 table_len_12_2 0 [LINE, (0x80, 12, 0), (0, 12, 0), LINE],
    table_len_13 table_len_13_2 0 [LINE, (0x80, 13, 0), (0, 13, 0), LINE],
    table_len_14 table_len_14_2 0 [LINE, (0x80, 14, 0), (0, 14, 0), LINE],
    table_len_15 table_len_15_2 0 [LINE, (0x80, 15, 0), (0, 15, 0), LINE],
    table_len_16 table_len_16_2 0 [LINE, (0x80, 16, 0), (0, 16, 0), LINE],
    table_len_17 table_len_17_2 0 [LINE, (0x80, 17, 0), (0, 17, 0), LINE],
    table_len_18 table_len_18_2 0 [LINE, (0x80, 18, 0), (0, 18, 0), LINE],
    table_len_19 table_len_19_2 0 [LINE, (0x80, 19, 0), (0, 19, 0), LINE],
    table_len_20 table_len_20_2 0 [LINE, (0x80, 20, 0), (0, 20, 0), LINE],
    table_len_21 table_len_21_2 0 [LINE, (0x80, 21, 0), (0, 21, 0), LINE],
    table_len_22 table_len_22_2 0 [LINE, (0x80, 22, 0), (0, 22, 0), LINE],
    table_len_23 table_len_23_2 0 [LINE, (0x80, 23, 0), (0, 23, 0), LINE],
    table_len_24 table_len_24_2 0 [LINE, (0x80, 24, 0), (0, 24, 0), LINE],
    table_len_25 table_len_25_2 0 [LINE, (0x80, 25, 0), (0, 25, 0), LINE],
    table_len_26 table_len_26_2 0 [LINE, (0x80, 26, 0), (0, 26, 0), LINE],
    table_len_27 table_len_27_2 0 [LINE, (0x80, 27, 0), (0, 27, 0), LINE],
    table_len_28 table_len_28_2 0 [LINE, (0x80, 28, 0), (0, 28, 0), LINE],
    table_len_29 table_len_29_2 0 [LINE, (0x80, 29, 0), (0, 29, 0), LINE],
    table_len_30 table_len_30_2 0 [LINE, (0x80, 30, 0), (0, 30, 0), LINE],
    table_len_31 table_len_31_2 0 [LINE, (0x80, 31, 0), (0, 31, 0), LINE],
    table_len_32 table_len_32_2 0 [LINE, (0x80, 32, 0), (0, 32, 0), LINE],
    table_len_33 table_len_33_2 0 [LINE, (0x80, 33, 0), (0, 33, 0), LINE],
    table_len_34 table_len_34_2 0 [LINE, (0x80, 34, 0), (0, 34, 0), LINE],
    table_len_35 table_len_35_2 0 [LINE, (0x80, 35, 0), (0, 35, 0), LINE],
    table_len_36 table_len_36_2 0 [LINE, (0x80, 36, 0), (0, 36, 0), LINE],
    table_len_37 table_len_37_2 0 [LINE, (0x80, 37, 0), (0, 37, 0), LINE],
    table_len_38 table_len_38_2 0 [LINE, (0x80, 38, 0), (0, 38, 0), LINE],
    table_len_39 table_len_39_2 0 [LINE, (0x80, 39, 0), (0, 39, 0), LINE],
    table_len_63 table_len_63_2 0 [LINE, (0x80, 63, 0), (0, 63, 0), LINE],
    table_len_64 table_len_64_2 0 [LINE, (0x80, 64, 0), (0, 64, 0), LINE],
    table_len_127 table_len_127_2 0 [LINE, (0x80, 127, 0), (0, 127, 0), LINE],
    table_len_128 table_len_128_2 0 [LINE, (0x80, 128, 0), (0, 128, 0), LINE],
    table_len_200 table_len_200_2 0 [LINE, (0x80, 200, 0), (0, 200, 0), LINE],
    table_len_253 table_len_253_2 0 [LINE, (0x80, 253, 0), (0, 253, 0), LINE],
);
macro_rules! broken { ($($n:ident $two:ident $len:literal $rest:literal $un:literal [$($at:expr),*]),* $(,)?) => { $(
    pub fn $n(mut ep: EntryPointV3) {
        mk::unroll(300);
        let at = [$($at),*];
        let b = table(framed(&at) + $rest, &at);
        tail(b, framed(&at), $len);
        ep.smbios_len_max = b.len() as u32;
        sp::broken(EntryPoint::V3(ep), b, &at, $un);
    }
    pub fn $two(mut old: EntryPointV2) {
        mk::unroll(300);
        let at = [$($at),*];
        let b = table(framed(&at) + $rest, &at);
        tail(b, framed(&at), $len);
        old.smbios_len = b.len() as u16;
        sp::broken(EntryPoint::V2(old), b, &at, $un);
    }
)* } }
broken!(
    bad_zero bad_zero_2 0 6 false [],
    bad_three bad_three_2 3 9 false [(0x80, 4, 1), (0x81, 7, 0)],
    bad_end bad_end_2 4 4 false [(0x80, 4, 1), (0x81, 7, 0)],
    bad_past bad_past_2 30 20 false [(0x80, 4, 1)],
    bad_255 bad_255_2 255 255 false [(0x80, 4, 1), (0x80, 6, 0)],
    open_one open_one_2 4 5 true [(0x80, 4, 1)],
    open_some open_some_2 6 12 true [(0x80, 4, 1), (0x80, 6, 0)],
    open_none open_none_2 5 9 true [],
);
macro_rules! texts { ($($n:ident $k:literal [$($len:literal),*]),* $(,)?) => { $(
    /// Strings of the given lengths and any contents, by number and in a list.
    pub fn $n(mut ep: EntryPointV3) {
        mk::unroll(2000);
        let at: &[usize] = &[$($len),*];
        let b = written($k, at);
        ep.smbios_len_max = b.len() as u32;
        match EntryPoint::V3(ep).structures(b).next() {
            Some(Ok(Structure::Other(x))) => {
                let (mut k, mut p) = (0, 5);
                while k < at.len() {
                    mk::check("s.text", matches!(x.find_string(k as u8 + 1), Ok(s) if mk::offset(s.as_bytes(), b) == p && s.len() == at[k]));
                    p += at[k] + 1;
                    k += 1;
                }
                mk::check("s.text.end", x.find_string(k as u8 + 1).is_err());
            }
            Some(Ok(Structure::OemStrings(x))) => {
                let (mut k, mut p) = (0, 5);
                let mut it = x.strings;
                while k < at.len() {
                    mk::check("s.text.item", matches!(it.next(), Some(s) if mk::offset(s.as_bytes(), b) == p && s.len() == at[k]));
                    p += at[k] + 1;
                    k += 1;
                }
                mk::check("s.text.last", it.next().is_none());
                mk::check("s.text.still", it.next().is_none());
            }
            _ => mk::check("s.text.some", false),
        }
    }
)* } }
texts!(
    text_short 0x80 [1, 2, 3, 4, 5],
    text_long 0x80 [1, 300, 1],
    text_longer 0x80 [1000, 2],
    text_6 0x80 [6, 7, 8, 9],
    text_10 0x80 [10, 11, 12, 13],
    text_14 0x80 [14, 15, 16, 17],
    text_18 0x80 [18, 19, 20, 21, 22],
    text_23 0x80 [23, 24, 25, 26],
    text_27 0x80 [27, 30, 32],
    text_33 0x80 [33, 40, 64, 65],
    text_oem_short 11 [1, 2, 3, 4, 5],
    text_oem_long 11 [1, 300, 1],
);
macro_rules! wide { ($($n:ident $len:literal $any:literal),* $(,)?) => { $(
    /// A structure with very long strings does not hide the one behind it.
    pub fn $n(mut ep: EntryPointV3) {
        mk::unroll($len + 500);
        let b = wide($len, $any);
        ep.smbios_len_max = b.len() as u32;
        let mut s = EntryPoint::V3(ep).structures(b);
        mk::check("w.wide", matches!(s.next(), Some(Ok(Structure::Other(_)))));
        match s.next() {
            Some(Ok(Structure::Other(x))) => mk::check("w.behind", x.info == InfoType::Oem(0x81) && mk::offset(x.data, b) == $len + 10),
            _ => mk::check("w.behind.some", false),
        }
        mk::check("w.ended", s.next().is_none());
    }
)* } }
wide!(wide_300 300 true, wide_1000 1000 true, wide_66000 66000 false);
