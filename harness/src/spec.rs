//! What the harnesses compare against: written from the documentation, not from
//! the implementation.
#![allow(dead_code)]
use crate::sym::*;
use unicode_intervals::{Interval, UnicodeCategory, UnicodeCategorySet, UnicodeVersion};

pub const MAX: u32 = 0x10_FFFF;

/// The thirty general categories, in the order of the published enum.
pub const CATS: [UnicodeCategory; 30] = [
    UnicodeCategory::Pe,
    UnicodeCategory::Pc,
    UnicodeCategory::Cc,
    UnicodeCategory::Sc,
    UnicodeCategory::Pd,
    UnicodeCategory::Nd,
    UnicodeCategory::Me,
    UnicodeCategory::Pf,
    UnicodeCategory::Cf,
    UnicodeCategory::Pi,
    UnicodeCategory::Nl,
    UnicodeCategory::Zl,
    UnicodeCategory::Ll,
    UnicodeCategory::Sm,
    UnicodeCategory::Lm,
    UnicodeCategory::Sk,
    UnicodeCategory::Mn,
    UnicodeCategory::Ps,
    UnicodeCategory::Lo,
    UnicodeCategory::No,
    UnicodeCategory::Po,
    UnicodeCategory::So,
    UnicodeCategory::Zp,
    UnicodeCategory::Co,
    UnicodeCategory::Zs,
    UnicodeCategory::Mc,
    UnicodeCategory::Cs,
    UnicodeCategory::Lt,
    UnicodeCategory::Cn,
    UnicodeCategory::Lu,
];

pub const NAMES: [&str; 30] = [
    "Pe", "Pc", "Cc", "Sc", "Pd", "Nd", "Me", "Pf", "Cf", "Pi", "Nl", "Zl", "Ll", "Sm", "Lm", "Sk", "Mn", "Ps",
    "Lo", "No", "Po", "So", "Zp", "Co", "Zs", "Mc", "Cs", "Lt", "Cn", "Lu",
];

pub const VERSIONS: [UnicodeVersion; 11] = [
    UnicodeVersion::V9_0_0,
    UnicodeVersion::V10_0_0,
    UnicodeVersion::V11_0_0,
    UnicodeVersion::V12_0_0,
    UnicodeVersion::V12_1_0,
    UnicodeVersion::V13_0_0,
    UnicodeVersion::V14_0_0,
    UnicodeVersion::V15_0_0,
    UnicodeVersion::V15_1_0,
    UnicodeVersion::V16_0_0,
    UnicodeVersion::V17_0_0,
];

/// Harness argument: a category mask over `CATS`; bit 31 set means "no category set given".
pub const NO_SET: u64 = 1 << 31;

pub fn set_of(mask: u64) -> UnicodeCategorySet {
    let mut s = UnicodeCategorySet::new();
    for (i, c) in CATS.iter().enumerate() {
        if mask >> i & 1 == 1 {
            s.add(*c);
        }
    }
    s
}

/// Is `x` in one of the intervals? Branch-free.
#[inline(never)]
pub fn member(v: &[Interval], x: u32) -> bool {
    let mut r = 0;
    for &(l, h) in v {
        r |= ite((l <= x) & (x <= h), 1, 0);
    }
    r != 0
}

/// How many elements of the intervals are below `x`? Branch-free.
#[inline(never)]
pub fn rank(v: &[Interval], x: u32) -> u32 {
    let mut n: u32 = 0;
    for &(l, h) in v {
        let part = x.wrapping_sub(l);
        let whole = h - l + 1;
        let inside = ite32(x > h, whole, part);
        n = n.wrapping_add(ite32(x <= l, 0, inside));
    }
    n
}

/// How many elements do the intervals have?
#[inline(never)]
pub fn count(v: &[Interval]) -> u32 {
    let mut n: u32 = 0;
    for &(l, h) in v {
        n = n.wrapping_add(h.wrapping_sub(l).wrapping_add(1));
    }
    n
}

/// Sorted, disjoint, never adjacent, inside the code space.
#[inline(never)]
pub fn canonical(v: &[Interval]) -> bool {
    let mut ok = true;
    for (i, &(l, h)) in v.iter().enumerate() {
        ok &= (l <= h) & (h <= MAX);
        if i > 0 {
            let p = v[i - 1].1;
            ok &= (p < l) & (p.wrapping_add(1) != l);
        }
    }
    ok
}

/// The intervals cut to `[min, max]`.
#[inline(never)]
pub fn clamp(table: &[Interval], min: u32, max: u32, out: &mut Vec<Interval>) {
    for &(l, h) in table {
        let lo = ite32(l < min, min, l);
        let hi = ite32(h > max, max, h);
        if lo <= hi {
            out.push((lo, hi));
        }
    }
}

/// Same list? Branches on the lengths only.
#[inline(never)]
pub fn same(a: &[Interval], b: &[Interval]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= (a[i].0 == b[i].0) & (a[i].1 == b[i].1);
    }
    ok
}

/// General categories of the published Unicode Character Database: for each version
/// the sorted run starts, `start << 5 | category`, behind an index of eleven
/// (first word, number of words) pairs.
static UCD: &[u8] = include_bytes!("../../golden/golden.bin");

fn word(i: usize) -> u32 {
    u32::from_le_bytes([UCD[4 * i], UCD[4 * i + 1], UCD[4 * i + 2], UCD[4 * i + 3]])
}

/// The code points whose published category is in the mask, as coalesced intervals.
#[inline(never)]
pub fn published(version: usize, mask: u32) -> Vec<Interval> {
    let (first, n) = (word(2 * version) as usize, word(2 * version + 1) as usize);
    let mut out: Vec<Interval> = Vec::with_capacity(n);
    let mut open = false;
    for i in 0..n {
        let w = word(first + i);
        let (start, cat) = (w >> 5, w & 31);
        let inside = mask >> cat & 1 == 1;
        if inside && !open {
            out.push((start, MAX));
        }
        if !inside && open {
            let k = out.len() - 1;
            out[k].1 = start - 1;
        }
        open = inside;
    }
    out
}

/// The published category of a code point: index into `CATS`.
#[inline(never)]
pub fn published_category(version: usize, x: u32) -> usize {
    let (first, n) = (word(2 * version) as usize, word(2 * version + 1) as usize);
    let (mut lo, mut hi) = (0, n);
    // The last run that starts at or before `x`.
    while hi - lo > 1 {
        let mid = lo + (hi - lo) / 2;
        if word(first + mid) >> 5 <= x {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    (word(first + lo) & 31) as usize
}

/// What categories a query selects: `NO_SET` stands for "not given".
pub fn effective(include: u64, exclude: u64) -> u32 {
    let all = (1u64 << 30) - 1;
    let inc = if include & NO_SET != 0 { all } else { include };
    let exc = if exclude & NO_SET != 0 { 0 } else { exclude };
    (inc & !exc & all) as u32
}

/// Canonical intervals with one more code point.
#[inline(never)]
pub fn insert(v: &[Interval], c: u32) -> Vec<Interval> {
    let mut out: Vec<Interval> = Vec::with_capacity(v.len() + 1);
    let mut placed = false;
    // The interval `c` went into, while it may still grow to the right.
    let (mut lo, mut hi) = (c, c);
    for &(l, h) in v {
        if placed {
            out.push((l, h));
        } else if h < lo && h.wrapping_add(1) != lo {
            out.push((l, h));
        } else if l > hi && l.wrapping_sub(1) != hi {
            out.push((lo, hi));
            out.push((l, h));
            placed = true;
        } else {
            lo = ite32(l < lo, l, lo);
            hi = ite32(h > hi, h, hi);
        }
    }
    if !placed {
        out.push((lo, hi));
    }
    out
}

/// Canonical intervals with one code point less.
#[inline(never)]
pub fn delete(v: &[Interval], c: u32) -> Vec<Interval> {
    let mut out: Vec<Interval> = Vec::with_capacity(v.len() + 1);
    for &(l, h) in v {
        if c < l || c > h {
            out.push((l, h));
        } else {
            if l < c {
                out.push((l, c - 1));
            }
            if c < h {
                out.push((c + 1, h));
            }
        }
    }
    out
}

/// A string with one code point of the given encoded length, symbolic.
pub fn any_char(id: u32, class: u64, lo: u32, hi: u32) -> u32 {
    let (bits, min) = match class {
        1 => (7, 0),
        2 => (11, 0x80),
        3 => (16, 0x800),
        _ => (21, 0x1_0000),
    };
    let c = any_bits(id, bits) as u32;
    assume((min <= c) & (c <= MAX));
    assume((lo <= c) & (c <= hi));
    assume((c < 0xd800) | (c > 0xdfff));
    c
}

/// Appends the UTF-8 encoding; the length class is known.
pub fn push_utf8(s: &mut Vec<u8>, c: u32, class: u64) {
    match class {
        1 => s.push(c as u8),
        2 => {
            s.push((0xc0 | c >> 6) as u8);
            s.push((0x80 | c & 0x3f) as u8);
        }
        3 => {
            s.push((0xe0 | c >> 12) as u8);
            s.push((0x80 | c >> 6 & 0x3f) as u8);
            s.push((0x80 | c & 0x3f) as u8);
        }
        _ => {
            s.push((0xf0 | c >> 18) as u8);
            s.push((0x80 | c >> 12 & 0x3f) as u8);
            s.push((0x80 | c >> 6 & 0x3f) as u8);
            s.push((0x80 | c & 0x3f) as u8);
        }
    }
}

/// The code points are in range and the lengths match, so this is UTF-8.
pub fn text(s: &[u8]) -> &str {
    unsafe { core::str::from_utf8_unchecked(s) }
}
