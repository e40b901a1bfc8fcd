//! Index access on interval sets.
use crate::spec::*;
use crate::sym::*;
use unicode_intervals::{Interval, IntervalSet};

/// a = version, b = category mask, c = which lookup, d = lo | hi << 24 | bits: 48: the maximum,
/// 49: the minimum is any value in [lo, hi], 50: the maximum is hi, 51: the minimum is lo, 52, 53:
/// U+0000, U+10FFFF included. Every index, every code point.
#[no_mangle]
pub extern "C" fn h_set_real(a: u64, b: u64, c: u64, d: u64) {
    let mut q = VERSIONS[a as usize].query().include_categories(set_of(b));
    let (lo, hi) = ((d & 0xff_ffff) as u32, (d >> 24 & 0xff_ffff) as u32);
    let flag = |k: u32| d >> k & 1 == 1;
    let (mut min, mut max) = (0, MAX);
    if flag(48) {
        max = any_in(60, lo, hi);
        q = q.max_codepoint(max);
    } else if flag(50) {
        max = hi;
        q = q.max_codepoint(max);
    }
    if flag(49) {
        min = any_in(61, lo, hi);
        q = q.min_codepoint(min);
    } else if flag(51) {
        min = lo;
        q = q.min_codepoint(min);
    }
    assume(min <= max);
    let q = q.include_characters(match (flag(52), flag(53)) {
        (true, true) => "\u{10ffff}\0",
        (true, false) => "\0",
        (false, true) => "\u{10ffff}",
        _ => "",
    });
    let set = q.interval_set().expect("a valid query");
    let v = q.intervals().expect("a valid query");
    let n = count(&v);
    check!(set.len() == n as usize);
    check!(set.is_empty() == (n == 0));
    lookups(&set, &v, c as u32);
}

/// The expected values are worked out after the lookup, where the path already
/// knows which interval it is in.
#[inline(never)]
pub fn lookups(set: &IntervalSet, v: &[Interval], what: u32) {
    let x = any_u32(what);
    match what % 10 {
        0 => match set.codepoint_at(x) {
            Some(cp) => {
                reach(1);
                note(1, cp as u64);
                check!(x < count(v));
                check!(member(v, cp));
                check!(rank(v, cp) == x);
            }
            None => {
                reach(2);
                check!(x >= count(v));
            }
        },
        1 => match set.index_of(x) {
            Some(k) => {
                reach(3);
                note(2, k as u64);
                check!(member(v, x));
                check!(k == rank(v, x));
            }
            None => {
                reach(4);
                check!(!member(v, x));
            }
        },
        2 => {
            if set.contains(x) {
                reach(5);
                check!(member(v, x));
            } else {
                reach(6);
                check!(!member(v, x));
            }
        }
        _ => {
            let above = set.index_above(x);
            reach(7);
            note(3, above as u64);
            check!(above == rank(v, x));
        }
    }
}

/// a, b as for the iteration harness (kind, classes, width), c = which lookup, d = version:
/// sets with symbolic members.
#[no_mangle]
pub extern "C" fn h_set_any(a: u64, _b: u64, c: u64, d: u64) {
    let (set, want) = crate::iter::any_set(a & 255, a >> 8 & 0xff_ffff, (a >> 32) as u32, d as usize);
    let n = count(&want);
    check!(set.len() == n as usize);
    check!(set.is_empty() == (n == 0));
    lookups(&set, &want, 10 + c as u32);
}

/// a = version, b = category mask. Characters and code points are the same argument;
/// membership, index, element and insertion index fit together.
#[no_mangle]
pub extern "C" fn h_set_agree(a: u64, b: u64, _c: u64, _d: u64) {
    let set = VERSIONS[a as usize].query().include_categories(set_of(b)).interval_set().expect("a valid query");
    let x = any_u32(1);
    let index = set.index_of(x);
    check!(set.contains(x) == index.is_some());
    let above = set.index_above(x);
    note(1, above as u64);
    check!(above as usize <= set.len());
    match index {
        Some(k) => {
            reach(1);
            check!(above == k);
            check!(set.codepoint_at(k) == Some(x));
        }
        None => {
            reach(2);
            // The next element, if there is one, is larger, the previous one smaller.
            match set.codepoint_at(above) {
                Some(y) => check!(y > x),
                None => check!(above as usize == set.len()),
            }
            if above > 0 {
                check!(set.codepoint_at(above - 1).is_some_and(|y| y < x));
            }
        }
    }
    if let Some(ch) = char::from_u32(x) {
        check!(set.contains(ch) == index.is_some());
        check!(set.index_of(ch) == index);
        check!(set.index_above(ch) == above);
    }
}

/// a, b, d as for `h_set_any`; c = kind of the first lookup | kind of the second << 4. One lookup
/// after another on the same set, or on a clone (bit 8 of c): the second is judged.
#[no_mangle]
pub extern "C" fn h_set_two(a: u64, _b: u64, c: u64, d: u64) {
    let (set, want) = crate::iter::any_set(a & 255, a >> 8 & 0xff_ffff, (a >> 32) as u32, d as usize);
    let y = any_u32(50);
    match c & 15 {
        0 => note(10, set.codepoint_at(y).is_some() as u64),
        1 => note(10, set.index_of(y).is_some() as u64),
        2 => note(10, set.contains(y) as u64),
        _ => note(10, set.index_above(y) as u64),
    }
    if c >> 8 & 1 == 1 {
        let copy = set.clone();
        drop(set);
        lookups(&copy, &want, 20 + (c >> 4 & 15) as u32);
    } else {
        lookups(&set, &want, 20 + (c >> 4 & 15) as u32);
    }
}
