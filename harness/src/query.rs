//! Queries against the published categories.
use crate::spec::*;
use crate::sym::*;
use unicode_intervals::{Interval, UnicodeCategorySet};

/// Field of a packed argument.
#[inline(always)]
fn field(d: u64, at: u32, bits: u32) -> u64 {
    d >> at & ((1 << bits) - 1)
}

/// a = version | lo << 8 | hi << 32: symbolic bounds and characters stay in [lo, hi].
/// b = include mask, c = exclude mask (`NO_SET`: not given).
/// d = plan: bits 0-1 minimum (0 not set, 1 symbolic), bits 2-3 maximum (0 not set,
/// 1 symbolic, 2 symbolic and at most minimum + window), bits 4-7, 8-11 encoded length
/// of the included characters (0: none), bits 12-15, 16-19 of the excluded ones,
/// bits 20-43 window, bit 44: judge the shape of the answer instead of its members,
/// bit 45: split on the bounds' values, bit 46: the maximum is at least 256, bit 47: the
/// characters are any above 255 instead of those in [lo, hi].
#[no_mangle]
pub extern "C" fn h_query(a: u64, b: u64, c: u64, d: u64) {
    let version = field(a, 0, 8) as usize;
    let (lo, hi) = (field(a, 8, 24) as u32, field(a, 32, 24) as u32);
    let window = field(d, 20, 24) as u32;
    let all = published(version, effective(b, c));
    let mut q = VERSIONS[version].query();
    if b & NO_SET == 0 {
        q = q.include_categories(set_of(b));
    }
    if c & NO_SET == 0 {
        q = q.exclude_categories(set_of(c));
    }
    let (mut min, mut max) = (0, MAX);
    if field(d, 0, 2) == 1 {
        min = any_in(1, lo, hi);
        q = q.min_codepoint(min);
    }
    match field(d, 2, 2) {
        1 => max = any_in(2, lo, hi),
        2 => {
            max = any_in(2, lo, hi);
            assume((min <= max) & (max.wrapping_sub(min) <= window));
        }
        _ => {}
    }
    assume(min <= max);
    if field(d, 46, 1) != 0 {
        assume(max >= 256);
    }
    if field(d, 2, 2) != 0 {
        q = q.max_codepoint(max);
    }
    if field(d, 45, 1) != 0 {
        min = concretize(min as u64) as u32;
        max = concretize(max as u64) as u32;
    }
    let mut chars = [0u32; 4];
    let (mut inc, mut exc) = (Vec::with_capacity(8), Vec::with_capacity(8));
    for k in 0..4 {
        let class = field(d, 4 + 4 * k, 4);
        if class != 0 {
            let (lo, hi) = if field(d, 47, 1) != 0 { (256, MAX) } else { (lo, hi) };
            let ch = any_char(3 + k, class, lo, hi);
            chars[k as usize] = ch;
            push_utf8(if k < 2 { &mut inc } else { &mut exc }, ch, class);
        }
    }
    if !inc.is_empty() {
        q = q.include_characters(text(&inc));
    }
    if !exc.is_empty() {
        q = q.exclude_characters(text(&exc));
    }
    let out = match q.intervals() {
        Ok(out) => out,
        Err(_) => {
            check!(false);
            return;
        }
    };
    reach(1);
    note(1, out.len() as u64);
    if field(d, 44, 1) != 0 {
        check!(canonical(&out));
        return;
    }
    // What the answer has to contain.
    let mut want = Vec::with_capacity(all.len());
    clamp(&all, min, max, &mut want);
    for k in 0..4 {
        if field(d, 4 + 4 * k, 4) != 0 {
            want = if k < 2 { insert(&want, chars[k as usize]) } else { delete(&want, chars[k as usize]) };
        }
    }
    members(&out, &want);
}

/// The same code points? Equal lists settle it; otherwise every code point is asked.
#[inline(never)]
pub fn members(out: &[Interval], want: &[Interval]) {
    let same = same(out, want);
    if same {
        reach(50);
        return;
    }
    let x = any_u32(99);
    check!(member(out, x) == member(want, x));
}

/// Only characters. a = layouts of the included (low 32 bits) and the excluded string, four
/// bits per character; b = range of the characters, lo | hi << 32; c = version;
/// bits 8-15 (and 32-39) of c: so many given characters as well, bits 16-19 their encoded length, bit 20:
/// before the symbolic ones, else behind, bit 21: in the excluded string, not the included one;
/// d = 0: no category, whole code space; 1: no category, symbolic maximum below 256;
/// 2: no category, symbolic bounds; 3: every category; 4, 5: every category up to 0x7f or 0xff;
/// 6: no category, up to 0xff; 7: every category from 0x41 up to 0x2fff.
#[no_mangle]
pub extern "C" fn h_strings(a: u64, b: u64, c: u64, d: u64) {
    let mut want: Vec<Interval> = Vec::with_capacity(16);
    let mut q = VERSIONS[(c & 255) as usize].query();
    let (min, max) = [(0, MAX), (0, MAX), (0, MAX), (0, MAX), (0, 0x7f), (0, 0xff), (0, 0xff), (0x41, 0x2fff)][d as usize];
    if d == 3 || d == 4 || d == 5 || d == 7 {
        want.push((min, max));
    } else {
        q = q.include_categories(UnicodeCategorySet::new());
    }
    if d > 3 {
        q = q.max_codepoint(max).min_codepoint(min);
    }
    if d == 2 {
        let min = any_in(1, 0, MAX);
        let max = any_in(2, 0, MAX);
        assume((min <= max) & (max >= 256));
        q = q.min_codepoint(min).max_codepoint(max);
    }
    if d == 1 {
        q = q.max_codepoint(any_in(2, 0, 255));
    }
    let (inc, exc) = (a & 0xffff_ffff, a >> 32);
    let (mut s, mut t) = (Vec::with_capacity(2048), Vec::with_capacity(2048));
    let (lo, hi) = (b as u32, (b >> 32) as u32);
    let (pads, length, before, minus) = ((field(c, 8, 8) | field(c, 32, 8) << 8) as u32, field(c, 16, 4), field(c, 20, 1) == 1, field(c, 21, 1) == 1);
    let (pattern, both) = (field(c, 22, 2), field(c, 24, 1) == 1);
    // Neither ascending nor all different; ascending, descending neighbours; every other.
    let pad = |k: u32| {
        [0, 0x61, 0xe0, 0x2600, 0x1_f600][length as usize]
            + match pattern {
                0 => k * 7 % 26,
                1 => k,
                2 => pads - 1 - k,
                _ => 2 * k,
            }
    };
    if !minus {
        for k in 0..pads {
            want = insert(&want, pad(k));
        }
    }
    if before || both {
        for k in 0..pads {
            push_utf8(if minus { &mut t } else { &mut s }, pad(k), length);
        }
    }
    for k in 0..8u32 {
        let class = inc >> (4 * k) & 15;
        if class != 0 {
            let ch = any_char(10 + k, class, lo, hi);
            push_utf8(&mut s, ch, class);
            want = insert(&want, ch);
        }
    }
    for k in 0..8u32 {
        let class = exc >> (4 * k) & 15;
        if class != 0 {
            let ch = any_char(20 + k, class, lo, hi);
            push_utf8(&mut t, ch, class);
            want = delete(&want, ch);
        }
    }
    if minus {
        for k in 0..pads {
            want = delete(&want, pad(k));
        }
    }
    if !before || both {
        for k in 0..pads {
            push_utf8(if minus { &mut t } else { &mut s }, pad(k), length);
        }
    }
    match q.include_characters(text(&s)).exclude_characters(text(&t)).intervals() {
        Ok(out) => {
            reach(1);
            note(1, out.len() as u64);
            check!(canonical(&out));
            members(&out, &want);
        }
        Err(_) => check!(false),
    }
}

/// Small ranges. a = version | lo << 8 | hi << 16 | which bounds << 24 (bit 0: minimum, bit 1:
/// maximum symbolic in [lo, hi], else lo and hi; bit 2: split on their values), b = include
/// mask, c = exclude mask, d = layout of the included (low half) and excluded characters, and
/// bit 48: compare with the same query forced off the small-range answer by a character
/// above 255, else with the cut of the answer for the whole code space.
#[no_mangle]
pub extern "C" fn h_small(a: u64, b: u64, c: u64, d: u64) {
    let version = field(a, 0, 8) as usize;
    let (lo, hi, which) = (field(a, 8, 8) as u32, field(a, 16, 8) as u32, field(a, 24, 4));
    let mut base = VERSIONS[version].query();
    if b & NO_SET == 0 {
        base = base.include_categories(set_of(b));
    }
    if c & NO_SET == 0 {
        base = base.exclude_categories(set_of(c));
    }
    let all = base.intervals().expect("a valid query");
    let mut min = if which & 1 == 1 { any_in(1, lo, hi) } else { lo };
    let mut max = if which & 2 == 2 { any_in(2, lo, hi) } else { hi };
    assume(min <= max);
    if which & 4 == 4 {
        min = concretize(min as u64) as u32;
        max = concretize(max as u64) as u32;
    }
    let (mut s, mut t, mut u) = (Vec::with_capacity(8), Vec::with_capacity(8), Vec::with_capacity(16));
    let mut want = Vec::with_capacity(64);
    clamp(&all, min, max, &mut want);
    for k in 0..4u32 {
        let class = field(d, 4 * k, 4);
        if class != 0 {
            let ch = any_char(10 + k, class, 0, 255);
            push_utf8(&mut s, ch, class);
            push_utf8(&mut u, ch, class);
            want = insert(&want, ch);
        }
    }
    for k in 0..4u32 {
        let class = field(d, 16 + 4 * k, 4);
        if class != 0 {
            let ch = any_char(20 + k, class, 0, 255);
            push_utf8(&mut t, ch, class);
            want = delete(&want, ch);
        }
    }
    let q = base.min_codepoint(min).max_codepoint(max).exclude_characters(text(&t));
    if field(d, 48, 1) == 1 {
        push_utf8(&mut u, 0x100, 2);
        let general = q.clone().include_characters(text(&u)).intervals();
        let small = q.include_characters(text(&s)).intervals();
        match (general, small) {
            (Ok(mut general), Ok(mut small)) => {
                reach(1);
                note(1, small.len() as u64);
                check!(canonical(&small));
                check!(canonical(&general));
                // Apart from U+0100 itself.
                general = delete(&general, 0x100);
                small = delete(&small, 0x100);
                members(&small, &general);
            }
            _ => check!(false),
        }
        return;
    }
    match q.include_characters(text(&s)).intervals() {
        Ok(out) => {
            reach(1);
            note(1, out.len() as u64);
            check!(canonical(&out));
            members(&out, &want);
        }
        Err(_) => check!(false),
    }
}

/// Which categories are selected is symbolic. a = version | lo << 8 | hi << 32; b = include
/// mask | mask of the categories it may or may not have as well << 32, c = the same for the
/// exclude mask (bit 31: no set is given); d: bit 0: minimum lo, bit 1: maximum hi, bits 2, 3:
/// they are symbolic in [lo, hi], bits 4-7, 8-11 encoded length of an included and an excluded
/// character in [lo, hi]; bit 12: judge the shape as well.
#[no_mangle]
pub extern "C" fn h_masks(a: u64, b: u64, c: u64, d: u64) {
    let version = field(a, 0, 8) as usize;
    let (lo, hi) = (field(a, 8, 24) as u32, field(a, 32, 24) as u32);
    let mut q = VERSIONS[version].query();
    let mut masks = [b, c];
    for (k, m) in masks.iter_mut().enumerate() {
        let open = *m >> 32;
        *m &= 0xffff_ffff;
        if *m & NO_SET != 0 {
            continue;
        }
        for x in 0..30 {
            if open >> x & 1 == 1 && any_bool(50 + 32 * k as u32 + x) {
                *m |= 1 << x;
            }
        }
        q = if k == 0 { q.include_categories(set_of(*m)) } else { q.exclude_categories(set_of(*m)) };
    }
    let all = published(version, effective(masks[0], masks[1]));
    let (mut min, mut max) = (0, MAX);
    if field(d, 0, 1) == 1 {
        min = if field(d, 2, 1) == 1 { any_in(1, lo, hi) } else { lo };
        q = q.min_codepoint(min);
    }
    if field(d, 1, 1) == 1 {
        max = if field(d, 3, 1) == 1 { any_in(2, lo, hi) } else { hi };
        q = q.max_codepoint(max);
    }
    assume(min <= max);
    let mut want = Vec::with_capacity(all.len());
    clamp(&all, min, max, &mut want);
    let (mut s, mut t) = (Vec::with_capacity(8), Vec::with_capacity(8));
    if field(d, 4, 4) != 0 {
        let ch = any_char(3, field(d, 4, 4), lo, hi);
        push_utf8(&mut s, ch, field(d, 4, 4));
        want = insert(&want, ch);
    }
    if field(d, 8, 4) != 0 {
        let ch = any_char(4, field(d, 8, 4), lo, hi);
        push_utf8(&mut t, ch, field(d, 8, 4));
        want = delete(&want, ch);
    }
    match q.include_characters(text(&s)).exclude_characters(text(&t)).intervals() {
        Ok(out) => {
            reach(1);
            note(1, out.len() as u64);
            if field(d, 12, 1) == 1 {
                check!(canonical(&out));
            } else {
                members(&out, &want);
            }
        }
        Err(_) => check!(false),
    }
}
