//! The category tables of each version.
use crate::spec::*;
use crate::sym::*;
use unicode_intervals::Interval;

/// Binary search on a sorted list.
#[inline(never)]
pub fn inside(v: &[Interval], x: u32) -> bool {
    let (mut lo, mut hi) = (0, v.len());
    while lo < hi {
        let mid = lo + (hi - lo) / 2;
        if v[mid].1 < x {
            lo = mid + 1;
        } else {
            hi = mid;
        }
    }
    lo < v.len() && v[lo].0 <= x
}

/// a = version. Shape of all thirty lists, then for every 32-bit value how many
/// categories have it.
#[no_mangle]
pub extern "C" fn h_partition(a: u64, _b: u64, _c: u64, _d: u64) {
    let version = VERSIONS[a as usize];
    let mut total: u32 = 0;
    for c in CATS {
        let v = version.intervals_for(c);
        check!(canonical(v));
        total = total.wrapping_add(count(v));
    }
    check!(total == MAX + 1);
    let x = any_u32(1);
    let mut n: u64 = 0;
    for c in CATS {
        if inside(version.intervals_for(c), x) {
            n += 1;
        }
    }
    note(1, n);
    if x <= MAX {
        reach(1);
        check!(n == 1);
    } else {
        reach(2);
        check!(n == 0);
    }
}

/// a = version, b = first category, c = number of categories: the list per category, the
/// table row and the query for just this category have the same members.
#[no_mangle]
pub extern "C" fn h_lookup(a: u64, b: u64, c: u64, _d: u64) {
    let version = VERSIONS[a as usize];
    let k = b as usize + pick(2, c as u32) as usize;
    let v = version.intervals_for(CATS[k]);
    let q = version.query().include_categories(CATS[k]).intervals().expect("a valid query");
    let t = version.table();
    check!(t.len() == 30);
    check!(canonical(&q));
    let x = any_u32(1);
    let want = inside(v, x);
    note(1, want as u64);
    reach(if want { 1 } else { 2 });
    check!(inside(&q, x) == want);
    check!(inside(t[k], x) == want);
}

/// a = version. Every code point has its published category and no other.
#[no_mangle]
pub extern "C" fn h_published(a: u64, _b: u64, _c: u64, _d: u64) {
    let version = VERSIONS[a as usize];
    let x = any_u32(1);
    assume(x <= MAX);
    let cat = published_category(a as usize, x);
    reach(1);
    note(1, cat as u64);
    for (k, c) in CATS.iter().enumerate() {
        check!(inside(version.intervals_for(*c), x) == (k == cat));
    }
}

/// a = version, d = part: the same seen through queries for one category, without bounds and
/// with some.
#[no_mangle]
pub extern "C" fn h_asked(a: u64, _b: u64, _c: u64, d: u64) {
    let version = VERSIONS[a as usize];
    // What is asked for, and where it applies.
    let bounds = [(0, MAX), (0, 0x24f), (0x80, MAX)][d as usize];
    let lists: Vec<Vec<Interval>> = CATS
        .iter()
        .map(|c| {
            let q = version.query().include_categories(*c);
            match d {
                0 => q,
                1 => q.max_codepoint(bounds.1),
                _ => q.min_codepoint(bounds.0),
            }
            .intervals()
            .expect("a valid query")
        })
        .collect();
    let x = any_u32(1);
    assume(x <= MAX);
    let within = (bounds.0 <= x) & (x <= bounds.1);
    if within {
        let cat = published_category(a as usize, x);
        reach(1);
        note(1, cat as u64);
        for (k, q) in lists.iter().enumerate() {
            check!(inside(q, x) == (k == cat));
        }
    } else {
        reach(2);
        for q in lists.iter() {
            check!(!inside(q, x));
        }
    }
}

fn category(version: usize, x: u32) -> usize {
    for (k, c) in CATS.iter().enumerate() {
        if inside(VERSIONS[version].intervals_for(*c), x) {
            return k;
        }
    }
    check!(false);
    0
}

const CC: usize = 2;
const CO: usize = 23;
const CS: usize = 26;
const CN: usize = 28;

/// a = earlier version, b = later version: the standard's stability guarantees.
#[no_mangle]
pub extern "C" fn h_stable(a: u64, b: u64, _c: u64, _d: u64) {
    let x = any_u32(1);
    assume(x <= MAX);
    let (old, new) = (category(a as usize, x), category(b as usize, x));
    reach(1);
    note(1, old as u64);
    note(2, new as u64);
    for fixed in [CC, CO, CS] {
        check!((old == fixed) == (new == fixed));
    }
    if old != CN {
        reach(2);
        check!(new != CN);
    }
    if (x & 0xfffe == 0xfffe) | ((0xfdd0 <= x) & (x <= 0xfdef)) {
        reach(3);
        check!(old == CN);
        check!(new == CN);
    }
}
