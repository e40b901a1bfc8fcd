//! Iteration over interval sets.
use crate::spec::*;
use crate::sym::*;
use unicode_intervals::{Interval, IntervalSet, UnicodeCategorySet};

/// How the set comes about: 0: up to three symbolic characters (encoded lengths in
/// `classes`), 1: a symbolic window of at most `width` code points, ending at 256 or later,
/// without one symbolic character, 2: a window of the space separators, 3: a window around
/// 64 without one symbolic character, 4: category `classes >> 8` and one symbolic character of
/// encoded length `classes & 15` from `width` on. With it, the list of its intervals: the order and the
/// number of elements are judged against that list.
#[inline(never)]
pub fn any_set(kind: u64, classes: u64, width: u32, version: usize) -> (IntervalSet, Vec<Interval>) {
    let q = VERSIONS[version].query();
    let set;
    let list;
    match kind {
        0 => {
            let mut s = Vec::with_capacity(16);
            let mut k = 0;
            while classes >> (4 * k) & 15 != 0 {
                let class = classes >> (4 * k) & 15;
                let c = any_char(1 + k, class, 0, MAX);
                push_utf8(&mut s, c, class);
                k += 1;
            }
            let q = q.include_categories(UnicodeCategorySet::new()).include_characters(text(&s));
            (set, list) = (q.interval_set(), q.intervals());
        }
        1 => {
            let lo = any_in(1, 0, MAX);
            let hi = any_in(2, 0, MAX);
            assume((lo <= hi) & (hi.wrapping_sub(lo) < width) & (hi >= 256));
            let mut s = Vec::with_capacity(4);
            if classes != 0 {
                let c = any_char(3, classes, 0, MAX);
                push_utf8(&mut s, c, classes);
            }
            let q = q.min_codepoint(lo).max_codepoint(hi).exclude_characters(text(&s));
            (set, list) = (q.interval_set(), q.intervals());
        }
        3 => {
            // Below 256, across a 64-bit word.
            let lo = concretize(any_in(1, 0x3c, 0x43) as u64) as u32;
            let hi = concretize(any_in(2, 0x3c, 0x43) as u64) as u32;
            assume(lo <= hi);
            let mut s = Vec::with_capacity(4);
            let c = any_char(3, 1, 0x3c, 0x43);
            push_utf8(&mut s, c, 1);
            let q = q.min_codepoint(lo).max_codepoint(hi).exclude_characters(text(&s));
            (set, list) = (q.interval_set(), q.intervals());
        }
        4 => {
            let mut s = Vec::with_capacity(4);
            if classes & 15 != 0 {
                let c = any_char(3, classes & 15, width, MAX);
                push_utf8(&mut s, c, classes & 15);
            }
            let q = q.include_categories(CATS[(classes >> 8) as usize]).include_characters(text(&s));
            (set, list) = (q.interval_set(), q.intervals());
        }
        _ => {
            // Zs: runs of one and of several code points.
            let lo = any_in(1, 0x1ff8, 0x3008);
            let hi = any_in(2, 0x1ff8, 0x3008);
            assume(lo <= hi);
            let q = q.include_categories(CATS[24]).min_codepoint(lo).max_codepoint(hi);
            (set, list) = (q.interval_set(), q.intervals());
        }
    }
    match (set, list) {
        (Ok(set), Ok(list)) => (set, list),
        _ => {
            check!(false);
            unreachable!()
        }
    }
}

/// The element of rank `k`, or `u32::MAX`.
#[inline(never)]
fn element(v: &[Interval], mut k: u32) -> u32 {
    for &(l, h) in v {
        let n = h - l + 1;
        if k < n {
            return l + k;
        }
        k -= n;
    }
    u32::MAX
}

#[inline(never)]
fn bounds(hint: (usize, Option<usize>), left: u32) -> bool {
    let upper = match hint.1 {
        Some(u) => u >= left as usize,
        None => true,
    };
    hint.0 <= left as usize && upper
}

/// a = kind | classes << 8 | width << 32, b = steps, c = version. Any interleaving of the two
/// ends, elements within the first and last `b`.
#[no_mangle]
pub extern "C" fn h_ends(a: u64, b: u64, c: u64, _d: u64) {
    let (set, want) = any_set(a & 255, a >> 8 & 0xff_ffff, (a >> 32) as u32, c as usize);
    let n = count(&want);
    note(1, n as u64);
    let mut it = set.iter();
    let (mut front, mut back) = (0u32, 0u32);
    for step in 0..b {
        let left = n - front - back;
        check!(bounds(it.size_hint(), left));
        if pick(20 + step as u32, 2) == 0 {
            match it.next() {
                Some(x) => {
                    reach(1);
                    check!(left > 0);
                    check!(x == element(&want, front));
                    front += 1;
                }
                None => {
                    reach(2);
                    check!(left == 0);
                }
            }
        } else {
            match it.next_back() {
                Some(x) => {
                    reach(3);
                    check!(left > 0);
                    check!(x == element(&want, n - 1 - back));
                    back += 1;
                }
                None => {
                    reach(4);
                    check!(left == 0);
                }
            }
        }
    }
    check!(bounds(it.size_hint(), n - front - back));
}

/// a = kind | classes << 8 | width << 32, c = version. Whole traversals and the derived ways
/// to traverse.
#[no_mangle]
pub extern "C" fn h_whole(a: u64, _b: u64, c: u64, _d: u64) {
    let (set, want) = any_set(a & 255, a >> 8 & 0xff_ffff, (a >> 32) as u32, c as usize);
    let n = count(&want);
    let n = concretize(n as u64) as u32;
    note(1, n as u64);
    reach(1);
    let mut seen = 0;
    for x in &set {
        check!(seen < n && x == element(&want, seen));
        seen += 1;
    }
    check!(seen == n);
    let listed: Vec<u32> = set.iter().collect();
    check!(listed.len() == n as usize);
    for k in 0..n {
        check!(listed[k as usize] == element(&want, k));
    }
    let mut back: Vec<u32> = set.iter().rev().collect();
    check!(back.len() == n as usize);
    back.reverse();
    check!(back == listed);
    check!(set.iter().count() == n as usize);
    check!(set.iter().last() == listed.last().copied());
    check!(set.iter().min() == listed.first().copied());
    check!(set.iter().max() == listed.last().copied());
    let mut folded = Vec::with_capacity(8);
    set.iter().for_each(|x| folded.push(x));
    check!(folded == listed);
    let rfolded = set.iter().rfold(Vec::with_capacity(8), |mut v, x| {
        v.insert(0, x);
        v
    });
    check!(rfolded == listed);
}

/// a = kind | classes << 8 | width << 32, b = how far, c = version. Skipping ahead, clones and
/// independent iterations.
#[no_mangle]
pub extern "C" fn h_skip(a: u64, b: u64, c: u64, _d: u64) {
    let (set, want) = any_set(a & 255, a >> 8 & 0xff_ffff, (a >> 32) as u32, c as usize);
    let n = count(&want);
    let k = pick(20, b as u32);
    let m = pick(21, b as u32);
    note(1, k as u64);
    let at = |i: u32| if i < n { Some(element(&want, i)) } else { None };
    let mut it = set.iter();
    let first = it.nth(k as usize);
    check!(first == at(k));
    reach(if first.is_some() { 1 } else { 2 });
    let mut copy = it.clone();
    // Moving the original leaves the copy alone.
    let far = it.nth_back(m as usize);
    let left = n.saturating_sub(k + 1);
    check!(far == if m < left { at(n - 1 - m) } else { None });
    reach(if far.is_some() { 3 } else { 4 });
    check!(copy.next() == at(k + 1));
    check!(set.iter().next() == at(0));
    check!(set.iter().next_back() == if n > 0 { at(n - 1) } else { None });
    if far.is_some() {
        check!(it.next() == if m + 1 < left { at(k + 1) } else { None });
    } else {
        check!(it.next().is_none());
        check!(it.next_back().is_none());
        check!(it.next().is_none());
    }
}

/// a = version, b = category. The element at any index, reached by skipping, from both ends.
#[no_mangle]
pub extern "C" fn h_nth(a: u64, b: u64, _c: u64, _d: u64) {
    let q = VERSIONS[a as usize].query().include_categories(CATS[b as usize]);
    let set = q.interval_set().expect("a valid query");
    let v = q.intervals().expect("a valid query");
    let n = count(&v);
    let k = any_in(1, 0, n);
    let x = set.iter().nth(k as usize);
    match x {
        Some(x) => {
            reach(1);
            note(1, x as u64);
            check!(k < n);
            check!(member(&v, x));
            check!(rank(&v, x) == k);
        }
        None => {
            reach(2);
            check!(k == n);
        }
    }
    let mut it = set.iter();
    let y = it.nth_back(k as usize);
    match y {
        Some(y) => {
            check!(k < n);
            check!(member(&v, y));
            check!(rank(&v, y) == n - 1 - k);
        }
        None => check!(k == n),
    }
}

/// a = kind | classes << 8 | width << 32, b = steps, c = version. After some steps from either
/// end, every derived way to consume the rest.
#[no_mangle]
pub extern "C" fn h_rest(a: u64, b: u64, c: u64, _d: u64) {
    let (set, want) = any_set(a & 255, a >> 8 & 0xff_ffff, (a >> 32) as u32, c as usize);
    let n = count(&want);
    let n = concretize(n as u64) as u32;
    let (front, back) = (pick(20, b as u32 + 1), pick(21, b as u32 + 1));
    assume(front + back <= n + 1);
    note(1, u64::from(n));
    let mut it = set.iter();
    for _ in 0..front {
        it.next();
    }
    for _ in 0..back {
        it.next_back();
    }
    let (front, end) = (front.min(n), n.saturating_sub(back).max(front.min(n)));
    let left = (end - front) as usize;
    let mut rest: Vec<u32> = Vec::with_capacity(left);
    for k in front..end {
        rest.push(element(&want, k));
    }
    reach(if left > 0 { 1 } else { 2 });
    check!(bounds(it.size_hint(), left as u32));
    check!(it.clone().count() == left);
    check!(it.clone().last() == rest.last().copied());
    check!(it.clone().min() == rest.first().copied());
    check!(it.clone().max() == rest.last().copied());
    check!(it.clone().collect::<Vec<u32>>() == rest);
    let mut all: Vec<u32> = Vec::with_capacity(left);
    it.clone().for_each(|x| all.push(x));
    check!(all == rest);
    all.clear();
    check!(it.clone().all(|x| {
        all.push(x);
        true
    }));
    check!(all == rest);
    all.clear();
    check!(!it.clone().any(|x| {
        all.push(x);
        false
    }));
    check!(all == rest);
    all.clear();
    all.extend(it.clone().skip(1));
    check!(all[..] == rest[left.min(1)..]);
    all.clear();
    all.extend(it.clone().step_by(2));
    check!(all.len() == (left + 1) / 2);
    for (k, x) in all.iter().enumerate() {
        check!(*x == rest[2 * k]);
    }
    all.clear();
    all.extend(it.clone().rev());
    all.reverse();
    check!(all == rest);
    let folded = it.clone().rfold(Vec::with_capacity(left), |mut v: Vec<u32>, x| {
        v.push(x);
        v
    });
    check!(folded.len() == left);
    for k in 0..left {
        check!(folded[k] == rest[left - 1 - k]);
    }
    let k = pick(22, left as u32 + 2) as usize;
    let mut some = it.clone();
    check!(some.nth(k) == rest.get(k).copied());
    check!(bounds(some.size_hint(), left.saturating_sub(k + 1) as u32));
    check!(some.next() == rest.get(k + 1).copied());
    check!(some.next_back() == if k + 2 < left { rest.last().copied() } else { None });
    let mut some = it.clone();
    check!(some.nth_back(k) == if k < left { Some(rest[left - 1 - k]) } else { None });
    check!(bounds(some.size_hint(), left.saturating_sub(k + 1) as u32));
    check!(some.next_back() == if k + 1 < left { Some(rest[left - 2 - k]) } else { None });
    check!(some.next() == if k + 2 < left { Some(rest[0]) } else { None });
    if k < left {
        let x = rest[k];
        let mut some = it.clone();
        check!(some.position(|y| y == x) == Some(k));
        check!(some.next() == rest.get(k + 1).copied());
        let mut some = it.clone();
        check!(some.find(|y| *y == x) == Some(x));
        check!(some.count() == left - 1 - k);
        let mut some = it.clone();
        check!(some.rfind(|y| *y == x) == Some(x));
        check!(some.count() == k);
    }
    // Searching for what is not there, and leaving a search early.
    all.clear();
    let mut some = it.clone();
    check!(some.find(|x| {
        all.push(*x);
        false
    }) == None);
    check!(all == rest);
    check!(some.next() == None);
    all.clear();
    let mut some = it.clone();
    check!(some.rfind(|x| {
        all.push(*x);
        false
    }) == None);
    all.reverse();
    check!(all == rest);
    check!(some.next_back() == None);
    check!(it.clone().position(|_| false) == None);
    check!(it.clone().any(|_| true) == (left > 0));
    check!(it.clone().all(|_| false) == (left == 0));
    let mut some = it.clone();
    let stop = some.try_fold(0usize, |n, x| if n == k { Err(x) } else { Ok(n + 1) });
    check!(stop == rest.get(k).map_or(Ok(left), |x| Err(*x)));
    check!(some.next() == rest.get(k + 1).copied());
    let mut some = it.clone();
    let stop = some.try_rfold(0usize, |n, x| if n == k { Err(x) } else { Ok(n + 1) });
    check!(stop == if k < left { Err(rest[left - 1 - k]) } else { Ok(left) });
    check!(some.next_back() == if k + 1 < left { Some(rest[left - 2 - k]) } else { None });
    check!(it.clone().eq(rest.iter().copied()));
    check!(it.clone().max_by_key(|x| *x & 1) == rest.iter().copied().max_by_key(|x| *x & 1));
    // The original has not moved.
    check!(it.next() == rest.first().copied());
}
