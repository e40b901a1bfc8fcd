//! The query builder: validation, settings, state.
use crate::spec::*;
use crate::sym::*;
use unicode_intervals::{Error, Interval, IntervalQuery, UnicodeCategorySet};

/// Bounds that are set (1) or not (0); every 32-bit value. a = version, b = minimum set,
/// c = maximum set, d = include mask | exclude mask << 32; a, bits 8, 9: included, excluded
/// characters, bits 10, 11: no such characters (an empty string).
#[no_mangle]
pub extern "C" fn h_bounds(a: u64, b: u64, c: u64, d: u64) {
    let mut q = VERSIONS[(a & 255) as usize].query();
    if d & NO_SET == 0 {
        q = q.include_categories(set_of(d & 0xffff_ffff));
    }
    if d >> 32 & NO_SET == 0 {
        q = q.exclude_categories(set_of(d >> 32));
    }
    if a >> 8 & 1 == 1 {
        q = q.include_characters("a\u{2603}");
    }
    if a >> 9 & 1 == 1 {
        q = q.exclude_characters("\u{2603}z");
    }
    if a >> 10 & 1 == 1 {
        q = q.include_characters("");
    }
    if a >> 11 & 1 == 1 {
        q = q.exclude_characters("");
    }
    let (mut min, mut max) = (0, MAX);
    if b == 1 {
        min = any_u32(1);
        q = q.min_codepoint(min);
    }
    if c == 1 {
        max = any_u32(2);
        q = q.max_codepoint(max);
    }
    let list = q.intervals();
    let set = q.interval_set();
    let outside = (min > MAX) | (max > MAX);
    match list {
        Ok(v) => {
            reach(1);
            check!(!outside);
            check!(min <= max);
            note(1, v.len() as u64);
            match set {
                Ok(s) => check!(s.len() == count(&v) as usize),
                Err(_) => check!(false),
            }
        }
        Err(Error::CodepointNotInRange(x, y)) => {
            reach(2);
            check!(outside);
            check!((x == min) & (y == max));
            note(2, x as u64);
            match set {
                Err(Error::CodepointNotInRange(x, y)) => check!((x == min) & (y == max)),
                _ => check!(false),
            }
        }
        Err(Error::InvalidCodepoints(x, y)) => {
            reach(3);
            check!(!outside);
            check!(min > max);
            check!((x == min) & (y == max));
            note(3, x as u64);
            match set {
                Err(Error::InvalidCodepoints(x, y)) => check!((x == min) & (y == max)),
                _ => check!(false),
            }
        }
        Err(_) => check!(false),
    }
}

/// The messages, for the values in [a, b] of the offending bound (one path each), with the
/// other bound at c; d = 0: the symbolic bound is the minimum, 1: the maximum.
#[no_mangle]
pub extern "C" fn h_message(a: u64, b: u64, c: u64, d: u64) {
    let x = concretize(any_in(1, a as u32, b as u32) as u64) as u32;
    let (min, max) = if d == 1 { (c as u32, x) } else { (x, c as u32) };
    let q = VERSIONS[10].query().min_codepoint(min).max_codepoint(max);
    let e = match q.intervals() {
        Ok(_) => {
            check!(false);
            return;
        }
        Err(e) => e,
    };
    reach(1);
    note(1, x as u64);
    // The two bounds stand next to each other among the numbers of the message.
    let message = e.to_string();
    let mut numbers: Vec<u64> = Vec::with_capacity(8);
    let mut inside = false;
    for b in message.bytes() {
        if b.is_ascii_digit() {
            if !inside {
                numbers.push(0);
            }
            let k = numbers.len() - 1;
            numbers[k] = numbers[k].wrapping_mul(10).wrapping_add(u64::from(b - b'0'));
            inside = true;
        } else {
            inside = false;
        }
    }
    check!(numbers.windows(2).any(|w| w[0] == u64::from(min) && w[1] == u64::from(max)));
}

const ZL: u64 = 1 << 11;
const ZP: u64 = 1 << 22;
const ZS: u64 = 1 << 24;
const ALL: u64 = (1 << 30) - 1;
const PD: u64 = 1 << 4;
const SC: u64 = 1 << 3;
/// The three categories the category settings choose from: whatever is selected is small or
/// everything. The second choice differs between the versions.
const CHOICES: [[u64; 3]; 2] = [[ZL, ZP, ZS], [SC, ZL, PD]];

fn included(choice: usize) -> [u64; 3] {
    let [x, y, z] = CHOICES[choice];
    [x | z, y | x, 0]
}

fn excluded(choice: usize) -> [u64; 3] {
    let [x, y, z] = CHOICES[choice];
    [ALL & !(x | z), ALL & !(y | x), 0]
}

#[derive(Clone)]
struct Settings {
    include: u64,
    exclude: u64,
    min: u32,
    max: u32,
    plus: u32,
    minus: u32,
}

const NONE: u32 = u32::MAX;

/// The published members for every outcome of the choices: a subset of the three categories,
/// or everything.
fn outcomes(version: usize, choice: usize) -> Vec<(u32, Vec<Interval>)> {
    let mut out = Vec::with_capacity(16);
    for pick in 0..8u64 {
        let mut m = 0;
        for (k, c) in CHOICES[choice].into_iter().enumerate() {
            if pick >> k & 1 == 1 {
                m |= c;
            }
        }
        out.push((m as u32, published(version, m as u32)));
    }
    out.push((ALL as u32, vec![(0, MAX)]));
    out
}

/// What a query with these settings has to give; `None` for invalid bounds.
#[inline(never)]
fn expected(all: &[(u32, Vec<Interval>)], s: &Settings) -> Option<Vec<Interval>> {
    if s.min > MAX || s.max > MAX || s.min > s.max {
        return None;
    }
    let mask = effective(s.include, s.exclude);
    let mut want = Vec::with_capacity(64);
    for (m, v) in all {
        if *m == mask {
            clamp(v, s.min, s.max, &mut want);
        }
    }
    if s.plus != NONE {
        want = insert(&want, s.plus);
    }
    if s.minus != NONE {
        want = delete(&want, s.minus);
    }
    Some(want)
}

#[inline(never)]
fn agrees(all: &[(u32, Vec<Interval>)], q: &IntervalQuery<'_>, s: &Settings) {
    match (q.intervals(), expected(all, s)) {
        (Ok(got), Some(want)) => {
            reach(1);
            note(1, got.len() as u64);
            crate::query::members(&got, &want);
        }
        (Err(_), None) => reach(2),
        _ => check!(false),
    }
}

/// One setting, value number `t`. Kinds: 0 include, 1 exclude, 2 minimum, 3 maximum,
/// 4 include characters, 5 exclude characters, 6 include reset, 7 exclude reset,
/// 8 include characters emptied, 9 exclude characters emptied.
fn setting<'a>(kind: u64, t: u32, choice: usize, q: IntervalQuery<'a>, s: &mut Settings, texts: &'a [(u32, String)]) -> IntervalQuery<'a> {
    match kind {
        0 | 1 => {
            let mask = (if kind == 0 { included(choice) } else { excluded(choice) })[pick(10 + t + kind as u32 * 40, 3) as usize];
            if kind == 0 {
                s.include = mask;
                q.include_categories(set_of(mask))
            } else {
                s.exclude = mask;
                q.exclude_categories(set_of(mask))
            }
        }
        2 => {
            s.min = any_u32(20 + t);
            q.min_codepoint(s.min)
        }
        3 => {
            s.max = any_u32(30 + t);
            assume(s.max >= 256);
            q.max_codepoint(s.max)
        }
        4 => {
            s.plus = texts[t as usize].0;
            q.include_characters(&texts[t as usize].1)
        }
        5 => {
            s.minus = texts[t as usize].0;
            q.exclude_characters(&texts[t as usize].1)
        }
        6 => {
            s.include = NO_SET;
            q.include_categories(None)
        }
        7 => {
            s.exclude = NO_SET;
            q.exclude_categories(None)
        }
        8 => {
            s.plus = NONE;
            q.include_characters("")
        }
        _ => {
            s.minus = NONE;
            q.exclude_characters("")
        }
    }
}

/// a = version, b = kinds of the settings in order (four bits each, plus 1; 15: any of the ten),
/// c = 0: only run, 1: also clone after each setting, run twice and alter the clone,
/// d = encoded length of the characters (0: letters that are given).
#[no_mangle]
pub extern "C" fn h_settings(a: u64, b: u64, c: u64, d: u64) {
    let version = a as usize;
    let all = outcomes(version, 0);
    let mut texts: Vec<(u32, String)> = Vec::with_capacity(4);
    for t in 0..4u32 {
        if b >> (4 * t) & 15 == 0 {
            break;
        }
        // In and around the separators, or anywhere.
        let ch = if d == 0 { [0x2028, 0x2009, 0x41, 0x2029][t as usize] } else { any_char(40 + t, d, 0, MAX) };
        let mut s = Vec::with_capacity(4);
        push_utf8(&mut s, ch, if d == 0 && ch < 128 { 1 } else if d == 0 { 3 } else { d });
        texts.push((ch, text(&s).to_string()));
    }
    let mut q = VERSIONS[version].query();
    let mut s = Settings { include: NO_SET, exclude: NO_SET, min: 0, max: MAX, plus: NONE, minus: NONE };
    let mut t = 0;
    while b >> (4 * t) & 15 != 0 {
        let k = b >> (4 * t) & 15;
        let kind = if k == 15 { pick(1 + t, 10) as u64 } else { k - 1 };
        q = setting(kind, t, 0, q, &mut s, &texts);
        if c == 1 {
            let copy = q.clone();
            check!(copy == q);
            let _ = q.intervals();
            // Altering the copy (or the original) leaves the other alone.
            let altered = copy.include_categories(UnicodeCategorySet::new()).include_characters("x").min_codepoint(7);
            let _ = altered.intervals();
            if pick(60 + t, 2) == 1 {
                q = q.clone();
            }
        }
        t += 1;
    }
    agrees(&all, &q, &s);
    if c == 1 {
        // Again, and as an interval set.
        match (q.intervals(), q.interval_set(), expected(&all, &s)) {
            (Ok(got), Ok(set), Some(want)) => {
                check!(same(&got, &want));
                check!(set.len() == count(&want) as usize);
            }
            (Err(_), Err(_), None) => reach(3),
            _ => check!(false),
        }
    }
}

/// The module's `query` is a query of the latest version; a = 1: via a category instead of a set.
#[no_mangle]
pub extern "C" fn h_latest(a: u64, _b: u64, _c: u64, _d: u64) {
    let k = pick(1, 30) as usize;
    let (lo, hi) = (any_in(2, 0, MAX), any_in(3, 0, MAX));
    assume(lo <= hi);
    assume((lo >= 0x2000) & (hi <= 0x2080));
    let q = unicode_intervals::query();
    let latest = unicode_intervals::UnicodeVersion::latest().query();
    let (q, p) = if a == 1 {
        (q.include_categories(CATS[k]), latest.include_categories(CATS[k]))
    } else {
        (q.exclude_categories(CATS[k]), latest.exclude_categories(CATS[k]))
    };
    check!(q == p);
    let (q, p) = (q.min_codepoint(lo).max_codepoint(hi), p.max_codepoint(hi).min_codepoint(lo));
    check!(q == p);
    reach(1);
    let all = published(10, if a == 1 { 1 << k } else { effective(NO_SET, 1 << k) });
    let mut want = Vec::with_capacity(all.len());
    clamp(&all, lo, hi, &mut want);
    match q.intervals() {
        Ok(got) => {
            note(1, got.len() as u64);
            crate::query::members(&got, &want);
        }
        Err(_) => check!(false),
    }
}

/// Nothing panics. a = version | operation << 8, b = include mask, c = exclude mask
/// (`NO_SET`: not given), d = encoded lengths of the included (low half) and the excluded
/// characters, and bits 32, 33: minimum, maximum any 32-bit number; bit 34: the maximum is
/// at least 256, bit 35: below 256. The outcome is not judged.
#[no_mangle]
pub extern "C" fn h_total(a: u64, b: u64, c: u64, d: u64) {
    let mut q = VERSIONS[(a & 255) as usize].query();
    if b & NO_SET == 0 {
        q = q.include_categories(set_of(b));
    }
    if c & NO_SET == 0 {
        q = q.exclude_categories(set_of(c));
    }
    if d >> 32 & 1 == 1 {
        q = q.min_codepoint(any_u32(1));
    }
    if d >> 33 & 1 == 1 {
        let max = any_u32(2);
        assume(max >= (d >> 34 & 1) as u32 * 256);
        assume(d >> 35 & 1 == 0 || max < 256);
        q = q.max_codepoint(max);
    }
    let (mut s, mut t) = (Vec::with_capacity(16), Vec::with_capacity(16));
    for k in 0..4u32 {
        let (plus, minus) = (d >> (4 * k) & 15, d >> (16 + 4 * k) & 15);
        if plus != 0 {
            push_utf8(&mut s, any_char(10 + k, plus, 0, MAX), plus);
        }
        if minus != 0 {
            push_utf8(&mut t, any_char(20 + k, minus, 0, MAX), minus);
        }
    }
    q = q.include_characters(text(&s)).exclude_characters(text(&t));
    let x = any_u32(30);
    match q.interval_set() {
        Ok(set) => {
            reach(1);
            match a >> 8 {
                0 => note(1, u64::from(set.codepoint_at(x).is_some())),
                1 => note(1, u64::from(set.index_of(x).is_some())),
                2 => note(1, u64::from(set.contains(x))),
                3 => note(1, u64::from(set.index_above(x))),
                4 => {
                    let mut it = set.iter();
                    note(1, u64::from(it.next().is_some()) + u64::from(it.next_back().is_some()) + u64::from(it.next().is_some()));
                    note(2, it.size_hint().0 as u64);
                }
                _ => note(1, (set.len() + usize::from(set.is_empty())) as u64),
            }
        }
        Err(e) => {
            reach(2);
            // Formatting splits on every digit: only for the kind of error.
            note(1, u64::from(e == Error::InvalidVersion("".into())));
        }
    }
}

/// A query with everything symbolic; kinds as for `setting`.
fn some_query<'a>(version: usize, base: u32, choice: usize, plan: u64, open: bool, texts: &'a [(u32, String)]) -> (IntervalQuery<'a>, Settings) {
    let mut q = VERSIONS[version].query();
    let mut s = Settings { include: NO_SET, exclude: NO_SET, min: 0, max: MAX, plus: NONE, minus: NONE };
    for kind in 0..6 {
        if plan >> kind & 1 == 1 && (!open || any_bool(200 + 10 * base + kind as u32)) {
            q = setting(kind, base, choice, q, &mut s, texts);
        }
    }
    (q, s)
}

/// One query after another: the second answer is that of its own settings, and so is the first
/// when it is asked again. a = version of the first | version of the second << 8, b = which
/// settings the first has (bit per kind), c = which the second has, d: bit 0: the first is asked
/// for the interval set, bit 1: the other categories, bit 2: any of the settings may be missing.
#[no_mangle]
pub extern "C" fn h_history(a: u64, b: u64, c: u64, d: u64) {
    let (v, w) = ((a & 255) as usize, (a >> 8 & 255) as usize);
    let choice = (d >> 1 & 1) as usize;
    let texts = [(0x2028, "\u{2028}".to_string()), (0x2009, "\u{2009}".to_string())];
    let (first, s) = some_query(v, 0, choice, b, d >> 2 & 1 == 1, &texts);
    let all = outcomes(v, choice);
    if d & 1 == 1 {
        let _ = first.interval_set();
    } else {
        agrees(&all, &first, &s);
    }
    let (second, t) = some_query(w, 1, choice, c, d >> 2 & 1 == 1, &texts);
    let others = outcomes(w, choice);
    agrees(&others, &second, &t);
    agrees(&all, &first, &s);
}

/// A query whose settings come from symbolic choices: equal values are made of distinct
/// objects. `order` 1: the last setting first, and each made twice.
fn chosen<'a>(version: usize, base: u32, choice: usize, plan: u64, order: u64, texts: &'a [String; 3]) -> (IntervalQuery<'a>, Settings) {
    const CHARS: [u32; 3] = [NONE, 0x2028, 0x2009];
    let mut q = VERSIONS[version].query();
    let mut s = Settings { include: NO_SET, exclude: NO_SET, min: 0, max: MAX, plus: NONE, minus: NONE };
    for n in 0..6u32 {
        let kind = if order == 1 { 5 - n } else { n };
        if plan >> kind & 1 == 0 {
            continue;
        }
        match kind {
            0 => {
                let k = pick(base, 4) as usize;
                s.include = if k == 3 { NO_SET } else { included(choice)[k] };
                if order == 1 {
                    q = q.include_categories(set_of(1));
                }
                q = if k == 3 { q.include_categories(None) } else { q.include_categories(set_of(s.include)) };
            }
            1 => {
                let k = pick(base + 1, 4) as usize;
                s.exclude = if k == 3 { NO_SET } else { excluded(choice)[k] };
                if order == 1 {
                    q = q.exclude_categories(set_of(ALL));
                }
                q = if k == 3 { q.exclude_categories(None) } else { q.exclude_categories(set_of(s.exclude)) };
            }
            2 => {
                s.min = any_u32(base + 2);
                if order == 1 {
                    q = q.min_codepoint(77);
                }
                q = q.min_codepoint(s.min);
            }
            3 => {
                s.max = any_u32(base + 3);
                assume(s.max >= 256);
                if order == 1 {
                    q = q.max_codepoint(0);
                }
                q = q.max_codepoint(s.max);
            }
            4 => {
                let k = pick(base + 4, 3) as usize;
                s.plus = CHARS[k];
                if order == 1 {
                    q = q.include_characters("?");
                }
                q = q.include_characters(&texts[k]);
            }
            _ => {
                let k = pick(base + 5, 3) as usize;
                s.minus = CHARS[k];
                if order == 1 {
                    q = q.exclude_characters("?");
                }
                q = q.exclude_characters(&texts[k]);
            }
        }
    }
    (q, s)
}

/// Queries that compare equal give the same answer, and those made with the same last values
/// compare equal. a = version of the first | of the second << 8, b = settings of the first,
/// c = of the second, d: bit 0: the other categories, bit 1: the second in another order.
#[no_mangle]
pub extern "C" fn h_equal(a: u64, b: u64, c: u64, d: u64) {
    let (v, w) = ((a & 255) as usize, (a >> 8 & 255) as usize);
    let choice = (d & 1) as usize;
    let texts = [String::new(), "\u{2028}".to_string(), "\u{2009}".to_string()];
    let others = [String::new(), "\u{2028}".to_string(), "\u{2009}".to_string()];
    let (q, s) = chosen(v, 10, choice, b, 0, &texts);
    let (p, t) = chosen(w, 20, choice, c, d >> 1 & 1, &others);
    let equal = q == p;
    check!(equal == (p == q));
    check!(equal != (q != p));
    let copy = q.clone();
    check!((copy == q) & (q == copy));
    check!((copy == p) == equal);
    let alike = (v == w) & (s.include == t.include) & (s.exclude == t.exclude) & (s.min == t.min) & (s.max == t.max) & (s.plus == t.plus) & (s.minus == t.minus);
    if b == c {
        check!(!alike | equal);
    }
    note(3, u64::from(equal));
    if equal {
        reach(3);
        agrees(&outcomes(v, choice), &p, &s);
        check!(q.intervals() == p.intervals());
    } else {
        reach(4);
    }
}

/// Errors are equal exactly when they are the same kind and carry the same bounds.
#[no_mangle]
pub extern "C" fn h_equal_errors(a: u64, _b: u64, _c: u64, _d: u64) {
    let bounds = [any_u32(1), any_u32(2), any_u32(3), any_u32(4)];
    let q = VERSIONS[a as usize].query().min_codepoint(bounds[0]).max_codepoint(bounds[1]);
    let p = unicode_intervals::query().min_codepoint(bounds[2]).max_codepoint(bounds[3]);
    if let (Err(x), Err(y)) = (q.include_categories(set_of(0)).intervals(), p.include_categories(set_of(0)).intervals()) {
        let equal = x == y;
        check!(equal == (y == x));
        check!(equal != (x != y));
        check!((x == x) & (y == y));
        let alike = (bounds[0] == bounds[2]) & (bounds[1] == bounds[3]);
        check!(equal == alike);
        if equal {
            reach(1);
        } else {
            reach(2);
        }
        note(1, u64::from(equal));
        let other = Error::InvalidVersion("".into());
        check!((x != other) & (other != y));
    }
}

/// Queries with any characters that compare equal give the same answer. a, b = layouts of the
/// two strings, c = range of the characters, lo | hi << 32, d: 0 included, 1 excluded, 2: the
/// first included, the second excluded, 3: the first as well, the second none.
#[no_mangle]
pub extern "C" fn h_equal_texts(a: u64, b: u64, c: u64, d: u64) {
    let (lo, hi) = (c as u32, (c >> 32) as u32);
    let mut made: [Vec<u8>; 2] = [Vec::with_capacity(32), Vec::with_capacity(32)];
    for (k, layout) in [a, b].into_iter().enumerate() {
        for n in 0..8u32 {
            let class = layout >> (4 * n) & 15;
            if class != 0 {
                push_utf8(&mut made[k], any_char(10 * (k as u32 + 1) + n, class, lo, hi), class);
            }
        }
    }
    let (s, t) = (text(&made[0]), text(&made[1]));
    let none = || unicode_intervals::query().include_categories(set_of(0));
    let all = || unicode_intervals::query().max_codepoint(MAX);
    let (q, p) = match d {
        0 => (none().include_characters(s), none().include_characters(t)),
        1 => (all().exclude_characters(s), all().exclude_characters(t)),
        2 => (all().include_characters(s), all().exclude_characters(t)),
        _ => (none().include_characters(s), none()),
    };
    let equal = q == p;
    check!(equal == (p == q));
    check!(equal != (q != p));
    check!((q == q) & (p == p));
    note(1, u64::from(equal));
    if equal {
        reach(1);
        check!(q.intervals() == p.intervals());
    } else {
        reach(2);
        check!(d > 1 || made[0] != made[1]);
    }
}
