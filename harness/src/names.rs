//! Names: parsing, printing, expansion, order.
use crate::spec::*;
use crate::sym::*;
use core::str::FromStr;
use unicode_intervals::{as_general_categories, Error, UnicodeCategory, UnicodeVersion};

pub const VERSION_NAMES: [&str; 11] = [
    "9.0.0", "10.0.0", "11.0.0", "12.0.0", "12.1.0", "13.0.0", "14.0.0", "15.0.0", "15.1.0", "16.0.0", "17.0.0",
];

/// A symbolic string: one character per four bits of the layout (its encoded length,
/// first character in the lowest bits), with ids from `id` on.
pub fn any_text(id: u32, layout: u64) -> Vec<u8> {
    let mut s = Vec::with_capacity(64);
    let mut k = 0;
    if layout >> 56 == 0xff {
        // So many ASCII characters.
        for k in 0..layout as u32 & 63 {
            let c = any_char(id + k, 1, 0, MAX);
            push_utf8(&mut s, c, 1);
        }
        return s;
    }
    while layout >> (4 * k) & 15 != 0 {
        let class = layout >> (4 * k) & 15;
        let c = any_char(id + k, class, 0, MAX);
        push_utf8(&mut s, c, class);
        k += 1;
    }
    s
}

/// The same bytes? Branch-free, for a literal.
#[inline(never)]
pub fn is(s: &[u8], name: &str) -> bool {
    let n = name.as_bytes();
    if s.len() != n.len() {
        return false;
    }
    let mut d = 0;
    for i in 0..n.len() {
        d |= s[i] ^ n[i];
    }
    d == 0
}

/// Does the message have the text in it? Branch-free.
#[inline(never)]
pub fn quotes(message: &str, s: &[u8]) -> bool {
    let m = message.as_bytes();
    let mut found = s.is_empty();
    for i in 0..(m.len() + 1).saturating_sub(s.len()) {
        let mut d = 0;
        for k in 0..s.len() {
            d |= m[i + k] ^ s[k];
        }
        found |= d == 0;
    }
    found
}

/// a = layout. Any string against the category parser.
#[no_mangle]
pub extern "C" fn h_category(a: u64, _b: u64, _c: u64, _d: u64) {
    let s = any_text(1, a);
    match UnicodeCategory::from_str(text(&s)) {
        Ok(c) => {
            reach(1);
            let k = concretize(c as u64) as usize;
            note(1, k as u64);
            // One of the names, and the one this category prints.
            let name = c.as_str();
            check!(is(&s, name));
            check!(k < 30 && c == CATS[k] && is(&s, NAMES[k]));
            check!(c.to_string() == name);
        }
        Err(e) => {
            reach(2);
            for name in NAMES {
                check!(!is(&s, name));
            }
            check!(quotes(&e.to_string(), &s));
            match e {
                Error::InvalidCategory(quote) => check!(quote.as_bytes() == &s[..]),
                _ => check!(false),
            }
        }
    }
}

/// a = layout. Any string against the version parser.
#[no_mangle]
pub extern "C" fn h_version(a: u64, _b: u64, _c: u64, _d: u64) {
    let s = any_text(1, a);
    match UnicodeVersion::from_str(text(&s)) {
        Ok(v) => {
            reach(1);
            note(1, v as u64);
            check!(is(&s, v.as_str()));
            check!(v.to_string() == v.as_str());
            let mut hits = 0;
            for (k, name) in VERSION_NAMES.iter().enumerate() {
                if is(&s, name) {
                    hits += 1;
                    check!(v == VERSIONS[k]);
                }
            }
            check!(hits == 1);
        }
        Err(e) => {
            reach(2);
            for name in VERSION_NAMES {
                check!(!is(&s, name));
            }
            check!(quotes(&e.to_string(), &s));
            match e {
                Error::InvalidVersion(quote) => check!(quote.as_bytes() == &s[..]),
                _ => check!(false),
            }
        }
    }
}

/// Every value prints the name that parses back to it; the list of versions.
#[no_mangle]
pub extern "C" fn h_round_trip(_a: u64, _b: u64, _c: u64, _d: u64) {
    let k = pick(1, 30) as usize;
    let c = CATS[k];
    reach(1);
    check!(c.as_str() == NAMES[k]);
    check!(c.to_string() == NAMES[k]);
    check!(NAMES[k].parse::<UnicodeCategory>().is_ok_and(|d| d == c));
    let j = pick(2, 11) as usize;
    let v = VERSIONS[j];
    reach(2);
    note(1, j as u64);
    check!(v.as_str() == VERSION_NAMES[j]);
    check!(v.to_string() == VERSION_NAMES[j]);
    check!(VERSION_NAMES[j].parse::<UnicodeVersion>().is_ok_and(|w| w == v));
    check!(UnicodeVersion::ALL.len() == 11);
    check!(UnicodeVersion::ALL[j] == v);
    check!(UnicodeVersion::latest() == UnicodeVersion::ALL[10]);
    // Distinct values stay distinct.
    let i = pick(3, 30) as usize;
    check!((CATS[i].as_str() == c.as_str()) == (i == k));
    check!((CATS[i] == c) == (i == k));
}

/// Numbers of interval-table entries and abbreviations decide the order.
fn sorted_before(version: UnicodeVersion, a: UnicodeCategory, b: UnicodeCategory) -> bool {
    let (na, nb) = (version.intervals_for(a).len(), version.intervals_for(b).len());
    let (x, y) = (NAMES[a as usize].as_bytes(), NAMES[b as usize].as_bytes());
    na < nb || na == nb && (x[0] < y[0] || x[0] == y[0] && x[1] < y[1])
}

/// a = version. Any two positions of the normalized order.
#[no_mangle]
pub extern "C" fn h_order(a: u64, _b: u64, _c: u64, _d: u64) {
    let version = VERSIONS[a as usize];
    for other in VERSIONS {
        check!(other.normalized_categories().len() == 30);
    }
    let order = version.normalized_categories();
    check!(order.len() == 30);
    let i = pick(1, 30) as usize;
    let j = pick(2, 30) as usize;
    let (x, y) = (order[i], order[j]);
    note(1, x as u64);
    reach(1);
    check!((x == y) == (i == j));
    check!((i == 28) == (x == UnicodeCategory::Cc));
    check!((i == 29) == (x == UnicodeCategory::Cs));
    if i < j && j < 28 {
        reach(2);
        check!(sorted_before(version, x, y));
    }
    check!(version.normalized_categories() == order);
}

const CLASSES: [u8; 7] = *b"LMNPSZC";

/// The members of a name: nothing for an unknown one. Branch-free in the bytes.
pub fn expansion(s: &[u8]) -> u64 {
    let mut m = 0;
    if s.len() == 1 {
        for letter in CLASSES {
            let mut all = 0;
            for k in 0..30 {
                if NAMES[k].as_bytes()[0] == letter {
                    all |= 1 << k;
                }
            }
            m |= ite(s[0] == letter, all, 0);
        }
    } else if s.len() == 2 {
        for k in 0..30 {
            m |= ite(is(s, NAMES[k]), 1 << k, 0);
        }
    }
    m
}

/// a = version, b, c, d = layouts of the names (0xf: an empty name, 0: no further name).
/// Bits 8-14 of a: major classes that come before them, bit 15: behind them instead, bit 16:
/// all thirty categories likewise. Bits 20-23: 1 + version of an expansion of all categories
/// before this one; bits 32-39, 40-47: layouts of the names it is of instead of all categories.
/// Bits 17-19: how many times the list is doubled. Bits 48-55: so many times the first category
/// with the given ones.
#[no_mangle]
pub extern "C" fn h_general(a: u64, b: u64, c: u64, d: u64) {
    let version = VERSIONS[(a & 255) as usize];
    if a >> 20 & 15 != 0 {
        let v = VERSIONS[(a >> 20 & 15) as usize - 1];
        if a >> 32 & 0xffff == 0 {
            let earlier = as_general_categories(NAMES, v);
            check!(earlier.is_ok_and(|v| v.len() == 30));
        } else {
            let mut names: Vec<Vec<u8>> = Vec::with_capacity(2);
            for k in 0..2 {
                let layout = a >> (32 + 8 * k) & 255;
                if layout != 0 {
                    names.push(any_text(60 + 10 * k, layout));
                }
            }
            let _ = as_general_categories(names.iter().map(|s| text(s)), v).is_ok();
        }
    }
    let mut names: Vec<Vec<u8>> = Vec::with_capacity(64);
    let mut given: Vec<Vec<u8>> = Vec::with_capacity(64);
    for (k, class) in b"LMNPSZC".iter().enumerate() {
        if a >> (8 + k) & 1 == 1 {
            given.push(vec![*class]);
        }
    }
    if a >> 16 & 1 == 1 {
        given.extend(NAMES.iter().map(|s| s.as_bytes().to_vec()));
    }
    for _ in 0..a >> 48 & 255 {
        given.push(NAMES[0].as_bytes().to_vec());
    }
    if a >> 15 & 1 == 0 {
        names.append(&mut given);
    }
    for (k, layout) in [b, c, d].into_iter().enumerate() {
        if layout == 0 {
            break;
        }
        names.push(if layout == 15 { Vec::new() } else { any_text(10 * k as u32, layout) });
    }
    names.append(&mut given);
    for _ in 0..a >> 17 & 7 {
        let copy = names.clone();
        names.extend(copy);
    }
    let list: Vec<&str> = names.iter().map(|s| text(s)).collect();
    match as_general_categories(list, version) {
        Ok(got) => {
            reach(1);
            note(1, got.len() as u64);
            let mut want = 0;
            for s in &names {
                let m = expansion(s);
                check!(m != 0);
                want |= m;
            }
            let mut at = 0;
            for x in version.normalized_categories() {
                if want >> (x as u64) & 1 == 1 {
                    check!(at < got.len() && got[at] == x);
                    at += 1;
                }
            }
            check!(at == got.len());
        }
        Err(Error::InvalidCategory(quote)) => {
            reach(2);
            let mut found = false;
            for s in &names {
                if expansion(s) == 0 {
                    found = true;
                    check!(quote.as_bytes() == &s[..]);
                    break;
                }
            }
            check!(found);
        }
        Err(_) => check!(false),
    }
}

/// Two texts no parser takes (layouts a and b): the errors are equal exactly when kind and text
/// are; c: bit 0, bit 1: the first, the second is a version's.
#[no_mangle]
pub extern "C" fn h_equal_names(a: u64, b: u64, c: u64, _d: u64) {
    let (s, t) = (any_text(1, a), any_text(40, b));
    let error = |s: &[u8], version: bool| {
        if version {
            UnicodeVersion::from_str(text(s)).err()
        } else {
            UnicodeCategory::from_str(text(s)).err()
        }
    };
    if let (Some(x), Some(y)) = (error(&s, c & 1 == 1), error(&t, c & 2 == 2)) {
        let equal = x == y;
        check!(equal == (y == x));
        check!(equal != (x != y));
        check!((x == x) & (y == y));
        check!(equal == ((c == 0 || c == 3) && is(&s, text(&t))));
        if equal {
            reach(1);
        } else {
            reach(2);
        }
        note(1, u64::from(equal));
    }
}
