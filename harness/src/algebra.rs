//! Category sets as mathematical sets.
use crate::spec::*;
use crate::sym::*;
use core::hash::{Hash, Hasher};
use unicode_intervals::{UnicodeCategory, UnicodeCategorySet};

/// The set with the members of a symbolic mask, built by adding them.
#[inline(never)]
pub fn symbolic_set(mask: u64) -> UnicodeCategorySet {
    let mut s = UnicodeCategorySet::new();
    for (i, c) in CATS.iter().enumerate() {
        let mut t = s;
        t.add(*c);
        select(&mut s, &t, mask >> i & 1 == 1);
    }
    s
}

/// Does the set have exactly the members of the mask?
#[inline(never)]
fn members(s: UnicodeCategorySet, mask: u64) -> bool {
    let mut ok = true;
    for (i, c) in CATS.iter().enumerate() {
        ok &= s.contains(*c) == (mask >> i & 1 == 1);
    }
    ok
}

/// Are they counted right?
#[inline(never)]
fn counted(s: UnicodeCategorySet, mask: u64) -> bool {
    let mut n: u64 = 0;
    for i in 0..30 {
        n = n.wrapping_add(mask >> i & 1);
    }
    s.len() as u64 == n
}

macro_rules! exactly {
    ($s:expr, $mask:expr) => {
        let (s, mask): (UnicodeCategorySet, u64) = ($s, $mask);
        check!(members(s, mask));
        check!(counted(s, mask));
        check!(s.is_empty() == (mask == 0));
        check!(s.into_value() as u64 <= ALL);
    };
}

struct Words(u64);
impl Hasher for Words {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 << 5 | self.0 >> 59) ^ *b as u64;
        }
    }
}

const ALL: u64 = (1 << 30) - 1;

/// One set, one category: a = category; b, c, d = first symbolic member, how many are, the
/// fixed ones.
#[no_mangle]
pub extern "C" fn h_one(a: u64, b: u64, c: u64, d: u64) {
    let window = ((1u64 << c) - 1) << b;
    let m = any_bits(1, 30) & window | d & !window;
    let k = a as usize;
    let c = CATS[k];
    let s = symbolic_set(m);
    reach(1);
    note(1, s.into_value() as u64);
    exactly!(s, m);
    check!(s.into_value() as u64 <= ALL);
    let mut t = s;
    t.add(c);
    exactly!(t, m | 1 << k);
    check!(t.contains(c));
    let once = t;
    t.add(c);
    check!(t == once);
    t.remove(c);
    exactly!(t, m & !(1 << k));
    let once = t;
    t.remove(c);
    check!(t == once);
    check!(t.into_value() as u64 <= ALL);
    exactly!(s | c, m | 1 << k);
    exactly!(c | s, m | 1 << k);
    let mut u = s;
    u |= c;
    exactly!(u, m | 1 << k);
    exactly!(s, m);
    // From a single category.
    let single: UnicodeCategorySet = c.into();
    exactly!(single, 1 << k);
    let option: Option<UnicodeCategorySet> = c.into();
    check!(option.is_some_and(|s| s == single));
    for (j, d) in CATS.iter().enumerate() {
        exactly!(c | *d, 1 << k | 1 << j);
        check!((c == *d) == (j == k));
    }
    exactly!(UnicodeCategorySet::new(), 0);
    exactly!(UnicodeCategorySet::default(), 0);
    exactly!(UnicodeCategorySet::all(), ALL);
}

/// Two sets.
#[no_mangle]
pub extern "C" fn h_two(_a: u64, _b: u64, _c: u64, _d: u64) {
    let (m, n) = (any_bits(1, 30), any_bits(2, 30));
    let (s, t) = (symbolic_set(m), symbolic_set(n));
    reach(1);
    let u = s | t;
    note(1, u.into_value() as u64);
    exactly!(u, m | n);
    check!(u.into_value() as u64 <= ALL);
    let mut v = s;
    v |= t;
    exactly!(v, m | n);
    check!(v == u);
    check!((s | s) == s);
    check!((t | s) == u);
    let equal = s == t;
    check!(equal == (m == n));
    check!((s != t) != equal);
    check!((s.into_value() == t.into_value()) == equal);
    let (mut g, mut h) = (Words(0), Words(0));
    s.hash(&mut g);
    t.hash(&mut h);
    check!(!equal | (g.finish() == h.finish()));
}

/// The documented classes and long names.
#[no_mangle]
pub extern "C" fn h_classes(_a: u64, _b: u64, _c: u64, _d: u64) {
    let k = pick(1, 30) as usize;
    reach(1);
    let name = NAMES[k].as_bytes();
    let classes = [
        (b'L', UnicodeCategory::L),
        (b'M', UnicodeCategory::M),
        (b'N', UnicodeCategory::N),
        (b'P', UnicodeCategory::P),
        (b'S', UnicodeCategory::S),
        (b'Z', UnicodeCategory::Z),
        (b'C', UnicodeCategory::C),
    ];
    let m = any_bits(2, 30);
    let s = symbolic_set(m);
    for (letter, class) in classes {
        check!(class.contains(CATS[k]) == (name[0] == letter));
        check!(class.into_value() as u64 <= ALL);
        // In a union with any set, a class adds its own members only.
        check!((s | class).contains(CATS[k]) == ((m >> k & 1 == 1) | (name[0] == letter)));
    }
    let long = [
        UnicodeCategory::CLOSE_PUNCTUATION,
        UnicodeCategory::CONNECTOR_PUNCTUATION,
        UnicodeCategory::CONTROL,
        UnicodeCategory::CURRENCY_SYMBOL,
        UnicodeCategory::DASH_PUNCTUATION,
        UnicodeCategory::DECIMAL_NUMBER,
        UnicodeCategory::ENCLOSING_MARK,
        UnicodeCategory::FINAL_PUNCTUATION,
        UnicodeCategory::FORMAT,
        UnicodeCategory::INITIAL_PUNCTUATION,
        UnicodeCategory::LETTER_NUMBER,
        UnicodeCategory::LINE_SEPARATOR,
        UnicodeCategory::LOWERCASE_LETTER,
        UnicodeCategory::MATH_SYMBOL,
        UnicodeCategory::MODIFIER_LETTER,
        UnicodeCategory::MODIFIER_SYMBOL,
        UnicodeCategory::NONSPACING_MARK,
        UnicodeCategory::OPEN_PUNCTUATION,
        UnicodeCategory::OTHER_LETTER,
        UnicodeCategory::OTHER_NUMBER,
        UnicodeCategory::OTHER_PUNCTUATION,
        UnicodeCategory::OTHER_SYMBOL,
        UnicodeCategory::PARAGRAPH_SEPARATOR,
        UnicodeCategory::PRIVATE_USE,
        UnicodeCategory::SPACE_SEPARATOR,
        UnicodeCategory::SPACING_MARK,
        UnicodeCategory::SURROGATE,
        UnicodeCategory::TITLECASE_LETTER,
        UnicodeCategory::UNASSIGNED,
        UnicodeCategory::UPPERCASE_LETTER,
    ];
    check!(long[k] == CATS[k]);
}

/// a = first symbolic member, b = how many are symbolic, c = the fixed members:
/// iteration from start to end.
#[no_mangle]
pub extern "C" fn h_iterate(a: u64, b: u64, c: u64, _d: u64) {
    let window = ((1u64 << b) - 1) << a;
    let m = any_bits(1, 30) & window | c & !window;
    let s = symbolic_set(m);
    let mut iter = s.iter();
    let mut left = s.len();
    let mut listed: Vec<UnicodeCategory> = Vec::with_capacity(30);
    loop {
        check!(iter.len() == left);
        check!(iter.size_hint() == (left, Some(left)));
        match iter.next() {
            Some(x) => {
                check!(left > 0);
                left -= 1;
                listed.push(x);
            }
            None => break,
        }
    }
    check!(left == 0);
    check!(iter.next().is_none());
    check!(iter.len() == 0);
    check!(iter.size_hint() == (0, Some(0)));
    reach(1);
    note(1, listed.len() as u64);
    // Members in order, each once.
    let mut at = 0;
    for (i, x) in CATS.iter().enumerate() {
        if m >> i & 1 == 1 {
            check!(at < listed.len() && listed[at] == *x);
            at += 1;
        }
    }
    check!(at == listed.len());
    let mut all: Vec<UnicodeCategory> = s.iter().collect();
    check!(all == listed);
    all.clear();
    for x in s.iter() {
        all.push(x);
    }
    check!(all == listed);
    check!(s.iter().count() == listed.len());
    check!(s.iter().last() == listed.last().copied());
    // What is left after some steps, consumed in other ways.
    for k in [1, 2, 5] {
        let rest = &listed[listed.len().min(k)..];
        let after = || {
            let mut it = s.iter();
            for _ in 0..k {
                it.next();
            }
            it
        };
        check!(after().count() == rest.len());
        check!(after().last() == rest.last().copied());
        check!(after().collect::<Vec<_>>() == rest);
        let mut folded = Vec::with_capacity(32);
        after().for_each(|x| folded.push(x));
        check!(folded == rest);
        let mut it = after();
        check!(it.nth(k) == rest.get(k).copied());
        check!(it.len() == rest.len().saturating_sub(k + 1));
        check!(it.next() == rest.get(k + 1).copied());
        if let Some(x) = rest.first() {
            check!(after().position(|y| y == *x) == Some(0));
            let mut it = after();
            check!(it.find(|y| y == x) == Some(*x));
            check!(it.len() == rest.len() - 1);
            check!(after().any(|y| y == *x));
        }
        check!(after().all(|y| rest.contains(&y)));
    }
}

/// a = number of steps: the first steps on any of the 2^30 sets.
#[no_mangle]
pub extern "C" fn h_steps(a: u64, _b: u64, _c: u64, _d: u64) {
    let m = any_bits(1, 30);
    let s = symbolic_set(m);
    let mut iter = s.iter();
    // What is still to come.
    let mut rest = m;
    for _ in 0..a {
        let n = rest.count_ones() as usize;
        check!(iter.len() == n);
        check!(iter.size_hint() == (n, Some(n)));
        match iter.next() {
            None => {
                reach(2);
                check!(rest == 0);
                return;
            }
            Some(x) => {
                reach(1);
                let k = concretize(x as u64);
                note(1, k);
                // The lowest member.
                check!(k < 30 && CATS[k as usize] == x);
                check!(rest >> k & 1 == 1);
                check!(rest & ((1 << k) - 1) == 0);
                rest &= !(1 << k);
            }
        }
    }
    let n = rest.count_ones() as usize;
    check!(iter.len() == n);
    check!(iter.size_hint() == (n, Some(n)));
}

/// a = first symbolic member, b = how many are symbolic, c = the fixed members: text form.
#[no_mangle]
pub extern "C" fn h_display(a: u64, b: u64, c: u64, _d: u64) {
    let window = ((1u64 << b) - 1) << a;
    let m = any_bits(1, 30) & window | c & !window;
    let s = symbolic_set(m);
    let got = s.to_string();
    reach(1);
    note(1, got.len() as u64);
    let mut want = String::new();
    for i in 0..30 {
        if m >> i & 1 == 1 {
            if !want.is_empty() {
                want.push_str(", ");
            }
            want.push_str(NAMES[i]);
        }
    }
    check!(got == want);
}

fn hash(x: &impl Hash) -> u64 {
    let mut h = Words(0);
    x.hash(&mut h);
    h.finish()
}

/// Two of the versions and two of the categories: equal exactly when they are the same, and then
/// they hash alike; copies are equal.
#[no_mangle]
pub extern "C" fn h_equal_values(_a: u64, _b: u64, _c: u64, _d: u64) {
    let (i, j) = (pick(1, 11) as usize, pick(2, 11) as usize);
    let (v, w) = (VERSIONS[i], VERSIONS[j]);
    check!((v == w) == (i == j));
    check!((v != w) == (i != j));
    check!(i != j || hash(&v) == hash(&w));
    #[allow(clippy::clone_on_copy)]
    let copy = v.clone();
    check!(copy == v && hash(&copy) == hash(&v));
    let (k, l) = (pick(3, 30) as usize, pick(4, 30) as usize);
    let (c, d) = (CATS[k], CATS[l]);
    check!((c == d) == (k == l));
    check!((c != d) == (k != l));
    check!(k != l || hash(&c) == hash(&d));
    #[allow(clippy::clone_on_copy)]
    let copy = c.clone();
    check!(copy == c && hash(&copy) == hash(&c));
    reach(1);
    note(1, u64::from(v == w) + 2 * u64::from(c == d));
}
