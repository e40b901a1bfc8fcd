#!/usr/bin/env python3
"""Behaviour-preserving rewrites of /repo, used to confirm that the checks stay quiet on code in
which the properties hold but which is written differently.

    refactors.py --list
    refactors.py NAME REPO      apply one rewrite to the checkout REPO

Not read by any check.
"""
import re, sys, os

CORE = "crates/unicode-intervals/src/"
PY = "crates/unicode-intervals-py/src/lib.rs"
ALL = {}


def refactor(f):
    ALL[f.__name__] = f
    return f


class Repo:
    def __init__(self, root):
        self.root = root

    def read(self, p):
        return open(os.path.join(self.root, p)).read()

    def write(self, p, s):
        open(os.path.join(self.root, p), "w").write(s)

    def sub(self, p, old, new, count=1):
        s = self.read(p)
        assert old in s, (p, old)
        self.write(p, s.replace(old, new, count))

    def body(self, p, head, new, after=None):
        """Replace the braced body that follows the text `head` (first found after `after`)."""
        s = self.read(p)
        base = s.index(after) if after else 0
        i = s.index(head, base)
        j = s.index("{", i + len(head) - (1 if head.endswith("{") else 0))
        depth, k = 0, j
        while True:
            c = s[k]
            if c == "'" and k + 2 < len(s) and s[k + 2] == "'":
                k += 3
                continue
            if c == "{":
                depth += 1
            elif c == "}":
                depth -= 1
                if depth == 0:
                    break
            k += 1
        self.write(p, s[:j] + "{" + new + "}" + s[k + 1:])


# ---------------------------------------------------------------- query.rs

@refactor
def extend_iter(r):
    "extend_clamped as an iterator chain without binary search or early stop"
    r.body(CORE + "query.rs", "fn extend_clamped(\n    out: &mut Vec<Interval>,\n    table: &[Interval],\n    min_codepoint: u32,\n    max_codepoint: u32,\n)", """
    out.extend(table.iter().filter_map(|&(left, right)| {
        let (lo, hi) = (left.max(min_codepoint), right.min(max_codepoint));
        (lo <= hi).then_some((lo, hi))
    }));
""")
    r.sub(CORE + "query.rs", "const BINARY_SEARCH_THRESHOLD: usize = 32;", "")


@refactor
def extend_two_searches(r):
    "extend_clamped by two binary searches and an in-place clamp of the ends"
    r.body(CORE + "query.rs", "fn extend_clamped(\n    out: &mut Vec<Interval>,\n    table: &[Interval],\n    min_codepoint: u32,\n    max_codepoint: u32,\n)", """
    let start = table.partition_point(|&(_, right)| right < min_codepoint);
    let end = table.partition_point(|&(left, _)| left <= max_codepoint);
    if start >= end {
        return;
    }
    let first = out.len();
    out.extend_from_slice(&table[start..end]);
    if let Some(interval) = out.get_mut(first) {
        interval.0 = interval.0.max(min_codepoint);
    }
    if let Some(interval) = out.last_mut() {
        interval.1 = interval.1.min(max_codepoint);
    }
""")
    r.sub(CORE + "query.rs", "const BINARY_SEARCH_THRESHOLD: usize = 32;", "")


@refactor
def collect_flat(r):
    "collect_in_range over one iterator of categories, one path for one or many"
    r.body(CORE + "query.rs", "fn collect_in_range(\n    version: UnicodeVersion,\n    categories: UnicodeCategorySet,\n    min_codepoint: u32,\n    max_codepoint: u32,\n) -> Vec<Interval>", """
    if categories == UnicodeCategorySet::all() {
        return vec![(min_codepoint, max_codepoint)];
    }
    categories.iter().fold(Vec::new(), |mut acc, category| {
        extend_clamped(&mut acc, version.intervals_for(category), min_codepoint, max_codepoint);
        acc
    })
""")


@refactor
def query_no_fast_full(r):
    "query without the special case for the whole range, merging always"
    s = r.read(CORE + "query.rs")
    i = s.index("    let mut intervals = if min_codepoint == 0 && max_codepoint == MAX_CODEPOINT {")
    j = s.index("    // Exclude intervals\n    intervals::subtract")
    s = s[:i] + """    let mut intervals = collect_in_range(version, categories, min_codepoint, max_codepoint);
    intervals.extend(include_intervals);
    intervals::merge(&mut intervals);
""" + s[j:]
    i = s.index("    // Concatenated category slices need")
    j = s.index("    // Collect category intervals already clamped")
    s = s[:i] + s[j:]
    r.write(CORE + "query.rs", s)


@refactor
def query_split(r):
    "query split into a dispatcher and a general path, byte tests for the narrow case"
    s = r.read(CORE + "query.rs")
    s = s.replace("""    let categories = categories::merge(include_categories, exclude_categories);

    let include_intervals""", """    let categories = categories::merge(include_categories, exclude_categories);
    general_query(
        version,
        categories,
        (include_characters, exclude_characters),
        min_codepoint..=max_codepoint,
    )
}

fn general_query(
    version: UnicodeVersion,
    categories: UnicodeCategorySet,
    (include_characters, exclude_characters): (&str, &str),
    range: core::ops::RangeInclusive<u32>,
) -> Vec<Interval> {
    let (min_codepoint, max_codepoint) = range.into_inner();
    let include_intervals""", 1)
    s = s.replace("s.chars().all(|c| (c as u32) < ASCII_BOUND)",
                  "s.bytes().all(|b| b <= 0xc3)")
    r.write(CORE + "query.rs", s)


@refactor
def is_ascii_loop(r):
    "the narrow case decided by a loop with early return and u8::try_from"
    r.body(CORE + "query.rs", "fn is_ascii_range(s: &str) -> bool", """
    for c in s.chars() {
        if u8::try_from(c).is_err() {
            return false;
        }
    }
    true
""")


@refactor
def extract_bits(r):
    "extract_intervals bit by bit"
    r.body(CORE + "query.rs", "fn extract_intervals(bits: &AsciiMask) -> Vec<Interval>", """
    let mut result: Vec<Interval> = Vec::new();
    let mut start: Option<u32> = None;
    for cp in 0..ASCII_BOUND {
        let set = bits[(cp >> 6) as usize] >> (cp & 63) & 1 == 1;
        match (set, start) {
            (true, None) => start = Some(cp),
            (false, Some(left)) => {
                result.push((left, cp - 1));
                start = None;
            }
            _ => {}
        }
    }
    if let Some(left) = start {
        result.push((left, ASCII_BOUND - 1));
    }
    result
""")


@refactor
def extract_last(r):
    "extract_intervals pushing runs and extending the last one"
    r.body(CORE + "query.rs", "fn extract_intervals(bits: &AsciiMask) -> Vec<Interval>", """
    let mut result: Vec<Interval> = Vec::with_capacity(8);
    for (base, &word) in (0u32..).step_by(64).zip(bits.iter()) {
        let mut remaining = word;
        let mut offset = base;
        while remaining != 0 {
            let skip = remaining.trailing_zeros();
            remaining >>= skip;
            offset += skip;
            let run = remaining.trailing_ones();
            remaining = remaining.checked_shr(run).unwrap_or(0);
            let (lo, hi) = (offset, offset + run - 1);
            offset += run;
            match result.last_mut() {
                Some(last) if last.1 + 1 == lo => last.1 = hi,
                _ => result.push((lo, hi)),
            }
        }
    }
    result
""")


@refactor
def range_mask_u128(r):
    "range_mask through a pair of u128"
    r.body(CORE + "query.rs", "fn range_mask(min_codepoint: u32, max_codepoint: u32) -> AsciiMask", """
    fn below(n: u32) -> [u128; 2] {
        let low = if n >= 128 { u128::MAX } else { (1u128 << n) - 1 };
        let high = if n >= 256 {
            u128::MAX
        } else if n > 128 {
            (1u128 << (n - 128)) - 1
        } else {
            0
        };
        [low, high]
    }
    let upto = below(max_codepoint + 1);
    let before = below(min_codepoint);
    let low = upto[0] & !before[0];
    let high = upto[1] & !before[1];
    [low as u64, (low >> 64) as u64, high as u64, (high >> 64) as u64]
""")


@refactor
def range_mask_loop(r):
    "range_mask setting one bit at a time"
    r.body(CORE + "query.rs", "fn range_mask(min_codepoint: u32, max_codepoint: u32) -> AsciiMask", """
    let mut mask = [0u64; 4];
    for cp in min_codepoint..=max_codepoint {
        mask[(cp / 64) as usize] |= 1 << (cp % 64);
    }
    mask
""")


@refactor
def ascii_struct(r):
    "ascii_query over a small bit set type with iterators"
    s = r.read(CORE + "query.rs")
    i = s.index("    // Clamp category membership to the range; custom")
    j = s.index("    extract_intervals(&bits)\n}")
    s = s[:i] + """    for (word, range) in bits.iter_mut().zip(range_mask(min_codepoint, max_codepoint)) {
        *word &= range;
    }
    let (mut added, mut dropped) = (Bits::default(), Bits::default());
    include_characters.chars().for_each(|c| added.insert(c));
    exclude_characters.chars().for_each(|c| dropped.insert(c));
    for i in 0..bits.len() {
        bits[i] = (bits[i] | added.0[i]) & !dropped.0[i];
    }
""" + s[j:]
    s = s.replace("/// 256-bit mask with bits", """#[derive(Default)]
struct Bits(AsciiMask);

impl Bits {
    fn insert(&mut self, character: char) {
        let cp = character as usize;
        self.0[cp >> 6] |= 1u64 << (cp & 63);
    }
}

/// 256-bit mask with bits""", 1)
    s = s.replace("""            for category in categories.iter() {
                let mask = masks[category as usize];
                bits[0] |= mask[0];
                bits[1] |= mask[1];
                bits[2] |= mask[2];
                bits[3] |= mask[3];
            }
            bits""", """            categories
                .iter()
                .map(|category| masks[category as usize])
                .for_each(|mask| bits.iter_mut().zip(mask).for_each(|(b, m)| *b |= m));
            bits""", 1)
    r.write(CORE + "query.rs", s)


@refactor
def masks_static(r):
    "masks in a static, built by another loop"
    s = r.read(CORE + "query.rs")
    s = s.replace("const ASCII_MASKS: [[AsciiMask; 30]; 11]", "static ASCII_MASKS: [[AsciiMask; 30]; 11]")
    i = s.index("        let slice = table[category];\n        let mut i = 0;")
    j = s.index("        category += 1;\n    }\n    masks")
    s = s[:i] + """        let slice = table[category];
        let mut i = 0;
        let mut cp = 0;
        while cp < ASCII_BOUND && i < slice.len() {
            if cp > slice[i].1 {
                i += 1;
                continue;
            }
            if cp >= slice[i].0 {
                masks[category][(cp >> 6) as usize] |= 1u64 << (cp & 63);
            }
            cp += 1;
        }
""" + s[j:]
    r.write(CORE + "query.rs", s)


@refactor
def for_set_sorted(r):
    "intervals_for_set through flat_map and concat"
    r.body(CORE + "query.rs", "pub fn intervals_for_set(\n    version: UnicodeVersion,\n    categories: UnicodeCategorySet,\n) -> Cow<'static, [Interval]>", """
    if categories.is_empty() {
        return Cow::Owned(Vec::new());
    }
    if categories.into_value() == ALL_CATEGORIES {
        return Cow::Owned(vec![(0, MAX_CODEPOINT)]);
    }
    let mut slices = categories.iter().map(|c| version.intervals_for(c));
    match (slices.next(), categories.len()) {
        (Some(only), 1) => Cow::Borrowed(only),
        (first, _) => Cow::Owned(
            first
                .into_iter()
                .chain(slices)
                .flat_map(|s| s.iter().copied())
                .collect(),
        ),
    }
""")


# ---------------------------------------------------------------- intervals.rs

@refactor
def merge_new_vec(r):
    "merge into a second vector, sorting whole pairs without stability"
    r.body(CORE + "intervals.rs", "pub fn merge(intervals: &mut Vec<Interval>)", """
    intervals.sort_unstable();
    let mut merged: Vec<Interval> = Vec::with_capacity(intervals.len());
    for &(left, right) in intervals.iter() {
        match merged.last_mut() {
            Some(last) if left <= last.1 + 1 => last.1 = last.1.max(right),
            _ => merged.push((left, right)),
        }
    }
    *intervals = merged;
""")


@refactor
def merge_dedup(r):
    "merge with dedup_by"
    r.body(CORE + "intervals.rs", "pub fn merge(intervals: &mut Vec<Interval>)", """
    intervals.sort_by(|a, b| a.0.cmp(&b.0));
    intervals.dedup_by(|next, kept| {
        let touches = next.0 <= kept.1 + 1;
        if touches {
            kept.1 = kept.1.max(next.1);
        }
        touches
    });
""")


@refactor
def from_str_btree(r):
    "from_str sorting and removing duplicates before building the intervals"
    r.body(CORE + "intervals.rs", "pub fn from_str(string: &str) -> Vec<Interval>", """
    let mut points: Vec<u32> = string.chars().map(u32::from).collect();
    points.sort_unstable();
    points.dedup();
    let mut result: Vec<Interval> = Vec::new();
    for point in points {
        match result.last_mut() {
            Some(last) if last.1 + 1 == point => last.1 = point,
            _ => result.push((point, point)),
        }
    }
    result
""")


@refactor
def from_str_bset(r):
    "from_str through a BTreeSet"
    r.body(CORE + "intervals.rs", "pub fn from_str(string: &str) -> Vec<Interval>", """
    let points: std::collections::BTreeSet<char> = string.chars().collect();
    let mut result: Vec<Interval> = Vec::new();
    for point in points.into_iter().map(u32::from) {
        match result.last_mut() {
            Some(last) if last.1 + 1 == point => last.1 = point,
            _ => result.push((point, point)),
        }
    }
    result
""")


@refactor
def subtract_per_left(r):
    "subtract walking the right list once per left interval"
    r.body(CORE + "intervals.rs", "pub fn subtract(mut left: Vec<Interval>, right: &[Interval]) -> Vec<Interval>", """
    if left.is_empty() || right.is_empty() {
        return left;
    }
    let mut result = Vec::with_capacity(left.len() + right.len());
    let mut cuts = right.iter().copied().peekable();
    for (mut lo, hi) in left.drain(..) {
        let mut alive = true;
        while let Some(&(rl, rr)) = cuts.peek() {
            if rr < lo {
                cuts.next();
            } else if rl > hi {
                break;
            } else {
                if rl > lo {
                    result.push((lo, rl - 1));
                }
                if rr >= hi {
                    alive = false;
                    break;
                }
                lo = rr + 1;
                cuts.next();
            }
        }
        if alive {
            result.push((lo, hi));
        }
    }
    result
""")


@refactor
def subtract_recopy(r):
    "subtract cutting one right interval at a time out of the whole list"
    r.body(CORE + "intervals.rs", "pub fn subtract(mut left: Vec<Interval>, right: &[Interval]) -> Vec<Interval>", """
    for &(rl, rr) in right {
        let mut next = Vec::with_capacity(left.len() + 1);
        for &(ll, lr) in &left {
            if rr < ll || lr < rl {
                next.push((ll, lr));
                continue;
            }
            if ll < rl {
                next.push((ll, rl - 1));
            }
            if rr < lr {
                next.push((rr + 1, lr));
            }
        }
        left = next;
    }
    left
""")


# ---------------------------------------------------------------- intervalset.rs

@refactor
def set_helper(r):
    "IntervalSet lookups through one locate helper returning Result, binary_search_by"
    p = CORE + "intervalset.rs"
    r.body(p, "pub fn index_of(&self, codepoint: impl Into<u32>) -> Option<u32>",
           "\n        self.locate(codepoint.into()).ok()\n    ")
    r.body(p, "pub fn index_above(&self, codepoint: impl Into<u32>) -> u32", """
        match self.locate(codepoint.into()) {
            Ok(index) | Err(index) => index,
        }
    """)
    r.sub(p, "    /// Returns the index of a specific codepoint in the `IntervalSet`.\n    ///\n", """    fn locate(&self, codepoint: u32) -> Result<u32, u32> {
        use core::cmp::Ordering;
        let found = self.intervals.binary_search_by(|&(left, right)| {
            if right < codepoint {
                Ordering::Less
            } else if left > codepoint {
                Ordering::Greater
            } else {
                Ordering::Equal
            }
        });
        match found {
            Ok(idx) => Ok(self.offsets[idx] + (codepoint - self.intervals[idx].0)),
            Err(idx) => Err(self.offsets[idx]),
        }
    }

    /// Returns the index of a specific codepoint in the `IntervalSet`.
    ///
""")


@refactor
def set_linear(r):
    "IntervalSet lookups by linear scans"
    p = CORE + "intervalset.rs"
    r.body(p, "pub fn codepoint_at(&self, index: u32) -> Option<u32>", """
        let mut rest = index;
        for &(left, right) in &self.intervals {
            let length = right - left + 1;
            if rest < length {
                return Some(left + rest);
            }
            rest -= length;
        }
        None
    """)
    r.body(p, "pub fn index_of(&self, codepoint: impl Into<u32>) -> Option<u32>", """
        let codepoint = codepoint.into();
        self.intervals
            .iter()
            .zip(&self.offsets)
            .find(|(interval, _)| interval.0 <= codepoint && codepoint <= interval.1)
            .map(|(interval, offset)| offset + (codepoint - interval.0))
    """)


@refactor
def set_offsets(r):
    "IntervalSet::new with a scan, codepoint_at by binary_search"
    p = CORE + "intervalset.rs"
    r.body(p, "pub(crate) fn new(intervals: Vec<Interval>) -> IntervalSet", """
        let mut offsets = Vec::with_capacity(intervals.len() + 1);
        offsets.push(0);
        offsets.extend(intervals.iter().scan(0, |total, (left, right)| {
            *total += right - left + 1;
            Some(*total)
        }));
        let size = offsets.last().copied().unwrap_or_default();
        IntervalSet {
            intervals,
            offsets,
            size,
        }
    """)
    r.body(p, "pub fn codepoint_at(&self, index: u32) -> Option<u32>", """
        if index >= self.size {
            return None;
        }
        let at = match self.offsets.binary_search(&index) {
            Ok(at) => at,
            Err(at) => at - 1,
        };
        Some(self.intervals[at].0 + (index - self.offsets[at]))
    """)


@refactor
def iter_manual(r):
    "Codepoints as a hand written double-ended iterator"
    p = CORE + "intervalset.rs"
    s = r.read(p)
    i = s.index("    pub fn iter(&self) -> Codepoints<'_> {")
    j = s.index("impl<'a> IntoIterator for &'a IntervalSet {")
    s = s[:i] + """    pub fn iter(&self) -> Codepoints<'_> {
        Codepoints {
            rest: &self.intervals,
            front: None,
            back: None,
        }
    }
}

/// Iterator over the codepoints of an [`IntervalSet`].
#[derive(Debug, Clone)]
pub struct Codepoints<'a> {
    rest: &'a [Interval],
    front: Option<Interval>,
    back: Option<Interval>,
}

fn step_front(slot: &mut Option<Interval>) -> Option<u32> {
    let (left, right) = (*slot)?;
    *slot = if left < right { Some((left + 1, right)) } else { None };
    Some(left)
}

fn step_back(slot: &mut Option<Interval>) -> Option<u32> {
    let (left, right) = (*slot)?;
    *slot = if left < right { Some((left, right - 1)) } else { None };
    Some(right)
}

impl Iterator for Codepoints<'_> {
    type Item = u32;

    #[inline]
    fn next(&mut self) -> Option<u32> {
        loop {
            if let Some(value) = step_front(&mut self.front) {
                return Some(value);
            }
            match self.rest.split_first() {
                Some((first, rest)) => {
                    self.front = Some(*first);
                    self.rest = rest;
                }
                None => return step_front(&mut self.back),
            }
        }
    }
}

impl DoubleEndedIterator for Codepoints<'_> {
    #[inline]
    fn next_back(&mut self) -> Option<u32> {
        loop {
            if let Some(value) = step_back(&mut self.back) {
                return Some(value);
            }
            match self.rest.split_last() {
                Some((last, rest)) => {
                    self.back = Some(*last);
                    self.rest = rest;
                }
                None => return step_back(&mut self.front),
            }
        }
    }
}

""" + s[j:]
    r.write(p, s)


# ---------------------------------------------------------------- categories.rs

NAMES = "Pe Pc Cc Sc Pd Nd Me Pf Cf Pi Nl Zl Ll Sm Lm Sk Mn Ps Lo No Po So Zp Co Zs Mc Cs Lt Cn Lu".split()


@refactor
def cat_arrays(r):
    "category names and discriminants through constant arrays, parsing by search"
    p = CORE + "categories.rs"
    r.body(p, "    pub const fn as_str(self) -> &'static str", "\n        NAMES[self as usize]\n    ")
    r.body(p, "pub(crate) const fn from_index(index: u8) -> Option<UnicodeCategory>", """
        if (index as usize) < ORDER.len() {
            Some(ORDER[index as usize])
        } else {
            None
        }
    """)
    r.body(p, "    fn from_str(s: &str) -> Result<Self, Self::Err>", """
        ORDER
            .iter()
            .copied()
            .find(|c| c.as_str() == s)
            .ok_or_else(|| Self::Err::InvalidCategory(s.into()))
    """)
    r.sub(p, "impl FromStr for UnicodeCategory", "const ORDER: [UnicodeCategory; 30] = [\n    " + ", ".join(NAMES) + ",\n];\nconst NAMES: [&str; 30] = [" + ", ".join('"%s"' % n for n in NAMES) + "];\n\nimpl FromStr for UnicodeCategory")


@refactor
def cat_bytes(r):
    "category parsing on bytes with nested matches"
    p = CORE + "categories.rs"
    by = {}
    for n in NAMES:
        by.setdefault(n[0], []).append(n)
    arms = ""
    for a in sorted(by):
        arms += "                b'%s' => match second {\n" % a
        for n in by[a]:
            arms += "                    b'%s' => %s,\n" % (n[1], n)
        arms += "                    _ => return Err(invalid()),\n                },\n"
    r.body(p, "    fn from_str(s: &str) -> Result<Self, Self::Err>", """
        let invalid = || error::Error::InvalidCategory(Box::from(s));
        let &[first, second] = s.as_bytes() else {
            return Err(invalid());
        };
        Ok(match first {
""" + arms + """            _ => return Err(invalid()),
        })
    """)


@refactor
def cat_set(r):
    "UnicodeCategorySet operations written otherwise"
    p = CORE + "categories.rs"
    r.body(p, "const fn is_set(self, index: u8) -> bool", "\n        (self.0 >> index) & 1 == 1\n    ")
    r.body(p, "pub(crate) fn unset(&mut self, index: u8)", "\n        let bit = 1u32 << index;\n        if self.0 & bit == bit {\n            self.0 ^= bit;\n        }\n    ")
    r.body(p, "    pub const fn len(self) -> usize", """
        let (mut rest, mut count) = (self.0, 0);
        while rest != 0 {
            rest &= rest - 1;
            count += 1;
        }
        count
    """)
    r.body(p, "    fn next(&mut self) -> Option<Self::Item>", """
        let value = self.data.into_value();
        if value == 0 {
            return None;
        }
        let index = value.trailing_zeros();
        self.data = UnicodeCategorySet::from_value_unchecked(value & (value - 1));
        UnicodeCategory::from_index(u8::try_from(index).ok()?)
    """)
    r.body(p, "    fn bitor(self, rhs: Self) -> Self::Output", """
        let mut set = UnicodeCategorySet::new();
        set.add(self);
        set.add(rhs);
        set
    """, after="impl BitOr for UnicodeCategory ")
    r.body(p, "    fn bitor_assign(&mut self, rhs: UnicodeCategorySet)", "\n        *self = *self | rhs;\n    ")


@refactor
def cat_display(r):
    "Display of a category set by collecting and joining"
    p = CORE + "categories.rs"
    r.body(p, "    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result", """
        let names: Vec<&str> = self.iter().map(UnicodeCategory::as_str).collect();
        write!(f, "{}", names.join(", "))
    """, after="impl fmt::Display for UnicodeCategorySet")
    r.body(p, "    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result", """
        write!(f, "{}", self.as_str())
    """, after="impl fmt::Display for UnicodeCategory ")


@refactor
def cat_display_first(r):
    "Display of a category set with a first flag"
    p = CORE + "categories.rs"
    r.body(p, "    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result", """
        let mut categories = self.iter();
        if let Some(first) = categories.next() {
            write!(f, "{first}")?;
            for category in categories {
                write!(f, ", {category}")?;
            }
        }
        Ok(())
    """, after="impl fmt::Display for UnicodeCategorySet")


@refactor
def cat_merge(r):
    "merge by difference of sets"
    p = CORE + "categories.rs"
    r.body(p, "pub const fn merge(\n    include: Option<UnicodeCategorySet>,\n    exclude: UnicodeCategorySet,\n) -> UnicodeCategorySet", """
    let include = match include {
        Some(include) => include.into_value(),
        None => ALL_CATEGORIES,
    };
    UnicodeCategorySet::from_value_unchecked(include & !exclude.into_value())
""")


@refactor
def general(r):
    "as_general_categories through a helper and a loop over the order"
    p = CORE + "categories.rs"
    s = r.read(p)
    i = s.index("    let mut wanted = UnicodeCategorySet::new();\n    for category in categories {")
    j = s.index("#[cfg(test)]\nmod tests")
    s = s[:i] + """    let wanted = categories
        .into_iter()
        .try_fold(UnicodeCategorySet::new(), |acc, category| {
            designation(category.as_ref()).map(|set| acc | set)
        })?;
    let mut result = Vec::with_capacity(wanted.len());
    for category in version.normalized_categories() {
        if wanted.contains(category) {
            result.push(category);
        }
    }
    Ok(result)
}

fn designation(name: &str) -> Result<UnicodeCategorySet, error::Error> {
    const MAJOR: [(&str, UnicodeCategorySet); 7] = [
        ("C", UnicodeCategory::C),
        ("L", UnicodeCategory::L),
        ("M", UnicodeCategory::M),
        ("N", UnicodeCategory::N),
        ("P", UnicodeCategory::P),
        ("S", UnicodeCategory::S),
        ("Z", UnicodeCategory::Z),
    ];
    match MAJOR.iter().find(|(major, _)| *major == name) {
        Some((_, set)) => Ok(*set),
        None => name.parse::<UnicodeCategory>().map(UnicodeCategorySet::from),
    }
}

""" + s[j:]
    r.write(p, s)


@refactor
def general_prefix(r):
    "as_general_categories matching names by prefix of the category strings"
    p = CORE + "categories.rs"
    s = r.read(p)
    i = s.index("        let set = match category.as_ref() {")
    j = s.index("        wanted |= set;")
    s = s[:i] + """        let name = category.as_ref();
        let set = if name.len() == 1 {
            let mut matching = UnicodeCategorySet::new();
            for candidate in UnicodeCategorySet::all().iter() {
                if candidate.as_str().starts_with(name) {
                    matching.add(candidate);
                }
            }
            if matching.is_empty() {
                return Err(error::Error::InvalidCategory(name.into()));
            }
            matching
        } else {
            UnicodeCategory::from_str(name)?.into()
        };
""" + s[j:]
    r.write(p, s)


# ---------------------------------------------------------------- lib.rs

VERS = "9.0.0 10.0.0 11.0.0 12.0.0 12.1.0 13.0.0 14.0.0 15.0.0 15.1.0 16.0.0 17.0.0".split()


@refactor
def ver_arrays(r):
    "version names and tables through constant arrays, parsing by search"
    p = CORE + "lib.rs"
    r.body(p, "    fn from_str(s: &str) -> Result<Self, Self::Err>", """
        for version in UnicodeVersion::ALL {
            if version.as_str() == s {
                return Ok(version);
            }
        }
        Err(Error::InvalidVersion(s.to_owned().into()))
    """, after="impl FromStr for UnicodeVersion")
    r.body(p, "    pub const fn as_str(self) -> &'static str", "\n        const NAMES: [&str; 11] = [" + ", ".join('"%s"' % v for v in VERS) + "];\n        NAMES[self as usize]\n    ")
    r.body(p, "    pub const fn table(self) -> &'static [&'static [Interval]]", "\n        const TABLES: [&[&[Interval]]; 11] = [" + ", ".join("tables::v%s::BY_NAME" % v.replace(".", "_") for v in VERS) + "];\n        TABLES[self as usize]\n    ")
    r.body(p, "    pub const fn latest() -> UnicodeVersion", "\n        Self::ALL[Self::ALL.len() - 1]\n    ")


@refactor
def ver_split(r):
    "version parsing by splitting and parsing numbers, then comparing the canonical text"
    p = CORE + "lib.rs"
    r.body(p, "    fn from_str(s: &str) -> Result<Self, Self::Err>", """
        let found = match s.split_once('.') {
            Some(("9", "0.0")) => Some(UnicodeVersion::V9_0_0),
            Some(("10", "0.0")) => Some(UnicodeVersion::V10_0_0),
            Some(("11", "0.0")) => Some(UnicodeVersion::V11_0_0),
            Some(("12", "0.0")) => Some(UnicodeVersion::V12_0_0),
            Some(("12", "1.0")) => Some(UnicodeVersion::V12_1_0),
            Some(("13", "0.0")) => Some(UnicodeVersion::V13_0_0),
            Some(("14", "0.0")) => Some(UnicodeVersion::V14_0_0),
            Some(("15", "0.0")) => Some(UnicodeVersion::V15_0_0),
            Some(("15", "1.0")) => Some(UnicodeVersion::V15_1_0),
            Some(("16", "0.0")) => Some(UnicodeVersion::V16_0_0),
            Some(("17", "0.0")) => Some(UnicodeVersion::V17_0_0),
            _ => None,
        };
        found.ok_or_else(|| Error::InvalidVersion(Box::from(s)))
    """, after="impl FromStr for UnicodeVersion")


@refactor
def normalized_sort(r):
    "normalized_categories by a sort of keys at run time"
    p = CORE + "lib.rs"
    r.sub(p, "pub const fn normalized_categories", "pub fn normalized_categories")
    r.body(p, "pub fn normalized_categories(self) -> [UnicodeCategory; 30]", """
        use crate::UnicodeCategory::{Cc, Cs};
        let mut order: Vec<UnicodeCategory> = UnicodeCategorySet::all().iter().collect();
        order.sort_by_key(|&category| {
            (
                category == Cc || category == Cs,
                if category == Cc || category == Cs {
                    0
                } else {
                    self.intervals_for(category).len()
                },
                category.as_str(),
            )
        });
        let mut output = [Cc; 30];
        output.copy_from_slice(&order);
        output
    """)


@refactor
def normalized_select(r):
    "normalized_categories by repeated selection of the least key"
    p = CORE + "lib.rs"
    r.body(p, "pub const fn normalized_categories(self) -> [UnicodeCategory; 30]", """
        let table = self.table();
        let mut output = [UnicodeCategory::Cc; 30];
        output[29] = UnicodeCategory::Cs;
        let mut used = (1u32 << UnicodeCategory::Cc as u32) | (1u32 << UnicodeCategory::Cs as u32);
        let mut place = 0;
        while place < 28 {
            let mut best: Option<(usize, UnicodeCategory)> = None;
            let mut index: u8 = 0;
            while index < 30 {
                if used & (1 << index) == 0 {
                    if let Some(category) = UnicodeCategory::from_index(index) {
                        let key = table[index as usize].len() * 30 + category.abbrev_rank() as usize;
                        best = match best {
                            Some((least, _)) if least < key => best,
                            _ => Some((key, category)),
                        };
                    }
                }
                index += 1;
            }
            if let Some((_, category)) = best {
                used |= 1 << category as u32;
                output[place] = category;
            }
            place += 1;
        }
        output
    """)


@refactor
def builder_validate(r):
    "validation of the bounds in a helper on the builder, default-filled options"
    p = CORE + "lib.rs"
    s = r.read(p)
    i = s.index("        if min_codepoint > MAX_CODEPOINT || max_codepoint > MAX_CODEPOINT {")
    j = s.index("        Ok(query::query(")
    s = s[:i] + """        validate_bounds(min_codepoint, max_codepoint)?;
""" + s[j:]
    s = s.replace("include_characters.unwrap_or(\"\")", "include_characters.unwrap_or_default()")
    s = s.replace("exclude_characters.unwrap_or(\"\")", "exclude_characters.unwrap_or_default()")
    s = s.replace("#[cfg(test)]\nmod tests", """fn validate_bounds(minimum: u32, maximum: u32) -> Result<(), Error> {
    let allowed = 0..=MAX_CODEPOINT;
    if !(allowed.contains(&minimum) && allowed.contains(&maximum)) {
        Err(Error::CodepointNotInRange(minimum, maximum))
    } else if maximum < minimum {
        Err(Error::InvalidCodepoints(minimum, maximum))
    } else {
        Ok(())
    }
}

#[cfg(test)]
mod tests""", 1)
    r.write(p, s)


@refactor
def builder_struct(r):
    "builder methods by struct update, interval_set by map"
    p = CORE + "lib.rs"
    s = r.read(p)
    for m in ["min_codepoint", "max_codepoint"]:
        s = s.replace("        self.%s = %s;\n        self\n" % (m, m), "        IntervalQuery { %s, ..self }\n" % m)
        s = s.replace("pub fn %s(mut self, %s: u32)" % (m, m), "pub fn %s(self, %s: u32)" % (m, m))
    s = s.replace("Ok(IntervalSet::new(self.intervals()?))", "self.intervals().map(IntervalSet::new)")
    r.write(p, s)


@refactor
def error_strings(r):
    "error texts built by write! and f.pad-free concatenation"
    p = CORE + "error.rs"
    r.body(p, "    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result", """
        match self {
            Error::InvalidCategory(category) => invalid(f, category, "category"),
            Error::InvalidVersion(version) => invalid(f, version, "version"),
            Error::InvalidCodepoints(minimum, maximum) => {
                let text = format!("Got {} < {}", minimum, maximum);
                f.write_str("Minimum codepoint should be less or equal than maximum codepoint. ")?;
                f.write_str(&text)
            }
            Error::CodepointNotInRange(minimum, maximum) => write!(
                f,
                "Codepoints should be in [0; {MAX_CODEPOINT}] range. Got: [{minimum}; {maximum}]"
            ),
        }
    """, after="impl fmt::Display for Error")
    r.sub(p, "impl error::Error for Error {}", """impl error::Error for Error {}

fn invalid(f: &mut fmt::Formatter<'_>, value: &str, kind: &str) -> fmt::Result {
    f.write_str("'")?;
    f.write_str(value)?;
    f.write_str("' is not a valid Unicode ")?;
    f.write_str(kind)
}
""")


# ---------------------------------------------------------------- the Python binding

@refactor
def py_fold(r):
    "binding: parse_categories by iterators, version resolved by a helper"
    r.body(PY, "fn parse_categories(names: Option<Vec<String>>) -> PyResult<Option<UnicodeCategorySet>>", """
    names
        .map(|list| {
            list.iter()
                .map(|name| {
                    name.parse::<UnicodeCategory>()
                        .map_err(|_| PyValueError::new_err(["Unknown category: ", name].concat()))
                })
                .try_fold(UnicodeCategorySet::new(), |set, category| Ok(set | category?))
        })
        .transpose()
""")
    s = r.read(PY)
    s = s.replace("let core_version: CoreVersion = version.map_or_else(CoreVersion::latest, Into::into);",
                  "let core_version = resolve(version);")
    s = s.replace("fn parse_categories(", """fn resolve(version: Option<PyUnicodeVersion>) -> CoreVersion {
    match version {
        Some(version) => version.into(),
        None => CoreVersion::latest(),
    }
}

fn parse_categories(""", 1)
    r.write(PY, s)


@refactor
def py_tuple_objects(r):
    "binding: result tuple built from tuple objects, errors by a helper"
    s = r.read(PY)
    s = s.replace("    Ok(PyTuple::new(py, intervals)?.into())", """    let items = intervals
        .into_iter()
        .map(|(left, right)| (left, right).into_pyobject(py))
        .collect::<PyResult<Vec<_>>>()?;
    Ok(PyTuple::new(py, items)?.unbind())""")
    s = s.replace("        .map_err(|e| PyValueError::new_err(e.to_string()))?;", "        .map_err(to_value_error)?;")
    s = s.replace("fn parse_categories(", """#[allow(clippy::needless_pass_by_value)]
fn to_value_error(error: unicode_intervals_core::Error) -> PyErr {
    PyValueError::new_err(format!("{error}"))
}

fn parse_categories(""", 1)
    r.write(PY, s)


@refactor
def py_once(r):
    "binding: cache in PyOnceLock"
    s = r.read(PY)
    s = s.replace("use std::sync::OnceLock;", "use pyo3::sync::PyOnceLock;")
    s = s.replace("OnceLock<Py<PyTuple>>; CoreVersion", "OnceLock<Py<PyTuple>>; CoreVersion").replace("static CATEGORIES_CACHE: [OnceLock", "static CATEGORIES_CACHE: [PyOnceLock").replace("[const { OnceLock::new() }", "[const { PyOnceLock::new() }")
    s = s.replace(".get_or_init(|| {", ".get_or_init(py, || {")
    r.write(PY, s)


@refactor
def py_get_or_try(r):
    "binding: cache filled by get / set with a loop"
    r.body(PY, "fn categories(py: Python<'_>, version: Option<PyUnicodeVersion>) -> PyResult<Py<PyTuple>>", """
    let core_version: CoreVersion = version.map_or_else(CoreVersion::latest, Into::into);
    let slot = &CATEGORIES_CACHE[core_version as usize];
    if let Some(cached) = slot.get() {
        return Ok(cached.clone_ref(py));
    }
    let mut names = Vec::with_capacity(30);
    for category in core_version.normalized_categories() {
        names.push(category.as_str());
    }
    let tuple = PyTuple::new(py, &names)?.unbind();
    Ok(slot.get_or_init(|| tuple).clone_ref(py))
""")


@refactor
def py_table_version(r):
    "binding: version conversion through an array and str methods through a helper"
    s = r.read(PY)
    names = ["V" + v.replace(".", "_") for v in VERS]
    arr = "const VERSIONS: [PyUnicodeVersion; 11] = [" + ", ".join("PyUnicodeVersion::" + n for n in names) + "];\n\n"
    r.write(PY, s.replace("impl From<PyUnicodeVersion> for CoreVersion", arr + "impl PyUnicodeVersion {\n    fn core(self) -> CoreVersion {\n        CoreVersion::ALL[self as usize]\n    }\n}\n\nimpl From<PyUnicodeVersion> for CoreVersion", 1))
    r.body(PY, "fn from(value: PyUnicodeVersion) -> Self", "\n        value.core()\n    ")
    r.body(PY, "fn from(value: CoreVersion) -> Self", "\n        VERSIONS[value as usize]\n    ")
    s = r.read(PY)
    s = s.replace("        CoreVersion::from(*self).as_str()\n", "        self.core().as_str()\n")
    s = s.replace("format!(\"UnicodeVersion(\\\"{}\\\")\", CoreVersion::from(*self).as_str())", "format!(\"UnicodeVersion(\\\"{}\\\")\", self.__str__())")
    r.write(PY, s)


@refactor
def py_new_match(r):
    "binding: constructor with match, ? on the parse"
    r.body(PY, "fn new(value: &str) -> PyResult<Self>", """
        match value.parse::<CoreVersion>() {
            Ok(version) => Ok(version.into()),
            Err(_) => {
                let mut message = String::from("Unknown Unicode version: ");
                message.push_str(value);
                Err(PyErr::new::<PyValueError, _>(message))
            }
        }
    """)


@refactor
def py_options(r):
    "binding: bounds given by unwrap_or, characters as options, one builder expression"
    s = r.read(PY)
    i = s.index("    let mut builder = core_version")
    j = s.index("    let intervals = builder\n        .intervals()")
    s = s[:i] + """    let builder = core_version
        .query()
        .exclude_characters(exclude_characters)
        .include_characters(include_characters)
        .min_codepoint(min_codepoint.unwrap_or(0))
        .max_codepoint(max_codepoint.unwrap_or(char::MAX as u32))
        .exclude_categories(exclude)
        .include_categories(include);
""" + s[j:]
    r.write(PY, s)


@refactor
def py_module_functions(r):
    "binding: module filled by add_function, versions by tuple of objects"
    s = r.read(PY)
    i = s.index("    module.add(\"__version__\"")
    s = s[:i] + """    module.add_class::<PyUnicodeVersion>()?;
    module.add_function(wrap_pyfunction!(query, module)?)?;
    module.add_function(wrap_pyfunction!(categories, module)?)?;
    module.add_function(wrap_pyfunction!(as_general_categories, module)?)?;
    let versions = PyTuple::new(py, CoreVersion::ALL.map(PyUnicodeVersion::from))?;
    module.add("available_versions", versions)?;
    module.add("__version__", env!("CARGO_PKG_VERSION"))
}
"""
    r.write(PY, s)


@refactor
def py_bound_args(r):
    "binding: functions returning Bound tuples and taking borrowed strings"
    s = r.read(PY)
    s = s.replace("""fn as_general_categories(
    py: Python<'_>,
    categories: Vec<String>,
    version: Option<PyUnicodeVersion>,
) -> PyResult<Py<PyTuple>> {""", """fn as_general_categories<'py>(
    py: Python<'py>,
    categories: Vec<String>,
    version: Option<PyUnicodeVersion>,
) -> PyResult<Bound<'py, PyTuple>> {""")
    s = s.replace("""    let names: Vec<String> = expanded.iter().map(ToString::to_string).collect();
    Ok(PyTuple::new(py, names)?.into())""", """    PyTuple::new(py, expanded.iter().map(|c| c.as_str()).collect::<Vec<_>>())""")
    s = s.replace("""fn query(
    py: Python<'_>,""", """fn query<'py>(
    py: Python<'py>,""")
    s = s.replace("""    version: Option<PyUnicodeVersion>,
) -> PyResult<Py<PyTuple>> {
    let core_version: CoreVersion = version.map_or_else(CoreVersion::latest, Into::into);
    let include""", """    version: Option<PyUnicodeVersion>,
) -> PyResult<Bound<'py, PyTuple>> {
    let core_version: CoreVersion = version.map_or_else(CoreVersion::latest, Into::into);
    let include""")
    s = s.replace("    Ok(PyTuple::new(py, intervals)?.into())", "    PyTuple::new(py, intervals)")
    r.write(PY, s)


@refactor
def py_declarative(r):
    "binding: declarative module"
    s = r.read(PY)
    i = s.index("/// Search Unicode code point intervals by category, codepoint")
    s = s[:i] + """/// Search Unicode code point intervals by category, codepoint range, and characters.
#[pymodule]
mod unicode_intervals {
    use super::{CoreVersion, PyUnicodeVersion};
    use pyo3::{prelude::*, types::PyTuple};

    #[pymodule_export]
    use super::{as_general_categories, categories, query, PyUnicodeVersion as _Exported};

    #[pymodule_init]
    fn init(module: &Bound<'_, PyModule>) -> PyResult<()> {
        let py = module.py();
        module.add("__version__", env!("CARGO_PKG_VERSION"))?;
        let versions: Vec<PyUnicodeVersion> =
            CoreVersion::ALL.iter().map(|v| (*v).into()).collect();
        module.add("available_versions", PyTuple::new(py, versions)?)?;
        Ok(())
    }
}
"""
    s = s.replace("prelude::*, types::PyTuple, wrap_pyfunction}", "prelude::*, types::PyTuple}")
    r.write(PY, s)


if __name__ == "__main__":
    if sys.argv[1] == "--list":
        for n, f in ALL.items():
            print(n, "-", f.__doc__)
    else:
        ALL[sys.argv[1]](Repo(sys.argv[2]))
