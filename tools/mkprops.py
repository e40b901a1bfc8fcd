#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json
L = "crates/unicode-intervals/src/lib.rs"
Q = "crates/unicode-intervals/src/query.rs"
I = "crates/unicode-intervals/src/intervals.rs"
S = "crates/unicode-intervals/src/intervalset.rs"
C = "crates/unicode-intervals/src/categories.rs"
E = "crates/unicode-intervals/src/error.rs"
T = "crates/unicode-intervals/src/tables"
P = "crates/unicode-intervals-py/src/lib.rs"
out = []
def p(id, title, statement, over, text, why, files, mech, observe):
    out.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}})

p("C01", "A query returns exactly the code points its criteria select",
  "For every bundled Unicode version, a valid query returns exactly the code points that belong to a selected category and lie within the inclusive minimum/maximum bounds, together with every character listed for inclusion whatever its category or position, minus every character listed for exclusion. The selected categories are the included ones (all thirty when none are given) without the excluded ones. No code point is missing and none is added.",
  ["inputs", "configurations"], "every version, include/exclude category set, pair of bounds 0..=0x10FFFF with min <= max, and include/exclude string",
  "The tests compare a few dozen hand-picked bounds, category pairs and strings, almost all against version 15.0; a wrong answer needs one particular relation between a bound, an interval edge and a character among 2^40 bound pairs and 2^30 category sets.",
  [Q, I, L, C], [("query", Q), ("collect_in_range / extend_clamped", Q), ("ascii_query", Q), ("merge / subtract / from_str", I), ("categories::merge", C)],
  ["IntervalQuery::intervals", "IntervalQuery::interval_set"])

p("C02", "Answers are sorted, disjoint and maximally coalesced intervals",
  "Every list of intervals a valid query returns is in canonical form: each interval has start <= end <= 0x10FFFF, intervals are in strictly increasing order, none overlap, and no two neighbours are adjacent (they would have been one interval). In particular the same set of code points is always written as the same list.",
  ["inputs", "configurations"], "every version, category set, pair of bounds, and include/exclude string",
  "Tests assert the shape only for the concrete answers they list; a missed coalescing needs a character or a category boundary exactly next to an interval's edge.",
  [Q, I], [("merge", I), ("subtract", I), ("extract_intervals", Q), ("needs_merge", Q)], ["IntervalQuery::intervals"])

p("C03", "Bounds are validated exactly, reported faithfully, and nothing panics",
  "A query fails if and only if a given bound is above 0x10FFFF or the minimum exceeds the maximum; a bound outside the code space is reported as such and takes precedence over a reversed range, and the error carries the two effective bounds (an unset minimum is 0, an unset maximum 0x10FFFF) and states them in its message. No pair of 32-bit bounds, combination of settings or index operation panics.",
  ["inputs"], "every 32-bit minimum and maximum, set or unset, for both the interval list and the interval set",
  "Tests try three invalid pairs; off-by-one at 0x10FFFF, precedence of the two errors and arithmetic at u32 extremes are single points in a 2^64 space.",
  [L, E, Q, S], [("intervals_impl", L), ("Error Display", E)], ["IntervalQuery::intervals", "IntervalQuery::interval_set", "Error"])

p("C04", "Small-range queries agree with the general answer",
  "A query whose maximum is below 256 and whose custom characters are all below 256 returns exactly what the general definition yields: the code points of the same selection over the whole code space, cut to the bounds, plus included and minus excluded characters, in canonical form. Crossing the 255/256 limit in a bound or a character never changes the answer for any other code point.",
  ["inputs", "configurations"], "every version, category set, bounds 0 <= min <= max <= 255, and strings of characters up to U+00FF",
  "There are two implementations and the switch between them is invisible; the tests compare them on sampled inputs of one version, and bit tricks go wrong at single word or run boundaries.",
  [Q], [("ascii_query / range_mask / extract_intervals", Q), ("build_ascii_masks / ASCII_MASKS", Q), ("is_ascii_range", Q)], ["IntervalQuery::intervals"])

p("C05", "The builder's last setting wins and its state is isolated",
  "The outcome of a query depends only on the last value given for each of its six settings, not on the order in which different settings are made nor on values overwritten earlier; a setting never made behaves as its documented default (all categories, nothing excluded, empty strings, 0 and 0x10FFFF), also after it is reset with None. Running a query or cloning it changes nothing: repeated runs and clones give equal answers, and altering a clone leaves the original alone.",
  ["histories", "inputs"], "every sequence of builder calls (up to the stated length) with arbitrary values",
  "Tests use each setter once, in one order; sequences with overwriting, resets and clones are not run.",
  [L], [("IntervalQuery setters", L), ("IntervalQuery::intervals", L)], ["IntervalQuery"])

p("C06", "Interval-set index operations agree with ascending order",
  "An interval set behaves as the ascending list of its code points: its length is the number of elements and it is empty exactly when that is 0; the code point at an index is the element of that rank and absent from the length on; the index of a code point is its rank if it is a member and absent otherwise; membership tells exactly the members; and the insertion index of any value is the number of smaller elements.",
  ["inputs", "configurations"], "every query's interval set, every 32-bit index, code point or value",
  "Tests probe a few indices of the uppercase letters; errors sit at first/last elements of intervals, gaps, single-element intervals and at values beyond the code space.",
  [S], [("codepoint_at / index_of / index_above / contains / len", S)], ["IntervalSet"])

p("C07", "Iterating an interval set yields each code point once, in order",
  "Iterating an interval set forwards yields its code points in strictly ascending order, each exactly once and nothing else; iterating backwards yields the reverse, and any interleaving of steps from both ends yields each element exactly once, with the two ends meeting without repetition or loss. A finished iteration stays finished, the reported size bounds always enclose the number of remaining elements, and independent iterations and clones do not influence each other.",
  ["inputs", "histories"], "every interval set (symbolic members, up to the stated number of intervals) and every interleaving of forward and backward steps up to the stated length",
  "Tests collect a few fixed sets forwards and once backwards; interleavings that meet inside an interval, at its edge or in a one-element interval are not enumerated.",
  [S], [("iter / Codepoints", S)], ["IntervalSet::iter", "IntoIterator for &IntervalSet", "Codepoints"])

p("C08", "Every version's categories partition the code space",
  "For every bundled Unicode version and every code point from 0 to 0x10FFFF there is exactly one of the thirty general categories whose intervals contain it, and no category contains anything above 0x10FFFF. Each category's own interval list is sorted, disjoint and coalesced, and the per-category lookup agrees with a query for that single category.",
  ["inputs", "configurations"], "every version and every code point",
  "The tests look at a handful of code points; a damaged boundary leaves one of 1.1 million code points per version in no category or in two.",
  [T, L], [("table / intervals_for", L), ("BY_NAME tables", T)], ["UnicodeVersion::intervals_for", "UnicodeVersion::query"])

p("C09", "Categories are those of the published Unicode Character Database",
  "For each bundled version, each code point's category is the one that version of the Unicode Character Database assigns, unlisted code points being unassigned. Hence what the standard freezes is frozen here: control, surrogate and private-use code points and noncharacters are the same in all versions, and assigned code points never become unassigned in a later one.",
  ["inputs", "configurations"], "every version and every code point",
  "The tests check a few interval lists of one or two versions; generated data of 11 versions has tens of thousands of boundaries.",
  [T, L], [("BY_NAME tables", T), ("table", L)], ["UnicodeVersion::intervals_for", "UnicodeVersion::query"])

p("C10", "Category sets obey set algebra",
  "Category sets behave as mathematical sets of the thirty categories: adding, removing, testing, counting, emptiness, union in all four operand combinations and in place, conversion from a single category, and the documented major classes agree with the membership of each category, leave all other categories untouched, and adding or removing twice is the same as once. Two sets are equal exactly when they have the same members, and then hash alike, and no operation ever produces anything beyond the thirty categories.",
  ["inputs", "histories"], "every pair of category sets (all 2^30 each) and every category",
  "Tests add and remove one or two categories; the set has 2^30 states.",
  [C], [("UnicodeCategorySet", C), ("BitOr / BitOrAssign / From impls", C), ("major class constants", C)], ["UnicodeCategorySet", "UnicodeCategory"])

p("C11", "Category-set iteration and text list the members exactly once",
  "Iterating a category set yields exactly its members, each once, in the enumeration's order; at every point of the iteration the announced number of remaining items, by whichever of the iterator's size reports, equals the number still to come, and a finished iteration stays finished. The text form lists the members' abbreviations in the same order separated by a comma and a space, and is empty for the empty set.",
  ["inputs", "histories"], "every category set (all 2^30) and every position in the iteration",
  "Tests print and iterate two or three sets, never asking for sizes midway.",
  [C], [("Iter", C), ("Display for UnicodeCategorySet", C)], ["UnicodeCategorySet::iter", "Display"])

p("C12", "Names parse and print as exact inverses; everything else is rejected",
  "Every category and every version prints a name that parses back to it, distinct values have distinct names, and these are the standard two-letter abbreviations and dotted version numbers. Every other string of any kind (wrong case, padding, prefixes, extra characters, non-ASCII) is rejected with an error that quotes it. The list of all versions has every version once, in ascending order and ending with the latest.",
  ["inputs"], "every byte string up to the stated length that is valid UTF-8, and every category and version",
  "Tests parse the valid names and one or two invalid ones; acceptance of one wrong spelling among all strings is not observable by sampling.",
  [C, L, E], [("UnicodeCategory FromStr/as_str", C), ("UnicodeVersion FromStr/as_str/ALL/latest", L), ("Error Display", E)], ["FromStr", "as_str", "Display"])

p("C13", "Normalized category order is a size-ordered permutation",
  "For every version the normalized category order contains each of the thirty categories exactly once, sorted by ascending number of interval-table entries with ties broken by abbreviation, except that control and surrogate always come last, in that order. The order is the same on every call.",
  ["inputs", "configurations"], "every version and every pair of positions",
  "Tests compare one version's full order; a mis-ranked tie shows in specific versions only.",
  [L, C], [("normalized_categories", L), ("abbrev_rank / from_index", C)], ["UnicodeVersion::normalized_categories"])

p("C14", "General-category expansion is exact, complete and ordered",
  "Expanding a list of names turns each major class (L, M, N, P, S, Z, C) into all its categories and keeps each general category, and returns each resulting category exactly once in the version's normalized order, whatever the order and repetition of the input. If any name is neither a category nor a major class the call fails with an error that quotes the first such name.",
  ["inputs", "configurations"], "every list of names up to the stated count and length, every version",
  "Tests expand a few fixed lists; interactions of overlapping names, order and bad names in later positions are not covered.",
  [C], [("as_general_categories", C)], ["as_general_categories"])

p("C15", "The Python query function returns what the core query returns",
  "For every combination of its keyword arguments the Python query function returns, as a tuple of pairs, exactly the intervals the core library returns for the same categories, excluded categories, bounds, characters and version, each argument left out meaning the core default and no version meaning the latest. It raises ValueError with the core's message exactly when the core rejects the bounds, and a ValueError naming the first unknown category.",
  ["inputs", "configurations"], "every presence pattern and value of the seven arguments (lists of names and strings up to the stated length)",
  "The Python tests call the function with a few fixed arguments; a swapped, dropped or conditionally ignored argument shows only for specific combinations.",
  [P], [("query", P), ("parse_categories", P)], ["unicode_intervals.query"])

p("C16", "The Python version and category helpers mirror the core",
  "Python version objects correspond one to one with the core versions: parsing, text form, latest and the list of available versions agree with the core for each version and unknown strings raise ValueError. The category list and the general-category expansion return what the core returns for that version (the latest if none is given), and remain so on every later call in any order of versions.",
  ["inputs", "histories"], "every version, every string up to the stated length, and every sequence of up to three calls",
  "Tests ask for a few versions once; cross-version mix-ups in the conversion or the cache need a particular pair of calls.",
  [P], [("PyUnicodeVersion conversions", P), ("CATEGORIES_CACHE / categories", P), ("as_general_categories", P)], ["unicode_intervals.UnicodeVersion", "unicode_intervals.categories", "unicode_intervals.as_general_categories"])

p("C17", "Custom character strings act as plain sets of characters",
  "The strings of included and excluded characters act as sets: their order, repetitions and length make no difference, characters of every encoded length count alike, included characters are not subject to categories or bounds, and a character in both strings is excluded. With no category selected the answer is exactly the included characters minus the excluded ones, in canonical form.",
  ["inputs"], "every pair of strings up to the stated number of characters, each character any Unicode scalar value",
  "Tests use literals of one to three characters, sorted, mostly ASCII; coalescing of runs given out of order and multi-byte characters split or joined wrongly are rare inputs.",
  [I, Q], [("from_str", I), ("merge / subtract", I), ("ascii_query", Q)], ["IntervalQuery::include_characters", "IntervalQuery::exclude_characters"])

p("C18", "Equality, hashing and copies are faithful",
  "Versions, categories and category sets are equal exactly when they are the same, and equal ones hash alike. Queries made with the same version and the same last value of each setting compare equal whatever the order and number of calls that made them; queries that compare equal give the same answer; a copy equals its original. Errors are equal exactly when they are of the same kind and carry the same bounds or text. Equality is symmetric and the negation of inequality everywhere.",
  ["inputs", "configurations"], "every pair of versions, categories and category sets; every pair of queries over the stated choices of settings; every four bounds; every pair of rejected texts up to the stated length",
  "Tests compare a few values with themselves; an equality that leaves a field out or compares a derived value shows only for particular pairs.",
  [L, C, E], [("IntervalQuery", L), ("UnicodeVersion", L), ("UnicodeCategory / UnicodeCategorySet", C), ("Error", E)], ["PartialEq, Eq, Hash and Clone of IntervalQuery, UnicodeVersion, UnicodeCategory, UnicodeCategorySet, Error"])

with open("/verif/properties.jsonl", "w") as f:
    for x in out:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(out))
