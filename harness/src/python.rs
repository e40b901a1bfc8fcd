//! The Python binding, called through the C API: a model of it in the symbolic build
//! (`cpython.rs`), the real interpreter in the native one.
#![allow(non_upper_case_globals, non_snake_case)]
use crate::names::{any_text, is, quotes, VERSION_NAMES};
use crate::spec::*;
use crate::sym::*;
use core::ffi::{c_char, c_int, c_long, c_void, CStr};
use core::ptr::null_mut;
use core::str::FromStr;
use unicode_intervals::{Interval, UnicodeCategory, UnicodeCategorySet, UnicodeVersion};

// For its exported PyInit function.
use pyshim as _;

type P = *mut c_void;

extern "C" {
    fn PyInit_unicode_intervals() -> P;
    fn PyModule_New(name: *const c_char) -> P;
    fn PyModule_FromDefAndSpec2(def: P, spec: P, version: c_int) -> P;
    fn PyModule_ExecDef(m: P, def: P) -> c_int;
    fn PyObject_GetAttrString(o: P, name: *const c_char) -> P;
    fn PyObject_SetAttrString(o: P, name: *const c_char, v: P) -> c_int;
    fn PyObject_Call(f: P, args: P, kw: P) -> P;
    fn PyObject_Str(o: P) -> P;
    fn PyObject_Repr(o: P) -> P;
    fn PyObject_RichCompareBool(a: P, b: P, op: c_int) -> c_int;
    fn PyTuple_New(n: isize) -> P;
    fn PyTuple_SetItem(o: P, k: isize, v: P) -> c_int;
    fn PyTuple_GetItem(o: P, k: isize) -> P;
    fn PyTuple_Size(o: P) -> isize;
    fn PyList_New(n: isize) -> P;
    fn PyList_SetItem(o: P, k: isize, v: P) -> c_int;
    fn PyDict_New() -> P;
    fn PyDict_SetItemString(o: P, key: *const c_char, v: P) -> c_int;
    fn PyUnicode_FromStringAndSize(s: *const c_char, n: isize) -> P;
    fn PyUnicode_AsUTF8AndSize(o: P, n: *mut isize) -> *const c_char;
    fn PyLong_FromLong(v: c_long) -> P;
    fn PyLong_AsLong(o: P) -> c_long;
    fn PyType_GetFlags(t: P) -> u64;
    fn PyErr_Fetch(t: *mut P, v: *mut P, b: *mut P);
    fn PyErr_NormalizeException(t: *mut P, v: *mut P, b: *mut P);
    fn PyErr_GivenExceptionMatches(e: P, t: P) -> c_int;
    fn Py_IncRef(o: P);
    static mut PyExc_ValueError: P;
    static mut _Py_NoneStruct: [usize; 2];
}

/// Does the object's type have this flag?
unsafe fn kind(o: P, bit: u32) -> bool {
    let t = *(o as *const P).add(1);
    PyType_GetFlags(t) >> bit & 1 == 1
}
const LONG: u32 = 24;
const TUPLE: u32 = 26;
const UNICODE: u32 = 28;

unsafe fn none() -> P {
    let p = core::ptr::addr_of_mut!(_Py_NoneStruct) as P;
    Py_IncRef(p);
    p
}

unsafe fn module() -> P {
    let def = PyInit_unicode_intervals();
    let spec = PyModule_New(c"spec".as_ptr());
    PyObject_SetAttrString(spec, c"name".as_ptr(), string(b"unicode_intervals"));
    let m = PyModule_FromDefAndSpec2(def, spec, 1013);
    check!(!m.is_null());
    check!(PyModule_ExecDef(m, def) == 0);
    m
}

unsafe fn string(s: &[u8]) -> P {
    PyUnicode_FromStringAndSize(s.as_ptr() as *const c_char, s.len() as isize)
}

unsafe fn attr(o: P, name: &CStr) -> P {
    let v = PyObject_GetAttrString(o, name.as_ptr());
    check!(!v.is_null());
    v
}

unsafe fn utf8<'a>(o: P) -> &'a [u8] {
    check!(kind(o, UNICODE));
    let mut n = 0;
    let p = PyUnicode_AsUTF8AndSize(o, &mut n);
    check!(!p.is_null());
    core::slice::from_raw_parts(p as *const u8, n as usize)
}

unsafe fn call(f: P, given: &[P], named: &[(&CStr, P)]) -> P {
    let args = PyTuple_New(given.len() as isize);
    for (k, x) in given.iter().enumerate() {
        Py_IncRef(*x);
        PyTuple_SetItem(args, k as isize, *x);
    }
    let kw = if named.is_empty() { null_mut() } else { PyDict_New() };
    for (name, x) in named {
        PyDict_SetItemString(kw, name.as_ptr(), *x);
    }
    PyObject_Call(f, args, kw)
}

/// The pending exception: is it a ValueError, and what it says.
unsafe fn error<'a>() -> (bool, &'a [u8]) {
    let (mut t, mut v, mut b) = (null_mut(), null_mut(), null_mut());
    PyErr_Fetch(&mut t, &mut v, &mut b);
    check!(!t.is_null());
    PyErr_NormalizeException(&mut t, &mut v, &mut b);
    let value = PyErr_GivenExceptionMatches(t, PyExc_ValueError) != 0;
    (value, utf8(PyObject_Str(v)))
}

/// A list or a tuple.
unsafe fn sequence(v: &[P], tuple: bool) -> P {
    let o = if tuple { PyTuple_New(v.len() as isize) } else { PyList_New(v.len() as isize) };
    for (k, x) in v.iter().enumerate() {
        if tuple {
            PyTuple_SetItem(o, k as isize, *x);
        } else {
            PyList_SetItem(o, k as isize, *x);
        }
    }
    o
}

/// The Python object of version `k`; 11: nothing given, 12: None.
unsafe fn version(m: P, k: usize) -> P {
    match k {
        11 => null_mut(),
        12 => none(),
        _ => {
            let v = call(attr(m, c"UnicodeVersion"), &[string(VERSION_NAMES[k].as_bytes())], &[]);
            check!(!v.is_null());
            v
        }
    }
}

fn core_version(k: usize) -> UnicodeVersion {
    if k < 11 {
        VERSIONS[k]
    } else {
        UnicodeVersion::latest()
    }
}

/// Names that are not a category.
const BAD: [&str; 8] = ["", "L", "lu", "LU", "Lu ", "Xx", "Luu", "\u{41b}"];

/// Category names: bits 0-1 of `b`: 0 not given, 1 None, 2 a list, 3 a tuple; bit 2: the
/// symbolic names come first; bits 4-7: how many of them, bits 8-15 their layout; then up to
/// five bytes: 1 + category, 32, 33: all thirty in two orders, 33 + n: the first n, 64 + known
/// bad name, 128 + n: the last of the fixed names n times more.
fn names(b: u64, id: u32) -> Option<Vec<Vec<u8>>> {
    if b & 3 < 2 {
        return None;
    }
    let mut fixed: Vec<Vec<u8>> = Vec::with_capacity(16);
    for k in 0..5 {
        let x = (b >> (16 + 8 * k) & 255) as usize;
        if x >= 128 {
            for _ in 128..x {
                let last = fixed[fixed.len() - 1].clone();
                fixed.push(last);
            }
        } else if x >= 64 {
            fixed.push(BAD[x - 64].as_bytes().to_vec());
        } else if x == 32 || x == 33 {
            // All of them, forwards or backwards.
            for k in 0..30 {
                fixed.push(NAMES[if x == 32 { k } else { 29 - k }].as_bytes().to_vec());
            }
        } else if x > 33 {
            // The first ones.
            for name in &NAMES[..x - 33] {
                fixed.push(name.as_bytes().to_vec());
            }
        } else if x > 0 {
            fixed.push(NAMES[x - 1].as_bytes().to_vec());
        }
    }
    let mut out: Vec<Vec<u8>> = Vec::with_capacity(16);
    if b & 4 == 0 {
        out.append(&mut fixed);
    }
    for k in 0..(b >> 4 & 15) as u32 {
        out.push(any_text(id + 8 * k, b >> 8 & 255));
    }
    out.append(&mut fixed);
    Some(out)
}

unsafe fn names_object(b: u64, v: &Option<Vec<Vec<u8>>>) -> P {
    match v {
        Some(v) => {
            let v: Vec<P> = v.iter().map(|s| string(s)).collect();
            sequence(&v, b & 3 == 3)
        }
        None if b & 3 == 1 => none(),
        None => null_mut(),
    }
}

/// The set of the names, or the first one that is no category.
fn parse(v: &Option<Vec<Vec<u8>>>) -> Result<Option<UnicodeCategorySet>, &[u8]> {
    let mut set = UnicodeCategorySet::new();
    match v {
        None => return Ok(None),
        Some(v) => {
            for s in v {
                match UnicodeCategory::from_str(text(s)) {
                    Ok(c) => set.add(c),
                    Err(_) => return Err(s),
                }
            }
        }
    }
    Ok(Some(set))
}

/// A bound: `how` 0 not given, 1 None, 2 any number of 32 bits, 3 any number of 64 bits, else
/// any from `how - 8` up to 600 more. The object, and the number.
unsafe fn bound(how: u64, id: u32) -> (P, Option<i64>) {
    let n = match how {
        0 => return (null_mut(), None),
        1 => return (none(), None),
        2 => any_u32(id) as i64,
        3 => any_bits(id, 64) as i64,
        _ => any_in(id, how as u32 - 8, how as u32 + 592) as i64,
    };
    (PyLong_FromLong(n), Some(n))
}

/// The tuple of pairs is this list.
unsafe fn intervals(o: P, want: &[Interval]) {
    check!(kind(o, TUPLE));
    check!(PyTuple_Size(o) == want.len() as isize);
    let mut ok = true;
    for (k, &(l, h)) in want.iter().enumerate() {
        let pair = PyTuple_GetItem(o, k as isize);
        check!(kind(pair, TUPLE));
        check!(PyTuple_Size(pair) == 2);
        let (x, y) = (PyTuple_GetItem(pair, 0), PyTuple_GetItem(pair, 1));
        check!(kind(x, LONG) & kind(y, LONG));
        ok &= (PyLong_AsLong(x) == l as c_long) & (PyLong_AsLong(y) == h as c_long);
    }
    check!(ok);
}

/// The tuple of strings is this list.
unsafe fn strings(o: P, want: &[UnicodeCategory]) {
    check!(kind(o, TUPLE));
    check!(PyTuple_Size(o) == want.len() as isize);
    for (k, c) in want.iter().enumerate() {
        check!(is(utf8(PyTuple_GetItem(o, k as isize)), c.as_str()));
    }
}

/// a = version | minimum << 8 | maximum << 32; b, c = included, excluded names;
/// d = 1 + layout of the included (low half) and excluded characters, 0: not given; bits 24-27
/// of a half: so many given characters behind; bits 56-63 of b: a call before this one, 1 to 7:
/// with that argument different, 8: the same, 9, 10: any one included or excluded name,
/// 11, 12: any included or excluded characters of the same layout, 13: included and excluded
/// names and characters exchanged, 14, 15: without the last excluded or included name, 16, 17:
/// without the excluded or included characters.
#[no_mangle]
pub extern "C" fn h_pyquery(a: u64, b: u64, c: u64, d: u64) {
    unsafe {
        let m = module();
        let v = (a & 255) as usize;
        let mut named: Vec<(&CStr, P)> = Vec::with_capacity(8);
        let mut before: Vec<(&CStr, P)> = Vec::with_capacity(8);
        let earlier = b >> 56;
        let (include, exclude) = (names(b, 100), names(c, 200));
        let shorter = |list: &Option<Vec<Vec<u8>>>| {
            let mut v = list.clone();
            v.as_mut().map(|v| v.pop());
            v
        };
        let mut give = |name: &'static CStr, o: P| {
            if !o.is_null() {
                named.push((name, o));
            }
            let other = match earlier {
                1 if name == c"version" => version(m, if v == 4 { 5 } else { 4 }),
                2 if name == c"min_codepoint" => PyLong_FromLong(0x20),
                3 if name == c"max_codepoint" => PyLong_FromLong(0x2fff),
                4 if name == c"categories" => sequence(&[string(b"Zl"), string(b"Zp")], false),
                5 if name == c"exclude_categories" => sequence(&[string(b"Zs")], false),
                6 if name == c"include_characters" => string(b"az"),
                7 if name == c"exclude_characters" => string(b"az"),
                9 if name == c"categories" => sequence(&[string(&any_text(500, 0x11))], false),
                10 if name == c"exclude_categories" => sequence(&[string(&any_text(500, 0x11))], false),
                11 if name == c"include_characters" && d as u32 & 0xff_ffff > 1 => string(&any_text(500, (d & 0xff_ffff) - 1)),
                12 if name == c"exclude_characters" && d >> 32 & 0xff_ffff > 1 => string(&any_text(500, (d >> 32 & 0xff_ffff) - 1)),
                14 if name == c"exclude_categories" => names_object(c, &shorter(&exclude)),
                15 if name == c"categories" => names_object(b, &shorter(&include)),
                16 if name == c"exclude_characters" => null_mut(),
                17 if name == c"include_characters" => null_mut(),
                _ => o,
            };
            let name = match earlier {
                13 if name == c"categories" => c"exclude_categories",
                13 if name == c"exclude_categories" => c"categories",
                13 if name == c"include_characters" => c"exclude_characters",
                13 if name == c"exclude_characters" => c"include_characters",
                _ => name,
            };
            if !other.is_null() {
                before.push((name, other));
            }
        };
        // Not in the order of the signature.
        give(c"version", version(m, v));
        let (lo, min) = bound(a >> 8 & 0xff_ffff, 1);
        give(c"min_codepoint", lo);
        let (hi, max) = bound(a >> 32, 2);
        give(c"exclude_categories", names_object(c, &exclude));
        give(c"max_codepoint", hi);
        give(c"categories", names_object(b, &include));
        let mut chars: [Vec<u8>; 2] = [Vec::new(), Vec::new()];
        for (k, name) in [c"include_characters", c"exclude_characters"].into_iter().enumerate() {
            let layout = d >> (32 * k) & 0xffff_ffff;
            if layout == 0 {
                give(name, null_mut());
            } else {
                let mut s = any_text(300 + 100 * k as u32, (layout & 0xff_ffff) - 1);
                for n in 0..layout >> 24 {
                    push_utf8(&mut s, 0x3c0 + 5 * n as u32, 2);
                }
                give(name, string(&s));
                chars[k] = s;
            }
        }
        let query = attr(m, c"query");
        if earlier > 0 && call(query, &[], &before).is_null() {
            error();
        }
        let got = call(query, &[], &named);

        // The core library, asked the same.
        let fits = |n: Option<i64>| n.map_or(true, |n| (n >= 0) & (n <= u32::MAX as i64));
        if !(fits(min) & fits(max)) {
            reach(4);
            check!(got.is_null());
            return;
        }
        let (inc, exc) = match (parse(&include), parse(&exclude)) {
            (Ok(i), Ok(e)) => (i, e),
            (i, e) => {
                reach(3);
                check!(got.is_null());
                let (value, message) = error();
                check!(value);
                let mut named = false;
                for bad in [i.err(), e.err()].into_iter().flatten() {
                    named |= quotes(text(message), bad);
                }
                check!(named);
                return;
            }
        };
        let mut q = core_version(v).query().include_characters(text(&chars[0])).exclude_characters(text(&chars[1]));
        if let Some(set) = inc {
            q = q.include_categories(set);
        }
        if let Some(set) = exc {
            q = q.exclude_categories(set);
        }
        if let Some(n) = min {
            q = q.min_codepoint(n as u32);
        }
        if let Some(n) = max {
            q = q.max_codepoint(n as u32);
        }
        match q.intervals() {
            Ok(want) => {
                reach(1);
                note(1, want.len() as u64);
                check!(!got.is_null());
                intervals(got, &want);
            }
            Err(e) => {
                reach(2);
                check!(got.is_null());
                let (value, message) = error();
                check!(value);
                check!(is(message, &e.to_string()));
            }
        }
    }
}

/// a = layout. Any string against the version class.
#[no_mangle]
pub extern "C" fn h_pyversion(a: u64, _b: u64, _c: u64, _d: u64) {
    unsafe {
        let m = module();
        let s = any_text(1, a);
        let got = call(attr(m, c"UnicodeVersion"), &[string(&s)], &[]);
        match UnicodeVersion::from_str(text(&s)) {
            Ok(v) => {
                reach(1);
                note(1, v as u64);
                check!(!got.is_null());
                check!(is(utf8(PyObject_Str(got)), v.as_str()));
                // And it is what the functions take it for.
                let list = call(attr(m, c"categories"), &[], &[(c"version", got)]);
                check!(!list.is_null());
                strings(list, &v.normalized_categories());
            }
            Err(_) => {
                reach(2);
                check!(got.is_null());
                let (value, message) = error();
                check!(value);
                check!(quotes(text(message), &s));
            }
        }
    }
}

const ATTRIBUTES: [&CStr; 11] = [
    c"V9_0_0", c"V10_0_0", c"V11_0_0", c"V12_0_0", c"V12_1_0", c"V13_0_0", c"V14_0_0", c"V15_0_0", c"V15_1_0",
    c"V16_0_0", c"V17_0_0",
];

/// The version objects, one by one and two at a time.
#[no_mangle]
pub extern "C" fn h_pyversions(_a: u64, _b: u64, _c: u64, _d: u64) {
    unsafe {
        let m = module();
        let class = attr(m, c"UnicodeVersion");
        let list = attr(m, c"available_versions");
        check!(kind(list, TUPLE));
        check!(PyTuple_Size(list) == UnicodeVersion::ALL.len() as isize);
        let i = pick(1, 11) as usize;
        let v = PyTuple_GetItem(list, i as isize);
        note(1, i as u64);
        reach(1);
        let name = UnicodeVersion::ALL[i].as_str();
        check!(is(utf8(PyObject_Str(v)), name));
        let repr = utf8(PyObject_Repr(v));
        check!(quotes(text(repr), name.as_bytes()));
        check!(PyObject_RichCompareBool(v, version(m, i), 2) == 1);
        check!(PyObject_RichCompareBool(v, version(m, i), 3) == 0);
        check!(PyObject_RichCompareBool(v, attr(class, ATTRIBUTES[i]), 2) == 1);
        check!(is(utf8(PyObject_Str(attr(class, ATTRIBUTES[i]))), name));
        let latest = call(attr(class, c"latest"), &[], &[]);
        check!(!latest.is_null());
        check!((PyObject_RichCompareBool(v, latest, 2) == 1) == (i == 10));
        check!(is(utf8(PyObject_Str(latest)), UnicodeVersion::latest().as_str()));
        let j = pick(2, 11) as usize;
        let w = PyTuple_GetItem(list, j as isize);
        check!((PyObject_RichCompareBool(v, w, 2) == 1) == (i == j));
        check!((PyObject_RichCompareBool(v, w, 3) == 1) == (i != j));
        // Two names give two versions.
        check!((PyObject_RichCompareBool(version(m, j), v, 2) == 1) == (i == j));
    }
}

/// a = number of calls. Categories of any versions, one after another.
#[no_mangle]
pub extern "C" fn h_pycategories(a: u64, _b: u64, _c: u64, _d: u64) {
    unsafe {
        let m = module();
        let f = attr(m, c"categories");
        for n in 0..a as u32 {
            let k = pick(1 + n, 13) as usize;
            let v = version(m, k);
            let got = if v.is_null() {
                call(f, &[], &[])
            } else if n & 1 == 0 {
                call(f, &[], &[(c"version", v)])
            } else {
                call(f, &[v], &[])
            };
            reach(1);
            check!(!got.is_null());
            strings(got, &core_version(k).normalized_categories());
        }
    }
}

/// a = version | by keyword << 8, b = names (as for a query), c = classes in front of them
/// (bit k: the k-th of LMNPSZC), d = version of a call before, if not 0, plus one, bits 8-15,
/// 16-23: layouts of its names, if not 0, else all categories.
#[no_mangle]
pub extern "C" fn h_pygeneral(a: u64, b: u64, c: u64, d: u64) {
    unsafe {
        let m = module();
        let f = attr(m, c"as_general_categories");
        if d > 0 {
            let v = version(m, (d & 255) as usize - 1);
            let named: &[(&CStr, P)] = if v.is_null() { &[] } else { &[(c"version", v)] };
            if d >> 8 == 0 {
                let all: Vec<P> = NAMES.iter().map(|s| string(s.as_bytes())).collect();
                check!(!call(f, &[sequence(&all, false)], named).is_null());
            } else {
                let mut earlier: Vec<P> = Vec::with_capacity(2);
                for k in 0..2 {
                    let layout = d >> (8 + 8 * k) & 255;
                    if layout != 0 {
                        earlier.push(string(&any_text(600 + 10 * k, layout)));
                    }
                }
                if call(f, &[sequence(&earlier, false)], named).is_null() {
                    error();
                }
            }
        }
        let mut all: Vec<Vec<u8>> = Vec::with_capacity(16);
        for (k, class) in b"LMNPSZC".iter().enumerate() {
            if c >> k & 1 == 1 {
                all.push(vec![*class]);
            }
        }
        all.extend(names(b, 100).unwrap_or_default());
        let objects: Vec<P> = all.iter().map(|s| string(s)).collect();
        let list = sequence(&objects, b & 3 == 3);
        let k = (a & 255) as usize;
        let v = version(m, k);
        let got = match (a >> 8 & 1 == 1, v.is_null()) {
            (false, false) => call(f, &[list, v], &[]),
            (false, true) => call(f, &[list], &[]),
            (true, false) => call(f, &[], &[(c"version", v), (c"categories", list)]),
            (true, true) => call(f, &[], &[(c"categories", list)]),
        };
        let given: Vec<&str> = all.iter().map(|s| text(s)).collect();
        match unicode_intervals::as_general_categories(given, core_version(k)) {
            Ok(want) => {
                reach(1);
                note(1, want.len() as u64);
                check!(!got.is_null());
                strings(got, &want);
            }
            Err(e) => {
                reach(2);
                check!(got.is_null());
                let (value, message) = error();
                check!(value);
                check!(is(message, &e.to_string()));
            }
        }
    }
}

/// What the module exports, and calls it has to refuse.
#[no_mangle]
pub extern "C" fn h_pymodule(_a: u64, _b: u64, _c: u64, _d: u64) {
    unsafe {
        let m = module();
        for name in [c"query", c"categories", c"as_general_categories", c"UnicodeVersion", c"available_versions", c"__version__"] {
            check!(!PyObject_GetAttrString(m, name.as_ptr()).is_null());
        }
        let number = PyLong_FromLong(any_bits(1, 64) as c_long);
        reach(1);
        // A number is no version, no string and no list of names.
        for (f, name) in [
            (c"query", c"version"),
            (c"query", c"categories"),
            (c"query", c"exclude_categories"),
            (c"query", c"include_characters"),
            (c"query", c"exclude_characters"),
            (c"query", c"no_such_argument"),
            (c"categories", c"version"),
            (c"as_general_categories", c"categories"),
        ] {
            check!(call(attr(m, f), &[], &[(name, number)]).is_null());
            let (mut t, mut v, mut b) = (null_mut(), null_mut(), null_mut());
            PyErr_Fetch(&mut t, &mut v, &mut b);
            check!(!t.is_null());
        }
    }
}
