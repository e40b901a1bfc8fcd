//! Runs the harnesses natively, against the real code, over recorded inputs.
//!
//! `replay FILE`: the lines are `job NAME ARGS...`, `input ID OCCURRENCE VALUE` and, to
//! compare, nothing else. Prints `note ID VALUE`, `fail LINE` for a failed assertion,
//! and ends with 0 (went through), 10 (assertion failed), 77 (the inputs break an
//! assumption of the harness) or a panic's code.
#![allow(clippy::missing_safety_doc)]
include!("modules.rs");

use std::cell::RefCell;
use std::collections::HashMap;

thread_local! {
    static INPUTS: RefCell<HashMap<(u32, u32), u64>> = RefCell::new(HashMap::new());
    static SEEN: RefCell<HashMap<u32, u32>> = RefCell::new(HashMap::new());
}

#[no_mangle]
pub extern "C" fn sym_bits(id: u32, bits: u32) -> u64 {
    let occ = SEEN.with(|s| {
        let mut s = s.borrow_mut();
        let n = s.entry(id).or_insert(0);
        *n += 1;
        *n - 1
    });
    let v = INPUTS.with(|i| i.borrow().get(&(id, occ)).copied().unwrap_or(0));
    if bits >= 64 {
        v
    } else {
        v & ((1 << bits) - 1)
    }
}
#[no_mangle]
pub extern "C" fn sym_assume(c: bool) {
    if !c {
        std::process::exit(77);
    }
}
#[no_mangle]
pub extern "C" fn sym_assert(c: bool, id: u32) {
    if !c {
        println!("fail {id}");
        std::process::exit(10);
    }
}
#[no_mangle]
pub extern "C" fn sym_reach(_id: u32) {}
#[no_mangle]
pub extern "C" fn sym_note(id: u32, v: u64) {
    println!("note {id} {v}");
}
#[no_mangle]
pub unsafe extern "C" fn sym_select(dst: *mut u8, src: *const u8, len: usize, c: bool) {
    if c {
        std::ptr::copy(src, dst, len);
    }
}
#[no_mangle]
pub extern "C" fn sym_ite(c: bool, a: u64, b: u64) -> u64 {
    if c {
        a
    } else {
        b
    }
}
#[no_mangle]
pub extern "C" fn sym_concretize(v: u64) -> u64 {
    v
}

macro_rules! table {
    ($($f:literal $m:ident: $($n:ident),+;)+) => {
        fn find(name: &str) -> Option<sym::H> {
            $($(
                #[cfg(feature = $f)]
                if name == stringify!($n) {
                    return Some($m::$n);
                }
            )+)+
            None
        }
    };
}
include!("table.rs");

fn main() {
    let path = std::env::args().nth(1).expect("a file");
    run(&path);
}

/// For a run inside a Python process.
#[no_mangle]
pub unsafe extern "C" fn replay_main(path: *const std::ffi::c_char) {
    run(std::ffi::CStr::from_ptr(path).to_str().expect("a path"));
    std::process::exit(0);
}

fn run(path: &str) {
    let text = std::fs::read_to_string(path).expect("readable");
    let mut job: Vec<String> = Vec::new();
    for line in text.lines() {
        let p: Vec<&str> = line.split_whitespace().collect();
        match p.first() {
            Some(&"job") => job = p[1..].iter().map(|s| s.to_string()).collect(),
            Some(&"input") => {
                let n = |k: usize| p[k].parse::<u64>().expect("number");
                INPUTS.with(|i| i.borrow_mut().insert((n(1) as u32, n(2) as u32), n(3)));
            }
            _ => {}
        }
    }
    let mut a = [0u64; 4];
    for (k, s) in job.iter().skip(1).enumerate() {
        a[k] = s.parse().expect("number");
    }
    let f = find(&job[0]).expect("a harness of this build");
    f(a[0], a[1], a[2], a[3]);
}
