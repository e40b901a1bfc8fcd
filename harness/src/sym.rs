//! The harness primitives. In the symbolic build they are undefined symbols the
//! executor interprets; the replay program defines them over recorded inputs.

pub type H = extern "C" fn(u64, u64, u64, u64);

mod raw {
    extern "C" {
        pub fn sym_bits(id: u32, bits: u32) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, id: u32);
        pub fn sym_reach(id: u32);
        pub fn sym_note(id: u32, v: u64);
        pub fn sym_select(dst: *mut u8, src: *const u8, len: usize, c: bool);
        pub fn sym_ite(c: bool, a: u64, b: u64) -> u64;
        pub fn sym_concretize(v: u64) -> u64;
    }
}

#[inline(always)]
pub fn any_u32(id: u32) -> u32 {
    (unsafe { raw::sym_bits(id, 32) }) as u32
}
#[inline(always)]
pub fn any_u8(id: u32) -> u8 {
    (unsafe { raw::sym_bits(id, 8) }) as u8
}
#[inline(always)]
pub fn any_bool(id: u32) -> bool {
    (unsafe { raw::sym_bits(id, 1) }) != 0
}
#[inline(always)]
pub fn any_bits(id: u32, bits: u32) -> u64 {
    unsafe { raw::sym_bits(id, bits) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { raw::sym_assume(c) }
}
#[inline(always)]
pub fn check_id(c: bool, id: u32) {
    unsafe { raw::sym_assert(c, id) }
}
/// The path got here: every job lists the marks it has to reach.
#[inline(always)]
pub fn reach(id: u32) {
    unsafe { raw::sym_reach(id) }
}
/// Observed value: symbolic run and native run have to agree on it.
#[inline(always)]
pub fn note(id: u32, v: u64) {
    unsafe { raw::sym_note(id, v) }
}
/// `if c { *dst = src }` without a branch.
#[inline(always)]
pub fn select<T: Copy>(dst: &mut T, src: &T, c: bool) {
    unsafe {
        raw::sym_select(
            (dst as *mut T).cast(),
            (src as *const T).cast(),
            core::mem::size_of::<T>(),
            c,
        )
    }
}
/// `if c { a } else { b }` without a branch.
#[inline(always)]
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { raw::sym_ite(c, a, b) }
}
#[inline(always)]
pub fn ite32(c: bool, a: u32, b: u32) -> u32 {
    (unsafe { raw::sym_ite(c, a as u64, b as u64) }) as u32
}
/// Split the run over the feasible values.
#[inline(always)]
pub fn concretize(v: u64) -> u64 {
    unsafe { raw::sym_concretize(v) }
}
/// A symbolic number in `[lo, hi]`.
#[inline(always)]
pub fn any_in(id: u32, lo: u32, hi: u32) -> u32 {
    let x = any_u32(id);
    assume((lo <= x) & (x <= hi));
    x
}
/// A symbolic choice out of `n`, split into one path each.
#[inline(always)]
pub fn pick(id: u32, n: u32) -> u32 {
    let x = any_u32(id);
    assume(x < n);
    concretize(x as u64) as u32
}

/// An assertion, identified by its line.
macro_rules! check {
    ($c:expr) => {
        $crate::sym::check_id($c, line!())
    };
}
