//! Z3 through its C interface: two incremental solvers that follow the path
//! condition, one over integers for conditions made of comparisons, sums and choices
//! (wrap-around is encoded, not assumed away), one over bit-vectors for everything
//! else, and a one-shot bit-vector solver for the queries both give up on.
use std::collections::HashMap;
use std::ffi::{c_char, c_uint, c_void, CStr, CString};
use std::time::Instant;

use crate::expr::{ctx, mask, ExprId, Op};

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_get_error_code(c: P) -> c_uint;
    fn Z3_get_error_msg(c: P, e: c_uint) -> *const c_char;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> i32;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_bool_value(c: P, a: P) -> i32;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(c: P, e: c_uint) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().into_owned() };
    eprintln!("z3 error: {m}");
    std::process::abort();
}

pub enum Res {
    Sat(Vec<u128>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub guessed: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub hard: u64,
    pub ints: u64,
    pub ms: f64,
    pub max_ms: f64,
}

pub struct Solver {
    c: P,
    inc: P,
    inc_stack: Vec<ExprId>,
    int: P,
    int_stack: Vec<ExprId>,
    int_vars: usize,
    int_cache: HashMap<ExprId, Option<P>>,
    /// Single bits of variables, on their own in the integer queries: their `unsat` holds
    /// for the real bits too, their models are evaluated before use.
    bits: Vec<(usize, u32, P)>,
    cache: HashMap<ExprId, P>,
    qf_bv: P,
    p_short: P,
    p_int: P,
    p_long: P,
    pub stats: Stats,
    /// Dump decided queries (SMT-LIB2) here, at most this many.
    pub dump: Option<(String, usize)>,
    dumped: usize,
    pub last_ms: f64,
    /// Recent cost of the incremental way (with what follows when it gives up) and of the direct one.
    inc_ms: f64,
    direct_ms: f64,
    turn: u64,
}

fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Solver {
    pub fn new(short_ms: u32, long_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cs("model").as_ptr(), cs("true").as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let inc = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, inc);
            let int = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, int);
            let mkp = |ms: u32| {
                let p = Z3_mk_params(c);
                Z3_params_inc_ref(c, p);
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, cs("timeout").as_ptr()), ms);
                p
            };
            let p_short = mkp(short_ms);
            let p_long = mkp(long_ms);
            Z3_solver_set_params(c, inc, p_short);
            let p_int = mkp((short_ms / 4).max(500));
            Z3_solver_set_params(c, int, p_int);
            let qf_bv = Z3_mk_string_symbol(c, cs("QF_BV").as_ptr());
            Solver {
                c,
                inc,
                inc_stack: vec![],
                int,
                int_stack: vec![],
                int_vars: 0,
                int_cache: HashMap::new(),
                bits: vec![],
                cache: HashMap::new(),
                qf_bv,
                p_short,
                p_int,
                p_long,
                stats: Stats::default(),
                dump: None,
                dumped: 0,
                inc_ms: 0.0, direct_ms: 0.0, turn: 0, last_ms: 0.0,
            }
        }
    }

    fn ast(&mut self, e: ExprId) -> P {
        if let Some(&a) = self.cache.get(&e) {
            return a;
        }
        let n = *ctx().n(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.w == 1 {
                        if n.k == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else if n.w <= 64 {
                        Z3_mk_unsigned_int64(c, n.k as u64, Z3_mk_bv_sort(c, n.w))
                    } else {
                        Z3_mk_numeral(c, cs(&n.k.to_string()).as_ptr(), Z3_mk_bv_sort(c, n.w))
                    }
                }
                Op::Var => {
                    let s = Z3_mk_string_symbol(c, cs(&format!("v{}", n.k)).as_ptr());
                    let t = if n.w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, n.w) };
                    Z3_mk_const(c, s, t)
                }
                Op::Ite => {
                    let (x, y, z) = (self.ast(n.a), self.ast(n.b), self.ast(n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Concat => {
                    let (x, y) = (self.bv(n.a), self.bv(n.b));
                    Z3_mk_concat(c, x, y)
                }
                Op::Extract => {
                    let x = self.bv(n.a);
                    let r = Z3_mk_extract(c, n.k as u32 + n.w - 1, n.k as u32, x);
                    if n.w == 1 {
                        Z3_inc_ref(c, r);
                        Z3_mk_eq(c, r, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))
                    } else {
                        r
                    }
                }
                Op::ZExt | Op::SExt => {
                    let x = self.bv(n.a);
                    let d = n.w - ctx().w(n.a);
                    if n.op == Op::ZExt {
                        Z3_mk_zero_ext(c, d, x)
                    } else {
                        Z3_mk_sign_ext(c, d, x)
                    }
                }
                Op::Eq => {
                    let (x, y) = (self.ast(n.a), self.ast(n.b));
                    Z3_mk_eq(c, x, y)
                }
                Op::And | Op::Or | Op::Xor if n.w == 1 => {
                    let (x, y) = (self.ast(n.a), self.ast(n.b));
                    match n.op {
                        Op::And => Z3_mk_and(c, 2, [x, y].as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, [x, y].as_ptr()),
                        _ => {
                            if ctx().const_val(n.b) == Some(1) {
                                Z3_mk_not(c, x)
                            } else {
                                Z3_mk_xor(c, x, y)
                            }
                        }
                    }
                }
                op => {
                    let (x, y) = (self.bv(n.a), self.bv(n.b));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::Ult => Z3_mk_bvult(c, x, y),
                        Op::Slt => Z3_mk_bvslt(c, x, y),
                        _ => unreachable!(),
                    }
                }
            }
        };
        assert!(!r.is_null(), "z3 term {:?}", unsafe { Z3_get_error_code(c) });
        // Width-1 arithmetic results (shifts, divisions) come back as bit-vectors.
        let r = if n.w == 1
            && matches!(
                n.op,
                Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Shl | Op::LShr | Op::AShr
            ) {
            unsafe {
                Z3_inc_ref(c, r);
                Z3_mk_eq(c, r, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))
            }
        } else {
            r
        };
        unsafe { Z3_inc_ref(c, r) };
        self.cache.insert(e, r);
        r
    }
    /// The term as a bit-vector (width-1 terms are Booleans otherwise).
    fn bv(&mut self, e: ExprId) -> P {
        let a = self.ast(e);
        if ctx().w(e) != 1 {
            return a;
        }
        unsafe {
            let s = Z3_mk_bv_sort(self.c, 1);
            let one = Z3_mk_unsigned_int64(self.c, 1, s);
            Z3_inc_ref(self.c, one);
            let zero = Z3_mk_unsigned_int64(self.c, 0, s);
            Z3_inc_ref(self.c, zero);
            let r = Z3_mk_ite(self.c, a, one, zero);
            Z3_inc_ref(self.c, r);
            r
        }
    }

    fn num(&mut self, v: u128) -> P {
        unsafe {
            let r = Z3_mk_numeral(self.c, cs(&v.to_string()).as_ptr(), Z3_mk_int_sort(self.c));
            Z3_inc_ref(self.c, r);
            r
        }
    }

    /// The term over the integers (Booleans for width 1), if it is in the fragment.
    fn int(&mut self, e: ExprId) -> Option<P> {
        if let Some(r) = self.int_cache.get(&e) {
            return *r;
        }
        let r = self.int_build(e);
        if let Some(a) = r {
            unsafe { Z3_inc_ref(self.c, a) };
        }
        self.int_cache.insert(e, r);
        r
    }
    fn int_build(&mut self, e: ExprId) -> Option<P> {
        let x = ctx();
        let n = *x.n(e);
        let c = self.c;
        if n.w > 64 {
            return None;
        }
        let keep = |a: P| unsafe {
            Z3_inc_ref(c, a);
            a
        };
        unsafe {
            Some(match n.op {
                Op::Const if n.w == 1 => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Const => self.num(n.k),
                Op::Var => {
                    let t = if n.w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_int_sort(c) };
                    let name = if n.w == 1 { format!("v{}", n.k) } else { format!("i{}", n.k) };
                    Z3_mk_const(c, Z3_mk_string_symbol(c, cs(&name).as_ptr()), t)
                }
                Op::Ite => {
                    let (p, q, r) = (self.int(n.a)?, self.int(n.b)?, self.int(n.c)?);
                    Z3_mk_ite(c, p, q, r)
                }
                Op::ZExt => {
                    let a = self.int(n.a)?;
                    if x.w(n.a) == 1 {
                        let (one, zero) = (self.num(1), self.num(0));
                        Z3_mk_ite(c, a, one, zero)
                    } else {
                        a
                    }
                }
                Op::Extract if n.w == 1 && x.n(n.a).op == Op::Var => {
                    let (v, b) = (x.n(n.a).k as usize, n.k as u32);
                    let s = Z3_mk_string_symbol(c, cs(&format!("i{v}b{b}")).as_ptr());
                    let p = keep(Z3_mk_const(c, s, Z3_mk_bool_sort(c)));
                    self.bits.push((v, b, p));
                    p
                }
                Op::Extract if n.k == 0 && n.w > 1 && x.n(n.a).umax <= mask(n.w) => self.int(n.a)?,
                Op::Eq => {
                    let (a, b) = (self.int(n.a)?, self.int(n.b)?);
                    Z3_mk_eq(c, a, b)
                }
                Op::Ult if x.w(n.a) > 1 => {
                    let (a, b) = (self.int(n.a)?, self.int(n.b)?);
                    Z3_mk_lt(c, a, b)
                }
                Op::And | Op::Or | Op::Xor if n.w == 1 => {
                    let a = self.int(n.a)?;
                    if n.op == Op::Xor && x.const_val(n.b) == Some(1) {
                        Z3_mk_not(c, a)
                    } else {
                        let b = self.int(n.b)?;
                        match n.op {
                            Op::And => Z3_mk_and(c, 2, [a, b].as_ptr()),
                            Op::Or => Z3_mk_or(c, 2, [a, b].as_ptr()),
                            _ => Z3_mk_xor(c, a, b),
                        }
                    }
                }
                Op::Add if n.w > 1 => {
                    let m = mask(n.w);
                    let a = self.int(n.a)?;
                    let (na, nb) = (x.n(n.a), x.n(n.b));
                    if nb.op == Op::Const && nb.k > m / 2 {
                        // A subtraction.
                        let s = m - nb.k + 1;
                        let ks = self.num(s);
                        let plain = keep(Z3_mk_sub(c, 2, [a, ks].as_ptr()));
                        if na.umin >= s {
                            plain
                        } else {
                            let kb = self.num(nb.k);
                            let wrapped = keep(Z3_mk_add(c, 2, [a, kb].as_ptr()));
                            let fits = keep(Z3_mk_le(c, ks, a));
                            Z3_mk_ite(c, fits, plain, wrapped)
                        }
                    } else {
                        let b = self.int(n.b)?;
                        let plain = keep(Z3_mk_add(c, 2, [a, b].as_ptr()));
                        if na.umax <= m - nb.umax {
                            plain
                        } else {
                            let top = self.num(m + 1);
                            let fits = keep(Z3_mk_lt(c, plain, top));
                            let wrapped = keep(Z3_mk_sub(c, 2, [plain, top].as_ptr()));
                            Z3_mk_ite(c, fits, plain, wrapped)
                        }
                    }
                }
                Op::Sub if n.w > 1 => {
                    let (a, b) = (self.int(n.a)?, self.int(n.b)?);
                    let plain = keep(Z3_mk_sub(c, 2, [a, b].as_ptr()));
                    if x.n(n.a).umin >= x.n(n.b).umax {
                        plain
                    } else {
                        let top = self.num(mask(n.w) + 1);
                        let fits = keep(Z3_mk_le(c, b, a));
                        let wrapped = keep(Z3_mk_add(c, 2, [plain, top].as_ptr()));
                        Z3_mk_ite(c, fits, plain, wrapped)
                    }
                }
                Op::Concat if n.w > 1 => {
                    let lw = x.w(n.b);
                    let mut parts = [std::ptr::null_mut(); 2];
                    for (k, t) in [n.a, n.b].into_iter().enumerate() {
                        let a = self.int(t)?;
                        parts[k] = if x.w(t) == 1 {
                            let (one, zero) = (self.num(1), self.num(0));
                            keep(Z3_mk_ite(c, a, one, zero))
                        } else {
                            a
                        };
                    }
                    let k = self.num(1u128 << lw);
                    let hi = keep(Z3_mk_mul(c, 2, [parts[0], k].as_ptr()));
                    Z3_mk_add(c, 2, [hi, parts[1]].as_ptr())
                }
                _ => return None,
            })
        }
    }

    /// The query over the integers, if every condition is in the fragment.
    fn check_int(&mut self, pc: &[ExprId], extra: ExprId) -> Option<Res> {
        self.int(extra)?;
        let nv = ctx().vars.len();
        if self.int_vars < nv {
            // New variables: their bounds go below everything else.
            unsafe { Z3_solver_pop(self.c, self.int, self.int_stack.len() as u32) };
            self.int_stack.clear();
            for i in self.int_vars..nv {
                let w = ctx().vars[i].1;
                if w == 1 {
                    continue;
                }
                unsafe {
                    let s = Z3_mk_string_symbol(self.c, cs(&format!("i{i}")).as_ptr());
                    let v = Z3_mk_const(self.c, s, Z3_mk_int_sort(self.c));
                    Z3_inc_ref(self.c, v);
                    let (zero, top) = (self.num(0), self.num(mask(w)));
                    Z3_solver_assert(self.c, self.int, Z3_mk_le(self.c, zero, v));
                    Z3_solver_assert(self.c, self.int, Z3_mk_le(self.c, v, top));
                }
            }
            self.int_vars = nv;
        }
        let common = self.int_stack.iter().zip(pc).take_while(|(a, b)| a == b).count();
        for &e in &pc[common..] {
            self.int(e)?;
        }
        unsafe {
            let drop = self.int_stack.len() - common;
            if drop > 0 {
                Z3_solver_pop(self.c, self.int, drop as u32);
                self.int_stack.truncate(common);
            }
            for &e in &pc[common..] {
                Z3_solver_push(self.c, self.int);
                let a = self.int(e)?;
                Z3_solver_assert(self.c, self.int, a);
                self.int_stack.push(e);
            }
            Z3_solver_push(self.c, self.int);
            let a = self.int(extra)?;
            Z3_solver_assert(self.c, self.int, a);
            let r = Z3_solver_check(self.c, self.int);
            let res = match r {
                1 => {
                    let m = self.model(self.int, true);
                    let mut memo = HashMap::new();
                    let x = ctx();
                    let fits = self.bits.is_empty()
                        || pc.iter().chain([&extra]).all(|e| x.eval(*e, &m, &mut memo) == 1);
                    fits.then_some(Res::Sat(m))
                }
                -1 => Some(Res::Unsat),
                _ => None,
            };
            if self.dump.is_some() && res.is_some() {
                let s = self.int;
                self.write_dump(s, if r == 1 { "sat" } else { "unsat" }, "QF_LIA");
            }
            if r == 0 {
                Z3_solver_dec_ref(self.c, self.int);
                self.int = Z3_mk_simple_solver(self.c);
                Z3_solver_inc_ref(self.c, self.int);
                Z3_solver_set_params(self.c, self.int, self.p_int);
                self.int_stack.clear();
                self.int_vars = 0;
                return None;
            }
            Z3_solver_pop(self.c, self.int, 1);
            res
        }
    }

    fn model(&mut self, s: P, ints: bool) -> Vec<u128> {
        let n = ctx().vars.len();
        let mut out = vec![0u128; n];
        unsafe {
            let m = Z3_solver_get_model(self.c, s);
            Z3_model_inc_ref(self.c, m);
            for (i, slot) in out.iter_mut().enumerate() {
                let w = ctx().vars[i].1;
                let name = if ints && w > 1 { format!("i{i}") } else { format!("v{i}") };
                let sy = Z3_mk_string_symbol(self.c, cs(&name).as_ptr());
                let t = match (w, ints) {
                    (1, _) => Z3_mk_bool_sort(self.c),
                    (_, true) => Z3_mk_int_sort(self.c),
                    _ => Z3_mk_bv_sort(self.c, w),
                };
                let a = Z3_mk_const(self.c, sy, t);
                Z3_inc_ref(self.c, a);
                let mut r: P = std::ptr::null_mut();
                if Z3_model_eval(self.c, m, a, true, &mut r) {
                    Z3_inc_ref(self.c, r);
                    *slot = if w == 1 {
                        (Z3_get_bool_value(self.c, r) == 1) as u128
                    } else {
                        CStr::from_ptr(Z3_get_numeral_string(self.c, r))
                            .to_string_lossy()
                            .parse::<u128>()
                            .unwrap_or(0)
                            & mask(w)
                    };
                }
            }
            if ints {
                for &(v, b, p) in &self.bits {
                    let mut r: P = std::ptr::null_mut();
                    if v < n && Z3_model_eval(self.c, m, p, true, &mut r) {
                        Z3_inc_ref(self.c, r);
                        let bit = (Z3_get_bool_value(self.c, r) == 1) as u128;
                        out[v] = out[v] & !(1 << b) | bit << b;
                    }
                }
            }
            Z3_model_dec_ref(self.c, m);
        }
        out
    }

    fn write_dump(&mut self, s: P, verdict: &str, logic: &str) {
        if let Some((dir, cap)) = &self.dump {
            if self.dumped < *cap {
                let t = unsafe { CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().into_owned() };
                let f = format!("{dir}/q{}_{}.smt2", std::process::id(), self.dumped);
                let _ = std::fs::write(f, format!("; verdict: {verdict}\n(set-logic {logic})\n{t}\n(check-sat)\n"));
                self.dumped += 1;
            }
        }
    }

    /// Is `pc` together with `extra` satisfiable?
    pub fn check(&mut self, pc: &[ExprId], extra: ExprId, base: &[u128]) -> Res {
        let t0 = Instant::now();
        self.stats.queries += 1;
        if let Some(res) = self.check_int(pc, extra) {
            self.stats.ints += 1;
            match res {
                Res::Sat(_) => self.stats.sat += 1,
                _ => self.stats.unsat += 1,
            }
            let ms = t0.elapsed().as_secs_f64() * 1000.0;
            self.last_ms = ms;
            self.stats.ms += ms;
            self.stats.max_ms = self.stats.max_ms.max(ms);
            return res;
        }
        let res = unsafe {
            // Whichever way was faster lately; now and then the other one.
            self.turn += 1;
            let direct = (self.direct_ms * 1.2 < self.inc_ms) != (self.turn % 64 == 0 && self.direct_ms > 0.0);
            let mut res = Res::Unknown;
            if !direct {
                res = self.check_incremental(pc, extra);
                if matches!(res, Res::Unknown) {
                    self.stats.hard += 1;
                    // An interrupted solver is not asked again.
                    Z3_solver_dec_ref(self.c, self.inc);
                    self.inc = Z3_mk_simple_solver(self.c);
                    Z3_solver_inc_ref(self.c, self.inc);
                    Z3_solver_set_params(self.c, self.inc, self.p_short);
                    self.inc_stack.clear();
                }
            }
            if matches!(res, Res::Unknown) {
                let t1 = Instant::now();
                res = self.check_direct(pc, extra, base);
                let ms = t1.elapsed().as_secs_f64() * 1000.0;
                self.direct_ms = if self.direct_ms == 0.0 { ms } else { self.direct_ms * 0.9 + ms * 0.1 };
            }
            if !direct {
                let ms = t0.elapsed().as_secs_f64() * 1000.0;
                self.inc_ms = self.inc_ms * 0.9 + ms * 0.1;
            }
            res
        };
        {
            match res {
                Res::Sat(_) => self.stats.sat += 1,
                Res::Unsat => self.stats.unsat += 1,
                Res::Unknown => self.stats.unknown += 1,
            }
            let ms = t0.elapsed().as_secs_f64() * 1000.0;
            self.last_ms = ms;
            self.stats.ms += ms;
            self.stats.max_ms = self.stats.max_ms.max(ms);
            res
        }
    }

    unsafe fn check_incremental(&mut self, pc: &[ExprId], extra: ExprId) -> Res {
        let common = self.inc_stack.iter().zip(pc).take_while(|(a, b)| a == b).count();
        let drop = self.inc_stack.len() - common;
        if drop > 0 {
            Z3_solver_pop(self.c, self.inc, drop as u32);
            self.inc_stack.truncate(common);
        }
        for &e in &pc[common..] {
            Z3_solver_push(self.c, self.inc);
            let a = self.ast(e);
            Z3_solver_assert(self.c, self.inc, a);
            self.inc_stack.push(e);
        }
        Z3_solver_push(self.c, self.inc);
        let a = self.ast(extra);
        Z3_solver_assert(self.c, self.inc, a);
        let r = Z3_solver_check(self.c, self.inc);
        let res = match r {
            1 => Res::Sat(self.model(self.inc, false)),
            -1 => Res::Unsat,
            _ => Res::Unknown,
        };
        if self.dump.is_some() && r != 0 {
            let s = self.inc;
            self.write_dump(s, if r == 1 { "sat" } else { "unsat" }, "QF_BV");
        }
        Z3_solver_pop(self.c, self.inc, 1);
        res
    }

    /// Only the conditions that share inputs with the question, directly or not; `base`
    /// satisfies all of `pc` and gives the other inputs.
    unsafe fn check_direct(&mut self, pc: &[ExprId], extra: ExprId, base: &[u128]) -> Res {
        let mut vars = ctx().n(extra).vars;
        let mut rest: Vec<ExprId> = pc.to_vec();
        let mut part: Vec<ExprId> = vec![extra];
        loop {
            let n = part.len();
            rest.retain(|&e| {
                let v = ctx().n(e).vars;
                let take = v & vars != 0 || v == 0;
                if take {
                    vars |= v;
                    part.push(e);
                }
                !take
            });
            if part.len() == n {
                break;
            }
        }
        let s = Z3_mk_solver_for_logic(self.c, self.qf_bv);
        Z3_solver_inc_ref(self.c, s);
        Z3_solver_set_params(self.c, s, self.p_long);
        for &e in part.iter() {
            let a = self.ast(e);
            Z3_solver_assert(self.c, s, a);
        }
        let r = Z3_solver_check(self.c, s);
        let res = match r {
            1 => {
                let mut m = self.model(s, false);
                for (k, v) in m.iter_mut().enumerate() {
                    if vars >> (k % 128) & 1 == 0 {
                        *v = base.get(k).copied().unwrap_or(0);
                    }
                }
                Res::Sat(m)
            }
            -1 => Res::Unsat,
            _ => Res::Unknown,
        };
        if self.dump.is_some() && r != 0 {
            self.write_dump(s, if r == 1 { "sat" } else { "unsat" }, "QF_BV");
        }
        Z3_solver_dec_ref(self.c, s);
        res
    }
}
