//! Hash-consed bit-vector terms with simplification.
use std::cell::UnsafeCell;
use std::collections::HashMap;

pub type ExprId = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    /// a = high part, b = low part
    Concat,
    /// k = lowest bit, width = width
    Extract,
    ZExt,
    SExt,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Key {
    op: Op,
    w: u8,
    a: ExprId,
    b: ExprId,
    c: ExprId,
    k: u128,
}

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: ExprId,
    pub b: ExprId,
    pub c: ExprId,
    /// Constant value, variable number or extraction offset.
    pub k: u128,
    /// Variables below (bit `v % 128`).
    pub vars: u128,
    pub umin: u128,
    pub umax: u128,
    /// Bits known to be zero.
    pub kz: u128,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    table: HashMap<Key, ExprId>,
    pub vars: Vec<(String, u32)>,
    pub var_ids: HashMap<(u32, u32), u32>,
    /// Extractions pushed into a term: shared subterms are visited once.
    extracted: HashMap<(ExprId, u32, u32), ExprId>,
}

thread_local! {
    static CTX: UnsafeCell<Ctx> = UnsafeCell::new(Ctx::new());
}

/// The terms of this thread. The engine is single-threaded (jobs run in forked processes).
#[allow(clippy::mut_from_ref)]
pub fn ctx() -> &'static mut Ctx {
    CTX.with(|c| unsafe { &mut *c.get() })
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

fn smear(v: u128) -> u128 {
    if v == 0 {
        0
    } else {
        u128::MAX >> v.leading_zeros()
    }
}

impl Ctx {
    fn new() -> Ctx {
        Ctx {
            nodes: vec![],
            table: HashMap::new(),
            vars: vec![],
            var_ids: HashMap::new(),
            extracted: HashMap::new(),
        }
    }
    #[inline]
    pub fn n(&self, e: ExprId) -> &Node {
        &self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: ExprId) -> u32 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn const_val(&self, e: ExprId) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn mk(&mut self, op: Op, w: u32, a: ExprId, b: ExprId, c: ExprId, k: u128) -> ExprId {
        let key = Key { op, w: w as u8, a, b, c, k };
        if let Some(&e) = self.table.get(&key) {
            return e;
        }
        let m = mask(w);
        let none = u32::MAX;
        let get = |e: ExprId| -> Option<Node> {
            if e == none {
                None
            } else {
                Some(self.nodes[e as usize])
            }
        };
        let (na, nb, nc) = (get(a), get(b), get(c));
        let mut vars = 0;
        for n in [&na, &nb, &nc].into_iter().flatten() {
            vars |= n.vars;
        }
        let (mut lo, mut hi, mut kz) = (0u128, m, 0u128);
        match op {
            Op::Const => {
                lo = k;
                hi = k;
                kz = !k & m;
            }
            Op::Var => vars = 1u128 << (k % 128),
            Op::Add => {
                let (x, y) = (na.unwrap(), nb.unwrap());
                if let Some(h) = x.umax.checked_add(y.umax) {
                    if h <= m {
                        lo = x.umin + y.umin;
                        hi = h;
                    } else if w < 128 && x.umin + y.umin > m {
                        lo = (x.umin + y.umin) & m;
                        hi = h & m;
                    }
                }
                let t = (!x.kz & m).trailing_zeros().min((!y.kz & m).trailing_zeros());
                if t > 0 {
                    kz |= mask(t.min(w));
                }
            }
            Op::Sub => {
                let (x, y) = (na.unwrap(), nb.unwrap());
                if x.umin >= y.umax {
                    lo = x.umin - y.umax;
                    hi = x.umax - y.umin;
                }
            }
            Op::Mul => {
                let (x, y) = (na.unwrap(), nb.unwrap());
                if let Some(h) = x.umax.checked_mul(y.umax) {
                    if h <= m {
                        lo = x.umin.saturating_mul(y.umin);
                        hi = h;
                    }
                }
                let t = (!x.kz & m).trailing_zeros().min(w) + (!y.kz & m).trailing_zeros().min(w);
                if t > 0 {
                    kz |= mask(t.min(w));
                }
            }
            Op::UDiv => {
                let (x, y) = (na.unwrap(), nb.unwrap());
                if y.umin > 0 {
                    lo = x.umin / y.umax;
                    hi = x.umax / y.umin;
                }
            }
            Op::URem => {
                let (x, y) = (na.unwrap(), nb.unwrap());
                if y.umin > 0 {
                    hi = (y.umax - 1).min(x.umax);
                }
            }
            Op::And => {
                let (x, y) = (na.unwrap(), nb.unwrap());
                kz = x.kz | y.kz;
                hi = x.umax.min(y.umax);
            }
            Op::Or => {
                let (x, y) = (na.unwrap(), nb.unwrap());
                kz = x.kz & y.kz;
                lo = x.umin.max(y.umin);
                hi = smear(x.umax | y.umax);
            }
            Op::Xor => {
                let (x, y) = (na.unwrap(), nb.unwrap());
                kz = x.kz & y.kz;
                hi = smear(x.umax | y.umax);
            }
            Op::LShr => {
                let (x, y) = (na.unwrap(), nb.unwrap());
                hi = if y.umin < 128 { x.umax >> y.umin } else { 0 };
            }
            Op::Ite => {
                let (x, y) = (nb.unwrap(), nc.unwrap());
                lo = x.umin.min(y.umin);
                hi = x.umax.max(y.umax);
                kz = x.kz & y.kz;
            }
            Op::Concat => {
                let (x, y) = (na.unwrap(), nb.unwrap());
                lo = (x.umin << y.w) | y.umin;
                hi = (x.umax << y.w) | y.umax;
                kz = (x.kz << y.w) | y.kz;
            }
            Op::Extract => {
                let x = na.unwrap();
                kz = (x.kz >> k) & m;
                let up = x.umax >> k;
                if up <= m {
                    lo = x.umin >> k;
                    hi = up;
                }
            }
            Op::ZExt => {
                let x = na.unwrap();
                lo = x.umin;
                hi = x.umax;
                kz = x.kz | (m & !mask(x.w));
            }
            Op::SExt => {
                let x = na.unwrap();
                if x.umax < (1u128 << (x.w - 1)) {
                    lo = x.umin;
                    hi = x.umax;
                    kz = x.kz | (m & !mask(x.w));
                } else {
                    kz = x.kz & (mask(x.w) >> 1);
                }
            }
            Op::Shl | Op::AShr | Op::SDiv | Op::SRem | Op::Eq | Op::Ult | Op::Slt => {}
        }
        hi = hi.min(!kz & m);
        kz |= m & !smear(hi);
        if lo >= hi && op != Op::Const {
            // The bounds leave one value.
            let id = self.k(hi, w);
            self.table.insert(key, id);
            return id;
        }
        let id = self.nodes.len() as ExprId;
        self.nodes.push(Node { op, w, a, b, c, k, vars, umin: lo.min(hi), umax: hi, kz: kz & m });
        self.table.insert(key, id);
        id
    }

    pub fn k(&mut self, v: u128, w: u32) -> ExprId {
        self.mk(Op::Const, w, u32::MAX, u32::MAX, u32::MAX, v & mask(w))
    }
    pub fn new_var(&mut self, name: String, w: u32) -> ExprId {
        let i = self.vars.len();
        self.vars.push((name, w));
        self.mk(Op::Var, w, u32::MAX, u32::MAX, u32::MAX, i as u128)
    }
    pub fn var_term(&mut self, i: u32) -> ExprId {
        let w = self.vars[i as usize].1;
        self.mk(Op::Var, w, u32::MAX, u32::MAX, u32::MAX, i as u128)
    }
    fn m1(&mut self, op: Op, w: u32, a: ExprId, k: u128) -> ExprId {
        self.mk(op, w, a, u32::MAX, u32::MAX, k)
    }
    fn m2(&mut self, op: Op, w: u32, a: ExprId, b: ExprId) -> ExprId {
        self.mk(op, w, a, b, u32::MAX, 0)
    }
    fn sorted(&self, a: ExprId, b: ExprId) -> (ExprId, ExprId) {
        // constants last
        match (self.const_val(a), self.const_val(b)) {
            (Some(_), None) => (b, a),
            (None, Some(_)) => (a, b),
            _ => {
                if a <= b {
                    (a, b)
                } else {
                    (b, a)
                }
            }
        }
    }
    /// `Ite(c, const, const)` parts.
    fn kite(&self, e: ExprId) -> Option<(ExprId, u128, u128)> {
        let n = self.n(e);
        if n.op == Op::ZExt && self.w(n.a) == 1 {
            return Some((n.a, 1, 0));
        }
        if n.op == Op::Ite {
            if let (Some(x), Some(y)) = (self.const_val(n.b), self.const_val(n.c)) {
                return Some((n.a, x, y));
            }
        }
        None
    }

    pub fn fold(op: Op, w: u32, x: u128, y: u128) -> u128 {
        let m = mask(w);
        let r = match op {
            Op::Add => x.wrapping_add(y),
            Op::Sub => x.wrapping_sub(y),
            Op::Mul => x.wrapping_mul(y),
            Op::UDiv => {
                if y == 0 {
                    m
                } else {
                    x / y
                }
            }
            Op::URem => {
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            Op::SDiv => {
                let (a, b) = (sext(x, w), sext(y, w));
                if b == 0 {
                    if a >= 0 {
                        m
                    } else {
                        1
                    }
                } else {
                    a.wrapping_div(b) as u128
                }
            }
            Op::SRem => {
                let (a, b) = (sext(x, w), sext(y, w));
                if b == 0 {
                    x
                } else {
                    a.wrapping_rem(b) as u128
                }
            }
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            Op::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => {
                let s = sext(x, w);
                (if y >= w as u128 {
                    if s < 0 {
                        -1
                    } else {
                        0
                    }
                } else {
                    s >> y
                }) as u128
            }
            Op::Eq => (x == y) as u128,
            Op::Ult => (x < y) as u128,
            Op::Slt => (sext(x, w) < sext(y, w)) as u128,
            _ => unreachable!(),
        };
        r & m
    }

    pub fn not(&mut self, a: ExprId) -> ExprId {
        let w = self.w(a);
        let k = self.k(mask(w), w);
        self.xor(a, k)
    }
    pub fn add(&mut self, a: ExprId, b: ExprId) -> ExprId {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        let (a, b) = self.sorted(a, b);
        if let Some(y) = self.const_val(b) {
            if y == 0 {
                return a;
            }
            if let Some(x) = self.const_val(a) {
                return self.k(x.wrapping_add(y), w);
            }
            let n = *self.n(a);
            if n.op == Op::Add {
                if let Some(z) = self.const_val(n.b) {
                    let k = self.k(z.wrapping_add(y), w);
                    return self.add(n.a, k);
                }
            }
            if let Some((c, p, q)) = self.kite(a) {
                let p = self.k(p.wrapping_add(y), w);
                let q = self.k(q.wrapping_add(y), w);
                return self.ite(c, p, q);
            }
        } else {
            // (x + c) + y -> (x + y) + c ; (x - y) + y -> x
            let (na, nb) = (*self.n(a), *self.n(b));
            if na.op == Op::Sub && na.b == b {
                return na.a;
            }
            if nb.op == Op::Sub && nb.b == a {
                return nb.a;
            }
            if na.op == Op::Add && self.const_val(na.b).is_some() {
                let s = self.add(na.a, b);
                return self.add(s, na.b);
            }
            if nb.op == Op::Add && self.const_val(nb.b).is_some() {
                let s = self.add(a, nb.a);
                return self.add(s, nb.b);
            }
        }
        self.m2(Op::Add, w, a, b)
    }
    pub fn sub(&mut self, a: ExprId, b: ExprId) -> ExprId {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        if a == b {
            return self.k(0, w);
        }
        if let Some(y) = self.const_val(b) {
            let k = self.k(y.wrapping_neg(), w);
            return self.add(a, k);
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        // move constants outside
        if na.op == Op::Add && self.const_val(na.b).is_some() {
            let s = self.sub(na.a, b);
            return self.add(s, na.b);
        }
        if nb.op == Op::Add {
            if let Some(y) = self.const_val(nb.b) {
                let s = self.sub(a, nb.a);
                let k = self.k(y.wrapping_neg(), w);
                return self.add(s, k);
            }
        }
        if na.op == Op::Add {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        if let (Some(x), Some((c, p, q))) = (self.const_val(a), self.kite(b)) {
            let p = self.k(x.wrapping_sub(p), w);
            let q = self.k(x.wrapping_sub(q), w);
            return self.ite(c, p, q);
        }
        self.m2(Op::Sub, w, a, b)
    }
    pub fn mul(&mut self, a: ExprId, b: ExprId) -> ExprId {
        let w = self.w(a);
        if w == 1 {
            return self.and(a, b);
        }
        let (a, b) = self.sorted(a, b);
        if let Some(y) = self.const_val(b) {
            if let Some(x) = self.const_val(a) {
                return self.k(x.wrapping_mul(y), w);
            }
            if y == 0 {
                return b;
            }
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let k = self.k(y.trailing_zeros() as u128, w);
                return self.shl(a, k);
            }
            if let Some((c, p, q)) = self.kite(a) {
                let p = self.k(p.wrapping_mul(y), w);
                let q = self.k(q.wrapping_mul(y), w);
                return self.ite(c, p, q);
            }
        }
        self.m2(Op::Mul, w, a, b)
    }
    pub fn div(&mut self, op: Op, a: ExprId, b: ExprId) -> ExprId {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.const_val(a), self.const_val(b)) {
            return self.k(Self::fold(op, w, x, y), w);
        }
        if let Some(y) = self.const_val(b) {
            if y != 0 && y.is_power_of_two() {
                let t = y.trailing_zeros();
                if op == Op::UDiv {
                    let k = self.k(t as u128, w);
                    return self.lshr(a, k);
                }
                if op == Op::URem {
                    let k = self.k(y - 1, w);
                    return self.and(a, k);
                }
            }
        }
        self.m2(op, w, a, b)
    }
    /// A test of one term against constants: the term and the inclusive interval in
    /// which the test holds.
    pub fn within(&self, e: ExprId) -> Option<(ExprId, u128, u128)> {
        let n = self.n(e);
        match n.op {
            Op::Ult => {
                let k = self.const_val(n.b)?;
                if k == 0 {
                    return None;
                }
                Some((n.a, 0, k - 1))
            }
            Op::Eq => {
                let k = self.const_val(n.b)?;
                if self.w(n.a) == 1 {
                    return None;
                }
                Some((n.a, k, k))
            }
            Op::Xor if n.w == 1 && self.const_val(n.b) == Some(1) => {
                let t = self.n(n.a);
                if t.op != Op::Ult {
                    return None;
                }
                let k = self.const_val(t.b)?;
                Some((t.a, k, mask(self.w(t.a))))
            }
            _ => None,
        }
    }
    /// Two tests of the same term joined: `Some` when one plain test says the same.
    fn join_tests(&mut self, a: ExprId, b: ExprId, both: bool) -> Option<ExprId> {
        let (x, al, ah) = self.within(a)?;
        let (y, bl, bh) = self.within(b)?;
        if x != y {
            return None;
        }
        let (umin, umax) = (self.n(x).umin, self.n(x).umax);
        let (al, ah) = (al.max(umin), ah.min(umax));
        let (bl, bh) = (bl.max(umin), bh.min(umax));
        if al > ah || bl > bh {
            return None;
        }
        let (lo, hi) = if both {
            (al.max(bl), ah.min(bh))
        } else {
            if al.max(bl) > ah.min(bh).saturating_add(1) {
                return None; // a gap between the two
            }
            (al.min(bl), ah.max(bh))
        };
        if lo > hi {
            return Some(self.k(0, 1));
        }
        if (lo, hi) == (al, ah) {
            return Some(a);
        }
        if (lo, hi) == (bl, bh) {
            return Some(b);
        }
        let w = self.w(x);
        if lo == umin && hi == umax {
            return Some(self.k(1, 1));
        }
        if lo == hi {
            let k = self.k(lo, w);
            return Some(self.eq(x, k));
        }
        if lo == umin {
            let k = self.k(hi + 1, w);
            return Some(self.ult(x, k));
        }
        if hi == umax {
            let k = self.k(lo, w);
            let t = self.ult(x, k);
            return Some(self.not(t));
        }
        None
    }
    /// `(x, k, true)` for max(x, k), `(x, k, false)` for min(x, k).
    fn bound(&self, e: ExprId) -> Option<(ExprId, u128, bool)> {
        let n = self.n(e);
        if n.op != Op::Ite {
            return None;
        }
        let q = self.n(n.a);
        if q.op != Op::Ult {
            return None;
        }
        let k = self.const_val(q.b)?;
        // Ite(x < k, k', x): the maximum when k' is k or k - 1 is the same test
        if q.a == n.c {
            let v = self.const_val(n.b)?;
            if v == k || v + 1 == k {
                return Some((q.a, v, true));
            }
        }
        if q.a == n.b {
            let v = self.const_val(n.c)?;
            if v == k || v + 1 == k {
                return Some((q.a, v, false));
            }
        }
        None
    }
    pub fn and(&mut self, a: ExprId, b: ExprId) -> ExprId {
        let w = self.w(a);
        let (a, b) = self.sorted(a, b);
        if a == b {
            return a;
        }
        let m = mask(w);
        if let Some(y) = self.const_val(b) {
            if let Some(x) = self.const_val(a) {
                return self.k(x & y, w);
            }
            if y == 0 {
                return b;
            }
            // bits that can be set are all kept
            if (!self.n(a).kz & m) & !y == 0 {
                return a;
            }
            if let Some((c, p, q)) = self.kite(a) {
                let p = self.k(p & y, w);
                let q = self.k(q & y, w);
                return self.ite(c, p, q);
            }
            let n = *self.n(a);
            if n.op == Op::And {
                if let Some(z) = self.const_val(n.b) {
                    let k = self.k(z & y, w);
                    return self.and(n.a, k);
                }
            }
            if w > 1 {
                // A run of ones: cut the bits out.
                let t = y.trailing_zeros();
                let run = (y >> t).trailing_ones();
                if y == mask(run) << t {
                    let mid = self.extract(a, t, run);
                    let lowk = if t > 0 {
                        let z = self.k(0, t);
                        self.concat(mid, z)
                    } else {
                        mid
                    };
                    return self.zext(lowk, w);
                }
            }
        } else {
            let (na, nb) = (*self.n(a), *self.n(b));
            if (!na.kz & !nb.kz & m) == 0 {
                return self.k(0, w);
            }
            if na.op == Op::Xor && na.a == b && self.const_val(na.b) == Some(m) {
                return self.k(0, w);
            }
            if nb.op == Op::Xor && nb.a == a && self.const_val(nb.b) == Some(m) {
                return self.k(0, w);
            }
            if na.op == Op::And && (na.a == b || na.b == b) {
                return a;
            }
            if nb.op == Op::And && (nb.a == a || nb.b == a) {
                return b;
            }
            if w == 1 {
                if na.op == Op::Or && (na.a == b || na.b == b) {
                    return b;
                }
                if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                    return a;
                }
                if let Some(t) = self.join_tests(a, b, true) {
                    return t;
                }
            }
        }
        self.m2(Op::And, w, a, b)
    }
    pub fn or(&mut self, a: ExprId, b: ExprId) -> ExprId {
        let w = self.w(a);
        let (a, b) = self.sorted(a, b);
        if a == b {
            return a;
        }
        let m = mask(w);
        if let Some(y) = self.const_val(b) {
            if let Some(x) = self.const_val(a) {
                return self.k(x | y, w);
            }
            if y == 0 {
                return a;
            }
            if y == m {
                return b;
            }
            if let Some((c, p, q)) = self.kite(a) {
                let p = self.k(p | y, w);
                let q = self.k(q | y, w);
                return self.ite(c, p, q);
            }
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Op::Xor && na.a == b && self.const_val(na.b) == Some(m) {
            return self.k(m, w);
        }
        if nb.op == Op::Xor && nb.a == a && self.const_val(nb.b) == Some(m) {
            return self.k(m, w);
        }
        if na.op == Op::Or && (na.a == b || na.b == b) {
            return a;
        }
        if nb.op == Op::Or && (nb.a == a || nb.b == a) {
            return b;
        }
        if w == 1 {
            if na.op == Op::And && (na.a == b || na.b == b) {
                return b;
            }
            if nb.op == Op::And && (nb.a == a || nb.b == a) {
                return a;
            }
            if let Some(t) = self.join_tests(a, b, false) {
                return t;
            }
        } else {
            // Disjoint halves: a concatenation.
            let (pa, pb) = (!na.kz & m, !nb.kz & m);
            if pa & pb == 0 && pa != 0 && pb != 0 {
                let (lo, hi, pl, ph) = if pa < pb { (a, b, pa, pb) } else { (b, a, pb, pa) };
                let s = ph.trailing_zeros();
                if pl >> s == 0 && s > 0 && s < w {
                    let h = self.extract(hi, s, w - s);
                    let l = self.extract(lo, 0, s);
                    return self.concat(h, l);
                }
            }
        }
        self.m2(Op::Or, w, a, b)
    }
    pub fn xor(&mut self, a: ExprId, b: ExprId) -> ExprId {
        let w = self.w(a);
        let (a, b) = self.sorted(a, b);
        if a == b {
            return self.k(0, w);
        }
        if let Some(y) = self.const_val(b) {
            if y == 0 {
                return a;
            }
            if let Some(x) = self.const_val(a) {
                return self.k(x ^ y, w);
            }
            let n = *self.n(a);
            if n.op == Op::Xor {
                if let Some(z) = self.const_val(n.b) {
                    let k = self.k(z ^ y, w);
                    return self.xor(n.a, k);
                }
            }
            if let Some((c, p, q)) = self.kite(a) {
                let p = self.k(p ^ y, w);
                let q = self.k(q ^ y, w);
                return self.ite(c, p, q);
            }
        } else if w == 1 {
            // not(x) ^ y -> not(x ^ y)
            let (na, nb) = (*self.n(a), *self.n(b));
            if na.op == Op::Xor && self.const_val(na.b) == Some(1) {
                let t = self.xor(na.a, b);
                return self.not(t);
            }
            if nb.op == Op::Xor && self.const_val(nb.b) == Some(1) {
                let t = self.xor(a, nb.a);
                return self.not(t);
            }
        }
        self.m2(Op::Xor, w, a, b)
    }
    pub fn shl(&mut self, a: ExprId, b: ExprId) -> ExprId {
        let w = self.w(a);
        if let Some(s) = self.const_val(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.k(0, w);
            }
            let x = self.extract(a, 0, w - s as u32);
            let z = self.k(0, s as u32);
            return self.concat(x, z);
        }
        if self.const_val(a) == Some(0) {
            return a;
        }
        if let (Some(x), Some((c, p, q))) = (self.const_val(a), self.kite(b)) {
            let p = self.k(Self::fold(Op::Shl, w, x, p), w);
            let q = self.k(Self::fold(Op::Shl, w, x, q), w);
            return self.ite(c, p, q);
        }
        self.m2(Op::Shl, w, a, b)
    }
    pub fn lshr(&mut self, a: ExprId, b: ExprId) -> ExprId {
        let w = self.w(a);
        if let Some(s) = self.const_val(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.k(0, w);
            }
            let x = self.extract(a, s as u32, w - s as u32);
            return self.zext(x, w);
        }
        if self.const_val(a) == Some(0) {
            return a;
        }
        if let (Some(x), Some((c, p, q))) = (self.const_val(a), self.kite(b)) {
            let p = self.k(Self::fold(Op::LShr, w, x, p), w);
            let q = self.k(Self::fold(Op::LShr, w, x, q), w);
            return self.ite(c, p, q);
        }
        self.m2(Op::LShr, w, a, b)
    }
    pub fn ashr(&mut self, a: ExprId, b: ExprId) -> ExprId {
        let w = self.w(a);
        if let Some(s) = self.const_val(b) {
            if s == 0 {
                return a;
            }
            let s = s.min(w as u128 - 1) as u32;
            let x = self.extract(a, s, w - s);
            return self.sext(x, w);
        }
        self.m2(Op::AShr, w, a, b)
    }
    pub fn eq(&mut self, a: ExprId, b: ExprId) -> ExprId {
        if a == b {
            return self.k(1, 1);
        }
        let (a, b) = self.sorted(a, b);
        let (na, nb) = (*self.n(a), *self.n(b));
        let w = na.w;
        if na.umax < nb.umin || nb.umax < na.umin {
            return self.k(0, 1);
        }
        if let Some(y) = self.const_val(b) {
            if na.op == Op::Const {
                return self.k((na.k == y) as u128, 1);
            }
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            if y & na.kz != 0 {
                return self.k(0, 1);
            }
            match na.op {
                Op::ZExt => {
                    let iw = self.w(na.a);
                    let k = self.k(y, iw);
                    return self.eq(na.a, k);
                }
                Op::SExt => {
                    let iw = self.w(na.a);
                    if (sext(y & mask(iw), iw) as u128) & mask(w) != y {
                        return self.k(0, 1);
                    }
                    let k = self.k(y, iw);
                    return self.eq(na.a, k);
                }
                Op::Add => {
                    if let Some(z) = self.const_val(na.b) {
                        let k = self.k(y.wrapping_sub(z), w);
                        return self.eq(na.a, k);
                    }
                }
                Op::Xor => {
                    if let Some(z) = self.const_val(na.b) {
                        let k = self.k(y ^ z, w);
                        return self.eq(na.a, k);
                    }
                    if y == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Sub if y == 0 => return self.eq(na.a, na.b),
                Op::Concat => {
                    let lw = self.w(na.b);
                    let kh = self.k(y >> lw, w - lw);
                    let kl = self.k(y & mask(lw), lw);
                    let h = self.eq(na.a, kh);
                    let l = self.eq(na.b, kl);
                    return self.and(h, l);
                }
                Op::Ite => {
                    // Push into constant arms.
                    let (cb, cc) = (self.const_val(na.b), self.const_val(na.c));
                    if cb.is_some() || cc.is_some() {
                        let p = self.eq(na.b, b);
                        let q = self.eq(na.c, b);
                        return self.ite(na.a, p, q);
                    }
                }
                _ => {}
            }
        } else {
            if w == 1 {
                let x = self.xor(a, b);
                return self.not(x);
            }
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                return self.eq(na.a, nb.a);
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let h = self.eq(na.a, nb.a);
                let l = self.eq(na.b, nb.b);
                return self.and(h, l);
            }
        }
        self.m2(Op::Eq, 1, a, b)
    }
    pub fn ult(&mut self, a: ExprId, b: ExprId) -> ExprId {
        if a == b {
            return self.k(0, 1);
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.umax < nb.umin {
            return self.k(1, 1);
        }
        if na.umin >= nb.umax {
            return self.k(0, 1);
        }
        let w = na.w;
        if w == 1 {
            let t = self.not(a);
            return self.and(t, b);
        }
        // max(x, p) < max(x, q) and the like come down to a test of x.
        if let (Some((x, p, high)), Some((y, q, high2))) = (self.bound(a), self.bound(b)) {
            if x == y && high == high2 {
                if p >= q {
                    return self.k(0, 1);
                }
                // max: x < q; min: p < x
                if high {
                    let k = self.k(q, w);
                    return self.ult(x, k);
                }
                let k = self.k(p, w);
                return self.ult(k, x);
            }
        }
        // A minimum or maximum (with a constant) on one side: tests of its parts.
        if self.const_val(b).is_none() {
            if let Some((x, k, high)) = self.bound(a) {
                let k = self.k(k, w);
                let (p, q) = (self.ult(x, b), self.ult(k, b));
                return if high { self.and(p, q) } else { self.or(p, q) };
            }
        }
        if self.const_val(a).is_none() {
            if let Some((x, k, high)) = self.bound(b) {
                let k = self.k(k, w);
                let (p, q) = (self.ult(a, x), self.ult(a, k));
                return if high { self.or(p, q) } else { self.and(p, q) };
            }
        }
        // Overflow tests of sums that cannot wrap: x + y < x.
        if na.op == Op::Add && (na.a == b || na.b == b) {
            let sum = self.n(na.a).umax.checked_add(self.n(na.b).umax);
            if sum.is_some_and(|s| s <= mask(w)) {
                return self.k(0, 1);
            }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let (wa, wb) = (self.w(na.a), self.w(nb.a));
            if wa == wb {
                return self.ult(na.a, nb.a);
            }
            let iw = wa.max(wb);
            if iw < w {
                let x = self.zext(na.a, iw);
                let y = self.zext(nb.a, iw);
                return self.ult(x, y);
            }
        }
        if let Some(y) = self.const_val(b) {
            if y == na.umin + 1 {
                let k = self.k(na.umin, w);
                return self.eq(a, k);
            }
            if y == na.umax {
                let e = self.eq(a, b);
                return self.not(e);
            }
            match na.op {
                Op::ZExt => {
                    let iw = self.w(na.a);
                    if y > mask(iw) {
                        return self.k(1, 1);
                    }
                    let k = self.k(y, iw);
                    return self.ult(na.a, k);
                }
                Op::Ite => {
                    if self.const_val(na.b).is_some() || self.const_val(na.c).is_some() {
                        let p = self.ult(na.b, b);
                        let q = self.ult(na.c, b);
                        return self.ite(na.a, p, q);
                    }
                }
                _ => {}
            }
        }
        if let Some(x) = self.const_val(a) {
            if x == nb.umin {
                let e = self.eq(b, a);
                return self.not(e);
            }
            if x + 1 == nb.umax {
                let k = self.k(nb.umax, w);
                return self.eq(b, k);
            }
            match nb.op {
                Op::ZExt => {
                    let iw = self.w(nb.a);
                    if x >= mask(iw) {
                        return self.k(0, 1);
                    }
                    let k = self.k(x, iw);
                    return self.ult(k, nb.a);
                }
                Op::Ite => {
                    if self.const_val(nb.b).is_some() || self.const_val(nb.c).is_some() {
                        let p = self.ult(a, nb.b);
                        let q = self.ult(a, nb.c);
                        return self.ite(nb.a, p, q);
                    }
                }
                _ => {}
            }
            // const < x   ==   not (x < const + 1)
            let k = self.k(x + 1, w);
            let t = self.m2(Op::Ult, 1, b, k);
            return self.not(t);
        }
        self.m2(Op::Ult, 1, a, b)
    }
    pub fn ule(&mut self, a: ExprId, b: ExprId) -> ExprId {
        let t = self.ult(b, a);
        self.not(t)
    }
    pub fn slt(&mut self, a: ExprId, b: ExprId) -> ExprId {
        if a == b {
            return self.k(0, 1);
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        let w = na.w;
        if let (Some(x), Some(y)) = (self.const_val(a), self.const_val(b)) {
            return self.k((sext(x, w) < sext(y, w)) as u128, 1);
        }
        let half = 1u128 << (w - 1);
        if na.umax < half && nb.umax < half {
            return self.ult(a, b);
        }
        // sign bit tests
        if self.const_val(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if self.const_val(a) == Some(mask(w)) {
            let s = self.extract(b, w - 1, 1);
            return self.not(s);
        }
        for (x, y, flip) in [(a, b, false), (b, a, true)] {
            if let (Some((c, p, q)), Some(k)) = (self.kite(x), self.const_val(y)) {
                let f = |v: u128| {
                    if flip {
                        sext(k, w) < sext(v, w)
                    } else {
                        sext(v, w) < sext(k, w)
                    }
                };
                let p = self.k(f(p) as u128, 1);
                let q = self.k(f(q) as u128, 1);
                return self.ite(c, p, q);
            }
        }
        self.m2(Op::Slt, 1, a, b)
    }
    pub fn ite(&mut self, c: ExprId, a: ExprId, b: ExprId) -> ExprId {
        if let Some(v) = self.const_val(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let nc = *self.n(c);
        if nc.op == Op::Xor && self.const_val(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.const_val(a), self.const_val(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                (_, Some(0)) => return self.and(c, a),
                _ => {}
            }
            if a == c {
                return self.or(c, b);
            }
            if b == c {
                return self.and(c, a);
            }
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if self.const_val(a) == Some(1) && self.const_val(b) == Some(0) {
            return self.zext(c, w);
        }
        // One more bit on top of the same low part.
        if nb.op == Op::ZExt && self.w(nb.a) < w {
            let k = self.w(nb.a);
            let low = self.extract(a, 0, k);
            if low == nb.a {
                let high = self.extract(a, k, w - k);
                if self.const_val(high) == Some(1) {
                    let bit = self.concat(c, low);
                    return self.zext(bit, w);
                }
            }
        }
        // min/max written as Ite(x < y, x, y) keep their shape
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    pub fn concat(&mut self, h: ExprId, l: ExprId) -> ExprId {
        let (nh, nl) = (*self.n(h), *self.n(l));
        let w = nh.w + nl.w;
        assert!(w <= 128, "concat width {w}");
        if let (Some(x), Some(y)) = (self.const_val(h), self.const_val(l)) {
            return self.k((x << nl.w) | y, w);
        }
        if self.const_val(h) == Some(0) {
            return self.zext(l, w);
        }
        // adjacent slices of one term
        let slice = |e: ExprId, n: &Node| -> (ExprId, u32, u32) {
            if n.op == Op::Extract {
                (n.a, n.k as u32, n.w)
            } else {
                (e, 0, n.w)
            }
        };
        let (hb, ho, _) = slice(h, &nh);
        let (lb, lo, lw) = slice(l, &nl);
        if hb == lb && ho == lo + lw {
            return self.extract(hb, lo, w);
        }
        if nh.op == Op::ZExt {
            let iw = self.w(nh.a);
            let c = self.concat(nh.a, l);
            let _ = iw;
            return self.zext(c, w);
        }
        if nh.op == Op::Concat {
            let t = self.concat(nh.b, l);
            return self.concat(nh.a, t);
        }
        if nl.op == Op::Concat {
            let (mb, mo, mw) = {
                let m = *self.n(nl.a);
                slice(nl.a, &m)
            };
            if hb == mb && ho == mo + mw {
                let t = self.extract(hb, mo, nh.w + mw);
                return self.concat(t, nl.b);
            }
            if let (Some(_), Some(_)) = (self.const_val(h), self.const_val(nl.a)) {
                let t = self.concat(h, nl.a);
                return self.concat(t, nl.b);
            }
        }
        // Ite with constant parts
        if let (Some((c, p, q)), Some(y)) = (self.kite(h), self.const_val(l)) {
            let p = self.k((p << nl.w) | y, w);
            let q = self.k((q << nl.w) | y, w);
            return self.ite(c, p, q);
        }
        if let (Some((c, p, q)), Some((c2, p2, q2))) = (self.kite(h), self.kite(l)) {
            if c == c2 {
                let p = self.k((p << nl.w) | p2, w);
                let q = self.k((q << nl.w) | q2, w);
                return self.ite(c, p, q);
            }
        }
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let p = self.concat(nh.b, nl.b);
            let q = self.concat(nh.c, nl.c);
            return self.ite(nh.a, p, q);
        }
        self.m2(Op::Concat, w, h, l)
    }
    pub fn extract(&mut self, a: ExprId, lo: u32, w: u32) -> ExprId {
        if lo == 0 && w == self.w(a) {
            return a;
        }
        if let Some(&e) = self.extracted.get(&(a, lo, w)) {
            return e;
        }
        let e = self.extract_new(a, lo, w);
        self.extracted.insert((a, lo, w), e);
        e
    }
    /// `x` when the term is `(1 << x) - 1`.
    fn low_ones(&self, a: ExprId) -> Option<ExprId> {
        let n = self.n(a);
        if n.op == Op::Add && self.const_val(n.b) == Some(mask(n.w)) {
            let s = self.n(n.a);
            if s.op == Op::Shl && self.const_val(s.a) == Some(1) {
                return Some(s.b);
            }
        }
        None
    }
    fn extract_new(&mut self, a: ExprId, lo: u32, w: u32) -> ExprId {
        let n = *self.n(a);
        debug_assert!(lo + w <= n.w);
        if let Some(v) = self.const_val(a) {
            return self.k(v >> lo, w);
        }
        if (n.kz >> lo) & mask(w) == mask(w) {
            return self.k(0, w);
        }
        match n.op {
            Op::Extract => return self.extract(n.a, n.k as u32 + lo, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let h = self.extract(n.a, 0, lo + w - lw);
                let l = self.extract(n.b, lo, lw - lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.k(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let t = self.extract(n.a, lo, iw - lo);
                return self.zext(t, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return match n.op {
                    Op::Add => self.add(x, y),
                    Op::Sub => self.sub(x, y),
                    _ => self.mul(x, y),
                };
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            // One bit of a shifted constant, of `(1 << x) - 1`, of `((1 << x) - 1) << y`.
            Op::Shl if w == 1 => {
                if let Some(k) = self.const_val(n.a) {
                    let below = k & mask(lo + 1);
                    if below.count_ones() <= 4 {
                        let mut r = self.k(0, 1);
                        for b in 0..=lo {
                            if below >> b & 1 == 1 {
                                let p = self.k((lo - b) as u128, n.w);
                                let q = self.eq(n.b, p);
                                r = self.or(r, q);
                            }
                        }
                        return r;
                    }
                }
                if let Some(x) = self.low_ones(n.a) {
                    let i = self.k(lo as u128, n.w);
                    let above = self.ult(i, n.b);
                    let from = self.not(above);
                    let at = self.sub(i, n.b);
                    let inside = self.ult(at, x);
                    return self.and(from, inside);
                }
            }
            Op::Add if w == 1 => {
                if let Some(x) = self.low_ones(a) {
                    let i = self.k(lo as u128, n.w);
                    return self.ult(i, x);
                }
            }
            Op::LShr if w == 1 => {
                if self.const_val(n.a) == Some(mask(n.w)) {
                    let k = self.k((n.w - lo) as u128, n.w);
                    return self.ult(n.b, k);
                }
            }
            _ => {}
        }
        self.m1(Op::Extract, w, a, lo as u128)
    }
    pub fn zext(&mut self, a: ExprId, w: u32) -> ExprId {
        let n = *self.n(a);
        if n.w == w {
            return a;
        }
        if let Some(v) = self.const_val(a) {
            return self.k(v, w);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Ite {
            if let Some((c, p, q)) = self.kite(a) {
                let p = self.k(p, w);
                let q = self.k(q, w);
                return self.ite(c, p, q);
            }
        }
        self.m1(Op::ZExt, w, a, 0)
    }
    pub fn sext(&mut self, a: ExprId, w: u32) -> ExprId {
        let n = *self.n(a);
        if n.w == w {
            return a;
        }
        if let Some(v) = self.const_val(a) {
            return self.k(sext(v, n.w) as u128, w);
        }
        if n.umax < (1u128 << (n.w - 1)) {
            return self.zext(a, w);
        }
        if let Some((c, p, q)) = self.kite(a) {
            let p = self.k(sext(p, n.w) as u128, w);
            let q = self.k(sext(q, n.w) as u128, w);
            return self.ite(c, p, q);
        }
        self.m1(Op::SExt, w, a, 0)
    }

    // Derived operations.
    pub fn cttz(&mut self, a: ExprId) -> ExprId {
        let w = self.w(a);
        let mut r = self.k(w as u128, w);
        for i in (0..w).rev() {
            let b = self.extract(a, i, 1);
            let k = self.k(i as u128, w);
            r = self.ite(b, k, r);
        }
        r
    }
    pub fn ctlz(&mut self, a: ExprId) -> ExprId {
        let w = self.w(a);
        let mut r = self.k(w as u128, w);
        for i in 0..w {
            let b = self.extract(a, i, 1);
            let k = self.k((w - 1 - i) as u128, w);
            r = self.ite(b, k, r);
        }
        r
    }
    pub fn ctpop(&mut self, a: ExprId) -> ExprId {
        // Balanced sum over a narrow accumulator.
        let w = self.w(a);
        let aw = (32 - w.leading_zeros()).min(w);
        let mut parts: Vec<ExprId> = vec![];
        for i in 0..w {
            let b = self.extract(a, i, 1);
            if self.const_val(b) == Some(0) {
                continue;
            }
            let z = self.zext(b, aw);
            parts.push(z);
        }
        if parts.is_empty() {
            return self.k(0, w);
        }
        while parts.len() > 1 {
            let mut next = vec![];
            for p in parts.chunks(2) {
                next.push(if p.len() == 2 { self.add(p[0], p[1]) } else { p[0] });
            }
            parts = next;
        }
        self.zext(parts[0], w)
    }

    pub fn bin(&mut self, op: Op, a: ExprId, b: ExprId) -> ExprId {
        match op {
            Op::Add => self.add(a, b),
            Op::Sub => self.sub(a, b),
            Op::Mul => self.mul(a, b),
            Op::And => self.and(a, b),
            Op::Or => self.or(a, b),
            Op::Xor => self.xor(a, b),
            Op::Shl => self.shl(a, b),
            Op::LShr => self.lshr(a, b),
            Op::AShr => self.ashr(a, b),
            Op::Eq => self.eq(a, b),
            Op::Ult => self.ult(a, b),
            Op::Slt => self.slt(a, b),
            _ => self.div(op, a, b),
        }
    }

    /// Value under an assignment (variables that are not assigned are zero).
    pub fn eval(&self, e: ExprId, model: &[u128], memo: &mut HashMap<ExprId, u128>) -> u128 {
        let n = *self.n(e);
        match n.op {
            Op::Const => return n.k,
            Op::Var => return model.get(n.k as usize).copied().unwrap_or(0) & mask(n.w),
            _ => {}
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let r = match n.op {
            Op::Ite => {
                if self.eval(n.a, model, memo) == 1 {
                    self.eval(n.b, model, memo)
                } else {
                    self.eval(n.c, model, memo)
                }
            }
            Op::And if n.w == 1 => {
                if self.eval(n.a, model, memo) == 0 {
                    0
                } else {
                    self.eval(n.b, model, memo)
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                (self.eval(n.a, model, memo) << lw) | self.eval(n.b, model, memo)
            }
            Op::Extract => (self.eval(n.a, model, memo) >> n.k) & mask(n.w),
            Op::ZExt => self.eval(n.a, model, memo),
            Op::SExt => (sext(self.eval(n.a, model, memo), self.w(n.a)) as u128) & mask(n.w),
            op => {
                let x = self.eval(n.a, model, memo);
                let y = self.eval(n.b, model, memo);
                let w = self.w(n.a);
                Self::fold(op, w, x, y)
            }
        };
        memo.insert(e, r);
        r
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    struct Rng(u64);
    impl Rng {
        fn next(&mut self) -> u64 {
            self.0 ^= self.0 << 13;
            self.0 ^= self.0 >> 7;
            self.0 ^= self.0 << 17;
            self.0
        }
    }
    fn raw(op: Op, w: u32, x: u128, y: u128) -> u128 {
        Ctx::fold(op, w, x, y)
    }
    /// Random terms, built with simplification, agree with direct evaluation.
    #[test]
    fn simplifier_agrees_with_evaluation() {
        let c = ctx();
        let mut r = Rng(0x9E3779B97F4A7C15);
        let widths = [1u32, 3, 8, 16, 32, 64];
        let mut vars = vec![];
        for w in widths {
            for i in 0..3 {
                vars.push(c.new_var(format!("v{w}_{i}"), w));
            }
        }
        for _round in 0..20000 {
            let model: Vec<u128> = (0..c.vars.len())
                .map(|i| {
                    let v = match r.next() % 4 {
                        0 => r.next() % 4,
                        1 => u64::MAX - r.next() % 3,
                        2 => r.next() % 300,
                        _ => r.next(),
                    };
                    (v as u128) & mask(c.vars[i].1)
                })
                .collect();
            // pool of (term, value)
            let mut pool: Vec<(ExprId, u128)> = vars
                .iter()
                .map(|&v| (v, model[c.n(v).k as usize]))
                .collect();
            for _ in 0..40 {
                let (a, av) = pool[(r.next() % pool.len() as u64) as usize];
                let w = c.w(a);
                let same: Vec<_> = pool.iter().copied().filter(|&(e, _)| c.w(e) == w).collect();
                let (mut b, mut bv) = same[(r.next() % same.len() as u64) as usize];
                if r.next() % 3 == 0 {
                    bv = match r.next() % 3 {
                        0 => (r.next() % 9) as u128,
                        1 => 1u128 << (r.next() % w as u64),
                        _ => r.next() as u128,
                    } & mask(w);
                    b = c.k(bv, w);
                }
                let (a, av, b, bv) = if r.next() % 4 == 0 { (b, bv, a, av) } else { (a, av, b, bv) };
                let ops = [
                    Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::URem, Op::SDiv, Op::SRem, Op::And, Op::Or, Op::Xor,
                    Op::Shl, Op::LShr, Op::AShr, Op::Eq, Op::Ult, Op::Slt,
                ];
                let (e, v) = match r.next() % 30 {
                    k if k < 16 => {
                        let op = ops[k as usize];
                        (c.bin(op, a, b), raw(op, w, av, bv))
                    }
                    16 | 17 => {
                        let bs: Vec<_> = pool.iter().copied().filter(|&(e, _)| c.w(e) == 1).collect();
                        let (q, qv) = bs[(r.next() % bs.len() as u64) as usize];
                        (c.ite(q, a, b), if qv == 1 { av } else { bv })
                    }
                    18 => {
                        let lo = (r.next() % w as u64) as u32;
                        let nw = 1 + (r.next() % (w - lo) as u64) as u32;
                        (c.extract(a, lo, nw), (av >> lo) & mask(nw))
                    }
                    19 if w < 64 => (c.zext(a, 64), av),
                    20 if w < 64 => (c.sext(a, 64), (sext(av, w) as u128) & mask(64)),
                    21 if w <= 32 => (c.concat(a, b), (av << w) | bv),
                    22 => (c.cttz(a), (av.trailing_zeros().min(w) as u128) & mask(w)),
                    23 => (c.ctpop(a), (av.count_ones() as u128) & mask(w)),
                    24 | 25 if w > 1 => {
                        // minimum and maximum with a constant
                        let kv = (r.next() as u128 % 9) & mask(w);
                        let k = c.k(kv, w);
                        let q = c.ult(a, k);
                        if r.next() % 2 == 0 {
                            (c.ite(q, k, a), av.max(kv))
                        } else {
                            (c.ite(q, a, k), av.min(kv))
                        }
                    }
                    26 | 27 if w > 1 => {
                        // two tests of one term
                        let mut t = vec![];
                        for _ in 0..2 {
                            let kv = (r.next() as u128 % 9) & mask(w);
                            let k = c.k(kv, w);
                            t.push(match r.next() % 4 {
                                0 => (c.ult(a, k), av < kv),
                                1 => (c.ule(a, k), av <= kv),
                                2 => (c.ult(k, a), kv < av),
                                _ => (c.eq(a, k), av == kv),
                            });
                            if r.next() % 2 == 0 {
                                let (x, v) = *t.last().unwrap();
                                *t.last_mut().unwrap() = (c.not(x), !v);
                            }
                        }
                        if r.next() % 2 == 0 {
                            (c.and(t[0].0, t[1].0), (t[0].1 && t[1].1) as u128)
                        } else {
                            (c.or(t[0].0, t[1].0), (t[0].1 || t[1].1) as u128)
                        }
                    }
                    28 => {
                        // the low bits below a position
                        let one = c.k(1, w);
                        let p = c.shl(one, a);
                        let pv = raw(Op::Shl, w, 1 & mask(w), av);
                        (c.sub(p, one), raw(Op::Sub, w, pv, 1 & mask(w)))
                    }
                    29 => {
                        let bs: Vec<_> = pool.iter().copied().filter(|&(e, _)| c.w(e) == 1).collect();
                        let (x, xv) = bs[(r.next() % bs.len() as u64) as usize];
                        let (y, yv) = bs[(r.next() % bs.len() as u64) as usize];
                        match r.next() % 3 {
                            0 => (c.and(x, y), xv & yv),
                            1 => (c.or(x, y), xv | yv),
                            _ => (c.xor(x, y), xv ^ yv),
                        }
                    }
                    _ => continue,
                };
                let n = *c.n(e);
                assert!(n.umin <= v && v <= n.umax && v & n.kz == 0, "bounds of {n:?}: {v}");
                let got = c.eval(e, &model, &mut HashMap::new());
                assert_eq!(got, v, "{n:?} w={w} a={:?} b={:?}", c.n(a), c.n(b));
                if matches!(c.w(e), 1 | 3 | 8 | 16 | 32 | 64) {
                    pool.push((e, v));
                }
            }
        }
    }
}

/// A term as text, cut at a depth (for tracing).
pub fn show(e: ExprId, depth: u32) -> String {
    let n = *ctx().n(e);
    match n.op {
        Op::Const => format!("{:#x}", n.k),
        Op::Var => format!("v{}", n.k),
        _ if depth == 0 => "..".into(),
        _ => {
            let mut s = format!("({:?}{}", n.op, n.w);
            let args: &[ExprId] = match n.op {
                Op::Ite => &[n.a, n.b, n.c],
                Op::Extract | Op::ZExt | Op::SExt => &[n.a],
                _ => &[n.a, n.b],
            };
            for &a in args {
                s.push(' ');
                s.push_str(&show(a, depth - 1));
            }
            if n.op == Op::Extract {
                s.push_str(&format!(" @{}", n.k));
            }
            s.push(')');
            s
        }
    }
}
