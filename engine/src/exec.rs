//! Symbolic execution of LLVM IR: depth-first over the feasible paths, one
//! solver query per undecided branch.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

use crate::expr::{ctx, mask, ExprId, Op};
use crate::ir::*;
use crate::z3::{Res, Solver};

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(ExprId),
    Agg(Rc<[Val]>),
}

impl Val {
    pub fn int(v: u128, w: u32) -> Val {
        let v = v & mask(w);
        if w <= 64 {
            Val::C(v as u64)
        } else {
            Val::S(ctx().k(v, w))
        }
    }
    /// From a term; constants of up to 64 bits become plain numbers.
    pub fn of(e: ExprId) -> Val {
        let c = ctx();
        if c.w(e) <= 64 {
            if let Some(v) = c.const_val(e) {
                return Val::C(v as u64);
            }
        }
        Val::S(e)
    }
    pub fn term(&self, w: u32) -> ExprId {
        match self {
            Val::C(v) => ctx().k(*v as u128, w),
            Val::S(e) => *e,
            Val::Agg(_) => panic!("aggregate where a scalar was expected"),
        }
    }
}

pub fn sext64(v: u64, bits: u32) -> u64 {
    if bits >= 64 {
        v
    } else {
        let s = 64 - bits;
        (((v << s) as i64) >> s) as u64
    }
}

const NOSYM: u32 = u32::MAX;

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub data: Vec<u8>,
    pub sym: Option<Vec<(ExprId, u8)>>,
    pub ro: bool,
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    regs: Vec<Val>,
    bb: u32,
    ip: u32,
    dst: Option<u32>,
    normal: Option<u32>,
    allocas: Vec<u64>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    heap: Vec<(u64, Rc<Obj>)>,
    globals: BTreeMap<usize, Rc<Obj>>,
    next: u64,
    pub pc: Rc<Vec<ExprId>>,
    facts: Rc<HashMap<ExprId, bool>>,
    ranges: Rc<HashMap<ExprId, (u128, u128)>>,
    /// `(a, b, s)`: a + s <= b on the path (s is 0 or 1), neither side a number.
    order: Rc<Vec<(ExprId, ExprId, u128)>>,
    /// Conditions on the path of which it is not yet known which part holds.
    open: Rc<Vec<(ExprId, bool)>>,
    busy: bool,
    model: Rc<Vec<u128>>,
    occ: BTreeMap<u32, u32>,
    inputs: Rc<Vec<(u32, u32, ExprId)>>,
    notes: Rc<Vec<(u32, Val)>>,
    reached: Rc<BTreeSet<u32>>,
}

pub enum Stop {
    /// Branch on the term; the current model takes the side `take`, `other` is a
    /// model of the opposite side.
    Fork { cond: ExprId, take: bool, other: Vec<u128> },
    /// The engine cannot go on: the job is inconclusive.
    Abort(String),
    /// The program does something it must not.
    Fault(String),
    /// The path ends without a verdict (assumption false).
    Kill,
}

type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub id: u32,
    pub msg: String,
    pub inputs: Vec<(u32, u32, u32, u64)>,
    pub notes: Vec<(u32, u64)>,
    pub stack: Vec<String>,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub instrs: u64,
    pub forks: u64,
    pub asserts: u64,
    pub folded: u64,
    pub by_solver: u64,
    pub reach: BTreeMap<u32, u64>,
    pub funcs: BTreeSet<Rc<str>>,
    pub violations: Vec<Violation>,
    pub abort: Option<String>,
    pub samples: Vec<(Vec<(u32, u32, u32, u64)>, Vec<(u32, u64)>)>,
}

pub struct Limits {
    pub instrs: u64,
    pub paths: u64,
    pub seconds: f64,
    pub violations: usize,
}

pub struct Exec<'m> {
    m: &'m Module,
    funcs: RefCell<HashMap<usize, Rc<Func>>>,
    ginit: RefCell<HashMap<usize, Rc<Obj>>>,
    pub solver: Solver,
    pub rep: Report,
    pub limits: Limits,
    work: Vec<State>,
    paranoid: bool,
    trace: bool,
}

enum Flow {
    Next,
    /// Control went elsewhere (the instruction pointer is already set).
    Jumped,
    Done,
}

fn is_panic(name: &str) -> bool {
    name.contains("9panicking") && !name.contains("panic_count")
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, solver: Solver, limits: Limits) -> Self {
        Exec {
            m,
            funcs: RefCell::new(HashMap::new()),
            ginit: RefCell::new(HashMap::new()),
            solver,
            rep: Report::default(),
            limits,
            work: vec![],
            paranoid: std::env::var("LSYM_PARANOID").is_ok(),
            trace: std::env::var("LSYM_TRACE").is_ok(),
        }
    }

    fn func(&self, i: usize) -> Rc<Func> {
        if let Some(f) = self.funcs.borrow().get(&i) {
            return f.clone();
        }
        let f = Rc::new(self.m.parse_func(&self.m.funcs[i]));
        self.funcs.borrow_mut().insert(i, f.clone());
        f
    }

    pub fn run(&mut self, name: &str, args: &[u64]) {
        let Some(&fi) = self.m.fidx.get(name) else {
            self.rep.abort = Some(format!("no function {name}"));
            return;
        };
        let f = self.func(fi);
        let mut regs = vec![Val::C(0); f.nregs];
        for (k, &p) in f.params.iter().enumerate() {
            regs[p as usize] = Val::C(args.get(k).copied().unwrap_or(0));
        }
        let st = State {
            frames: vec![Frame { f, regs, bb: 0, ip: 0, dst: None, normal: None, allocas: vec![] }],
            heap: vec![],
            globals: BTreeMap::new(),
            next: HEAP_BASE,
            pc: Rc::new(vec![]),
            facts: Rc::new(HashMap::new()),
            ranges: Rc::new(HashMap::new()),
            order: Rc::new(vec![]),
            open: Rc::new(vec![]),
            busy: false,
            model: Rc::new(vec![]),
            occ: BTreeMap::new(),
            inputs: Rc::new(vec![]),
            notes: Rc::new(vec![]),
            reached: Rc::new(BTreeSet::new()),
        };
        self.rep.funcs.insert(st.frames[0].f.name.clone());
        self.work.push(st);
        let t0 = Instant::now();
        while let Some(st) = self.work.pop() {
            self.path(st, &t0);
            if self.rep.abort.is_some() {
                return;
            }
            if self.rep.violations.len() >= self.limits.violations {
                return;
            }
        }
    }

    fn path(&mut self, mut st: State, t0: &Instant) {
        let mut budget = 0u32;
        loop {
            if budget == 0 {
                budget = 100_000;
                if t0.elapsed().as_secs_f64() > self.limits.seconds {
                    self.rep.abort = Some(format!("time limit {} s", self.limits.seconds));
                    return;
                }
                if self.rep.instrs > self.limits.instrs {
                    self.rep.abort = Some(format!("instruction limit {}", self.limits.instrs));
                    return;
                }
                if self.rep.paths > self.limits.paths {
                    self.rep.abort = Some(format!("path limit {}", self.limits.paths));
                    return;
                }
            }
            budget -= 1;
            self.rep.instrs += 1;
            match self.step(&mut st) {
                Ok(Flow::Next) => st.frames.last_mut().unwrap().ip += 1,
                Ok(Flow::Jumped) => {}
                Ok(Flow::Done) => {
                    self.rep.paths += 1;
                    for &r in st.reached.iter() {
                        *self.rep.reach.entry(r).or_insert(0) += 1;
                    }
                    if self.rep.samples.len() < 3 || (self.rep.samples.len() < 6 && self.rep.paths.is_power_of_two()) {
                        let i = self.inputs(&st, &st.model.clone());
                        let n = self.notes(&st, &st.model.clone());
                        self.rep.samples.push((i, n));
                    }
                    return;
                }
                Err(Stop::Fork { cond, take, other }) => {
                    self.rep.forks += 1;
                    budget = budget.saturating_sub(200);
                    let mut o = st.clone();
                    o.model = Rc::new(other);
                    o.assume(cond, !take);
                    self.work.push(o);
                    st.assume(cond, take);
                }
                Err(Stop::Kill) => {
                    return;
                }
                Err(Stop::Abort(m)) => {
                    let s = self.stack(&st).join(" < ");
                    self.rep.abort = Some(format!("{m} [{s}]"));
                    return;
                }
                Err(Stop::Fault(m)) => {
                    self.rep.paths += 1;
                    let model = st.model.clone();
                    self.violation(&st, "fault", 0, m, &model);
                    return;
                }
            }
        }
    }

    fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| format!("{}:{}", f.f.name, f.f.blocks[f.bb as usize].name)).collect()
    }

    fn inputs(&self, st: &State, model: &[u128]) -> Vec<(u32, u32, u32, u64)> {
        let mut memo = HashMap::new();
        st.inputs
            .iter()
            .map(|&(id, k, e)| {
                let c = ctx();
                let v = c.eval(e, model, &mut memo);
                (id, k, c.w(e), v as u64)
            })
            .collect()
    }

    fn notes(&self, st: &State, model: &[u128]) -> Vec<(u32, u64)> {
        let mut memo = HashMap::new();
        st.notes
            .iter()
            .map(|(id, v)| {
                let v = match v {
                    Val::C(v) => *v,
                    Val::S(e) => ctx().eval(*e, model, &mut memo) as u64,
                    Val::Agg(_) => 0,
                };
                (*id, v)
            })
            .collect()
    }

    fn violation(&mut self, st: &State, kind: &str, id: u32, msg: String, model: &[u128]) {
        if self.rep.violations.iter().any(|v| v.kind == kind && v.id == id && v.msg == msg) {
            return;
        }
        let v = Violation {
            kind: kind.into(),
            id,
            msg,
            inputs: self.inputs(st, model),
            notes: self.notes(st, model),
            stack: self.stack(st),
        };
        self.rep.violations.push(v);
    }

    // ---------------------------------------------------------------- deciding

    fn query(&mut self, st: &State, cond: ExprId) -> R<Option<Vec<u128>>> {
        match self.solver.check(&st.pc, cond, &st.model) {
            Res::Sat(m) => {
                // The model must satisfy the query under the engine's own evaluation.
                let mut memo = HashMap::new();
                let c = ctx();
                if c.eval(cond, &m, &mut memo) != 1 || st.pc.iter().any(|&p| c.eval(p, &m, &mut memo) != 1) {
                    return Err(Stop::Abort("solver model does not satisfy the query".into()));
                }
                Ok(Some(m))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Abort("solver gave no answer".into())),
        }
    }

    fn quick(&mut self, st: &State, c: ExprId) -> R<Option<bool>> {
        let r = st.truth(c, 6);
        if let (true, Some(b)) = (self.paranoid, r) {
            if ctx().const_val(c).is_none() {
                let x = if b { ctx().not(c) } else { c };
                if self.query(st, x)?.is_some() {
                    return Err(Stop::Abort(format!("range reasoning is wrong about {:?}", ctx().n(c))));
                }
            }
        }
        Ok(r)
    }

    /// A model of the path and the condition close to the path's own model, if changing
    /// one input gives one; found by evaluation, so it needs no solver.
    fn guess(&self, st: &State, cond: ExprId) -> Option<Vec<u128>> {
        let x = ctx();
        let vars = x.n(cond).vars;
        if vars.count_ones() > 3 || x.vars.len() > 128 {
            return None;
        }
        let mut n = *x.n(cond);
        if n.op == Op::Xor && x.const_val(n.b) == Some(1) {
            n = *x.n(n.a);
        }
        let mut memo = HashMap::new();
        let diff = if matches!(n.op, Op::Ult | Op::Eq | Op::Slt) && x.w(n.a) > 1 {
            let (a, b) = (x.eval(n.a, &st.model, &mut memo), x.eval(n.b, &st.model, &mut memo));
            Some(b.wrapping_sub(a))
        } else {
            None
        };
        let mut m: Vec<u128> = st.model.to_vec();
        m.resize(x.vars.len(), 0);
        for i in 0..x.vars.len() {
            if vars >> i & 1 == 0 {
                continue;
            }
            let top = mask(x.vars[i].1);
            let v = m[i];
            let mut cand = vec![];
            if let Some(d) = diff {
                for k in [0u128, 1, u128::MAX] {
                    cand.push(v.wrapping_add(d).wrapping_add(k) & top);
                    cand.push(v.wrapping_sub(d).wrapping_add(k) & top);
                }
            }
            let (lo, hi) = st.range(x.var_term(i as u32), 0);
            cand.extend([v.wrapping_add(1) & top, v.wrapping_sub(1) & top, lo, hi]);
            for (k, &c) in cand.iter().enumerate() {
                if c == v || c < lo || c > hi || cand[..k].contains(&c) {
                    continue;
                }
                m[i] = c;
                memo.clear();
                if x.eval(cond, &m, &mut memo) == 1 && st.pc.iter().rev().all(|&p| x.n(p).vars >> i & 1 == 0 || x.eval(p, &m, &mut memo) == 1) {
                    return Some(m);
                }
            }
            m[i] = v;
        }
        None
    }

    /// The truth of a condition on this path, forking when both are possible.
    fn decide(&mut self, st: &mut State, c: ExprId) -> R<bool> {
        let mut c = c;
        loop {
            if let Some(b) = self.quick(st, c)? {
                return Ok(b);
            }
            // A comparison of positions that hang on earlier choices: split on those.
            let Some(d) = index_choice(c) else { break };
            let b = self.decide(st, d)?;
            st.learn(d, b);
            let n = *ctx().n(c);
            let (x, y) = (st.simplify(n.a), st.simplify(n.b));
            let next = if n.op == Op::Eq { ctx().eq(x, y) } else { ctx().ult(x, y) };
            if next == c {
                break;
            }
            c = next;
        }
        // What the path knows may be enough for the parts.
        let reduced = st.simplify(c);
        if reduced != c {
            c = reduced;
            if let Some(b) = self.quick(st, c)? {
                return Ok(b);
            }
        }
        let take = ctx().eval(c, &st.model, &mut HashMap::new()) == 1;
        let opp = if take { ctx().not(c) } else { c };
        let r = match self.guess(st, opp) {
            Some(m) => {
                self.solver.stats.guessed += 1;
                Some(m)
            }
            None => self.query(st, opp)?,
        };
        if self.trace {
            let what = if r.is_some() { "fork" } else { "known" };
            eprintln!("{what} {:.1}ms {} | {}", self.solver.last_ms, self.stack(st).iter().take(3).cloned().collect::<Vec<_>>().join(" < "), crate::expr::show(c, 7));
        }
        match r {
            None => {
                st.learn(c, take);
                st.revisit();
                Ok(take)
            }
            Some(other) => Err(Stop::Fork { cond: c, take, other }),
        }
    }

    /// The term, or something simpler that equals it on this path: a number, or an
    /// input, or the difference of two, plus a number. Each guess is put to the solver.
    fn simpler(&mut self, st: &mut State, e: ExprId) -> R<ExprId> {
        let e = st.simplify(e);
        let x = ctx();
        let n = *x.n(e);
        if n.op == Op::Const {
            return Ok(e);
        }
        let vars: Vec<u32> = (0..x.vars.len() as u32).filter(|v| n.vars >> (v % 128) & 1 == 1 && x.vars[*v as usize].1 <= n.w).collect();
        if vars.len() > 6 {
            return Ok(e);
        }
        // Pairs (plus, minus); u32::MAX stands for nothing.
        let none = u32::MAX;
        let mut guesses = vec![(none, none)];
        for &p in &vars {
            guesses.push((p, none));
        }
        for &p in &vars {
            guesses.push((none, p));
            for &q in &vars {
                if p != q {
                    guesses.push((p, q));
                }
            }
        }
        let mut models: Vec<Vec<u128>> = vec![(*st.model).clone()];
        let m = mask(n.w);
        let of = |v: u32, model: &[u128]| if v == none { 0 } else { model.get(v as usize).copied().unwrap_or(0) };
        for (p, q) in guesses {
            let mut off = None;
            let fits = models.iter().all(|model| {
                let d = x.eval(e, model, &mut HashMap::new()).wrapping_sub(of(p, model)).wrapping_add(of(q, model)) & m;
                *off.get_or_insert(d) == d
            });
            if !fits {
                continue;
            }
            let mut g = x.k(off.unwrap_or(0), n.w);
            if p != none {
                let v = x.var_term(p);
                let v = x.zext(v, n.w);
                g = x.add(v, g);
            }
            if q != none {
                let v = x.var_term(q);
                let v = x.zext(v, n.w);
                g = x.sub(g, v);
            }
            let same = x.eq(e, g);
            if self.quick(st, same)? == Some(true) {
                return Ok(g);
            }
            let other = x.not(same);
            match self.query(st, other)? {
                None => {
                    st.learn(same, true);
                    return Ok(g);
                }
                Some(model) => models.push(model),
            }
            if models.len() > 4 {
                break;
            }
        }
        // The position of an input's bit in a bit set: go by the input that gives it here.
        for &p in &vars {
            let d = x.eval(e, &st.model, &mut HashMap::new()).wrapping_sub(of(p, &st.model)) & m;
            if d % 64 == 0 {
                let v = x.var_term(p);
                let v = x.zext(v, n.w);
                let k = x.k(d, n.w);
                let g = x.add(v, k);
                let same = x.eq(e, g);
                if self.decide(st, same)? {
                    return Ok(g);
                }
            }
        }
        Ok(e)
    }

    fn decide_val(&mut self, st: &mut State, v: &Val) -> R<bool> {
        match v {
            Val::C(x) => Ok(x & 1 == 1),
            Val::S(e) => self.decide(st, *e),
            Val::Agg(_) => Err(Stop::Abort("aggregate condition".into())),
        }
    }

    /// A number, forking over the feasible ones.
    fn concretize(&mut self, st: &mut State, v: &Val) -> R<u64> {
        let e = match v {
            Val::C(x) => return Ok(*x),
            Val::S(e) => *e,
            Val::Agg(_) => return Err(Stop::Abort("aggregate address".into())),
        };
        let mut e = e;
        loop {
            e = st.simplify(e);
            if let Some(v) = ctx().const_val(e) {
                return Ok(v as u64);
            }
            // A choice inside the term: fork on its condition.
            if let Some(c) = find_choice(e) {
                let b = self.decide(st, c)?;
                // `decide` recorded the fact; simplification uses it.
                st.learn(c, b);
                continue;
            }
            let v = ctx().eval(e, &st.model, &mut HashMap::new());
            let w = ctx().w(e);
            let k = ctx().k(v, w);
            let q = ctx().eq(e, k);
            if self.decide(st, q)? {
                return Ok(v as u64);
            }
            return Err(Stop::Abort("inconsistent model".into()));
        }
    }

    // ---------------------------------------------------------------- memory

    fn gobj(&self, i: usize) -> Rc<Obj> {
        if let Some(o) = self.ginit.borrow().get(&i) {
            return o.clone();
        }
        let g = &self.m.globals[i];
        let data = self.m.init_bytes(g);
        let o = Rc::new(Obj { base: g.addr, data, sym: None, ro: g.constant });
        self.ginit.borrow_mut().insert(i, o.clone());
        o
    }
    fn gfind(&self, addr: u64) -> Option<usize> {
        let gs = &self.m.globals;
        let k = gs.partition_point(|g| g.addr <= addr);
        if k == 0 {
            return None;
        }
        let g = &gs[k - 1];
        if addr <= g.addr + g.size {
            Some(k - 1)
        } else {
            None
        }
    }
    fn obj(&self, st: &State, addr: u64, n: u64) -> R<Rc<Obj>> {
        if (GLOBAL_BASE..FUNC_BASE).contains(&addr) {
            if let Some(i) = self.gfind(addr) {
                let o = match st.globals.get(&i) {
                    Some(o) => o.clone(),
                    None => self.gobj(i),
                };
                if addr + n <= o.base + o.data.len() as u64 {
                    return Ok(o);
                }
                return Err(Stop::Fault(format!("access beyond the end of {}", self.m.globals[i].name)));
            }
        } else if addr >= HEAP_BASE {
            let k = st.heap.partition_point(|(b, _)| *b <= addr);
            if k > 0 {
                let o = &st.heap[k - 1].1;
                if addr.checked_add(n).is_some_and(|e| e <= o.base + o.data.len() as u64) {
                    return Ok(o.clone());
                }
            }
        }
        Err(Stop::Fault(format!("invalid memory access at {addr:#x} ({n} bytes)")))
    }
    /// Runs `f` on the object, made private to the state.
    fn with_mut<T>(&self, st: &mut State, addr: u64, n: u64, f: impl FnOnce(&mut Obj, usize) -> T) -> R<T> {
        let o = self.obj(st, addr, n)?;
        if o.ro {
            return Err(Stop::Fault("write to a constant".into()));
        }
        let off = (addr - o.base) as usize;
        if addr < HEAP_BASE {
            let i = self.gfind(addr).unwrap();
            drop(o);
            let init = self.gobj(i);
            let slot = st.globals.entry(i).or_insert(init);
            return Ok(f(Rc::make_mut(slot), off));
        }
        let k = st.heap.partition_point(|(b, _)| *b <= addr) - 1;
        drop(o);
        Ok(f(Rc::make_mut(&mut st.heap[k].1), off))
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> R<u64> {
        if size > 64 << 20 {
            return Err(Stop::Abort(format!("allocation of {size} bytes")));
        }
        let _ = zero;
        let a = align_up(st.next, align.max(16));
        st.next = a + size + 32;
        st.heap.push((a, Rc::new(Obj { base: a, data: vec![0; size as usize], sym: None, ro: false })));
        Ok(a)
    }
    fn free(&mut self, st: &mut State, addr: u64) -> R<()> {
        if addr == 0 {
            return Ok(());
        }
        match st.heap.binary_search_by_key(&addr, |x| x.0) {
            Ok(k) => {
                st.heap.remove(k);
                Ok(())
            }
            Err(_) => Err(Stop::Fault(format!("free of {addr:#x}, which is not an allocation"))),
        }
    }

    fn read_int(o: &Obj, off: usize, n: usize, w: u32) -> Val {
        if let Some(sym) = &o.sym {
            if sym[off..off + n].iter().any(|s| s.0 != NOSYM) {
                let c = ctx();
                let (e0, k0) = sym[off];
                // One whole term?
                if e0 != NOSYM
                    && k0 == 0
                    && c.w(e0) == 8 * n as u32
                    && (1..n).all(|k| sym[off + k] == (e0, k as u8))
                {
                    let e = c.extract(e0, 0, w);
                    return Val::of(e);
                }
                let mut acc: Option<ExprId> = None;
                for k in 0..n {
                    let (e, j) = sym[off + k];
                    let b = if e == NOSYM {
                        c.k(o.data[off + k] as u128, 8)
                    } else {
                        c.extract(e, 8 * j as u32, 8)
                    };
                    acc = Some(match acc {
                        None => b,
                        Some(a) => c.concat(b, a),
                    });
                }
                let e = c.extract(acc.unwrap(), 0, w);
                return Val::of(e);
            }
        }
        let mut v = 0u128;
        for k in 0..n {
            v |= (o.data[off + k] as u128) << (8 * k);
        }
        Val::int(v, w)
    }
    fn write_int(o: &mut Obj, off: usize, n: usize, v: &Val) {
        match v {
            Val::C(x) => {
                for k in 0..n {
                    o.data[off + k] = if k < 8 { (x >> (8 * k)) as u8 } else { 0 };
                }
                if let Some(s) = &mut o.sym {
                    for x in &mut s[off..off + n] {
                        x.0 = NOSYM;
                    }
                }
            }
            Val::S(e) => {
                let c = ctx();
                if let Some(x) = c.const_val(*e) {
                    for k in 0..n {
                        o.data[off + k] = (x >> (8 * k)) as u8;
                    }
                    if let Some(s) = &mut o.sym {
                        for x in &mut s[off..off + n] {
                            x.0 = NOSYM;
                        }
                    }
                    return;
                }
                let e = c.zext(*e, 8 * n as u32);
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![(NOSYM, 0); len]);
                for k in 0..n {
                    s[off + k] = (e, k as u8);
                }
            }
            Val::Agg(_) => unreachable!(),
        }
    }
    fn read_ty(o: &Obj, off: usize, ty: &Ty) -> Val {
        match ty {
            Ty::Arr(n, _) => Val::Agg((0..*n).map(|i| Self::read_field(o, off, ty, i)).collect::<Vec<_>>().into()),
            Ty::Vec(n, t) => {
                if t.bits() % 8 != 0 {
                    let all = Self::read_int(o, off, ty.store_size() as usize, n * t.bits());
                    return int_to_lanes(&all, *n, t.bits());
                }
                Val::Agg((0..*n as u64).map(|i| Self::read_field(o, off, ty, i)).collect::<Vec<_>>().into())
            }
            Ty::Struct(fs, _) => {
                Val::Agg((0..fs.len() as u64).map(|i| Self::read_field(o, off, ty, i)).collect::<Vec<_>>().into())
            }
            t => Self::read_int(o, off, t.store_size() as usize, t.bits()),
        }
    }
    fn read_field(o: &Obj, off: usize, ty: &Ty, i: u64) -> Val {
        let (fo, ft) = ty.field(i);
        Self::read_ty(o, off + fo as usize, &ft)
    }
    fn write_ty(o: &mut Obj, off: usize, ty: &Ty, v: &Val) {
        match v {
            Val::Agg(es) => {
                if let Ty::Vec(n, t) = ty {
                    if t.bits() % 8 != 0 {
                        let x = lanes_to_int(es, t.bits());
                        let nb = (n * t.bits()).div_ceil(8) as usize;
                        Self::write_int(o, off, nb, &x);
                        return;
                    }
                }
                for (i, e) in es.iter().enumerate() {
                    let (fo, ft) = ty.field(i as u64);
                    Self::write_ty(o, off + fo as usize, &ft, e);
                }
            }
            v => Self::write_int(o, off, ty.store_size() as usize, v),
        }
    }

    fn load(&mut self, st: &mut State, ty: &Ty, p: &Val) -> R<Val> {
        let n = ty.store_size();
        let a = match p {
            Val::C(a) => *a,
            Val::S(e) => {
                let e = st.simplify(*e);
                match ctx().const_val(e) {
                    Some(a) => a as u64,
                    None => {
                        if ty.is_scalar() && find_choice(e).is_none() {
                            if let Some(v) = self.load_table(st, ty, e)? {
                                return Ok(v);
                            }
                        }
                        self.concretize(st, &Val::S(e))?
                    }
                }
            }
            Val::Agg(_) => return Err(Stop::Abort("aggregate address".into())),
        };
        let o = self.obj(st, a, n.max(1))?;
        Ok(Self::read_ty(&o, (a - o.base) as usize, ty))
    }

    /// A load whose address ranges over part of one object: a choice over its cells.
    fn load_table(&mut self, st: &mut State, ty: &Ty, e: ExprId) -> R<Option<Val>> {
        let (mut lo, mut hi) = st.range(e, 6);
        // Fall back on the solver's bounds only through the path's ranges.
        if hi - lo > 1 << 16 {
            return Ok(None);
        }
        // Stride from the low bits that cannot vary.
        let base = ctx().eval(e, &st.model, &mut HashMap::new());
        let nk = {
            // (e - base) known-zero low bits: use the term without its constant.
            let n = *ctx().n(e);
            let (t, c) = if n.op == Op::Add {
                match ctx().const_val(n.b) {
                    Some(c) => (n.a, c),
                    None => (e, 0),
                }
            } else {
                (e, 0)
            };
            let kz = ctx().n(t).kz;
            let tz = (!kz).trailing_zeros().min(12);
            let _ = c;
            tz
        };
        let step = 1u128 << nk;
        let phase = base & (step - 1);
        // align to the phase
        while lo & (step - 1) != phase {
            lo += 1;
        }
        while hi & (step - 1) != phase {
            hi -= 1;
        }
        let count = (hi - lo) / step + 1;
        if count > 2048 {
            return Ok(None);
        }
        let n = ty.store_size();
        let Ok(o) = self.obj(st, lo as u64, n) else { return Ok(None) };
        if hi as u64 + n > o.base + o.data.len() as u64 {
            return Ok(None);
        }
        let w = ty.bits();
        let cells: Vec<(u128, ExprId)> = (0..count)
            .map(|i| {
                let a = lo + i * step;
                (a, Self::read_int(&o, (a as u64 - o.base) as usize, n as usize, w).term(w))
            })
            .collect();
        Ok(Some(Val::of(choice(e, &cells))))
    }

    fn store(&mut self, st: &mut State, ty: &Ty, p: &Val, v: &Val) -> R<()> {
        let a = self.concretize(st, p)?;
        let n = ty.store_size();
        if n == 0 {
            return Ok(());
        }
        self.with_mut(st, a, n, |o, off| Self::write_ty(o, off, ty, v))
    }

    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let o = self.obj(st, s, n)?;
        let so = (s - o.base) as usize;
        let nn = n as usize;
        self.with_mut(st, d, n, |t, off| {
            t.data[off..off + nn].copy_from_slice(&o.data[so..so + nn]);
            match &o.sym {
                Some(sy) => {
                    let part = &sy[so..so + nn];
                    if t.sym.is_some() || part.iter().any(|x| x.0 != NOSYM) {
                        let len = t.data.len();
                        let ts = t.sym.get_or_insert_with(|| vec![(NOSYM, 0); len]);
                        ts[off..off + nn].copy_from_slice(part);
                    }
                }
                None => {
                    if let Some(ts) = &mut t.sym {
                        for x in &mut ts[off..off + nn] {
                            x.0 = NOSYM;
                        }
                    }
                }
            }
        })
    }

    fn byte(&self, st: &State, a: u64) -> R<Val> {
        let o = self.obj(st, a, 1)?;
        Ok(Self::read_int(&o, (a - o.base) as usize, 1, 8))
    }

    // ---------------------------------------------------------------- instructions

    fn jump(&mut self, st: &mut State, to: u32) -> R<Flow> {
        let fr = st.frames.last_mut().unwrap();
        let f = fr.f.clone();
        let from = fr.bb;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (_, _, inc) in &b.phis {
                let o = inc.iter().find(|(p, _)| *p == from);
                match o {
                    Some((_, o)) => vals.push(match o {
                        Opd::R(r) => fr.regs[*r as usize].clone(),
                        Opd::K(v) => v.clone(),
                    }),
                    None => return Err(Stop::Abort("phi without the predecessor".into())),
                }
            }
            for ((d, _, _), v) in b.phis.iter().zip(vals) {
                fr.regs[*d as usize] = v;
            }
        }
        fr.bb = to;
        fr.ip = 0;
        Ok(Flow::Jumped)
    }

    fn step(&mut self, st: &mut State) -> R<Flow> {
        let fr = st.frames.last_mut().unwrap();
        // The function stays alive through the frame's Rc; clone it cheaply only when needed.
        let f: *const Func = Rc::as_ptr(&fr.f);
        // SAFETY: the function is kept alive by `self.funcs` for the whole run.
        let f: &Func = unsafe { &*f };
        let ins = &f.blocks[fr.bb as usize].ins[fr.ip as usize];
        macro_rules! op {
            ($o:expr) => {
                match $o {
                    Opd::R(r) => fr.regs[*r as usize].clone(),
                    Opd::K(v) => v.clone(),
                }
            };
        }
        match ins {
            Ins::Bin(b, t, x, y, d) => {
                let (x, y) = (op!(x), op!(y));
                fr.regs[*d as usize] = bin(*b, t, &x, &y)?;
                Ok(Flow::Next)
            }
            Ins::Icmp(p, t, x, y, d) => {
                let (x, y) = (op!(x), op!(y));
                fr.regs[*d as usize] = icmp(*p, t, &x, &y);
                Ok(Flow::Next)
            }
            Ins::Cast(c, t, x, t2, d) => {
                let x = op!(x);
                fr.regs[*d as usize] = cast(*c, t, &x, t2)?;
                Ok(Flow::Next)
            }
            Ins::Select(t, c, x, y, d, vec) => {
                let c = op!(c);
                let v = match &c {
                    Val::C(1) => op!(x),
                    Val::C(_) => op!(y),
                    Val::S(e) => {
                        let (x, y) = (op!(x), op!(y));
                        let e = *e;
                        match self.quick(st, e)? {
                            Some(true) => x,
                            Some(false) => y,
                            // A choice between two positions (a search step): split now.
                            None if matches!((t, &x, &y), (Ty::Int(64) | Ty::Ptr, Val::C(a), Val::C(b)) if a != b) => {
                                if self.decide(st, e)? {
                                    x
                                } else {
                                    y
                                }
                            }
                            None => merge(t, e, &x, &y),
                        }
                    }
                    Val::Agg(cs) => {
                        assert!(*vec);
                        let (Val::Agg(x), Val::Agg(y)) = (op!(x), op!(y)) else {
                            return Err(Stop::Abort("vector select".into()));
                        };
                        let Ty::Vec(_, et) = t else { return Err(Stop::Abort("vector select".into())) };
                        Val::Agg(
                            cs.iter()
                                .zip(x.iter().zip(y.iter()))
                                .map(|(c, (x, y))| match c {
                                    Val::C(1) => x.clone(),
                                    Val::C(_) => y.clone(),
                                    Val::S(e) => merge(et, *e, x, y),
                                    _ => unreachable!(),
                                })
                                .collect::<Vec<_>>()
                                .into(),
                        )
                    }
                };
                st.frames.last_mut().unwrap().regs[*d as usize] = v;
                Ok(Flow::Next)
            }
            Ins::Gep(b, off, var, d) => {
                let b = op!(b);
                let var: Vec<(&Ty, Val, u64)> = var.iter().map(|(t, o, s)| (t, op!(o), *s)).collect();
                let d = *d;
                let mut acc = b;
                if *off != 0 {
                    acc = bin(Bin::Add, &Ty::Ptr, &acc, &Val::C(*off))?;
                }
                for (it, i, scale) in var {
                    let mut i = i;
                    if let Val::S(e) = i {
                        // A step taken or not (branch-free searching and sorting): split now.
                        if only_choices(&[e]).is_some() {
                            i = Val::C(sext64(self.concretize(st, &i)?, it.bits()));
                        }
                    }
                    let i = cast(Cast::SExt, it, &i, &Ty::Ptr)?;
                    let s = bin(Bin::Mul, &Ty::Ptr, &i, &Val::C(scale))?;
                    acc = bin(Bin::Add, &Ty::Ptr, &acc, &s)?;
                }
                st.frames.last_mut().unwrap().regs[d as usize] = acc;
                Ok(Flow::Next)
            }
            Ins::Load(t, p, d) => {
                let p = op!(p);
                let v = self.load(st, t, &p)?;
                st.frames.last_mut().unwrap().regs[*d as usize] = v;
                Ok(Flow::Next)
            }
            Ins::Store(t, v, p) => {
                let (v, p) = (op!(v), op!(p));
                self.store(st, t, &p, &v)?;
                Ok(Flow::Next)
            }
            Ins::Alloca(size, align, count, d) => {
                let n = match count {
                    None => 1,
                    Some((_, c)) => {
                        let c = op!(c);
                        self.concretize(st, &c)?
                    }
                };
                let a = self.alloc(st, size * n, *align, false)?;
                let fr = st.frames.last_mut().unwrap();
                fr.allocas.push(a);
                fr.regs[*d as usize] = Val::C(a);
                Ok(Flow::Next)
            }
            Ins::Br(b) => self.jump(st, *b),
            Ins::CondBr(c, a, b) => {
                let c = op!(c);
                let t = match c {
                    Val::C(x) => x & 1 == 1,
                    ref v => self.decide_val(st, v)?,
                };
                self.jump(st, if t { *a } else { *b })
            }
            Ins::Switch(t, v, def, cases) => {
                let v = op!(v);
                match v {
                    Val::C(x) => {
                        for (k, b) in cases {
                            if matches!(k, Val::C(y) if *y == x) {
                                return self.jump(st, *b);
                            }
                        }
                        self.jump(st, *def)
                    }
                    Val::S(e) => {
                        let e = st.simplify(e);
                        let w = t.bits();
                        // The case the current model takes first: the others only fork off it.
                        let cur = ctx().eval(e, &st.model, &mut HashMap::new());
                        let mut order: Vec<&(Val, u32)> = cases.iter().collect();
                        if let Some(p) = order.iter().position(|(k, _)| {
                            let ke = k.term(w);
                            ctx().const_val(ke) == Some(cur)
                        }) {
                            let x = order.remove(p);
                            order.insert(0, x);
                        }
                        for (k, b) in order {
                            let k = k.term(w);
                            let q = ctx().eq(e, k);
                            if self.decide(st, q)? {
                                return self.jump(st, *b);
                            }
                        }
                        self.jump(st, *def)
                    }
                    Val::Agg(_) => Err(Stop::Abort("aggregate switch".into())),
                }
            }
            Ins::Call { callee, args, ret, dst, normal } => {
                let mut vals = Vec::with_capacity(args.len());
                for (_, a) in args {
                    vals.push(op!(a));
                }
                let target;
                let name: &str = match callee {
                    Callee::Direct(n) => n,
                    Callee::Indirect(o) => {
                        let p = op!(o);
                        let a = self.concretize(st, &p)?;
                        match self.m.faddr.get(&a) {
                            Some(&i) => {
                                target = self.m.funcs[i].name.clone();
                                &target
                            }
                            None => return Err(Stop::Fault(format!("call through {a:#x}, which is no function"))),
                        }
                    }
                    Callee::Asm(t) => {
                        if t.is_empty() {
                            return Ok(Flow::Next);
                        }
                        return Err(Stop::Abort(format!("inline assembly {t}")));
                    }
                };
                self.call(st, name, args, vals, ret, *dst, *normal)
            }
            Ins::Ret(v) => {
                let v = v.as_ref().map(|(_, o)| op!(o));
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas {
                    if let Ok(k) = st.heap.binary_search_by_key(a, |x| x.0) {
                        st.heap.remove(k);
                    }
                }
                if st.frames.is_empty() {
                    return Ok(Flow::Done);
                }
                let caller = st.frames.last_mut().unwrap();
                if let (Some(d), Some(v)) = (fr.dst, v) {
                    caller.regs[d as usize] = v;
                }
                match fr.normal {
                    Some(b) => self.jump(st, b),
                    None => {
                        caller.ip += 1;
                        Ok(Flow::Jumped)
                    }
                }
            }
            Ins::Unreachable => Err(Stop::Fault("unreachable code reached".into())),
            Ins::Extract(x, ix, d) => {
                let mut v = op!(x);
                for &i in ix {
                    v = match v {
                        Val::Agg(es) => es[i as usize].clone(),
                        v => v,
                    };
                }
                fr.regs[*d as usize] = v;
                Ok(Flow::Next)
            }
            Ins::Insert(t, x, y, ix, d) => {
                let x = op!(x);
                let y = op!(y);
                fn ins(t: &Ty, x: &Val, y: &Val, ix: &[u64]) -> Val {
                    if ix.is_empty() {
                        return y.clone();
                    }
                    let (_, ft) = t.field(ix[0]);
                    let mut es: Vec<Val> = match x {
                        Val::Agg(es) => es.to_vec(),
                        _ => match Module::zero(t) {
                            Val::Agg(es) => es.to_vec(),
                            _ => panic!("insertvalue"),
                        },
                    };
                    es[ix[0] as usize] = ins(&ft, &es[ix[0] as usize].clone(), y, &ix[1..]);
                    Val::Agg(es.into())
                }
                fr.regs[*d as usize] = ins(t, &x, &y, ix);
                Ok(Flow::Next)
            }
            Ins::ExtractElt(_, x, i, d) => {
                let x = op!(x);
                let i = op!(i);
                let (Val::Agg(es), Val::C(i)) = (&x, &i) else {
                    return Err(Stop::Abort("extractelement".into()));
                };
                fr.regs[*d as usize] = es[*i as usize].clone();
                Ok(Flow::Next)
            }
            Ins::InsertElt(t, x, y, i, d) => {
                let x = op!(x);
                let y = op!(y);
                let i = op!(i);
                let mut es = match (&x, t) {
                    (Val::Agg(es), _) => es.to_vec(),
                    (_, Ty::Vec(n, _)) => vec![Val::C(0); *n as usize],
                    _ => return Err(Stop::Abort("insertelement".into())),
                };
                let Val::C(i) = i else { return Err(Stop::Abort("insertelement index".into())) };
                es[i as usize] = y;
                fr.regs[*d as usize] = Val::Agg(es.into());
                Ok(Flow::Next)
            }
            Ins::Shuffle(_, x, y, k, d) => {
                let (Val::Agg(x), Val::Agg(y), Val::Agg(k)) = (op!(x), op!(y), op!(k)) else {
                    return Err(Stop::Abort("shufflevector".into()));
                };
                let v: Vec<Val> = k
                    .iter()
                    .map(|i| match i {
                        Val::C(i) => {
                            let i = *i as usize;
                            if i < x.len() {
                                x[i].clone()
                            } else {
                                y.get(i - x.len()).cloned().unwrap_or(Val::C(0))
                            }
                        }
                        _ => Val::C(0),
                    })
                    .collect();
                fr.regs[*d as usize] = Val::Agg(v.into());
                Ok(Flow::Next)
            }
            Ins::Freeze(x, d) => {
                let x = op!(x);
                fr.regs[*d as usize] = x;
                Ok(Flow::Next)
            }
            Ins::Rmw(k, t, p, v, d) => {
                let (p, v) = (op!(p), op!(v));
                let old = self.load(st, t, &p)?;
                let w = t.bits();
                let new = match k.as_str() {
                    "xchg" => v,
                    "add" => bin(Bin::Add, t, &old, &v)?,
                    "sub" => bin(Bin::Sub, t, &old, &v)?,
                    "and" => bin(Bin::And, t, &old, &v)?,
                    "or" => bin(Bin::Or, t, &old, &v)?,
                    "xor" => bin(Bin::Xor, t, &old, &v)?,
                    "umax" | "umin" => {
                        let c = ctx();
                        let (a, b) = (old.term(w), v.term(w));
                        let lt = c.ult(a, b);
                        Val::of(if k == "umax" { c.ite(lt, b, a) } else { c.ite(lt, a, b) })
                    }
                    _ => return Err(Stop::Abort(format!("atomicrmw {k}"))),
                };
                self.store(st, t, &p, &new)?;
                st.frames.last_mut().unwrap().regs[*d as usize] = old;
                Ok(Flow::Next)
            }
            Ins::CmpXchg(t, p, a, b, d) => {
                let (p, a, b) = (op!(p), op!(a), op!(b));
                let old = self.load(st, t, &p)?;
                let w = t.bits();
                let q = ctx().eq(old.term(w), a.term(w));
                let ok = self.decide(st, q)?;
                if ok {
                    self.store(st, t, &p, &b)?;
                }
                st.frames.last_mut().unwrap().regs[*d as usize] =
                    Val::Agg(vec![old, Val::C(ok as u64)].into());
                Ok(Flow::Next)
            }
            Ins::Nop => Ok(Flow::Next),
            Ins::Bad(m) => Err(Stop::Abort(m.clone())),
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn call(
        &mut self,
        st: &mut State,
        name: &str,
        args: &[(Ty, Opd)],
        vals: Vec<Val>,
        ret: &Ty,
        dst: Option<u32>,
        normal: Option<u32>,
    ) -> R<Flow> {
        if is_panic(name) {
            return Err(Stop::Fault(format!("panic: {}", self.panic_text(st, name, &vals))));
        }
        let mut resolved = name;
        for _ in 0..4 {
            match self.m.aliases.get(resolved) {
                Some(t) => resolved = t,
                None => break,
            }
        }
        if !resolved.starts_with("llvm.") {
            if let Some(&i) = self.m.fidx.get(resolved) {
                if self.m.funcs[i].text.is_some() {
                    let f = self.func(i);
                    if st.frames.len() > 400 {
                        return Err(Stop::Abort("call depth".into()));
                    }
                    if self.trace {
                        eprintln!("{}-> {}", " ".repeat(st.frames.len()), resolved);
                    }
                    if !self.rep.funcs.contains(&f.name) {
                        self.rep.funcs.insert(f.name.clone());
                    }
                    let mut regs = vec![Val::C(0); f.nregs];
                    for (p, v) in f.params.iter().zip(vals) {
                        regs[*p as usize] = v;
                    }
                    st.frames.push(Frame { f, regs, bb: 0, ip: 0, dst, normal, allocas: vec![] });
                    return Ok(Flow::Jumped);
                }
            }
        }
        let r = self.external(st, resolved, args, &vals, ret)?;
        let Some(r) = r else { return Ok(Flow::Done) };
        if let Some(d) = dst {
            st.frames.last_mut().unwrap().regs[d as usize] = r;
        }
        match normal {
            Some(b) => self.jump(st, b),
            None => Ok(Flow::Next),
        }
    }

    fn panic_text(&self, st: &State, name: &str, vals: &[Val]) -> String {
        // `panic(msg, len, loc)` and the like carry the message directly.
        let mut out = name.to_string();
        if let (Some(Val::C(p)), Some(Val::C(n))) = (vals.first(), vals.get(1)) {
            if *n < 300 {
                if let Ok(o) = self.obj(st, *p, *n) {
                    let off = (*p - o.base) as usize;
                    if let Ok(s) = std::str::from_utf8(&o.data[off..off + *n as usize]) {
                        if s.len() > 3 && s.bytes().all(|c| (32..127).contains(&c)) {
                            out = s.to_string();
                        }
                    }
                }
            }
        }
        out
    }

    fn external(&mut self, st: &mut State, name: &str, args: &[(Ty, Opd)], v: &[Val], ret: &Ty) -> R<Option<Val>> {
        let c = ctx();
        if let Some(rest) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, rest, args, v, ret).map(Some);
        }
        match name {
            // ---- harness primitives
            "sym_bits" => {
                let (Val::C(id), Val::C(w)) = (&v[0], &v[1]) else {
                    return Err(Stop::Abort("sym_bits needs constants".into()));
                };
                let (id, w) = (*id as u32, *w as u32);
                let k = st.occ.get(&id).copied().unwrap_or(0);
                st.occ.insert(id, k + 1);
                let var = match c.var_ids.get(&(id, k)) {
                    Some(&x) => x,
                    None => {
                        let e = c.new_var(format!("i{id}_{k}"), w);
                        c.var_ids.insert((id, k), e);
                        e
                    }
                };
                if c.w(var) != w {
                    return Err(Stop::Abort("input used at two widths".into()));
                }
                Rc::make_mut(&mut st.inputs).push((id, k, var));
                let e = c.zext(var, 64);
                Ok(Some(Val::of(e)))
            }
            "sym_assume" => match &v[0] {
                Val::C(x) if x & 1 == 1 => Ok(Some(Val::C(0))),
                Val::C(_) => Err(Stop::Kill),
                Val::S(e) => {
                    let e = *e;
                    match self.quick(st, e)? {
                        Some(true) => return Ok(Some(Val::C(0))),
                        Some(false) => return Err(Stop::Kill),
                        None => {}
                    }
                    if c.eval(e, &st.model, &mut HashMap::new()) == 1 {
                        st.assume(e, true);
                        return Ok(Some(Val::C(0)));
                    }
                    match self.query(st, e)? {
                        Some(m) => {
                            st.model = Rc::new(m);
                            st.assume(e, true);
                            Ok(Some(Val::C(0)))
                        }
                        None => Err(Stop::Kill),
                    }
                }
                Val::Agg(_) => unreachable!(),
            },
            "sym_assert" => {
                let id = match &v[1] {
                    Val::C(i) => *i as u32,
                    _ => return Err(Stop::Abort("sym_assert id".into())),
                };
                self.rep.asserts += 1;
                let e = match &v[0] {
                    Val::C(x) if x & 1 == 1 => {
                        self.rep.folded += 1;
                        return Ok(Some(Val::C(0)));
                    }
                    Val::C(_) => {
                        let m = st.model.clone();
                        self.violation(st, "assert", id, format!("assertion {id}"), &m);
                        return Err(Stop::Kill);
                    }
                    Val::S(e) => *e,
                    Val::Agg(_) => unreachable!(),
                };
                if self.quick(st, e)? == Some(true) {
                    self.rep.folded += 1;
                    return Ok(Some(Val::C(0)));
                }
                let ne = c.not(e);
                self.rep.by_solver += 1;
                match self.query(st, ne)? {
                    None => {
                        st.learn(e, true);
                        Ok(Some(Val::C(0)))
                    }
                    Some(m) => {
                        self.violation(st, "assert", id, format!("assertion {id}"), &m);
                        match self.query(st, e)? {
                            Some(m) => {
                                st.model = Rc::new(m);
                                st.assume(e, true);
                                Ok(Some(Val::C(0)))
                            }
                            None => Err(Stop::Kill),
                        }
                    }
                }
            }
            "sym_reach" => {
                let i = self.concretize(st, &v[0])? as u32;
                if !st.reached.contains(&i) {
                    Rc::make_mut(&mut st.reached).insert(i);
                }
                Ok(Some(Val::C(0)))
            }
            "sym_note" => {
                if let Val::C(i) = &v[0] {
                    Rc::make_mut(&mut st.notes).push((*i as u32, v[1].clone()));
                }
                Ok(Some(Val::C(0)))
            }
            "sym_concretize" => {
                let x = self.concretize(st, &v[0])?;
                Ok(Some(Val::C(x)))
            }
            "sym_select" => {
                // Copies `len` bytes when the condition holds, without branching.
                let d = self.concretize(st, &v[0])?;
                let s = self.concretize(st, &v[1])?;
                let n = self.concretize(st, &v[2])?;
                let cond = match &v[3] {
                    Val::C(x) => Some(x & 1 == 1),
                    Val::S(e) => self.quick(st, *e)?,
                    _ => unreachable!(),
                };
                match cond {
                    Some(true) => self.copy(st, d, s, n)?,
                    Some(false) => {}
                    None => {
                        let e = v[3].term(1);
                        // Word by word where it is possible.
                        let mut k = 0;
                        while k < n {
                            let step = if n - k >= 8 { 8 } else if n - k >= 4 { 4 } else { 1 };
                            let t = Ty::Int(8 * step as u32);
                            let x = self.load(st, &t, &Val::C(s + k))?;
                            let y = self.load(st, &t, &Val::C(d + k))?;
                            let z = merge(&t, e, &x, &y);
                            self.store(st, &t, &Val::C(d + k), &z)?;
                            k += step;
                        }
                    }
                }
                Ok(Some(Val::C(0)))
            }
            "sym_ite" => {
                let r = match &v[0] {
                    Val::C(x) => v[if x & 1 == 1 { 1 } else { 2 }].clone(),
                    Val::S(e) => match self.quick(st, *e)? {
                        Some(true) => v[1].clone(),
                        Some(false) => v[2].clone(),
                        None => merge(&Ty::Int(64), *e, &v[1], &v[2]),
                    },
                    _ => unreachable!(),
                };
                Ok(Some(r))
            }
            "sym_done" => Ok(None),
            // ---- C library
            "malloc" => {
                let n = self.concretize(st, &v[0])?;
                Ok(Some(Val::C(self.alloc(st, n, 16, false)?)))
            }
            "calloc" => {
                let n = self.concretize(st, &v[0])?;
                let k = self.concretize(st, &v[1])?;
                Ok(Some(Val::C(self.alloc(st, n * k, 16, true)?)))
            }
            "realloc" => {
                let p = self.concretize(st, &v[0])?;
                let n = self.concretize(st, &v[1])?;
                let q = self.alloc(st, n, 16, false)?;
                if p != 0 {
                    let old = self.obj(st, p, 0)?.data.len() as u64;
                    self.copy(st, q, p, old.min(n))?;
                    self.free(st, p)?;
                }
                Ok(Some(Val::C(q)))
            }
            "free" => {
                let p = self.concretize(st, &v[0])?;
                self.free(st, p)?;
                Ok(Some(Val::C(0)))
            }
            "posix_memalign" => {
                let out = self.concretize(st, &v[0])?;
                let al = self.concretize(st, &v[1])?;
                let n = self.concretize(st, &v[2])?;
                let q = self.alloc(st, n, al, false)?;
                self.store(st, &Ty::Ptr, &Val::C(out), &Val::C(q))?;
                Ok(Some(Val::C(0)))
            }
            "memcmp" | "bcmp" => {
                let a = self.concretize(st, &v[0])?;
                let b = self.concretize(st, &v[1])?;
                let n = self.concretize(st, &v[2])?;
                let w = ret.bits();
                if n == 0 {
                    return Ok(Some(Val::C(0)));
                }
                let mut r = c.k(0, w);
                let (one, neg) = (c.k(1, w), c.k(mask(w), w));
                for k in (0..n).rev() {
                    let x = self.byte(st, a + k)?.term(8);
                    let y = self.byte(st, b + k)?.term(8);
                    let e = c.eq(x, y);
                    let lt = c.ult(x, y);
                    let d = if name == "bcmp" { one } else { c.ite(lt, neg, one) };
                    r = c.ite(e, r, d);
                }
                Ok(Some(Val::of(r)))
            }
            "strlen" => {
                let a = self.concretize(st, &v[0])?;
                let mut n = 0;
                loop {
                    let b = self.byte(st, a + n)?;
                    let z = c.k(0, 8);
                    let q = c.eq(b.term(8), z);
                    if self.decide(st, q)? {
                        return Ok(Some(Val::C(n)));
                    }
                    n += 1;
                }
            }
            "memchr" => {
                let a = self.concretize(st, &v[0])?;
                let n = self.concretize(st, &v[2])?;
                let ch = v[1].term(32);
                let ch = c.extract(ch, 0, 8);
                for k in 0..n {
                    let b = self.byte(st, a + k)?.term(8);
                    let q = c.eq(b, ch);
                    if self.decide(st, q)? {
                        return Ok(Some(Val::C(a + k)));
                    }
                }
                Ok(Some(Val::C(0)))
            }
            "memrchr" => {
                let a = self.concretize(st, &v[0])?;
                let n = self.concretize(st, &v[2])?;
                let ch = v[1].term(32);
                let ch = c.extract(ch, 0, 8);
                for k in (0..n).rev() {
                    let b = self.byte(st, a + k)?.term(8);
                    let q = c.eq(b, ch);
                    if self.decide(st, q)? {
                        return Ok(Some(Val::C(a + k)));
                    }
                }
                Ok(Some(Val::C(0)))
            }
            "abort" | "__rust_start_panic" | "rust_begin_unwind" => Err(Stop::Fault(format!("{name} called"))),
            "pthread_self" | "gettid" => Ok(Some(Val::C(1))),
            "getrandom" => {
                // Fixed bytes: used only for hash-map seeds.
                let n = self.concretize(st, &v[1])?;
                Ok(Some(Val::C(n)))
            }
            _ => Err(Stop::Abort(format!("call of external function {name}"))),
        }
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, args: &[(Ty, Opd)], v: &[Val], ret: &Ty) -> R<Val> {
        let c = ctx();
        let is = |p: &str| name == p || name.strip_prefix(p).is_some_and(|r| r.starts_with('.'));
        // Vector forms: lane by lane.
        if let Ty::Vec(n, et) = ret {
            if ["umax", "umin", "smax", "smin", "ctpop", "cttz", "ctlz", "usub.sat", "uadd.sat", "bswap", "abs"]
                .iter()
                .any(|p| is(p))
            {
                let mut out = vec![];
                for i in 0..*n as usize {
                    let lane: Vec<Val> = v
                        .iter()
                        .map(|x| match x {
                            Val::Agg(es) => es[i].clone(),
                            x => x.clone(),
                        })
                        .collect();
                    let largs: Vec<(Ty, Opd)> = args
                        .iter()
                        .map(|(t, o)| match t {
                            Ty::Vec(_, t) => ((**t).clone(), o.clone()),
                            t => (t.clone(), o.clone()),
                        })
                        .collect();
                    out.push(self.intrinsic(st, name, &largs, &lane, et)?);
                }
                return Ok(Val::Agg(out.into()));
            }
        }
        if is("lifetime.start")
            || is("lifetime.end")
            || is("experimental.noalias.scope.decl")
            || is("dbg.value")
            || is("dbg.declare")
            || is("invariant.start")
            || is("invariant.end")
            || is("donothing")
            || is("prefetch")
            || is("sideeffect")
        {
            return Ok(Val::C(0));
        }
        if is("memcpy") || is("memmove") || is("memcpy.inline") {
            let d = self.concretize(st, &v[0])?;
            let s = self.concretize(st, &v[1])?;
            let n = self.concretize(st, &v[2])?;
            self.copy(st, d, s, n)?;
            return Ok(Val::C(0));
        }
        if is("memset") || is("memset.inline") {
            let d = self.concretize(st, &v[0])?;
            let n = self.concretize(st, &v[2])?;
            if n > 0 {
                let b = v[1].clone();
                match b {
                    Val::C(x) => self.with_mut(st, d, n, |o, off| {
                        for y in &mut o.data[off..off + n as usize] {
                            *y = x as u8;
                        }
                        if let Some(s) = &mut o.sym {
                            for y in &mut s[off..off + n as usize] {
                                y.0 = NOSYM;
                            }
                        }
                    })?,
                    b => {
                        for k in 0..n {
                            self.store(st, &Ty::Int(8), &Val::C(d + k), &b)?;
                        }
                    }
                }
            }
            return Ok(Val::C(0));
        }
        if is("assume") {
            if args.is_empty() {
                return Ok(Val::C(0));
            }
            match &v[0] {
                Val::C(x) if x & 1 == 0 => return Err(Stop::Fault("assumption of the compiler broken".into())),
                Val::S(e) => {
                    // Undefined behaviour unless it holds.
                    let e = *e;
                    if self.quick(st, e)? != Some(true) {
                        let ne = c.not(e);
                        if let Some(m) = self.query(st, ne)? {
                            self.violation(st, "fault", 0, "assumption of the compiler broken".into(), &m);
                            return Err(Stop::Kill);
                        }
                        st.learn(e, true);
                    }
                }
                _ => {}
            }
            return Ok(Val::C(0));
        }
        if is("expect") || is("expect.with.probability") || is("threadlocal.address") || is("launder.invariant.group")
            || is("strip.invariant.group") || is("ptrmask") && false
        {
            return Ok(v[0].clone());
        }
        if is("trap") || is("debugtrap") || is("ubsantrap") {
            return Err(Stop::Fault("trap".into()));
        }
        if is("is.constant") {
            return Ok(Val::C(0));
        }
        if is("load.relative") {
            let base = self.concretize(st, &v[0])?;
            let off = v[1].term(64);
            let k = c.k(base as u128, 64);
            let a = c.add(k, off);
            let rel = self.load(st, &Ty::Int(32), &Val::of(a))?;
            let r = c.sext(rel.term(32), 64);
            let r = c.add(r, k);
            return Ok(Val::of(r));
        }
        let w = match args.first() {
            Some((t, _)) if t.is_scalar() => t.bits(),
            _ => return Err(Stop::Abort(format!("intrinsic llvm.{name}"))),
        };
        for (p, less_first, signed) in
            [("umax", false, false), ("umin", true, false), ("smax", false, true), ("smin", true, true)]
        {
            if is(p) {
                let (a, b) = (v[0].term(w), v[1].term(w));
                let lt = if signed { c.slt(a, b) } else { c.ult(a, b) };
                let lt = match self.quick(st, lt)? {
                    Some(x) => c.k(x as u128, 1),
                    None => lt,
                };
                return Ok(Val::of(if less_first { c.ite(lt, a, b) } else { c.ite(lt, b, a) }));
            }
        }
        if is("cttz") || is("ctlz") || is("ctpop") {
            let a = v[0].term(w);
            let a = st.simplify(a);
            let r = if is("cttz") {
                c.cttz(a)
            } else if is("ctlz") {
                c.ctlz(a)
            } else {
                c.ctpop(a)
            };
            if !is("ctpop") && w >= 64 {
                return Ok(Val::of(self.simpler(st, r)?));
            }
            return Ok(Val::of(r));
        }
        if is("bswap") {
            let a = v[0].term(w);
            let mut r = c.extract(a, 0, 8);
            for k in 1..w / 8 {
                let b = c.extract(a, 8 * k, 8);
                r = c.concat(r, b);
            }
            return Ok(Val::of(r));
        }
        if is("bitreverse") {
            let a = v[0].term(w);
            let mut r = c.extract(a, 0, 1);
            for k in 1..w {
                let b = c.extract(a, k, 1);
                r = c.concat(r, b);
            }
            return Ok(Val::of(r));
        }
        if is("fshl") || is("fshr") {
            let (a, b, s) = (v[0].term(w), v[1].term(w), v[2].term(w));
            let kw = c.k(w as u128, w);
            let s = c.div(Op::URem, s, kw);
            let z = c.k(0, w);
            let q = c.eq(s, z);
            let inv = c.sub(kw, s);
            let r = if is("fshl") {
                let (x, y) = (c.shl(a, s), c.lshr(b, inv));
                let o = c.or(x, y);
                c.ite(q, a, o)
            } else {
                let (x, y) = (c.shl(a, inv), c.lshr(b, s));
                let o = c.or(x, y);
                c.ite(q, b, o)
            };
            return Ok(Val::of(r));
        }
        if is("usub.sat") {
            let (a, b) = (v[0].term(w), v[1].term(w));
            let lt = c.ult(a, b);
            let d = c.sub(a, b);
            let z = c.k(0, w);
            return Ok(Val::of(c.ite(lt, z, d)));
        }
        if is("uadd.sat") {
            let (a, b) = (v[0].term(w), v[1].term(w));
            let s = c.add(a, b);
            let lt = c.ult(s, a);
            let o = c.k(mask(w), w);
            return Ok(Val::of(c.ite(lt, o, s)));
        }
        if is("abs") {
            let a = v[0].term(w);
            let z = c.k(0, w);
            let neg = c.slt(a, z);
            let n = c.sub(z, a);
            return Ok(Val::of(c.ite(neg, n, a)));
        }
        if is("ucmp") || is("scmp") {
            let (a, b) = (v[0].term(w), v[1].term(w));
            let (lt, gt) = if is("ucmp") { (c.ult(a, b), c.ult(b, a)) } else { (c.slt(a, b), c.slt(b, a)) };
            let rw = ret.bits();
            let (m1, z, p1) = (c.k(mask(rw), rw), c.k(0, rw), c.k(1, rw));
            let t = c.ite(gt, p1, z);
            return Ok(Val::of(c.ite(lt, m1, t)));
        }
        for (p, b) in [("add", Op::Add), ("sub", Op::Sub), ("mul", Op::Mul)] {
            for s in ["u", "s"] {
                if is(&format!("{s}{p}.with.overflow")) {
                    let (a, y) = (v[0].term(w), v[1].term(w));
                    let r = c.bin(b, a, y);
                    let o = match (p, s) {
                        ("add", "u") => {
                            let nn = c.not(y);
                            c.ult(nn, a)
                        }
                        ("sub", "u") => c.ult(a, y),
                        _ => {
                            if w > 64 {
                                return Err(Stop::Abort("wide overflow check".into()));
                            }
                            let e = |c: &mut crate::expr::Ctx, x| {
                                if s == "u" {
                                    c.zext(x, 2 * w)
                                } else {
                                    c.sext(x, 2 * w)
                                }
                            };
                            let (x2, y2, r2) = (e(c, a), e(c, y), e(c, r));
                            let full = c.bin(b, x2, y2);
                            let q = c.eq(full, r2);
                            c.not(q)
                        }
                    };
                    let o = match self.quick(st, o)? {
                        Some(x) => Val::C(x as u64),
                        None => Val::of(o),
                    };
                    return Ok(Val::Agg(vec![Val::of(r), o].into()));
                }
            }
        }
        if is("ptrmask") {
            let (a, b) = (v[0].term(64), v[1].term(64));
            return Ok(Val::of(c.and(a, b)));
        }
        Err(Stop::Abort(format!("intrinsic llvm.{name}")))
    }
}

/// The condition of a choice inside the term (an `Ite` reached without passing comparisons).
fn find_choice(e: ExprId) -> Option<ExprId> {
    let c = ctx();
    let mut stack = vec![e];
    let mut seen = 0;
    while let Some(e) = stack.pop() {
        seen += 1;
        if seen > 200 {
            return None;
        }
        let n = *c.n(e);
        match n.op {
            Op::Ite => return Some(n.a),
            Op::Const | Op::Var | Op::Eq | Op::Ult | Op::Slt => {}
            Op::Extract | Op::ZExt | Op::SExt => {
                if c.w(n.a) == 1 {
                    if c.const_val(n.a).is_none() {
                        return Some(n.a);
                    }
                } else {
                    stack.push(n.a)
                }
            }
            _ => {
                stack.push(n.b);
                stack.push(n.a);
            }
        }
    }
    None
}

/// For a comparison of 61 or more bits: a condition its operands hang on, when they are
/// made of constants and choices only.
fn index_choice(c: ExprId) -> Option<ExprId> {
    let x = ctx();
    let n = *x.n(c);
    if !matches!(n.op, Op::Eq | Op::Ult) || x.w(n.a) < 61 {
        return None;
    }
    only_choices(&[n.a, n.b])
}

/// The first condition in terms made of constants and choices only.
fn only_choices(terms: &[ExprId]) -> Option<ExprId> {
    let x = ctx();
    let mut stack = terms.to_vec();
    let mut found = None;
    let mut seen = 0;
    while let Some(e) = stack.pop() {
        seen += 1;
        if seen > 200 {
            return None;
        }
        let n = *x.n(e);
        match n.op {
            Op::Const => {}
            Op::Ite => {
                found = found.or(Some(n.a));
                stack.push(n.b);
                stack.push(n.c);
            }
            Op::Var => return None,
            _ if n.w == 1 => found = found.or(Some(e)),
            Op::ZExt | Op::SExt | Op::Extract => stack.push(n.a),
            Op::Add | Op::Sub | Op::Mul | Op::Concat => {
                stack.push(n.b);
                stack.push(n.a);
            }
            _ => return None,
        }
    }
    found
}

/// A balanced choice of `cells` by the value of `e`.
fn choice(e: ExprId, cells: &[(u128, ExprId)]) -> ExprId {
    if cells.iter().all(|x| x.1 == cells[0].1) {
        return cells[0].1;
    }
    let c = ctx();
    let w = c.w(e);
    let m = cells.len() / 2;
    let l = choice(e, &cells[..m]);
    let r = choice(e, &cells[m..]);
    let k = c.k(cells[m].0, w);
    let q = c.ult(e, k);
    c.ite(q, l, r)
}

pub fn merge(t: &Ty, c: ExprId, x: &Val, y: &Val) -> Val {
    match (x, y) {
        (Val::Agg(xs), Val::Agg(ys)) => Val::Agg(
            xs.iter()
                .zip(ys.iter())
                .enumerate()
                .map(|(i, (x, y))| merge(&t.field(i as u64).1, c, x, y))
                .collect::<Vec<_>>()
                .into(),
        ),
        (x, y) => {
            let w = t.bits();
            let r = ctx().ite(c, x.term(w), y.term(w));
            Val::of(r)
        }
    }
}

fn lanes_to_int(es: &[Val], w: u32) -> Val {
    let c = ctx();
    let mut acc = es[0].term(w);
    for e in &es[1..] {
        let t = e.term(w);
        acc = c.concat(t, acc);
    }
    Val::of(acc)
}

fn int_to_lanes(v: &Val, n: u32, w: u32) -> Val {
    let c = ctx();
    let e = v.term(n * w);
    Val::Agg((0..n).map(|i| Val::of(c.extract(e, i * w, w))).collect::<Vec<_>>().into())
}

fn bin(b: Bin, t: &Ty, x: &Val, y: &Val) -> R<Val> {
    if let (Val::C(x), Val::C(y)) = (x, y) {
        let w = t.bits();
        let m = mask(w) as u64;
        let (x, y) = (*x, *y);
        let div0 = || Stop::Fault("division by zero".into());
        return Ok(Val::C(
            match b {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                Bin::Mul => x.wrapping_mul(y),
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                Bin::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                Bin::AShr => (sext64(x, w) as i64 >> y.min(63)) as u64,
                Bin::UDiv => x.checked_div(y).ok_or_else(div0)?,
                Bin::URem => x.checked_rem(y).ok_or_else(div0)?,
                Bin::SDiv => (sext64(x, w) as i64).checked_div(sext64(y, w) as i64).ok_or_else(div0)? as u64,
                Bin::SRem => (sext64(x, w) as i64).checked_rem(sext64(y, w) as i64).ok_or_else(div0)? as u64,
            } & m,
        ));
    }
    if let Ty::Vec(_, et) = t {
        let (Val::Agg(x), Val::Agg(y)) = (x, y) else { return Err(Stop::Abort("vector operation".into())) };
        let mut out = vec![];
        for (x, y) in x.iter().zip(y.iter()) {
            out.push(bin(b, et, x, y)?);
        }
        return Ok(Val::Agg(out.into()));
    }
    let w = t.bits();
    let (x, y) = (x.term(w), y.term(w));
    let op = match b {
        Bin::Add => Op::Add,
        Bin::Sub => Op::Sub,
        Bin::Mul => Op::Mul,
        Bin::UDiv => Op::UDiv,
        Bin::SDiv => Op::SDiv,
        Bin::URem => Op::URem,
        Bin::SRem => Op::SRem,
        Bin::And => Op::And,
        Bin::Or => Op::Or,
        Bin::Xor => Op::Xor,
        Bin::Shl => Op::Shl,
        Bin::LShr => Op::LShr,
        Bin::AShr => Op::AShr,
    };
    let c = ctx();
    if matches!(b, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem) && c.n(y).umin == 0 {
        return Err(Stop::Abort("division by a term that may be zero".into()));
    }
    Ok(Val::of(c.bin(op, x, y)))
}

fn icmp(p: Pred, t: &Ty, x: &Val, y: &Val) -> Val {
    if let (Val::C(x), Val::C(y)) = (x, y) {
        let w = t.bits();
        let (x, y) = (*x, *y);
        let (sx, sy) = (sext64(x, w) as i64, sext64(y, w) as i64);
        return Val::C(match p {
            Pred::Eq => x == y,
            Pred::Ne => x != y,
            Pred::Ugt => x > y,
            Pred::Uge => x >= y,
            Pred::Ult => x < y,
            Pred::Ule => x <= y,
            Pred::Sgt => sx > sy,
            Pred::Sge => sx >= sy,
            Pred::Slt => sx < sy,
            Pred::Sle => sx <= sy,
        } as u64);
    }
    if let (Ty::Vec(_, et), Val::Agg(x), Val::Agg(y)) = (t, x, y) {
        return Val::Agg(x.iter().zip(y.iter()).map(|(x, y)| icmp(p, et, x, y)).collect::<Vec<_>>().into());
    }
    let w = t.bits();
    let c = ctx();
    let (x, y) = (x.term(w), y.term(w));
    let e = match p {
        Pred::Eq => c.eq(x, y),
        Pred::Ne => {
            let e = c.eq(x, y);
            c.not(e)
        }
        Pred::Ult => c.ult(x, y),
        Pred::Ugt => c.ult(y, x),
        Pred::Ule => c.ule(x, y),
        Pred::Uge => c.ule(y, x),
        Pred::Slt => c.slt(x, y),
        Pred::Sgt => c.slt(y, x),
        Pred::Sle => {
            let e = c.slt(y, x);
            c.not(e)
        }
        Pred::Sge => {
            let e = c.slt(x, y);
            c.not(e)
        }
    };
    Val::of(e)
}

fn cast(k: Cast, t: &Ty, x: &Val, t2: &Ty) -> R<Val> {
    if let (Ty::Vec(_, a), Ty::Vec(_, b), Val::Agg(es)) = (t, t2, x) {
        if k != Cast::BitCast {
            let mut out = vec![];
            for e in es.iter() {
                out.push(cast(k, a, e, b)?);
            }
            return Ok(Val::Agg(out.into()));
        }
        let all = lanes_to_int(es, a.bits());
        if let Ty::Vec(n, _) = t2 {
            return Ok(int_to_lanes(&all, *n, b.bits()));
        }
    }
    if let (Ty::Vec(_, a), Val::Agg(es)) = (t, x) {
        return Ok(lanes_to_int(es, a.bits()));
    }
    if let Ty::Vec(n, b) = t2 {
        return Ok(int_to_lanes(x, *n, b.bits()));
    }
    let (w, w2) = (t.bits(), t2.bits());
    if let Val::C(v) = x {
        return Ok(match k {
            Cast::SExt => Val::int(crate::expr::sext(*v as u128, w) as u128, w2),
            _ => Val::int(*v as u128, w2),
        });
    }
    let e = x.term(w);
    let c = ctx();
    Ok(Val::of(match k {
        Cast::SExt => c.sext(e, w2),
        _ if w2 > w => c.zext(e, w2),
        _ => c.extract(e, 0, w2),
    }))
}

// -------------------------------------------------------------------- path facts

impl State {
    /// Adds a condition to the path.
    fn assume(&mut self, c: ExprId, val: bool) {
        let e = if val { c } else { ctx().not(c) };
        let x = ctx();
        let pc = Rc::make_mut(&mut self.pc);
        if let Some((t, lo, hi)) = x.within(e) {
            // A looser test of the same term among the latest conditions says no more.
            let from = pc.len().saturating_sub(24);
            let mut i = from;
            while i < pc.len() {
                match x.within(pc[i]) {
                    Some((u, l, h)) if u == t && l <= lo && hi <= h => {
                        pc.remove(i);
                    }
                    _ => i += 1,
                }
            }
        }
        pc.push(e);
        self.learn(c, val);
        self.revisit();
    }

    /// Looks again at the open conditions: what the path has learned since may settle
    /// one part, and then the other follows.
    fn revisit(&mut self) {
        if self.open.is_empty() || self.busy {
            return;
        }
        self.busy = true;
        for _ in 0..4 {
            let open = std::mem::take(Rc::make_mut(&mut self.open));
            let mut changed = false;
            let mut kept = vec![];
            for (c, val) in open {
                let n = *ctx().n(c);
                // `val` is what either part would settle: true for a disjunction that holds.
                match (self.truth(n.a, 4), self.truth(n.b, 4)) {
                    (Some(p), _) | (_, Some(p)) if p == val => changed = true,
                    (Some(_), _) => {
                        self.learn(n.b, val);
                        changed = true;
                    }
                    (_, Some(_)) => {
                        self.learn(n.a, val);
                        changed = true;
                    }
                    _ => kept.push((c, val)),
                }
            }
            let fresh = std::mem::take(Rc::make_mut(&mut self.open));
            kept.extend(fresh);
            let k = kept.len().saturating_sub(64);
            kept.drain(..k);
            self.open = Rc::new(kept);
            if !changed {
                break;
            }
        }
        self.busy = false;
    }

    /// Records what follows from a condition that holds on the path.
    fn learn(&mut self, c: ExprId, val: bool) {
        let x = ctx();
        let n = *x.n(c);
        match n.op {
            Op::Const => return,
            Op::Xor if x.const_val(n.b) == Some(1) => return self.learn(n.a, !val),
            _ => {}
        }
        if self.facts.get(&c) == Some(&val) {
            return;
        }
        Rc::make_mut(&mut self.facts).insert(c, val);
        match n.op {
            Op::And if val => {
                self.learn(n.a, true);
                self.learn(n.b, true);
            }
            Op::Or if !val => {
                self.learn(n.a, false);
                self.learn(n.b, false);
            }
            Op::And => {
                // one part known true: the other is false
                if self.truth(n.a, 2) == Some(true) {
                    self.learn(n.b, false);
                } else if self.truth(n.b, 2) == Some(true) {
                    self.learn(n.a, false);
                } else if n.w == 1 {
                    Rc::make_mut(&mut self.open).push((c, false));
                }
            }
            Op::Or => {
                if self.truth(n.a, 2) == Some(false) {
                    self.learn(n.b, true);
                } else if self.truth(n.b, 2) == Some(false) {
                    self.learn(n.a, true);
                } else if n.w == 1 {
                    Rc::make_mut(&mut self.open).push((c, true));
                }
            }
            Op::Ult => {
                let (ra, rb) = (self.range(n.a, 4), self.range(n.b, 4));
                if x.const_val(n.a).is_none() && x.const_val(n.b).is_none() && self.order.len() < 32 {
                    let t = if val { (n.a, n.b, 1) } else { (n.b, n.a, 0) };
                    Rc::make_mut(&mut self.order).push(t);
                }
                if val {
                    if rb.1 > 0 {
                        self.narrow(n.a, 0, rb.1 - 1);
                    }
                    self.narrow(n.b, ra.0 + 1, u128::MAX);
                } else {
                    self.narrow(n.a, rb.0, u128::MAX);
                    self.narrow(n.b, 0, ra.1);
                }
            }
            Op::Eq if x.w(n.a) > 1 => {
                if let Some(k) = x.const_val(n.b) {
                    if val {
                        self.narrow(n.a, k, k);
                    } else {
                        let (lo, hi) = self.range(n.a, 4);
                        if lo == k && lo < hi {
                            self.narrow(n.a, lo + 1, hi);
                        } else if hi == k && lo < hi {
                            self.narrow(n.a, lo, hi - 1);
                        }
                    }
                } else if val {
                    let (ra, rb) = (self.range(n.a, 4), self.range(n.b, 4));
                    self.narrow(n.a, rb.0, rb.1);
                    self.narrow(n.b, ra.0, ra.1);
                }
            }
            _ => {}
        }
    }

    fn narrow(&mut self, e: ExprId, lo: u128, hi: u128) {
        self.narrow_in(e, lo, hi, 12);
    }

    fn narrow_in(&mut self, e: ExprId, lo: u128, hi: u128, depth: u32) {
        if depth == 0 {
            return;
        }
        let x = ctx();
        let n = *x.n(e);
        if n.op == Op::Const {
            return;
        }
        let (a, b) = self.range(e, 4);
        let (lo, hi) = (lo.max(a), hi.min(b));
        if lo > hi || (lo, hi) == (a, b) {
            return;
        }
        Rc::make_mut(&mut self.ranges).insert(e, (lo, hi));
        for i in 0..self.order.len() {
            let (p, q, s) = self.order[i];
            if p == e && lo + s <= mask(n.w) {
                self.narrow_in(q, lo + s, u128::MAX, depth - 1);
            } else if q == e && hi >= s {
                self.narrow_in(p, 0, hi - s, depth - 1);
            }
        }
        match n.op {
            Op::ZExt => self.narrow_in(n.a, lo, hi, depth - 1),
            Op::Add => {
                if let Some(k) = x.const_val(n.b) {
                    let m = mask(n.w);
                    let (l, h) = (lo.wrapping_sub(k) & m, hi.wrapping_sub(k) & m);
                    if l <= h {
                        self.narrow_in(n.a, l, h, depth - 1);
                    }
                }
            }
            Op::Extract => {
                // The top bits of a term.
                let w = x.w(n.a);
                if n.k as u32 + n.w == w && n.k > 0 {
                    self.narrow_in(n.a, lo << n.k, (hi << n.k) | mask(n.k as u32), depth - 1);
                }
            }
            Op::Ite => {
                // An alternative that is out of the question settles the choice.
                let (p, q) = (self.range(n.b, 4), self.range(n.c, 4));
                if p.1 < lo || hi < p.0 {
                    self.learn(n.a, false);
                    self.narrow_in(n.c, lo, hi, depth - 1);
                } else if q.1 < lo || hi < q.0 {
                    self.learn(n.a, true);
                    self.narrow_in(n.b, lo, hi, depth - 1);
                }
            }
            _ => {}
        }
    }

    pub fn range(&self, e: ExprId, depth: u32) -> (u128, u128) {
        let x = ctx();
        let n = x.n(e);
        let (mut lo, mut hi) = (n.umin, n.umax);
        if n.op == Op::Const {
            return (lo, hi);
        }
        if let Some(&(a, b)) = self.ranges.get(&e) {
            lo = lo.max(a);
            hi = hi.min(b);
        }
        if depth == 0 {
            return (lo, hi);
        }
        let m = mask(n.w);
        let r = match n.op {
            Op::ZExt => Some(self.range(n.a, depth - 1)),
            Op::Add => {
                let (a, b) = (self.range(n.a, depth - 1), self.range(n.b, depth - 1));
                if a.1 <= m - b.1 {
                    Some((a.0 + b.0, a.1 + b.1))
                } else if let Some(k) = x.const_val(n.b) {
                    // Every value wraps: a subtraction.
                    let s = (m - k) + 1;
                    if a.0 >= s {
                        Some((a.0 - s, a.1 - s))
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            Op::Sub => {
                let (a, b) = (self.range(n.a, depth - 1), self.range(n.b, depth - 1));
                if a.0 >= b.1 {
                    Some((a.0 - b.1, a.1 - b.0))
                } else {
                    None
                }
            }
            Op::Extract => {
                let a = self.range(n.a, depth - 1);
                if a.1 >> n.k <= m {
                    Some((a.0 >> n.k, a.1 >> n.k))
                } else {
                    None
                }
            }
            Op::Concat => {
                let lw = x.w(n.b);
                let (a, b) = (self.range(n.a, depth - 1), self.range(n.b, depth - 1));
                Some(((a.0 << lw) | b.0, (a.1 << lw) | b.1))
            }
            Op::Ite => {
                let t = self.facts.get(&n.a).copied();
                match t {
                    Some(true) => Some(self.range(n.b, depth - 1)),
                    Some(false) => Some(self.range(n.c, depth - 1)),
                    None => {
                        let (a, b) = (self.range(n.b, depth - 1), self.range(n.c, depth - 1));
                        let q = x.n(n.a);
                        Some(match q.op {
                            // minimum and maximum
                            Op::Ult if (q.a, q.b) == (n.b, n.c) => (a.0.min(b.0), a.1.min(b.1)),
                            Op::Ult if (q.a, q.b) == (n.c, n.b) => (a.0.max(b.0), a.1.max(b.1)),
                            _ => (a.0.min(b.0), a.1.max(b.1)),
                        })
                    }
                }
            }
            _ => None,
        };
        if let Some((a, b)) = r {
            lo = lo.max(a);
            hi = hi.min(b);
        }
        if lo > hi {
            // Contradictory only on an infeasible path; stay with the static bounds.
            return (n.umin, n.umax);
        }
        (lo, hi)
    }

    /// What the recorded facts and ranges say about a condition.
    pub fn truth(&self, c: ExprId, depth: u32) -> Option<bool> {
        let x = ctx();
        let n = *x.n(c);
        if n.op == Op::Const {
            return Some(n.k == 1);
        }
        if let Some(&b) = self.facts.get(&c) {
            return Some(b);
        }
        if depth == 0 {
            return None;
        }
        match n.op {
            Op::Xor if x.const_val(n.b) == Some(1) => self.truth(n.a, depth).map(|b| !b),
            Op::Xor if n.w == 1 => {
                let (a, b) = (self.truth(n.a, depth - 1)?, self.truth(n.b, depth - 1)?);
                Some(a != b)
            }
            Op::And if n.w == 1 => match (self.truth(n.a, depth - 1), self.truth(n.b, depth - 1)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Op::Or if n.w == 1 => match (self.truth(n.a, depth - 1), self.truth(n.b, depth - 1)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            Op::Ite if n.w == 1 => match self.truth(n.a, depth - 1)? {
                true => self.truth(n.b, depth - 1),
                false => self.truth(n.c, depth - 1),
            },
            Op::Ult => {
                let (a, b) = (self.range(n.a, 5), self.range(n.b, 5));
                if a.1 < b.0 {
                    Some(true)
                } else if a.0 >= b.1 {
                    Some(false)
                } else {
                    None
                }
            }
            Op::Eq if x.w(n.a) > 1 => {
                let (a, b) = (self.range(n.a, 5), self.range(n.b, 5));
                if a.1 < b.0 || b.1 < a.0 {
                    Some(false)
                } else if a.0 == a.1 && a == b {
                    Some(true)
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    /// Rewrites a term with what the path knows (choices and single values).
    pub fn simplify(&self, e: ExprId) -> ExprId {
        let mut memo = HashMap::new();
        self.simp(e, &mut memo, 0)
    }
    fn simp(&self, e: ExprId, memo: &mut HashMap<ExprId, ExprId>, depth: u32) -> ExprId {
        let x = ctx();
        let n = *x.n(e);
        if n.op == Op::Const {
            return e;
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        if n.w == 1 {
            if let Some(b) = self.truth(e, 3) {
                return x.k(b as u128, 1);
            }
        } else {
            let (lo, hi) = self.range(e, 3);
            if lo == hi {
                return x.k(lo, n.w);
            }
        }
        if depth > 64 || n.op == Op::Var {
            return e;
        }
        let r = match n.op {
            Op::Ite => match self.truth(n.a, 4) {
                Some(true) => self.simp(n.b, memo, depth + 1),
                Some(false) => self.simp(n.c, memo, depth + 1),
                None => {
                    let a = self.simp(n.a, memo, depth + 1);
                    let b = self.simp(n.b, memo, depth + 1);
                    let c = self.simp(n.c, memo, depth + 1);
                    x.ite(a, b, c)
                }
            },
            Op::Extract => {
                let a = self.simp(n.a, memo, depth + 1);
                x.extract(a, n.k as u32, n.w)
            }
            Op::ZExt => {
                let a = self.simp(n.a, memo, depth + 1);
                x.zext(a, n.w)
            }
            Op::SExt => {
                let a = self.simp(n.a, memo, depth + 1);
                x.sext(a, n.w)
            }
            Op::Concat => {
                let a = self.simp(n.a, memo, depth + 1);
                let b = self.simp(n.b, memo, depth + 1);
                x.concat(a, b)
            }
            op => {
                let a = self.simp(n.a, memo, depth + 1);
                let b = self.simp(n.b, memo, depth + 1);
                if a == n.a && b == n.b {
                    e
                } else {
                    x.bin(op, a, b)
                }
            }
        };
        memo.insert(e, r);
        r
    }
}
