//! Parser for the textual LLVM IR rustc writes after fat LTO.
use std::collections::HashMap;
use std::rc::Rc;

use crate::exec::Val;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Other,
}

pub fn align_up(x: u64, a: u64) -> u64 {
    if a <= 1 {
        x
    } else {
        (x + a - 1) / a * a
    }
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("bits of {self:?}"),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(n) => {
                let b = (*n as u64 + 7) / 8;
                align_up(b, self.align())
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                let mut al = 1;
                for f in fs.iter() {
                    if !packed {
                        off = align_up(off, f.align());
                        al = al.max(f.align());
                    }
                    off += f.size();
                }
                align_up(off, al)
            }
            Ty::Vec(n, t) => {
                let b = (*n as u64 * t.bits() as u64 + 7) / 8;
                b.next_power_of_two()
            }
        }
    }
    /// Bytes actually read or written by a load or store of the type.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(n) => (*n as u64 + 7) / 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(n) => {
                let b = (*n as u64 + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.size(),
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) => (i * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !packed {
                        off = align_up(off, f.align());
                    }
                    if k as u64 == i {
                        return (off, f.clone());
                    }
                    off += f.size();
                }
                panic!("field index out of range")
            }
            _ => panic!("field of {self:?}"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(Rc<str>),
    Indirect(Opd),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(Bin, Ty, Opd, Opd, u32),
    Icmp(Pred, Ty, Opd, Opd, u32),
    Select(Ty, Opd, Opd, Opd, u32, bool),
    Cast(Cast, Ty, Opd, Ty, u32),
    Gep(Opd, u64, Vec<(Ty, Opd, u64)>, u32),
    Load(Ty, Opd, u32),
    Store(Ty, Opd, Opd),
    Alloca(u64, u64, Option<(Ty, Opd)>, u32),
    Call {
        callee: Callee,
        args: Vec<(Ty, Opd)>,
        ret: Ty,
        dst: Option<u32>,
        normal: Option<u32>,
    },
    Ret(Option<(Ty, Opd)>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(Val, u32)>),
    Unreachable,
    Extract(Opd, Vec<u64>, u32),
    Insert(Ty, Opd, Opd, Vec<u64>, u32),
    ExtractElt(Ty, Opd, Opd, u32),
    InsertElt(Ty, Opd, Opd, Opd, u32),
    Shuffle(Ty, Opd, Opd, Opd, u32),
    Freeze(Opd, u32),
    Rmw(String, Ty, Opd, Opd, u32),
    CmpXchg(Ty, Opd, Opd, Opd, u32),
    Nop,
    Bad(String),
}

#[derive(Debug)]
pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Ty, Vec<(u32, Opd)>)>,
    pub ins: Vec<Ins>,
}

#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub nregs: usize,
    pub addr: u64,
}

pub struct GlobalDef {
    pub name: Rc<str>,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub ty: Ty,
    /// Text of the initializer, `None` when external.
    pub init: Option<(usize, usize)>,
}

pub struct FuncText {
    pub name: Rc<str>,
    pub addr: u64,
    /// Byte range of the definition's text, `None` for a declaration.
    pub text: Option<(usize, usize)>,
}

pub struct Module {
    pub src: String,
    pub globals: Vec<GlobalDef>,
    pub gidx: HashMap<Rc<str>, usize>,
    pub funcs: Vec<FuncText>,
    pub fidx: HashMap<Rc<str>, usize>,
    pub faddr: HashMap<u64, usize>,
    pub aliases: HashMap<String, String>,
    pub types: HashMap<String, Ty>,
}

pub const GLOBAL_BASE: u64 = 0x0010_0000;
pub const FUNC_BASE: u64 = 0x7000_0000;
pub const HEAP_BASE: u64 = 0x8000_0000;

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Word(String),
    Local(String),
    Global(String),
    Num(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    Meta,
    Attr,
    P(u8),
    Dots,
    Eof,
}

pub struct Lex<'a> {
    s: &'a [u8],
    p: usize,
    peeked: Option<(Tok, usize)>,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Self {
        Lex {
            s: s.as_bytes(),
            p: 0,
            peeked: None,
        }
    }
    fn quoted(&mut self) -> Vec<u8> {
        // self.p is at the opening quote
        self.p += 1;
        let mut out = Vec::new();
        while self.s[self.p] != b'"' {
            let c = self.s[self.p];
            if c == b'\\' {
                if self.s[self.p + 1] == b'\\' {
                    out.push(b'\\');
                    self.p += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                    out.push(u8::from_str_radix(h, 16).unwrap());
                    self.p += 3;
                }
            } else {
                out.push(c);
                self.p += 1;
            }
        }
        self.p += 1;
        out
    }
    fn name(&mut self) -> String {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            String::from_utf8_lossy(&self.quoted()).into_owned()
        } else {
            let st = self.p;
            while self.p < self.s.len() && is_word(self.s[self.p]) {
                self.p += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
        }
    }
    fn raw(&mut self) -> Tok {
        loop {
            while self.p < self.s.len() && self.s[self.p].is_ascii_whitespace() {
                self.p += 1;
            }
            if self.p < self.s.len() && self.s[self.p] == b';' {
                while self.p < self.s.len() && self.s[self.p] != b'\n' {
                    self.p += 1;
                }
                continue;
            }
            break;
        }
        if self.p >= self.s.len() {
            return Tok::Eof;
        }
        let c = self.s[self.p];
        match c {
            b'%' => {
                self.p += 1;
                Tok::Local(self.name())
            }
            b'@' => {
                self.p += 1;
                Tok::Global(self.name())
            }
            b'"' => Tok::Str(self.quoted()),
            b'c' if self.p + 1 < self.s.len() && self.s[self.p + 1] == b'"' => {
                self.p += 1;
                Tok::CStr(self.quoted())
            }
            b'!' => {
                self.p += 1;
                if self.p < self.s.len() && (is_word(self.s[self.p]) || self.s[self.p] == b'"') {
                    self.name();
                }
                Tok::Meta
            }
            b'#' => {
                self.p += 1;
                self.name();
                Tok::Attr
            }
            b'.' if self.s[self.p..].starts_with(b"...") => {
                self.p += 3;
                Tok::Dots
            }
            _ if c.is_ascii_digit() || c == b'-' => Tok::Num(self.name()),
            _ if is_word(c) => Tok::Word(self.name()),
            _ => {
                self.p += 1;
                Tok::P(c)
            }
        }
    }
    fn next(&mut self) -> Tok {
        if let Some((t, e)) = self.peeked.take() {
            self.p = e;
            return t;
        }
        self.raw()
    }
    fn peek(&mut self) -> &Tok {
        if self.peeked.is_none() {
            let save = self.p;
            let t = self.raw();
            let e = self.p;
            self.p = save;
            self.peeked = Some((t, e));
        }
        &self.peeked.as_ref().unwrap().0
    }
    fn eat(&mut self, c: u8) -> bool {
        if *self.peek() == Tok::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if matches!(self.peek(), Tok::Word(x) if x == w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn want(&mut self, c: u8) {
        let t = self.next();
        if t != Tok::P(c) {
            panic!("expected '{}', got {t:?} near {}", c as char, self.near());
        }
    }
    fn near(&self) -> String {
        let a = self.p.saturating_sub(60);
        let b = (self.p + 60).min(self.s.len());
        String::from_utf8_lossy(&self.s[a..b]).into_owned()
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut depth = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => depth += 1,
                Tok::P(b')') => {
                    depth -= 1;
                    if depth == 0 {
                        return;
                    }
                }
                Tok::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
}

fn type_word(w: &str) -> bool {
    matches!(
        w,
        "void" | "ptr" | "float" | "double" | "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80" | "bfloat"
    ) || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

fn value_word(w: &str) -> bool {
    matches!(
        w,
        "true"
            | "false"
            | "null"
            | "undef"
            | "poison"
            | "zeroinitializer"
            | "none"
            | "getelementptr"
            | "ptrtoint"
            | "ptrtoaddr"
            | "inttoptr"
            | "trunc"
            | "add"
            | "sub"
            | "xor"
            | "bitcast"
            | "splat"
            | "asm"
            | "addrspacecast"
            | "dso_local_equivalent"
            | "no_cfi"
    )
}

impl Module {
    pub fn load(src: String) -> Module {
        let mut m = Module {
            src: String::new(),
            globals: vec![],
            gidx: HashMap::new(),
            funcs: vec![],
            fidx: HashMap::new(),
            faddr: HashMap::new(),
            aliases: HashMap::new(),
            types: HashMap::new(),
        };
        let bytes = src.as_bytes();
        let mut p = 0;
        let mut gaddr = GLOBAL_BASE;
        let mut faddr = FUNC_BASE;
        let line_end = |p: usize| {
            bytes[p..]
                .iter()
                .position(|&c| c == b'\n')
                .map_or(bytes.len(), |k| p + k)
        };
        // Named types first.
        let mut q = 0;
        while q < bytes.len() {
            let e = line_end(q);
            if bytes[q] == b'%' {
                let mut lx = Lex::new(&src[q..e]);
                if let Tok::Local(n) = lx.next() {
                    lx.want(b'=');
                    lx.eat_word("type");
                    let t = m.ty(&mut lx);
                    m.types.insert(n, t);
                }
            }
            q = e + 1;
        }
        while p < bytes.len() {
            let e = line_end(p);
            let line = &src[p..e];
            if line.starts_with('@') {
                let mut lx = Lex::new(line);
                let name = match lx.next() {
                    Tok::Global(n) => n,
                    t => panic!("global: {t:?}"),
                };
                lx.want(b'=');
                let mut external = false;
                let constant;
                loop {
                    match lx.next() {
                        Tok::Word(w) => match w.as_str() {
                            "constant" => {
                                constant = Some(true);
                                break;
                            }
                            "global" => {
                                constant = Some(false);
                                break;
                            }
                            "alias" | "ifunc" => {
                                constant = None;
                                break;
                            }
                            "external" | "extern_weak" => external = true,
                            "addrspace" | "thread_local" => {
                                if *lx.peek() == Tok::P(b'(') {
                                    lx.skip_parens();
                                }
                            }
                            _ => {}
                        },
                        Tok::Eof => panic!("bad global {line}"),
                        _ => {}
                    }
                }
                match constant {
                    None => {
                        // The type may be a function's: what counts comes last.
                        let at = line.rfind('@').expect("aliased name");
                        if let Tok::Global(t) = Lex::new(&line[at..]).next() {
                            m.aliases.insert(name, t);
                        }
                    }
                    Some(constant) => {
                        let ty = m.ty(&mut lx);
                        let size = ty.size();
                        gaddr = align_up(gaddr, 64);
                        // Start of the initializer: what follows the type.
                        lx.peeked = None;
                        let st = p + lx.p;
                        let init = if external { None } else { Some((st, e)) };
                        let name: Rc<str> = name.into();
                        m.gidx.insert(name.clone(), m.globals.len());
                        m.globals.push(GlobalDef {
                            name,
                            addr: gaddr,
                            size,
                            constant,
                            ty,
                            init,
                        });
                        gaddr += size.max(1) + 64;
                    }
                }
                p = e + 1;
            } else if line.starts_with("define") || line.starts_with("declare") {
                let at = line.find('@').expect("function name");
                let mut lx = Lex::new(&line[at..]);
                let name: Rc<str> = match lx.next() {
                    Tok::Global(n) => n.into(),
                    t => panic!("fn: {t:?}"),
                };
                let text = if line.starts_with("define") {
                    let end = src[p..].find("\n}").expect("function end") + p + 2;
                    Some((p, end))
                } else {
                    None
                };
                m.fidx.insert(name.clone(), m.funcs.len());
                m.faddr.insert(faddr, m.funcs.len());
                m.funcs.push(FuncText {
                    name,
                    addr: faddr,
                    text,
                });
                faddr += 16;
                p = text.map_or(e, |t| t.1) + 1;
            } else {
                p = e + 1;
            }
        }
        assert!(gaddr < FUNC_BASE);
        m.src = src;
        m
    }

    pub fn addr_of(&self, name: &str) -> u64 {
        let mut n = name;
        for _ in 0..8 {
            if let Some(&i) = self.gidx.get(n) {
                return self.globals[i].addr;
            }
            if let Some(&i) = self.fidx.get(n) {
                return self.funcs[i].addr;
            }
            match self.aliases.get(n) {
                Some(t) => n = t,
                None => break,
            }
        }
        panic!("unknown symbol {name}")
    }

    fn ty(&self, lx: &mut Lex) -> Ty {
        let mut t = match lx.next() {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if matches!(lx.peek(), Tok::Word(x) if x == "addrspace") {
                        lx.next();
                        lx.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" | "metadata" | "token" => Ty::Other,
                "half" | "bfloat" => Ty::Int(16),
                "fp128" | "x86_fp80" => Ty::Int(128),
                _ if type_word(&w) => Ty::Int(w[1..].parse().unwrap()),
                _ => panic!("type word {w} near {}", lx.near()),
            },
            Tok::P(b'[') => {
                let n = self.num(lx);
                assert!(lx.eat_word("x"));
                let t = self.ty(lx);
                lx.want(b']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P(b'<') => {
                if *lx.peek() == Tok::P(b'{') {
                    lx.next();
                    let fs = self.fields(lx);
                    lx.want(b'>');
                    Ty::Struct(Rc::new(fs), true)
                } else {
                    let n = self.num(lx);
                    assert!(lx.eat_word("x"));
                    let t = self.ty(lx);
                    lx.want(b'>');
                    Ty::Vec(n as u32, Rc::new(t))
                }
            }
            Tok::P(b'{') => Ty::Struct(Rc::new(self.fields(lx)), false),
            Tok::Local(n) => self
                .types
                .get(&n)
                .unwrap_or_else(|| panic!("type {n}"))
                .clone(),
            t => panic!("type token {t:?} near {}", lx.near()),
        };
        // function type
        if *lx.peek() == Tok::P(b'(') && matches!(t, Ty::Void | Ty::Int(_) | Ty::Ptr | Ty::Struct(..)) {
            // only when it is a function type: `ret (params)` followed by a callee
            let save = (lx.p, lx.peeked.clone());
            lx.skip_parens();
            if !matches!(lx.peek(), Tok::Global(_) | Tok::Local(_)) {
                lx.p = save.0;
                lx.peeked = save.1;
            } else {
                t = t.clone();
            }
        }
        t
    }
    fn fields(&self, lx: &mut Lex) -> Vec<Ty> {
        let mut fs = vec![];
        if lx.eat(b'}') {
            return fs;
        }
        loop {
            fs.push(self.ty(lx));
            if lx.eat(b'}') {
                return fs;
            }
            lx.want(b',');
        }
    }
    fn num(&self, lx: &mut Lex) -> u64 {
        match lx.next() {
            Tok::Num(n) => n.parse().unwrap(),
            t => panic!("number, got {t:?}"),
        }
    }
    fn int_const(s: &str, w: u32) -> Val {
        if let Some(h) = s.strip_prefix("0x") {
            let h = h.trim_start_matches(|c: char| "KLMHR".contains(c));
            return Val::int(u128::from_str_radix(h, 16).unwrap_or(0), w);
        }
        if s.contains('.') || (s.contains('e') && !s.starts_with('-')) {
            let f: f64 = s.parse().unwrap();
            return Val::int(
                if w == 32 {
                    (f as f32).to_bits() as u128
                } else {
                    f.to_bits() as u128
                },
                w,
            );
        }
        let v: u128 = if let Some(r) = s.strip_prefix('-') {
            (r.parse::<u128>().unwrap()).wrapping_neg()
        } else {
            s.parse::<u128>().unwrap()
        };
        Val::int(v, w)
    }
    pub fn zero(ty: &Ty) -> Val {
        match ty {
            Ty::Arr(n, t) => Val::Agg(vec![Self::zero(t); *n as usize].into()),
            Ty::Vec(n, t) => Val::Agg(vec![Self::zero(t); *n as usize].into()),
            Ty::Struct(fs, _) => Val::Agg(fs.iter().map(Self::zero).collect::<Vec<_>>().into()),
            Ty::Void | Ty::Other => Val::C(0),
            t => Val::int(0, t.bits()),
        }
    }
    /// A constant of the given type (no local references).
    fn konst(&self, lx: &mut Lex, ty: &Ty) -> Val {
        match lx.next() {
            Tok::Num(n) => Self::int_const(&n, ty.bits()),
            Tok::CStr(b) => Val::Agg(b.into_iter().map(|c| Val::C(c as u64)).collect::<Vec<_>>().into()),
            Tok::Global(g) => Val::C(self.addr_of(&g)),
            Tok::Word(w) => match w.as_str() {
                "true" => Val::C(1),
                "false" | "null" => Val::C(0),
                "undef" | "poison" | "zeroinitializer" | "none" => Self::zero(ty),
                "dso_local_equivalent" | "no_cfi" => self.konst(lx, ty),
                "splat" => {
                    lx.want(b'(');
                    let t = self.ty(lx);
                    let v = self.konst(lx, &t);
                    lx.want(b')');
                    match ty {
                        Ty::Vec(n, _) => Val::Agg(vec![v; *n as usize].into()),
                        _ => panic!("splat"),
                    }
                }
                "getelementptr" => {
                    while !matches!(lx.peek(), Tok::P(b'(')) {
                        lx.next();
                    }
                    // the flags may be followed by `inrange(...)`: none is written by rustc
                    lx.want(b'(');
                    let bt = self.ty(lx);
                    lx.want(b',');
                    let pt = self.ty(lx);
                    let base = match self.konst(lx, &pt) {
                        Val::C(b) => b,
                        v => panic!("gep base {v:?}"),
                    };
                    let mut off: u64 = 0;
                    let mut cur = bt;
                    let mut first = true;
                    while lx.eat(b',') {
                        let it = self.ty(lx);
                        let i = match self.konst(lx, &it) {
                            Val::C(i) => crate::exec::sext64(i, it.bits()),
                            v => panic!("gep index {v:?}"),
                        };
                        if first {
                            off = off.wrapping_add(i.wrapping_mul(cur.size()));
                            first = false;
                        } else {
                            let (o, t) = cur.field(i);
                            off = off.wrapping_add(o);
                            cur = t;
                        }
                    }
                    lx.want(b')');
                    Val::C(base.wrapping_add(off))
                }
                "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" => {
                    while !matches!(lx.peek(), Tok::P(b'(')) {
                        lx.next();
                    }
                    lx.want(b'(');
                    let t = self.ty(lx);
                    let v = self.konst(lx, &t);
                    assert!(lx.eat_word("to"));
                    let t2 = self.ty(lx);
                    lx.want(b')');
                    match v {
                        Val::C(c) => Val::int(c as u128, t2.bits()),
                        v => v,
                    }
                }
                "add" | "sub" | "xor" => {
                    while !matches!(lx.peek(), Tok::P(b'(')) {
                        lx.next();
                    }
                    lx.want(b'(');
                    let t = self.ty(lx);
                    let a = self.konst(lx, &t);
                    lx.want(b',');
                    let t = self.ty(lx);
                    let b = self.konst(lx, &t);
                    lx.want(b')');
                    match (a, b) {
                        (Val::C(a), Val::C(b)) => {
                            let r = match w.as_str() {
                                "add" => a.wrapping_add(b),
                                "sub" => a.wrapping_sub(b),
                                _ => a ^ b,
                            };
                            Val::int(r as u128, t.bits())
                        }
                        _ => panic!("const expr"),
                    }
                }
                _ => panic!("constant word {w} near {}", lx.near()),
            },
            Tok::P(b'[') => {
                let v = self.elems(lx, b']');
                Val::Agg(v.into())
            }
            Tok::P(b'{') => {
                let v = self.elems(lx, b'}');
                Val::Agg(v.into())
            }
            Tok::P(b'<') => {
                if lx.eat(b'{') {
                    let v = self.elems(lx, b'}');
                    lx.want(b'>');
                    Val::Agg(v.into())
                } else {
                    let v = self.elems(lx, b'>');
                    Val::Agg(v.into())
                }
            }
            t => panic!("constant {t:?} near {}", lx.near()),
        }
    }
    fn elems(&self, lx: &mut Lex, close: u8) -> Vec<Val> {
        let mut v = vec![];
        if lx.eat(close) {
            return v;
        }
        loop {
            let t = self.ty(lx);
            v.push(self.konst(lx, &t));
            if lx.eat(close) {
                return v;
            }
            lx.want(b',');
        }
    }

    /// Bytes of a global's initial value.
    pub fn init_bytes(&self, g: &GlobalDef) -> Vec<u8> {
        let mut out = vec![0u8; g.size as usize];
        if let Some((a, b)) = g.init {
            let mut lx = Lex::new(&self.src[a..b]);
            let v = self.konst(&mut lx, &g.ty);
            put(&mut out, 0, &g.ty, &v);
        }
        out
    }

    pub fn parse_func(&self, ft: &FuncText) -> Func {
        let (a, b) = ft.text.expect("definition");
        let text = &self.src[a..b];
        let mut lines = text.split('\n');
        let head = lines.next().unwrap();
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut params = vec![];
        // Unnamed parameters and then an unlabelled entry block share the numbering.
        let mut idx = 0;
        {
            let at = head.find('@').unwrap();
            let mut lx = Lex::new(&head[at..]);
            lx.next();
            lx.want(b'(');
            if !lx.eat(b')') {
                loop {
                    if *lx.peek() == Tok::Dots {
                        lx.next();
                        lx.want(b')');
                        break;
                    }
                    self.ty(&mut lx);
                    let mut name = None;
                    loop {
                        match lx.peek().clone() {
                            Tok::Local(n) => {
                                name = Some(n);
                                lx.next();
                            }
                            Tok::P(b',') | Tok::P(b')') => break,
                            Tok::P(b'(') => lx.skip_parens(),
                            _ => {
                                lx.next();
                            }
                        }
                    }
                    let name = name.unwrap_or_else(|| idx.to_string());
                    if name.bytes().all(|c| c.is_ascii_digit()) {
                        idx += 1;
                    }
                    let r = regs.len() as u32;
                    regs.insert(name, r);
                    params.push(r);
                    if lx.eat(b')') {
                        break;
                    }
                    lx.want(b',');
                }
            }
        }
        // Join the lines of switches and landing pads, collect blocks.
        let mut blocks_txt: Vec<(String, Vec<String>)> = vec![];
        let mut pending: Option<String> = None;
        for line in lines {
            if line == "}" {
                break;
            }
            if let Some(p) = pending.as_mut() {
                p.push(' ');
                p.push_str(line.trim());
                if line.trim_start().starts_with(']') {
                    let p = pending.take().unwrap();
                    blocks_txt.last_mut().unwrap().1.push(p);
                }
                continue;
            }
            let t = line.trim();
            if t.is_empty() || t.starts_with(';') || t.starts_with("#dbg") {
                continue;
            }
            if !line.starts_with(' ') {
                // label
                let mut lx = Lex::new(t);
                let name = if t.starts_with('"') {
                    match lx.next() {
                        Tok::Str(s) => String::from_utf8_lossy(&s).into_owned(),
                        _ => unreachable!(),
                    }
                } else {
                    t[..t.find(':').unwrap()].to_string()
                };
                blocks_txt.push((name, vec![]));
                continue;
            }
            if blocks_txt.is_empty() {
                blocks_txt.push((idx.to_string(), vec![]));
            }
            if t.starts_with("switch ") && t.ends_with('[') {
                pending = Some(t.to_string());
                continue;
            }
            let w = t.split(' ').next().unwrap();
            if matches!(w, "cleanup" | "catch" | "filter") {
                continue;
            }
            if matches!(w, "to") {
                // second line of an invoke
                let l = blocks_txt.last_mut().unwrap().1.last_mut().unwrap();
                l.push(' ');
                l.push_str(t);
                continue;
            }
            blocks_txt.last_mut().unwrap().1.push(t.to_string());
        }
        let bidx: HashMap<String, u32> = blocks_txt
            .iter()
            .enumerate()
            .map(|(i, (n, _))| (n.clone(), i as u32))
            .collect();
        let mut blocks = vec![];
        for (name, txt) in &blocks_txt {
            let mut phis = vec![];
            let mut ins = vec![];
            for l in txt {
                let mut fp = FP {
                    m: self,
                    regs: &mut regs,
                    bidx: &bidx,
                };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fp.line(l)));
                match r {
                    Ok(Parsed::Phi(a, b, c)) => phis.push((a, b, c)),
                    Ok(Parsed::Ins(i)) => {
                        if !matches!(i, Ins::Nop) {
                            ins.push(i)
                        }
                    }
                    Err(_) => ins.push(Ins::Bad(format!("cannot parse: {l}"))),
                }
            }
            blocks.push(Block {
                name: name.clone(),
                phis,
                ins,
            });
        }
        Func {
            name: ft.name.clone(),
            params,
            blocks,
            nregs: regs.len(),
            addr: ft.addr,
        }
    }
}

pub fn put(out: &mut [u8], off: u64, ty: &Ty, v: &Val) {
    match (ty, v) {
        (Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..), Val::Agg(es)) => {
            for (i, e) in es.iter().enumerate() {
                let (o, t) = ty.field(i as u64);
                put(out, off + o, &t, e);
            }
        }
        (t, Val::C(c)) => {
            let n = t.store_size();
            for k in 0..n {
                out[(off + k) as usize] = if k < 8 { (c >> (8 * k)) as u8 } else { 0 };
            }
        }
        (t, Val::S(e)) => {
            let c = crate::expr::ctx().const_val(*e).expect("constant");
            for k in 0..t.store_size() {
                out[(off + k) as usize] = (c >> (8 * k)) as u8;
            }
        }
        x => panic!("put {x:?}"),
    }
}

enum Parsed {
    Phi(u32, Ty, Vec<(u32, Opd)>),
    Ins(Ins),
}

struct FP<'a> {
    m: &'a Module,
    regs: &'a mut HashMap<String, u32>,
    bidx: &'a HashMap<String, u32>,
}

impl FP<'_> {
    fn reg(&mut self, n: String) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn opd(&mut self, lx: &mut Lex, ty: &Ty) -> Opd {
        if let Tok::Local(_) = lx.peek() {
            if let Tok::Local(n) = lx.next() {
                return Opd::R(self.reg(n));
            }
        }
        Opd::K(self.m.konst(lx, ty))
    }
    fn tyopd(&mut self, lx: &mut Lex) -> (Ty, Opd) {
        let t = self.m.ty(lx);
        let o = self.opd(lx, &t);
        (t, o)
    }
    fn label(&mut self, lx: &mut Lex) -> u32 {
        lx.eat_word("label");
        match lx.next() {
            Tok::Local(n) => *self.bidx.get(&n).unwrap_or_else(|| panic!("label {n}")),
            t => panic!("label {t:?}"),
        }
    }
    fn skip_words(&mut self, lx: &mut Lex) {
        // flags before a type
        loop {
            match lx.peek().clone() {
                Tok::Word(w) if type_word(&w) => return,
                Tok::Word(w) => {
                    lx.next();
                    if *lx.peek() == Tok::P(b'(') {
                        lx.skip_parens();
                    } else if w == "align" {
                        lx.next();
                    }
                }
                Tok::Str(_) => {
                    lx.next();
                    if lx.eat(b'=') {
                        lx.next();
                    }
                }
                Tok::Attr => {
                    lx.next();
                }
                _ => return,
            }
        }
    }
    fn line(&mut self, l: &str) -> Parsed {
        let mut lx = Lex::new(l);
        let lx = &mut lx;
        let mut dst_name = None;
        if let Tok::Local(_) = lx.peek() {
            if let Tok::Local(n) = lx.next() {
                dst_name = Some(n);
                lx.want(b'=');
            }
        }
        let w = match lx.next() {
            Tok::Word(w) => w,
            t => panic!("instruction {t:?}"),
        };
        let dst = dst_name.map(|n| self.reg(n));
        let d = dst.unwrap_or(u32::MAX);
        let bin = |b| Some(b);
        let op = match w.as_str() {
            "add" => bin(Bin::Add),
            "sub" => bin(Bin::Sub),
            "mul" => bin(Bin::Mul),
            "udiv" => bin(Bin::UDiv),
            "sdiv" => bin(Bin::SDiv),
            "urem" => bin(Bin::URem),
            "srem" => bin(Bin::SRem),
            "and" => bin(Bin::And),
            "or" => bin(Bin::Or),
            "xor" => bin(Bin::Xor),
            "shl" => bin(Bin::Shl),
            "lshr" => bin(Bin::LShr),
            "ashr" => bin(Bin::AShr),
            _ => None,
        };
        if let Some(b) = op {
            self.skip_words(lx);
            let (t, x) = self.tyopd(lx);
            lx.want(b',');
            let y = self.opd(lx, &t);
            return Parsed::Ins(Ins::Bin(b, t, x, y, d));
        }
        let ins = match w.as_str() {
            "phi" => {
                self.skip_words(lx);
                let t = self.m.ty(lx);
                let mut v = vec![];
                loop {
                    lx.want(b'[');
                    let o = self.opd(lx, &t);
                    lx.want(b',');
                    let b = self.label(lx);
                    lx.want(b']');
                    v.push((b, o));
                    if !lx.eat(b',') {
                        break;
                    }
                    if *lx.peek() != Tok::P(b'[') {
                        break;
                    }
                }
                return Parsed::Phi(d, t, v);
            }
            "icmp" => {
                lx.eat_word("samesign");
                let p = match lx.next() {
                    Tok::Word(p) => match p.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => panic!("pred {p}"),
                    },
                    t => panic!("pred {t:?}"),
                };
                let (t, x) = self.tyopd(lx);
                lx.want(b',');
                let y = self.opd(lx, &t);
                Ins::Icmp(p, t, x, y, d)
            }
            "select" => {
                self.skip_words(lx);
                let (ct, c) = self.tyopd(lx);
                lx.want(b',');
                let (t, x) = self.tyopd(lx);
                lx.want(b',');
                let (_, y) = self.tyopd(lx);
                Ins::Select(t, c, x, y, d, matches!(ct, Ty::Vec(..)))
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" => {
                self.skip_words(lx);
                let (t, x) = self.tyopd(lx);
                assert!(lx.eat_word("to"));
                let t2 = self.m.ty(lx);
                let c = match w.as_str() {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt,
                    "inttoptr" => Cast::IntToPtr,
                    _ => Cast::BitCast,
                };
                Ins::Cast(c, t, x, t2, d)
            }
            "getelementptr" => {
                while matches!(lx.peek(), Tok::Word(x) if !type_word(x)) {
                    lx.next();
                    if *lx.peek() == Tok::P(b'(') {
                        lx.skip_parens();
                    }
                }
                let bt = self.m.ty(lx);
                lx.want(b',');
                let (_, base) = self.tyopd(lx);
                let mut off = 0u64;
                let mut var = vec![];
                let mut cur = bt;
                let mut first = true;
                while lx.eat(b',') {
                    if *lx.peek() == Tok::Meta {
                        break;
                    }
                    let (it, i) = self.tyopd(lx);
                    let scale;
                    if first {
                        scale = cur.size();
                        first = false;
                    } else {
                        match &i {
                            Opd::K(Val::C(k)) if matches!(cur, Ty::Struct(..)) => {
                                let (o, t) = cur.field(*k);
                                off = off.wrapping_add(o);
                                cur = t;
                                continue;
                            }
                            _ => {
                                let (_, t) = cur.field(0);
                                scale = t.size();
                                cur = t;
                            }
                        }
                    }
                    match &i {
                        Opd::K(Val::C(k)) => {
                            let k = crate::exec::sext64(*k, it.bits());
                            off = off.wrapping_add(k.wrapping_mul(scale));
                        }
                        _ => var.push((it, i, scale)),
                    }
                }
                Ins::Gep(base, off, var, d)
            }
            "load" => {
                lx.eat_word("atomic");
                lx.eat_word("volatile");
                let t = self.m.ty(lx);
                lx.want(b',');
                let (_, p) = self.tyopd(lx);
                Ins::Load(t, p, d)
            }
            "store" => {
                lx.eat_word("atomic");
                lx.eat_word("volatile");
                let (t, v) = self.tyopd(lx);
                lx.want(b',');
                let (_, p) = self.tyopd(lx);
                Ins::Store(t, v, p)
            }
            "alloca" => {
                lx.eat_word("inalloca");
                let t = self.m.ty(lx);
                let mut count = None;
                let mut align = t.align();
                while lx.eat(b',') {
                    if lx.eat_word("align") {
                        align = self.m.num(lx);
                    } else if matches!(lx.peek(), Tok::Word(x) if x == "addrspace") || *lx.peek() == Tok::Meta {
                        break;
                    } else {
                        count = Some(self.tyopd(lx));
                    }
                }
                Ins::Alloca(t.size(), align, count, d)
            }
            "tail" | "musttail" | "notail" => {
                lx.next();
                self.call(lx, dst, false)
            }
            "call" => self.call(lx, dst, false),
            "invoke" => self.call(lx, dst, true),
            "ret" => {
                let t = self.m.ty(lx);
                if t == Ty::Void {
                    Ins::Ret(None)
                } else {
                    let o = self.opd(lx, &t);
                    Ins::Ret(Some((t, o)))
                }
            }
            "br" => {
                if matches!(lx.peek(), Tok::Word(x) if x == "label") {
                    Ins::Br(self.label(lx))
                } else {
                    let (_, c) = self.tyopd(lx);
                    lx.want(b',');
                    let a = self.label(lx);
                    lx.want(b',');
                    let b = self.label(lx);
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyopd(lx);
                lx.want(b',');
                let def = self.label(lx);
                lx.want(b'[');
                let mut cs = vec![];
                while !lx.eat(b']') {
                    let ct = self.m.ty(lx);
                    let k = self.m.konst(lx, &ct);
                    lx.want(b',');
                    let b = self.label(lx);
                    cs.push((k, b));
                }
                Ins::Switch(t, v, def, cs)
            }
            "unreachable" => Ins::Unreachable,
            "extractvalue" => {
                let (_, x) = self.tyopd(lx);
                let mut ix = vec![];
                while lx.eat(b',') {
                    if *lx.peek() == Tok::Meta {
                        break;
                    }
                    ix.push(self.m.num(lx));
                }
                Ins::Extract(x, ix, d)
            }
            "insertvalue" => {
                let (t, x) = self.tyopd(lx);
                lx.want(b',');
                let (_, y) = self.tyopd(lx);
                let mut ix = vec![];
                while lx.eat(b',') {
                    if *lx.peek() == Tok::Meta {
                        break;
                    }
                    ix.push(self.m.num(lx));
                }
                Ins::Insert(t, x, y, ix, d)
            }
            "extractelement" => {
                let (t, x) = self.tyopd(lx);
                lx.want(b',');
                let (_, i) = self.tyopd(lx);
                Ins::ExtractElt(t, x, i, d)
            }
            "insertelement" => {
                let (t, x) = self.tyopd(lx);
                lx.want(b',');
                let (_, y) = self.tyopd(lx);
                lx.want(b',');
                let (_, i) = self.tyopd(lx);
                Ins::InsertElt(t, x, y, i, d)
            }
            "shufflevector" => {
                let (t, x) = self.tyopd(lx);
                lx.want(b',');
                let (_, y) = self.tyopd(lx);
                lx.want(b',');
                let (_, k) = self.tyopd(lx);
                Ins::Shuffle(t, x, y, k, d)
            }
            "freeze" => {
                let (_, x) = self.tyopd(lx);
                Ins::Freeze(x, d)
            }
            "atomicrmw" => {
                lx.eat_word("volatile");
                let op = match lx.next() {
                    Tok::Word(w) => w,
                    t => panic!("rmw {t:?}"),
                };
                let (_, p) = self.tyopd(lx);
                lx.want(b',');
                let (t, v) = self.tyopd(lx);
                Ins::Rmw(op, t, p, v, d)
            }
            "cmpxchg" => {
                lx.eat_word("weak");
                lx.eat_word("volatile");
                let (_, p) = self.tyopd(lx);
                lx.want(b',');
                let (t, a) = self.tyopd(lx);
                lx.want(b',');
                let (_, b) = self.tyopd(lx);
                Ins::CmpXchg(t, p, a, b, d)
            }
            "fence" => Ins::Nop,
            _ => Ins::Bad(format!("unsupported instruction: {l}")),
        };
        Parsed::Ins(ins)
    }
    fn call(&mut self, lx: &mut Lex, dst: Option<u32>, invoke: bool) -> Ins {
        // flags, calling convention, return attributes
        self.skip_words(lx);
        let ret = self.m.ty(lx);
        let mut asm = None;
        let callee = match lx.peek().clone() {
            Tok::Global(_) => {
                if let Tok::Global(n) = lx.next() {
                    Callee::Direct(n.into())
                } else {
                    unreachable!()
                }
            }
            Tok::Local(_) => {
                let o = self.opd(lx, &Ty::Ptr);
                Callee::Indirect(o)
            }
            Tok::Word(w) if w == "asm" => {
                lx.next();
                let mut text = String::new();
                loop {
                    match lx.next() {
                        Tok::Str(s) => {
                            text = String::from_utf8_lossy(&s).into_owned();
                            break;
                        }
                        Tok::Eof => break,
                        _ => {}
                    }
                }
                lx.want(b',');
                lx.next();
                asm = Some(text.clone());
                Callee::Asm(text)
            }
            _ => {
                let v = self.m.konst(lx, &Ty::Ptr);
                Callee::Indirect(Opd::K(v))
            }
        };
        let _ = asm;
        lx.want(b'(');
        let mut args = vec![];
        if !lx.eat(b')') {
            loop {
                let t = self.m.ty(lx);
                if t == Ty::Other {
                    // metadata argument
                    let mut depth = 0;
                    loop {
                        match lx.peek() {
                            Tok::P(b'(') | Tok::P(b'{') => depth += 1,
                            Tok::P(b')') if depth == 0 => break,
                            Tok::P(b')') | Tok::P(b'}') => depth -= 1,
                            Tok::P(b',') if depth == 0 => break,
                            _ => {}
                        }
                        lx.next();
                    }
                    args.push((t, Opd::K(Val::C(0))));
                } else {
                    // parameter attributes
                    loop {
                        match lx.peek().clone() {
                            Tok::Word(w) if value_word(&w) => break,
                            Tok::Word(w) => {
                                lx.next();
                                if *lx.peek() == Tok::P(b'(') {
                                    lx.skip_parens();
                                } else if w == "align" {
                                    lx.next();
                                }
                            }
                            Tok::Str(_) => {
                                lx.next();
                                if lx.eat(b'=') {
                                    lx.next();
                                }
                            }
                            _ => break,
                        }
                    }
                    let o = self.opd(lx, &t);
                    args.push((t, o));
                }
                if lx.eat(b')') {
                    break;
                }
                lx.want(b',');
            }
        }
        let mut normal = None;
        if invoke {
            // attributes, then `to label %x unwind label %y`
            loop {
                match lx.next() {
                    Tok::Word(w) if w == "to" => break,
                    Tok::Eof => panic!("invoke without destination"),
                    _ => {}
                }
            }
            normal = Some(self.label(lx));
        }
        Ins::Call {
            callee,
            args,
            ret,
            dst,
            normal,
        }
    }
}
