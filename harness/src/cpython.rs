//! The part of the CPython 3.12 C API the binding reaches, for the symbolic build only: the
//! native build runs the same harnesses inside the real interpreter, which is how this model
//! is kept honest. What is missing here is an undefined symbol the executor stops at.
#![allow(non_upper_case_globals, non_snake_case, non_camel_case_types)]
use core::ffi::{c_char, c_int, c_long, c_longlong, c_ulong, c_ulonglong, c_void, CStr};
use core::ptr::{addr_of_mut, null, null_mut};

#[repr(C)]
pub struct Obj {
    refs: isize,
    ty: *mut Ty,
    kind: Kind,
}

type P = *mut Obj;

enum Kind {
    Plain,
    /// The value, or the sign of a number beyond 64 bits.
    Int(i64, i8),
    Str(Vec<u8>),
    Tuple(Vec<P>),
    List(Vec<P>),
    Dict(Vec<(P, P)>),
    Iter(P, usize),
    Func(*const Def, P),
    Module(Vec<(P, P)>, *const ModuleDef),
    Exc(P),
}

#[repr(C)]
pub struct Ty {
    refs: isize,
    ty: *mut Ty,
    name: &'static str,
    flags: u64,
    base: *mut Ty,
    size: usize,
    slots: [*mut c_void; 90],
    dict: Vec<(P, P)>,
}
unsafe impl Sync for Ty {}
unsafe impl Sync for Obj {}

#[repr(C)]
pub struct Def {
    name: *const c_char,
    f: *mut c_void,
    flags: c_int,
    doc: *const c_char,
}

#[repr(C)]
pub struct ModuleDef {
    ob: [usize; 2],
    init: *mut c_void,
    index: isize,
    copy: P,
    name: *const c_char,
    doc: *const c_char,
    size: isize,
    methods: *mut Def,
    slots: *mut Slot,
    rest: [*mut c_void; 3],
}

#[repr(C)]
pub struct Slot {
    slot: c_int,
    f: *mut c_void,
}

#[repr(C)]
pub struct Spec {
    name: *const c_char,
    size: c_int,
    item: c_int,
    flags: u32,
    slots: *mut Slot,
}

const LONG: u64 = 1 << 24;
const LIST: u64 = 1 << 25;
const TUPLE: u64 = 1 << 26;
const BYTES: u64 = 1 << 27;
const UNICODE: u64 = 1 << 28;
const DICT: u64 = 1 << 29;
const EXC: u64 = 1 << 30;
const TYPE: u64 = 1 << 31;

const fn ty(name: &'static str, flags: u64, base: *mut Ty) -> Ty {
    Ty { refs: 1 << 30, ty: addr_of_mut!(PyType_Type), name, flags: flags | 1 << 12, base, size: 64, slots: [null_mut(); 90], dict: Vec::new() }
}

macro_rules! types {
    ($($n:ident $name:literal $flags:expr;)+) => {
        $(#[no_mangle]
        pub static mut $n: Ty = ty($name, $flags, addr_of_mut!(PyBaseObject_Type));)+
    };
}
#[no_mangle]
pub static mut PyBaseObject_Type: Ty = ty("object", 0, null_mut());
types! {
    PyType_Type "type" TYPE;
    PyUnicode_Type "str" UNICODE;
    PyLong_Type "int" LONG;
    PyTuple_Type "tuple" TUPLE;
    PyList_Type "list" LIST;
    PyDict_Type "dict" DICT;
    PyBytes_Type "bytes" BYTES;
    PyModule_Type "module" 0;
    PyCFunction_Type "builtin_function_or_method" 0;
    NoneType "NoneType" 0;
    NotImplementedType "NotImplementedType" 0;
    IterType "iterator" 0;
    SequenceType "Sequence" 0;
    MappingType "Mapping" 0;
}
#[no_mangle]
pub static mut PyBool_Type: Ty = ty("bool", LONG, addr_of_mut!(PyLong_Type));

macro_rules! exceptions {
    ($($p:ident $n:ident $name:literal $base:ident;)+) => {
        $(static mut $n: Ty = ty($name, EXC, addr_of_mut!($base));
        #[no_mangle]
        pub static mut $p: *mut Ty = addr_of_mut!($n);)+
    };
}
exceptions! {
    PyExc_BaseException BaseException "BaseException" PyBaseObject_Type;
    PyExc_Exception Exception "Exception" BaseException;
    PyExc_ValueError ValueError "ValueError" Exception;
    PyExc_TypeError TypeError "TypeError" Exception;
    PyExc_AttributeError AttributeError "AttributeError" Exception;
    PyExc_RuntimeError RuntimeError "RuntimeError" Exception;
    PyExc_ArithmeticError ArithmeticError "ArithmeticError" Exception;
    PyExc_OverflowError OverflowError "OverflowError" ArithmeticError;
    PyExc_LookupError LookupError "LookupError" Exception;
    PyExc_IndexError IndexError "IndexError" LookupError;
    PyExc_KeyError KeyError "KeyError" LookupError;
    PyExc_SystemError SystemError "SystemError" Exception;
    PyExc_NotImplementedError NotImplementedError "NotImplementedError" RuntimeError;
    PyExc_ImportError ImportError "ImportError" Exception;
    PyExc_StopIteration StopIteration "StopIteration" Exception;
    PyExc_UnicodeError UnicodeError "UnicodeError" ValueError;
    PyExc_UnicodeDecodeError UnicodeDecodeError "UnicodeDecodeError" UnicodeError;
    PyExc_UnicodeEncodeError UnicodeEncodeError "UnicodeEncodeError" UnicodeError;
}

const fn fixed(t: *mut Ty, kind: Kind) -> Obj {
    Obj { refs: 1 << 30, ty: t, kind }
}
#[no_mangle]
pub static mut _Py_NoneStruct: Obj = fixed(addr_of_mut!(NoneType), Kind::Plain);
#[no_mangle]
pub static mut _Py_NotImplementedStruct: Obj = fixed(addr_of_mut!(NotImplementedType), Kind::Plain);
#[no_mangle]
pub static mut _Py_TrueStruct: Obj = fixed(addr_of_mut!(PyBool_Type), Kind::Int(1, 0));
#[no_mangle]
pub static mut _Py_FalseStruct: Obj = fixed(addr_of_mut!(PyBool_Type), Kind::Int(0, 0));

/// The pending exception.
static mut ERR: (*mut Ty, P, P) = (null_mut(), null_mut(), null_mut());

fn new(t: *mut Ty, kind: Kind) -> P {
    Box::into_raw(Box::new(Obj { refs: 1, ty: t, kind }))
}

fn string(s: &[u8]) -> P {
    let mut v = Vec::with_capacity(s.len() + 1);
    v.extend_from_slice(s);
    // What the interpreter guarantees of its UTF-8 form.
    v.push(0);
    new(addr_of_mut!(PyUnicode_Type), Kind::Str(v))
}

unsafe fn bytes<'a>(o: P) -> &'a [u8] {
    match &(*o).kind {
        Kind::Str(v) => &v[..v.len() - 1],
        _ => &[],
    }
}

unsafe fn flags(o: P) -> u64 {
    (*(*o).ty).flags
}

unsafe fn raise(t: *mut Ty, message: &str) {
    ERR = (t, string(message.as_bytes()), null_mut());
}

unsafe fn incref(o: P) -> P {
    if !o.is_null() {
        (*o).refs += 1;
    }
    o
}

unsafe fn find(v: &[(P, P)], name: &[u8]) -> Option<usize> {
    v.iter().position(|(k, _)| bytes(*k) == name)
}

unsafe fn put(v: &mut Vec<(P, P)>, key: P, value: P) {
    incref(value);
    match find(v, bytes(key)) {
        Some(k) => v[k].1 = value,
        None => v.push((incref(key), value)),
    }
}

// ---- the runtime -----------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn Py_IsInitialized() -> c_int {
    1
}
#[no_mangle]
pub unsafe extern "C" fn PyGILState_Ensure() -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn PyGILState_Release(_s: c_int) {}
#[no_mangle]
pub unsafe extern "C" fn PyEval_SaveThread() -> *mut c_void {
    16 as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn PyEval_RestoreThread(_t: *mut c_void) {}
#[no_mangle]
pub unsafe extern "C" fn _Py_IncRef(o: P) {
    (*o).refs += 1;
}
#[no_mangle]
pub unsafe extern "C" fn _Py_DecRef(o: P) {
    (*o).refs -= 1;
    // Nothing is ever freed; giving back more than was taken would be.
    assert!((*o).refs > 0 || flags(o) & TYPE == 0 && (*o).refs == 0);
}
#[no_mangle]
pub unsafe extern "C" fn Py_IncRef(o: P) {
    incref(o);
}
#[no_mangle]
pub unsafe extern "C" fn Py_DecRef(o: P) {
    if !o.is_null() {
        _Py_DecRef(o);
    }
}
#[no_mangle]
pub unsafe extern "C" fn Py_GetVersion() -> *const c_char {
    c"3.12.3".as_ptr()
}
#[no_mangle]
pub unsafe extern "C" fn PyInterpreterState_Get() -> *mut c_void {
    16 as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn PyInterpreterState_GetID(_s: *mut c_void) -> i64 {
    0
}

// ---- errors ----------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn PyErr_Occurred() -> *mut Ty {
    ERR.0
}
#[no_mangle]
pub unsafe extern "C" fn PyErr_Clear() {
    ERR = (null_mut(), null_mut(), null_mut());
}
#[no_mangle]
pub unsafe extern "C" fn PyErr_SetString(t: *mut Ty, s: *const c_char) {
    ERR = (t, string(CStr::from_ptr(s).to_bytes()), null_mut());
}
#[no_mangle]
pub unsafe extern "C" fn PyErr_SetObject(t: *mut Ty, v: P) {
    ERR = (t, incref(v), null_mut());
}
#[no_mangle]
pub unsafe extern "C" fn PyErr_SetNone(t: *mut Ty) {
    ERR = (t, null_mut(), null_mut());
}
#[no_mangle]
pub unsafe extern "C" fn PyErr_Fetch(t: *mut *mut Ty, v: *mut P, b: *mut P) {
    *t = ERR.0;
    *v = ERR.1;
    *b = ERR.2;
    PyErr_Clear();
}
#[no_mangle]
pub unsafe extern "C" fn PyErr_Restore(t: *mut Ty, v: P, b: P) {
    ERR = (t, v, b);
}
#[no_mangle]
pub unsafe extern "C" fn PyErr_NormalizeException(t: *mut *mut Ty, v: *mut P, _b: *mut P) {
    if (*t).is_null() {
        return;
    }
    let ready = !(*v).is_null() && PyType_IsSubtype((**v).ty, *t) != 0;
    if !ready {
        *v = new(*t, Kind::Exc(*v));
    }
}
#[no_mangle]
pub unsafe extern "C" fn PyErr_GivenExceptionMatches(e: P, t: *mut Ty) -> c_int {
    if e.is_null() {
        return 0;
    }
    let e = if flags(e) & TYPE != 0 { e as *mut Ty } else { (*e).ty };
    PyType_IsSubtype(e, t)
}
#[no_mangle]
pub unsafe extern "C" fn PyErr_ExceptionMatches(t: *mut Ty) -> c_int {
    PyErr_GivenExceptionMatches(ERR.0 as P, t)
}
#[no_mangle]
pub unsafe extern "C" fn PyException_GetTraceback(_e: P) -> P {
    null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn PyException_SetTraceback(_e: P, _b: P) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn PyException_GetCause(_e: P) -> P {
    null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn PyException_SetCause(_e: P, _c: P) {}

// ---- types -----------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn PyType_GetFlags(t: *mut Ty) -> c_ulong {
    (*t).flags
}
#[no_mangle]
pub unsafe extern "C" fn PyType_IsSubtype(a: *mut Ty, b: *mut Ty) -> c_int {
    let mut t = a;
    while !t.is_null() {
        if t == b {
            return 1;
        }
        t = (*t).base;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn PyType_GetSlot(t: *mut Ty, slot: c_int) -> *mut c_void {
    if slot == 47 {
        return PyType_GenericAlloc as *mut c_void;
    }
    if slot == 74 {
        return PyObject_Free as *mut c_void;
    }
    if slot == 65 && t == addr_of_mut!(PyBaseObject_Type) {
        return new_object as *mut c_void;
    }
    (*t).slots[slot as usize]
}
unsafe extern "C" fn new_object(t: *mut Ty, _args: P, _kw: P) -> P {
    PyType_GenericAlloc(t, 0)
}
#[no_mangle]
pub unsafe extern "C" fn PyType_Modified(_t: *mut Ty) {}
#[no_mangle]
pub unsafe extern "C" fn PyType_GenericAlloc(t: *mut Ty, _n: isize) -> P {
    let o = Box::into_raw(Box::new([0u64; 32])) as P;
    assert!((*t).size <= 256);
    (*o).refs = 1;
    (*o).ty = t;
    (*t).refs += 1;
    o
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_Free(_o: *mut c_void) {}
#[no_mangle]
pub unsafe extern "C" fn PyObject_GC_UnTrack(_o: *mut c_void) {}
#[no_mangle]
pub unsafe extern "C" fn PyObject_GC_Track(_o: *mut c_void) {}
#[no_mangle]
pub unsafe extern "C" fn PyMem_Malloc(n: usize) -> *mut c_void {
    assert!(n <= 4096);
    Box::into_raw(Box::new([0u64; 512])) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn PyType_FromSpec(spec: *const Spec) -> *mut Ty {
    let s = &*spec;
    let full = CStr::from_ptr(s.name).to_str().unwrap_or("");
    let name = match full.rfind('.') {
        Some(k) => &full[k + 1..],
        None => full,
    };
    let mut t = Box::new(ty("", 0, addr_of_mut!(PyBaseObject_Type)));
    t.name = Box::leak(String::from(name).into_boxed_str());
    t.flags |= s.flags as u64;
    t.size = s.size as usize;
    let mut at = s.slots;
    while (*at).slot != 0 {
        match (*at).slot {
            48 => t.base = (*at).f as *mut Ty,
            k => t.slots[k as usize] = (*at).f,
        }
        at = at.add(1);
    }
    Box::into_raw(t)
}

unsafe fn method(t: *mut Ty, name: &[u8]) -> *const Def {
    let mut d = (*t).slots[64] as *const Def;
    while !d.is_null() && !(*d).name.is_null() {
        if CStr::from_ptr((*d).name).to_bytes() == name {
            return d;
        }
        d = d.add(1);
    }
    null()
}

/// An attribute of a type, as seen from `o` (null: the type itself).
unsafe fn attribute(t: *mut Ty, o: P, name: &[u8]) -> P {
    if let Some(k) = find(&(*t).dict, name) {
        return incref((&(*t).dict)[k].1);
    }
    let d = method(t, name);
    if !d.is_null() {
        let to = if (*d).flags & 0x20 != 0 { null_mut() } else if (*d).flags & 0x10 != 0 { t as P } else { o };
        return new(addr_of_mut!(PyCFunction_Type), Kind::Func(d, to));
    }
    null_mut()
}

// ---- objects ---------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn PyObject_GetAttr(o: P, name: P) -> P {
    let n = bytes(name);
    let mut found = null_mut();
    if flags(o) & TYPE != 0 {
        let t = o as *mut Ty;
        if n == b"__name__" || n == b"__qualname__" {
            return string((*t).name.as_bytes());
        }
        if n == b"__module__" {
            return string(b"builtins");
        }
        found = attribute(t, null_mut(), n);
    } else {
        let t = (*o).ty;
        if (*t).slots[64].is_null() && (*t).dict.is_empty() {
            match &(*o).kind {
                Kind::Module(v, _) => {
                    if let Some(k) = find(v, n) {
                        found = incref(v[k].1);
                    }
                }
                Kind::Func(d, _) => {
                    if n == b"__name__" || n == b"__qualname__" {
                        found = string(CStr::from_ptr((**d).name).to_bytes());
                    }
                }
                _ => {}
            }
        } else {
            found = attribute(t, o, n);
        }
    }
    if found.is_null() {
        raise(addr_of_mut!(AttributeError), "no such attribute");
    }
    found
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_GetAttrString(o: P, name: *const c_char) -> P {
    PyObject_GetAttr(o, string(CStr::from_ptr(name).to_bytes()))
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_HasAttr(o: P, name: P) -> c_int {
    let r = !PyObject_GetAttr(o, name).is_null();
    PyErr_Clear();
    r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_SetAttr(o: P, name: P, value: P) -> c_int {
    if flags(o) & TYPE != 0 {
        put(&mut (*(o as *mut Ty)).dict, name, value);
        return 0;
    }
    match &mut (*o).kind {
        Kind::Module(v, _) => {
            put(v, name, value);
            0
        }
        _ => {
            raise(addr_of_mut!(AttributeError), "no such attribute");
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_SetAttrString(o: P, name: *const c_char, value: P) -> c_int {
    PyObject_SetAttr(o, string(CStr::from_ptr(name).to_bytes()), value)
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_GenericGetDict(_o: P, _c: *mut c_void) -> P {
    null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_GenericSetDict(_o: P, _v: P, _c: *mut c_void) -> c_int {
    -1
}

type Call = unsafe extern "C" fn(P, P) -> P;
type CallKw = unsafe extern "C" fn(P, P, P) -> P;
type Fast = unsafe extern "C" fn(P, *const P, isize) -> P;
type FastKw = unsafe extern "C" fn(P, *const P, isize, P) -> P;

#[no_mangle]
pub unsafe extern "C" fn PyObject_Call(f: P, args: P, kw: P) -> P {
    if flags(f) & TYPE != 0 {
        let make = (*(f as *mut Ty)).slots[65];
        if make.is_null() {
            raise(addr_of_mut!(TypeError), "cannot create instances");
            return null_mut();
        }
        let make: CallKw = core::mem::transmute(make);
        return make(f, args, kw);
    }
    let (def, to) = match &(*f).kind {
        Kind::Func(d, s) => (&**d, *s),
        _ => {
            raise(addr_of_mut!(TypeError), "object is not callable");
            return null_mut();
        }
    };
    let given: &[P] = match &(*args).kind {
        Kind::Tuple(v) => v,
        _ => &[],
    };
    let named: &[(P, P)] = if kw.is_null() {
        &[]
    } else {
        match &(*kw).kind {
            Kind::Dict(v) => v,
            _ => &[],
        }
    };
    let how = def.flags & !0x30;
    if how & 2 == 0 && !named.is_empty() {
        raise(addr_of_mut!(TypeError), "takes no keyword arguments");
        return null_mut();
    }
    match how {
        0x82 => {
            let mut all: Vec<P> = Vec::with_capacity(given.len() + named.len() + 1);
            all.extend_from_slice(given);
            all.extend(named.iter().map(|x| x.1));
            let names = if named.is_empty() {
                null_mut()
            } else {
                new(addr_of_mut!(PyTuple_Type), Kind::Tuple(named.iter().map(|x| x.0).collect()))
            };
            let f: FastKw = core::mem::transmute(def.f);
            f(to, all.as_ptr(), given.len() as isize, names)
        }
        0x80 => {
            let f: Fast = core::mem::transmute(def.f);
            f(to, given.as_ptr(), given.len() as isize)
        }
        3 => {
            let f: CallKw = core::mem::transmute(def.f);
            f(to, args, kw)
        }
        1 => {
            let f: Call = core::mem::transmute(def.f);
            f(to, args)
        }
        _ => {
            let f: Call = core::mem::transmute(def.f);
            let want = (how == 8) as usize;
            if given.len() != want {
                raise(addr_of_mut!(TypeError), "wrong number of arguments");
                return null_mut();
            }
            f(to, if want == 1 { given[0] } else { null_mut() })
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_CallNoArgs(f: P) -> P {
    PyObject_Call(f, new(addr_of_mut!(PyTuple_Type), Kind::Tuple(Vec::new())), null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_CallOneArg(f: P, x: P) -> P {
    PyObject_Call(f, new(addr_of_mut!(PyTuple_Type), Kind::Tuple(vec![x])), null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_CallObject(f: P, args: P) -> P {
    if args.is_null() {
        PyObject_CallNoArgs(f)
    } else {
        PyObject_Call(f, args, null_mut())
    }
}

#[no_mangle]
pub unsafe extern "C" fn PyObject_Str(o: P) -> P {
    if flags(o) & UNICODE != 0 {
        return incref(o);
    }
    let t = (*o).ty;
    if flags(o) & TYPE == 0 && !(*t).slots[70].is_null() {
        let f: unsafe extern "C" fn(P) -> P = core::mem::transmute((*t).slots[70]);
        return f(o);
    }
    if flags(o) & EXC != 0 {
        if let Kind::Exc(v) = (*o).kind {
            return if v.is_null() { string(b"") } else { PyObject_Str(v) };
        }
    }
    PyObject_Repr(o)
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_Repr(o: P) -> P {
    if flags(o) & TYPE != 0 {
        return string((*(o as *mut Ty)).name.as_bytes());
    }
    let t = (*o).ty;
    if !(*t).slots[66].is_null() {
        let f: unsafe extern "C" fn(P) -> P = core::mem::transmute((*t).slots[66]);
        return f(o);
    }
    string(b"<object>")
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_RichCompare(a: P, b: P, op: c_int) -> P {
    for (x, y) in [(a, b), (b, a)] {
        let t = (*x).ty;
        if flags(x) & TYPE == 0 && !(*t).slots[67].is_null() {
            let f: unsafe extern "C" fn(P, P, c_int) -> P = core::mem::transmute((*t).slots[67]);
            let r = f(x, y, op);
            if r != addr_of_mut!(_Py_NotImplementedStruct) {
                return r;
            }
        }
    }
    if op != 2 && op != 3 {
        raise(addr_of_mut!(TypeError), "not supported");
        return null_mut();
    }
    let mut same = a == b;
    if !same && flags(a) & UNICODE != 0 && flags(b) & UNICODE != 0 {
        same = bytes(a) == bytes(b);
    }
    if same == (op == 2) {
        addr_of_mut!(_Py_TrueStruct)
    } else {
        addr_of_mut!(_Py_FalseStruct)
    }
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_RichCompareBool(a: P, b: P, op: c_int) -> c_int {
    let r = PyObject_RichCompare(a, b, op);
    if r.is_null() {
        return -1;
    }
    PyObject_IsTrue(r)
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_IsTrue(o: P) -> c_int {
    let n = match &(*o).kind {
        Kind::Int(v, big) => (*v != 0 || *big != 0) as usize,
        Kind::Str(v) => v.len() - 1,
        Kind::Tuple(v) | Kind::List(v) => v.len(),
        Kind::Dict(v) => v.len(),
        _ => (o != addr_of_mut!(_Py_NoneStruct)) as usize,
    };
    (n != 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_IsInstance(o: P, t: *mut Ty) -> c_int {
    if t == addr_of_mut!(SequenceType) {
        return PySequence_Check(o);
    }
    if t == addr_of_mut!(MappingType) {
        return (flags(o) & DICT != 0) as c_int;
    }
    PyType_IsSubtype((*o).ty, t)
}
#[no_mangle]
pub unsafe extern "C" fn PyCallable_Check(o: P) -> c_int {
    (flags(o) & TYPE != 0 || matches!((*o).kind, Kind::Func(..))) as c_int
}

// ---- strings and numbers ---------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn PyUnicode_FromStringAndSize(s: *const c_char, n: isize) -> P {
    string(core::slice::from_raw_parts(s as *const u8, n as usize))
}
#[no_mangle]
pub unsafe extern "C" fn PyUnicode_FromString(s: *const c_char) -> P {
    string(CStr::from_ptr(s).to_bytes())
}
#[no_mangle]
pub unsafe extern "C" fn PyUnicode_InternFromString(s: *const c_char) -> P {
    string(CStr::from_ptr(s).to_bytes())
}
#[no_mangle]
pub unsafe extern "C" fn PyUnicode_InternInPlace(_s: *mut P) {}
#[no_mangle]
pub unsafe extern "C" fn PyUnicode_AsUTF8AndSize(o: P, n: *mut isize) -> *const c_char {
    if flags(o) & UNICODE == 0 {
        raise(addr_of_mut!(TypeError), "bad argument type for built-in operation");
        return null();
    }
    let b = bytes(o);
    if !n.is_null() {
        *n = b.len() as isize;
    }
    b.as_ptr() as *const c_char
}
#[no_mangle]
pub unsafe extern "C" fn PyLong_FromLong(v: c_long) -> P {
    new(addr_of_mut!(PyLong_Type), Kind::Int(v, 0))
}
#[no_mangle]
pub unsafe extern "C" fn PyLong_FromLongLong(v: c_longlong) -> P {
    PyLong_FromLong(v)
}
#[no_mangle]
pub unsafe extern "C" fn PyLong_FromSsize_t(v: isize) -> P {
    PyLong_FromLong(v as c_long)
}
#[no_mangle]
pub unsafe extern "C" fn PyLong_FromUnsignedLong(v: c_ulong) -> P {
    new(addr_of_mut!(PyLong_Type), if v >> 63 == 0 { Kind::Int(v as i64, 0) } else { Kind::Int(0, 1) })
}
#[no_mangle]
pub unsafe extern "C" fn PyLong_FromUnsignedLongLong(v: c_ulonglong) -> P {
    PyLong_FromUnsignedLong(v)
}
#[no_mangle]
pub unsafe extern "C" fn PyLong_FromSize_t(v: usize) -> P {
    PyLong_FromUnsignedLong(v as c_ulong)
}
#[no_mangle]
pub unsafe extern "C" fn PyLong_AsLong(o: P) -> c_long {
    match (*o).kind {
        Kind::Int(v, 0) => v,
        Kind::Int(..) => {
            raise(addr_of_mut!(OverflowError), "Python int too large to convert to C long");
            -1
        }
        _ => {
            raise(addr_of_mut!(TypeError), "object cannot be interpreted as an integer");
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn PyLong_AsLongLong(o: P) -> c_longlong {
    PyLong_AsLong(o)
}
#[no_mangle]
pub unsafe extern "C" fn PyLong_AsSsize_t(o: P) -> isize {
    PyLong_AsLong(o) as isize
}
#[no_mangle]
pub unsafe extern "C" fn PyLong_AsUnsignedLongLong(o: P) -> c_ulonglong {
    let v = PyLong_AsLong(o);
    if v < 0 && ERR.0.is_null() {
        raise(addr_of_mut!(OverflowError), "can't convert negative int to unsigned");
    }
    v as c_ulonglong
}
#[no_mangle]
pub unsafe extern "C" fn PyLong_AsUnsignedLong(o: P) -> c_ulong {
    PyLong_AsUnsignedLongLong(o)
}
#[no_mangle]
pub unsafe extern "C" fn PyNumber_Index(o: P) -> P {
    if flags(o) & LONG != 0 {
        return incref(o);
    }
    raise(addr_of_mut!(TypeError), "object cannot be interpreted as an integer");
    null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn PyBool_FromLong(v: c_long) -> P {
    if v != 0 {
        addr_of_mut!(_Py_TrueStruct)
    } else {
        addr_of_mut!(_Py_FalseStruct)
    }
}

// ---- containers ------------------------------------------------------------------------

unsafe fn items<'a>(o: P) -> &'a mut Vec<P> {
    match &mut (*o).kind {
        Kind::Tuple(v) | Kind::List(v) => v,
        _ => panic!("not a sequence"),
    }
}

unsafe fn get(o: P, k: isize) -> P {
    let v = items(o);
    if k < 0 || k as usize >= v.len() {
        raise(addr_of_mut!(IndexError), "index out of range");
        return null_mut();
    }
    v[k as usize]
}

#[no_mangle]
pub unsafe extern "C" fn PyTuple_New(n: isize) -> P {
    new(addr_of_mut!(PyTuple_Type), Kind::Tuple(vec![null_mut(); n as usize]))
}
#[no_mangle]
pub unsafe extern "C" fn PyTuple_SetItem(o: P, k: isize, v: P) -> c_int {
    items(o)[k as usize] = v;
    0
}
#[no_mangle]
pub unsafe extern "C" fn PyTuple_GetItem(o: P, k: isize) -> P {
    get(o, k)
}
#[no_mangle]
pub unsafe extern "C" fn PyTuple_Size(o: P) -> isize {
    items(o).len() as isize
}
#[no_mangle]
pub unsafe extern "C" fn PyTuple_GetSlice(o: P, a: isize, b: isize) -> P {
    let v = items(o);
    let n = v.len() as isize;
    let (a, b) = (a.clamp(0, n) as usize, b.clamp(0, n) as usize);
    new(addr_of_mut!(PyTuple_Type), Kind::Tuple(if a < b { v[a..b].iter().map(|x| incref(*x)).collect() } else { Vec::new() }))
}
#[no_mangle]
pub unsafe extern "C" fn PyList_New(n: isize) -> P {
    new(addr_of_mut!(PyList_Type), Kind::List(vec![null_mut(); n as usize]))
}
#[no_mangle]
pub unsafe extern "C" fn PyList_SetItem(o: P, k: isize, v: P) -> c_int {
    PyTuple_SetItem(o, k, v)
}
#[no_mangle]
pub unsafe extern "C" fn PyList_Append(o: P, v: P) -> c_int {
    items(o).push(incref(v));
    0
}
#[no_mangle]
pub unsafe extern "C" fn PyList_GetItem(o: P, k: isize) -> P {
    get(o, k)
}
#[no_mangle]
pub unsafe extern "C" fn PyList_Size(o: P) -> isize {
    items(o).len() as isize
}
#[no_mangle]
pub unsafe extern "C" fn PyList_AsTuple(o: P) -> P {
    new(addr_of_mut!(PyTuple_Type), Kind::Tuple(items(o).iter().map(|x| incref(*x)).collect()))
}
#[no_mangle]
pub unsafe extern "C" fn PySequence_Tuple(o: P) -> P {
    if flags(o) & TUPLE != 0 {
        return incref(o);
    }
    PyList_AsTuple(o)
}
#[no_mangle]
pub unsafe extern "C" fn PySequence_List(o: P) -> P {
    new(addr_of_mut!(PyList_Type), Kind::List(items(o).iter().map(|x| incref(*x)).collect()))
}
#[no_mangle]
pub unsafe extern "C" fn PySequence_Check(o: P) -> c_int {
    (flags(o) & (LIST | TUPLE | UNICODE | BYTES) != 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn PySequence_GetItem(o: P, k: isize) -> P {
    incref(get(o, k))
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_Size(o: P) -> isize {
    match &(*o).kind {
        Kind::Tuple(v) | Kind::List(v) => v.len() as isize,
        Kind::Dict(v) => v.len() as isize,
        _ => {
            raise(addr_of_mut!(TypeError), "object has no len()");
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn PySequence_Size(o: P) -> isize {
    PyObject_Size(o)
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_LengthHint(o: P, _d: isize) -> isize {
    PyObject_Size(o)
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_GetIter(o: P) -> P {
    if flags(o) & (LIST | TUPLE) == 0 {
        if let Kind::Iter(..) = (*o).kind {
            return incref(o);
        }
        raise(addr_of_mut!(TypeError), "object is not iterable");
        return null_mut();
    }
    new(addr_of_mut!(IterType), Kind::Iter(incref(o), 0))
}
#[no_mangle]
pub unsafe extern "C" fn PyIter_Next(o: P) -> P {
    if let Kind::Iter(from, k) = &mut (*o).kind {
        let v = items(*from);
        if *k < v.len() {
            *k += 1;
            return incref(v[*k - 1]);
        }
    }
    null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn PyDict_New() -> P {
    new(addr_of_mut!(PyDict_Type), Kind::Dict(Vec::new()))
}
#[no_mangle]
pub unsafe extern "C" fn PyDict_SetItem(o: P, key: P, value: P) -> c_int {
    if let Kind::Dict(v) = &mut (*o).kind {
        put(v, key, value);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn PyDict_SetItemString(o: P, key: *const c_char, value: P) -> c_int {
    PyDict_SetItem(o, PyUnicode_FromString(key), value)
}
#[no_mangle]
pub unsafe extern "C" fn PyDict_GetItemWithError(o: P, key: P) -> P {
    if let Kind::Dict(v) = &(*o).kind {
        if let Some(k) = find(v, bytes(key)) {
            return v[k].1;
        }
    }
    null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn PyDict_Size(o: P) -> isize {
    PyObject_Size(o)
}
#[no_mangle]
pub unsafe extern "C" fn PyDict_Next(o: P, at: *mut isize, key: *mut P, value: *mut P) -> c_int {
    if let Kind::Dict(v) = &(*o).kind {
        let k = *at as usize;
        if k < v.len() {
            *at += 1;
            if !key.is_null() {
                *key = v[k].0;
            }
            if !value.is_null() {
                *value = v[k].1;
            }
            return 1;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_GetItem(o: P, key: P) -> P {
    if let Kind::Dict(_) = (*o).kind {
        let v = PyDict_GetItemWithError(o, key);
        if v.is_null() {
            PyErr_SetObject(addr_of_mut!(KeyError), key);
        }
        return incref(v);
    }
    let k = PyLong_AsLong(key);
    if !ERR.0.is_null() {
        return null_mut();
    }
    incref(get(o, k as isize))
}

// ---- modules and functions -------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn PyModuleDef_Init(def: *mut ModuleDef) -> P {
    def as P
}
#[no_mangle]
pub unsafe extern "C" fn PyModule_FromDefAndSpec2(def: *mut ModuleDef, spec: P, _v: c_int) -> P {
    let name = PyObject_GetAttrString(spec, c"name".as_ptr());
    let m = PyModule_NewObject(name);
    if let Kind::Module(_, d) = &mut (*m).kind {
        *d = def;
    }
    m
}
#[no_mangle]
pub unsafe extern "C" fn PyModule_ExecDef(m: P, def: *mut ModuleDef) -> c_int {
    let mut at = (*def).slots;
    while !at.is_null() && (*at).slot != 0 {
        if (*at).slot == 2 {
            let f: unsafe extern "C" fn(P) -> c_int = core::mem::transmute((*at).f);
            if f(m) != 0 {
                return -1;
            }
        }
        at = at.add(1);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn PyModule_NewObject(name: P) -> P {
    let m = new(addr_of_mut!(PyModule_Type), Kind::Module(Vec::new(), null()));
    PyObject_SetAttrString(m, c"__name__".as_ptr(), name);
    m
}
/// Only `collections.abc`.
#[no_mangle]
pub unsafe extern "C" fn PyImport_Import(name: P) -> P {
    if bytes(name) != b"collections.abc" {
        raise(addr_of_mut!(ImportError), "no such module");
        return null_mut();
    }
    let m = PyModule_NewObject(name);
    PyObject_SetAttrString(m, c"Sequence".as_ptr(), addr_of_mut!(SequenceType) as P);
    PyObject_SetAttrString(m, c"Mapping".as_ptr(), addr_of_mut!(MappingType) as P);
    m
}
#[no_mangle]
pub unsafe extern "C" fn PyModule_New(name: *const c_char) -> P {
    PyModule_NewObject(PyUnicode_FromString(name))
}
#[no_mangle]
pub unsafe extern "C" fn PyModule_GetNameObject(m: P) -> P {
    PyObject_GetAttrString(m, c"__name__".as_ptr())
}
#[no_mangle]
pub unsafe extern "C" fn PyModule_AddObjectRef(m: P, name: *const c_char, v: P) -> c_int {
    PyObject_SetAttrString(m, name, v)
}
#[no_mangle]
pub unsafe extern "C" fn PyCMethod_New(def: *const Def, to: P, _module: P, _class: *mut Ty) -> P {
    new(addr_of_mut!(PyCFunction_Type), Kind::Func(def, incref(to)))
}
#[no_mangle]
pub unsafe extern "C" fn PyCFunction_NewEx(def: *const Def, to: P, module: P) -> P {
    PyCMethod_New(def, to, module, null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn PyErr_NewExceptionWithDoc(_name: *const c_char, _doc: *const c_char, base: P, _dict: P) -> *mut Ty {
    let base = if base.is_null() { addr_of_mut!(Exception) } else { base as *mut Ty };
    Box::into_raw(Box::new(ty("new exception", EXC, base)))
}
#[no_mangle]
pub unsafe extern "C" fn PyErr_NewException(_name: *const c_char, base: P, _dict: P) -> *mut Ty {
    PyErr_NewExceptionWithDoc(null(), null(), base, null_mut())
}

// ---- what the standard library asks of the C library: one thread -------------------------

static mut KEYS: [*mut c_void; 16] = [null_mut(); 16];
static mut NEXT_KEY: u32 = 1;

#[no_mangle]
pub unsafe extern "C" fn pthread_key_create(key: *mut u32, _drop: *mut c_void) -> c_int {
    *key = NEXT_KEY;
    NEXT_KEY += 1;
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_key_delete(_key: u32) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_getspecific(key: u32) -> *mut c_void {
    KEYS[key as usize]
}
#[no_mangle]
pub unsafe extern "C" fn pthread_setspecific(key: u32, v: *mut c_void) -> c_int {
    KEYS[key as usize] = v;
    0
}
#[no_mangle]
pub unsafe extern "C" fn __cxa_thread_atexit_impl(_f: *mut c_void, _x: *mut c_void, _d: *mut c_void) -> c_int {
    0
}
