//! LLVM IR (textual, opaque pointers) front end.
//!
//! Function bodies are parsed lazily, on the first call; only the index of
//! definitions, declarations and globals is built eagerly.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Float,
    Double,
    OtherFp(u32),
    Ptr,
    Arr(usize, Rc<Ty>),
    Vec(usize, Rc<Ty>),
    Struct(Rc<Vec<(usize, Ty)>>, usize, usize), // (offset, ty)*, size, align
    Label,
    Meta,
}
impl Ty {
    pub fn size(&self) -> usize {
        match self {
            Ty::Void | Ty::Label | Ty::Meta => 0,
            Ty::Int(w) => {
                let b = ((*w as usize) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Float => 4,
            Ty::Double => 8,
            Ty::OtherFp(w) => (*w as usize + 7) / 8,
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => ((n * w as usize + 7) / 8).next_power_of_two(),
                _ => n * t.size(),
            },
            Ty::Struct(_, s, _) => *s,
        }
    }
    /// bytes actually written by a store
    pub fn store_size(&self) -> usize {
        match self {
            Ty::Int(w) => ((*w as usize) + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn align(&self) -> usize {
        match self {
            Ty::Int(w) => {
                let b = ((*w as usize) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(_, _, a) => *a,
            Ty::Void | Ty::Label | Ty::Meta => 1,
            _ => self.size(),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Float => 32,
            Ty::Double | Ty::Ptr => 64,
            Ty::OtherFp(w) => *w,
            Ty::Vec(n, t) => *n as u32 * t.bits(),
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Float | Ty::Double | Ty::Ptr | Ty::OtherFp(_))
    }
}

/// A runtime value. Scalars of at most 64 bits are `C` when concrete.
#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    W(Box<u128>),
    S(u32),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    FAdd, FSub, FMul, FDiv, FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt, PtrToInt, IntToPtr, Bitcast }

#[derive(Clone, Debug)]
pub enum Callee {
    Func(usize),
    Ptr(Op),
    Asm(String),
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub dst: Option<u32>,
    pub ret: Ty,
    pub callee: Callee,
    pub args: Vec<Op>,
    pub arg_tys: Vec<Ty>,
    pub byval: Vec<usize>, // 0: not byval, else size
    pub normal: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Alloca { dst: u32, size: usize, count: Option<Op> },
    Load { dst: u32, ty: Ty, ptr: Op },
    Store { ty: Ty, val: Op, ptr: Op },
    Gep { dst: u32, base: Op, off: i64, idx: Vec<(Op, u32, i64)>, vec: bool }, // (index, width, scale)
    Bin { dst: u32, op: Bin, ty: Ty, a: Op, b: Op },
    FNeg { dst: u32, ty: Ty, a: Op },
    Icmp { dst: u32, pred: Pred, ty: Ty, a: Op, b: Op },
    Fcmp { dst: u32, pred: String, ty: Ty, a: Op, b: Op },
    Cast { dst: u32, op: Cast, from: Ty, to: Ty, a: Op },
    Select { dst: u32, cty: Ty, c: Op, ty: Ty, a: Op, b: Op },
    Phi { dst: u32, ty: Ty, inc: Vec<(Op, u32)> },
    Br(u32),
    CondBr(Op, u32, u32),
    Switch { ty: Ty, v: Op, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(Ty, Op)>),
    Unreachable,
    Call(Box<CallI>),
    LandingPad { dst: u32 },
    Resume,
    ExtractValue { dst: u32, a: Op, idx: Vec<u32> },
    InsertValue { dst: u32, ty: Ty, a: Op, v: Op, idx: Vec<u32> },
    ExtractElem { dst: u32, vty: Ty, v: Op, i: Op },
    InsertElem { dst: u32, vty: Ty, v: Op, e: Op, i: Op },
    Shuffle { dst: u32, vty: Ty, a: Op, b: Op, mask: Vec<i32> },
    AtomicRmw { dst: u32, op: String, ty: Ty, ptr: Op, v: Op },
    CmpXchg { dst: u32, ty: Ty, ptr: Op, cmp: Op, new: Op },
    Fence,
    Freeze { dst: u32, a: Op },
}

#[derive(Debug)]
pub struct Func {
    pub id: usize,
    pub name: String,
    pub nregs: usize,
    pub params: Vec<u32>,
    pub blocks: Vec<Vec<Ins>>,
}

pub struct FuncDecl {
    pub name: String,
    /// byte range of the header line and the body; None for a declaration
    pub src: Option<(usize, usize)>,
    pub ret_hint: (),
}
pub struct GlobalDecl {
    pub name: String,
    pub src: Option<(usize, usize)>,
    pub addr: u64,
    pub size: usize,
    pub init: Option<InitBytes>,
    pub constant: bool,
}
#[derive(Clone, Debug, Default)]
pub struct InitBytes(pub Vec<u8>);

pub const OBJ_SHIFT: u32 = 24;
pub const FUNC_BASE: u64 = 1 << 45;
pub const STACK_BASE: u64 = 1 << 46;

pub struct Module {
    pub text: &'static str,
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<String, usize>,
    pub globals: Vec<GlobalDecl>,
    pub gidx: HashMap<String, usize>,
    pub types: HashMap<String, Ty>,
    pub type_src: HashMap<String, (usize, usize)>,
    pub parsed: RefCell<Vec<Option<&'static Func>>>,
}

// ---------------------------------------------------------------- lexer
#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Id(&'a str),          // keyword, type or attribute word
    Local(&'a str),       // %x
    Global(&'a str),      // @x
    Num(&'a str),         // integer or float literal
    Str(&'a str),         // "..."
    CStr(&'a str),        // c"..."
    Meta,                 // !...
    P(char),              // punctuation
    Attr,                 // #12
    Label(&'a str),       // x:
    Nl,
}
fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
pub fn lex(s: &str) -> Vec<Tok<'_>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let n = b.len();
    let quoted = |i: usize| -> usize {
        let mut j = i + 1;
        while b[j] != b'"' {
            j += 1;
        }
        j
    };
    while i < n {
        let c = b[i];
        match c {
            b'\n' => {
                out.push(Tok::Nl);
                i += 1;
            }
            b' ' | b'\t' | b'\r' => i += 1,
            b';' => {
                while i < n && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let (st, en, ni) = if b[i + 1] == b'"' {
                    let e = quoted(i + 1);
                    (i + 2, e, e + 1)
                } else {
                    let mut j = i + 1;
                    while j < n && is_id(b[j]) {
                        j += 1;
                    }
                    (i + 1, j, j)
                };
                let t = &s[st..en];
                out.push(if c == b'%' { Tok::Local(t) } else { Tok::Global(t) });
                i = ni;
            }
            b'"' => {
                let e = quoted(i);
                if e + 1 < n && b[e + 1] == b':' {
                    out.push(Tok::Label(&s[i + 1..e]));
                    i = e + 2;
                } else {
                    out.push(Tok::Str(&s[i + 1..e]));
                    i = e + 1;
                }
            }
            b'c' if i + 1 < n && b[i + 1] == b'"' => {
                let e = quoted(i + 1);
                out.push(Tok::CStr(&s[i + 2..e]));
                i = e + 1;
            }
            b'!' => {
                // metadata: '!name' or '!"..."' or '!{'
                i += 1;
                if i < n && b[i] == b'"' {
                    i = quoted(i) + 1;
                } else {
                    while i < n && is_id(b[i]) {
                        i += 1;
                    }
                }
                out.push(Tok::Meta);
            }
            b'#' => {
                i += 1;
                while i < n && is_id(b[i]) {
                    i += 1;
                }
                out.push(Tok::Attr);
            }
            _ if c.is_ascii_digit() || c == b'-' || c == b'+' => {
                let mut j = i + 1;
                while j < n && (is_id(b[j]) || b[j] == b'+') {
                    j += 1;
                }
                if j < n && b[j] == b':' {
                    out.push(Tok::Label(&s[i..j]));
                    i = j + 1;
                } else {
                    out.push(Tok::Num(&s[i..j]));
                    i = j;
                }
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let mut j = i + 1;
                while j < n && is_id(b[j]) {
                    j += 1;
                }
                if j < n && b[j] == b':' {
                    out.push(Tok::Label(&s[i..j]));
                    i = j + 1;
                } else {
                    let t = &s[i..j];
                    out.push(Tok::Id(t));
                    i = j;
                }
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

pub type R<T> = Result<T, String>;

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

/// A constant.
#[derive(Clone, Debug)]
pub enum Const {
    Bytes(Vec<u8>),
    Zero,
    Undef,
    Int(u128),
    Agg(Vec<Const>),
}

struct P<'m, 'a> {
    m: &'m Module,
    t: &'a [Tok<'a>],
    i: usize,
}
impl<'m, 'a> P<'m, 'a> {
    fn peek(&self) -> Option<&Tok<'a>> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok<'a>> {
        let t = self.t.get(self.i).cloned().ok_or("eof")?;
        self.i += 1;
        Ok(t)
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x == c)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} got {:?} near {:?}", c, self.peek(), self.ctx()))
        }
    }
    fn ctx(&self) -> Vec<Tok<'a>> {
        let lo = self.i.saturating_sub(8);
        let hi = (self.i + 8).min(self.t.len());
        self.t[lo..hi].to_vec()
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if *x == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_id(&mut self, s: &str) -> R<()> {
        if self.eat_id(s) {
            Ok(())
        } else {
            Err(format!("expected {:?} got {:?} near {:?}", s, self.peek(), self.ctx()))
        }
    }
    fn num(&mut self) -> R<usize> {
        match self.next()? {
            Tok::Num(s) => s.parse::<usize>().map_err(|e| format!("{e}: {s}")),
            t => Err(format!("expected number got {:?} near {:?}", t, self.ctx())),
        }
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(Tok::Id(s)) => is_type_word(s),
            Some(Tok::P(c)) => matches!(c, '{' | '[' | '<'),
            Some(Tok::Local(s)) => self.m.type_src.contains_key(*s) || self.m.types.contains_key(*s),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.next()? {
            Tok::Id("void") => Ty::Void,
            Tok::Id("ptr") => {
                if self.eat_id("addrspace") {
                    self.exp_p('(')?;
                    self.num()?;
                    self.exp_p(')')?;
                }
                Ty::Ptr
            }
            Tok::Id("float") => Ty::Float,
            Tok::Id("double") => Ty::Double,
            Tok::Id("half") | Tok::Id("bfloat") => Ty::OtherFp(16),
            Tok::Id("fp128") => Ty::OtherFp(128),
            Tok::Id("x86_fp80") => Ty::OtherFp(80),
            Tok::Id("label") => Ty::Label,
            Tok::Id("metadata") => Ty::Meta,
            Tok::Id("token") => Ty::Meta,
            Tok::Id(s) if s.starts_with('i') => {
                Ty::Int(s[1..].parse().map_err(|_| format!("bad type {s} near {:?}", self.ctx()))?)
            }
            Tok::P('[') => {
                let n = self.num()?;
                self.exp_id("x")?;
                let t = self.ty()?;
                self.exp_p(']')?;
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P('{') => {
                let fs = self.ty_list('}')?;
                mk_struct(fs, false)
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let fs = self.ty_list('}')?;
                    self.exp_p('>')?;
                    mk_struct(fs, true)
                } else {
                    let n = self.num()?;
                    self.exp_id("x")?;
                    let t = self.ty()?;
                    self.exp_p('>')?;
                    Ty::Vec(n, Rc::new(t))
                }
            }
            Tok::Local(s) => self
                .m
                .types
                .get(s)
                .cloned()
                .ok_or_else(|| format!("unknown named type {s}"))?,
            t => return Err(format!("bad type token {:?} near {:?}", t, self.ctx())),
        };
        // function type: 'ret (args)' used in variadic calls is handled by the caller
        Ok(t)
    }
    fn ty_list(&mut self, end: char) -> R<Vec<Ty>> {
        let mut v = Vec::new();
        if self.eat_p(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat_p(end) {
                return Ok(v);
            }
            self.exp_p(',')?;
        }
    }
    fn skip_balanced(&mut self) -> R<()> {
        // at '('
        let mut d = 0;
        loop {
            match self.next()? {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return Ok(());
                    }
                }
                _ => {}
            }
        }
    }
    /// Skips attributes until a type or a value starts; returns the byval size if any.
    fn skip_attrs_to_type(&mut self) -> R<usize> {
        let mut byval = 0;
        while !self.is_type_start() {
            match self.next()? {
                Tok::Id("align") => {
                    if self.is_p('(') {
                        self.skip_balanced()?;
                    } else {
                        self.num()?;
                    }
                }
                Tok::Id("byval") => {
                    self.exp_p('(')?;
                    byval = self.ty()?.size().max(1);
                    self.exp_p(')')?;
                }
                Tok::Id("cc") => {
                    self.num()?;
                }
                Tok::Id(_) => {
                    if self.is_p('(') {
                        self.skip_balanced()?;
                    }
                }
                Tok::Str(_) => {
                    if self.eat_p('=') {
                        self.next()?;
                    }
                }
                Tok::Num(_) | Tok::Attr => {}
                t => return Err(format!("unexpected attr token {:?} near {:?}", t, self.ctx())),
            }
        }
        Ok(byval)
    }
    /// After a type inside an argument list: skip parameter attributes.
    fn skip_param_attrs(&mut self) -> R<usize> {
        let mut byval = 0;
        loop {
            match self.peek() {
                Some(Tok::Id("align")) => {
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_balanced()?;
                    } else {
                        self.num()?;
                    }
                }
                Some(Tok::Id("byval")) => {
                    self.i += 1;
                    self.exp_p('(')?;
                    byval = self.ty()?.size().max(1);
                    self.exp_p(')')?;
                }
                Some(Tok::Id(s)) => {
                    if is_const_word(s) {
                        return Ok(byval);
                    }
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_balanced()?;
                    }
                }
                Some(Tok::Str(_)) => {
                    self.i += 1;
                    if self.eat_p('=') {
                        self.next()?;
                    }
                }
                _ => return Ok(byval),
            }
        }
    }
    fn konst(&mut self, ty: &Ty) -> R<Const> {
        Ok(match self.next()? {
            Tok::Id("zeroinitializer") | Tok::Id("null") | Tok::Id("none") => Const::Zero,
            Tok::Id("undef") | Tok::Id("poison") => Const::Undef,
            Tok::Id("true") => Const::Int(1),
            Tok::Id("false") => Const::Int(0),
            Tok::Num(s) => match ty {
                Ty::Int(w) => Const::Int(parse_int(s, *w)?),
                Ty::Float => {
                    let d = parse_fp(s)?;
                    Const::Int((d as f32).to_bits() as u128)
                }
                Ty::Double => Const::Int(parse_fp(s)?.to_bits() as u128),
                Ty::OtherFp(_) => Const::Int(0),
                _ => return Err(format!("number {s} for {:?}", ty)),
            },
            // bit patterns of floating-point constants (newer LLVM)
            Tok::Id(s) if s.starts_with("f0x") => Const::Int(u128::from_str_radix(&s[3..], 16).map_err(|e| e.to_string())?),
            Tok::CStr(s) => Const::Bytes(unescape(s)),
            Tok::Global(g) => Const::Int(self.m.sym_addr(g)? as u128),
            Tok::P('[') => {
                let mut v = Vec::new();
                if !self.eat_p(']') {
                    loop {
                        let t = self.ty()?;
                        v.push(self.konst(&t)?);
                        if self.eat_p(']') {
                            break;
                        }
                        self.exp_p(',')?;
                    }
                }
                Const::Agg(v)
            }
            Tok::P('{') => {
                let mut v = Vec::new();
                if !self.eat_p('}') {
                    loop {
                        let t = self.ty()?;
                        v.push(self.konst(&t)?);
                        if self.eat_p('}') {
                            break;
                        }
                        self.exp_p(',')?;
                    }
                }
                Const::Agg(v)
            }
            Tok::P('<') => {
                let st = self.eat_p('{');
                let mut v = Vec::new();
                if !(st && self.eat_p('}')) {
                    loop {
                        let t = self.ty()?;
                        v.push(self.konst(&t)?);
                        if st && self.eat_p('}') {
                            break;
                        }
                        if !st && self.is_p('>') {
                            break;
                        }
                        self.exp_p(',')?;
                    }
                }
                self.exp_p('>')?;
                Const::Agg(v)
            }
            Tok::Id("splat") => {
                self.exp_p('(')?;
                let t = self.ty()?;
                let c = self.konst(&t)?;
                self.exp_p(')')?;
                let n = match ty {
                    Ty::Vec(n, _) => *n,
                    _ => return Err("splat of non-vector".into()),
                };
                Const::Agg(vec![c; n])
            }
            Tok::Id("getelementptr") => {
                while let Some(Tok::Id(s)) = self.peek() {
                    if matches!(*s, "inbounds" | "nuw" | "nusw") {
                        self.i += 1;
                    } else if *s == "inrange" {
                        self.i += 1;
                        self.skip_balanced()?;
                    } else {
                        break;
                    }
                }
                self.exp_p('(')?;
                let ety = self.ty()?;
                self.exp_p(',')?;
                let bt = self.ty()?;
                let base = self.konst(&bt)?;
                let mut idx = Vec::new();
                while self.eat_p(',') {
                    self.eat_id("inrange");
                    let t = self.ty()?;
                    let c = self.konst(&t)?;
                    let w = t.bits();
                    let v = const_int(&c);
                    idx.push(sext(v, w));
                }
                self.exp_p(')')?;
                let mut off: i64 = 0;
                let mut cur = ety.clone();
                for (k, ix) in idx.iter().enumerate() {
                    if k == 0 {
                        off += ix * cur.size() as i64;
                    } else {
                        let (o, t) = gep_step(&cur, *ix)?;
                        off += o;
                        cur = t;
                    }
                }
                Const::Int((const_int(&base) as u64).wrapping_add(off as u64) as u128)
            }
            Tok::Id(op @ ("ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "ptrtoaddr")) => {
                self.exp_p('(')?;
                let t = self.ty()?;
                let c = self.konst(&t)?;
                self.exp_id("to")?;
                let to = self.ty()?;
                self.exp_p(')')?;
                let _ = op;
                Const::Int(mask(const_int(&c), to.bits()))
            }
            Tok::Id(op @ ("sub" | "add" | "xor" | "and" | "or" | "mul" | "shl" | "lshr")) => {
                while let Some(Tok::Id(s)) = self.peek() {
                    if matches!(*s, "nuw" | "nsw" | "exact") {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                self.exp_p('(')?;
                let t = self.ty()?;
                let a = const_int(&self.konst(&t)?);
                self.exp_p(',')?;
                let t2 = self.ty()?;
                let b = const_int(&self.konst(&t2)?);
                self.exp_p(')')?;
                let r = match op {
                    "sub" => a.wrapping_sub(b),
                    "add" => a.wrapping_add(b),
                    "xor" => a ^ b,
                    "and" => a & b,
                    "or" => a | b,
                    "mul" => a.wrapping_mul(b),
                    "shl" => a << b,
                    _ => a >> b,
                };
                Const::Int(mask(r, t.bits()))
            }
            t => return Err(format!("unsupported constant {:?} near {:?}", t, self.ctx())),
        })
    }
}
fn is_type_word(s: &str) -> bool {
    matches!(s, "void" | "ptr" | "float" | "double" | "half" | "bfloat" | "fp128" | "x86_fp80" | "label" | "metadata" | "token")
        || (s.len() > 1 && s.starts_with('i') && s[1..].bytes().all(|c| c.is_ascii_digit()))
}
fn is_const_word(s: &str) -> bool {
    matches!(
        s,
        "zeroinitializer" | "null" | "undef" | "poison" | "true" | "false" | "none" | "splat" | "getelementptr" | "ptrtoint"
            | "inttoptr" | "bitcast" | "trunc" | "zext" | "sub" | "add" | "xor" | "and" | "or" | "mul" | "shl" | "lshr" | "ptrtoaddr"
            | "addrspacecast" | "asm"
    )
}
pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
pub fn sext(v: u128, w: u32) -> i64 {
    if w >= 64 {
        v as u64 as i64
    } else {
        let sh = 64 - w;
        (((v as u64) << sh) as i64) >> sh
    }
}
fn const_int(c: &Const) -> u128 {
    match c {
        Const::Int(v) => *v,
        Const::Zero | Const::Undef => 0,
        _ => panic!("constant aggregate where integer expected"),
    }
}
fn parse_int(s: &str, w: u32) -> R<u128> {
    if let Some(h) = s.strip_prefix("u0x").or_else(|| s.strip_prefix("s0x")) {
        return u128::from_str_radix(h, 16).map_err(|e| e.to_string());
    }
    if let Some(neg) = s.strip_prefix('-') {
        let v: u128 = neg.parse().map_err(|_| format!("bad int {s}"))?;
        Ok(mask(v.wrapping_neg(), w))
    } else {
        let v: u128 = s.parse().map_err(|_| format!("bad int {s}"))?;
        Ok(mask(v, w))
    }
}
fn parse_fp(s: &str) -> R<f64> {
    if let Some(h) = s.strip_prefix("0x") {
        let v = u64::from_str_radix(h, 16).map_err(|_| format!("bad fp {s}"))?;
        return Ok(f64::from_bits(v));
    }
    match s {
        "+qnan" => return Ok(f64::from_bits(0x7ff8_0000_0000_0000)),
        "-qnan" => return Ok(f64::from_bits(0xfff8_0000_0000_0000)),
        _ => {}
    }
    s.parse().map_err(|_| format!("bad fp {s}"))
}
fn mk_struct(fs: Vec<Ty>, packed: bool) -> Ty {
    let mut off = 0;
    let mut al = 1;
    let mut v = Vec::new();
    for f in fs {
        let a = if packed { 1 } else { f.align() };
        al = al.max(a);
        off = (off + a - 1) / a * a;
        let s = f.size();
        v.push((off, f));
        off += s;
    }
    off = (off + al - 1) / al * al;
    Ty::Struct(Rc::new(v), off, al)
}
pub fn gep_step(t: &Ty, ix: i64) -> R<(i64, Ty)> {
    Ok(match t {
        Ty::Arr(_, e) => (ix * e.size() as i64, (**e).clone()),
        Ty::Vec(_, e) => (ix * e.size() as i64, (**e).clone()),
        Ty::Struct(fs, _, _) => {
            let f = fs.get(ix as usize).ok_or("gep field out of range")?;
            (f.0 as i64, f.1.clone())
        }
        _ => return Err(format!("gep into scalar {:?}", t)),
    })
}

/// Writes constant `c` of type `ty` into bytes at `out`.
fn write_const(ty: &Ty, c: &Const, out: &mut [u8]) {
    match (ty, c) {
        (_, Const::Zero) | (_, Const::Undef) => {}
        (_, Const::Bytes(b)) => out[..b.len()].copy_from_slice(b),
        (Ty::Arr(_, e), Const::Agg(v)) => {
            let s = e.size();
            for (i, x) in v.iter().enumerate() {
                write_const(e, x, &mut out[i * s..(i + 1) * s]);
            }
        }
        (Ty::Vec(_, e), Const::Agg(v)) => {
            let s = e.size();
            for (i, x) in v.iter().enumerate() {
                write_const(e, x, &mut out[i * s..(i + 1) * s]);
            }
        }
        (Ty::Struct(fs, _, _), Const::Agg(v)) => {
            for ((off, t), x) in fs.iter().zip(v) {
                write_const(t, x, &mut out[*off..*off + t.size()]);
            }
        }
        (_, Const::Int(v)) => {
            let n = ty.store_size();
            for i in 0..n {
                out[i] = (v >> (8 * i)) as u8;
            }
        }
        _ => panic!("write_const mismatch {:?}", ty),
    }
}
/// Converts a constant into a runtime value.
fn const_val(ty: &Ty, c: &Const) -> Val {
    match ty {
        Ty::Arr(n, e) => match c {
            Const::Agg(v) => Val::A(Rc::new(v.iter().map(|x| const_val(e, x)).collect())),
            Const::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u64)).collect())),
            _ => Val::A(Rc::new((0..*n).map(|_| const_val(e, &Const::Zero)).collect())),
        },
        Ty::Vec(n, e) => match c {
            Const::Agg(v) => Val::A(Rc::new(v.iter().map(|x| const_val(e, x)).collect())),
            _ => Val::A(Rc::new((0..*n).map(|_| const_val(e, &Const::Zero)).collect())),
        },
        Ty::Struct(fs, _, _) => match c {
            Const::Agg(v) => Val::A(Rc::new(v.iter().zip(fs.iter()).map(|(x, f)| const_val(&f.1, x)).collect())),
            _ => Val::A(Rc::new(fs.iter().map(|f| const_val(&f.1, &Const::Zero)).collect())),
        },
        _ => {
            let v = const_int(c);
            if ty.bits() > 64 {
                Val::W(Box::new(v))
            } else {
                Val::C(v as u64)
            }
        }
    }
}

impl Module {
    pub fn sym_addr(&self, g: &str) -> R<u64> {
        if let Some(i) = self.gidx.get(g) {
            Ok(self.globals[*i].addr)
        } else if let Some(i) = self.fidx.get(g) {
            Ok(FUNC_BASE + (*i as u64) * 16)
        } else {
            Err(format!("unknown symbol @{g}"))
        }
    }

    pub fn load(text: &'static str) -> R<Module> {
        let mut m = Module {
            text,
            funcs: vec![],
            fidx: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
            types: HashMap::new(),
            type_src: HashMap::new(),
            parsed: RefCell::new(vec![]),
        };
        let b = text.as_bytes();
        let mut pos = 0;
        let mut aliases: Vec<(String, usize, usize)> = vec![];
        while pos < b.len() {
            let eol = memchr(b, b'\n', pos).unwrap_or(b.len());
            let line = &text[pos..eol];
            if line.starts_with("define ") {
                let name = header_name(line)?;
                // body ends with a line that is exactly "}"
                let mut p = eol + 1;
                let end;
                loop {
                    let e = memchr(b, b'\n', p).unwrap_or(b.len());
                    if &b[p..e] == b"}" {
                        end = e;
                        break;
                    }
                    p = e + 1;
                }
                m.add_func(name, Some((pos, end)));
                pos = end + 1;
                continue;
            } else if line.starts_with("declare ") {
                let name = header_name(line)?;
                m.add_func(name, None);
            } else if line.starts_with('@') {
                let (name, rest) = global_name(line);
                if rest.contains(" alias ") && is_alias(rest) {
                    aliases.push((name, pos, eol));
                } else {
                    let i = m.globals.len();
                    m.gidx.insert(name.clone(), i);
                    m.globals.push(GlobalDecl {
                        name,
                        src: Some((pos, eol)),
                        addr: 0,
                        size: 0,
                        init: None,
                        constant: false,
                    });
                }
            } else if line.starts_with('%') {
                if let Some(eq) = line.find(" = type ") {
                    let n = line[1..eq].trim_matches('"').to_string();
                    m.type_src.insert(n, (pos + eq + 8, eol));
                }
            }
            pos = eol + 1;
        }
        // named types (resolve until a fixpoint)
        let names: Vec<String> = m.type_src.keys().cloned().collect();
        for _ in 0..names.len() + 1 {
            let mut progress = false;
            for n in &names {
                if m.types.contains_key(n) {
                    continue;
                }
                let (s, e) = m.type_src[n];
                let toks = lex(&text[s..e]);
                let r = if matches!(toks.first(), Some(Tok::Id("opaque"))) {
                    Ok(Ty::Void)
                } else {
                    P { m: &m, t: &toks, i: 0 }.ty()
                };
                if let Ok(t) = r {
                    m.types.insert(n.clone(), t);
                    progress = true;
                }
            }
            if !progress {
                break;
            }
        }
        // global sizes and addresses
        for gi in 0..m.globals.len() {
            m.globals[gi].addr = ((gi as u64) + 1) << OBJ_SHIFT;
        }
        // aliases: same address as the aliasee
        for (name, s, e) in aliases {
            let toks = lex(&text[s..e]);
            let tgt = toks.iter().rev().find_map(|t| if let Tok::Global(g) = t { Some(*g) } else { None });
            if let Some(t) = tgt {
                if let Some(i) = m.gidx.get(t).cloned() {
                    m.gidx.insert(name, i);
                } else if let Some(i) = m.fidx.get(t).cloned() {
                    m.fidx.insert(name, i);
                }
            }
        }
        for gi in 0..m.globals.len() {
            let (s, e) = m.globals[gi].src.unwrap();
            let toks = lex(&text[s..e]);
            let r = (|| -> R<(usize, Option<InitBytes>, bool)> {
                let mut p = P { m: &m, t: &toks, i: 1 };
                p.exp_p('=')?;
                let mut constant = false;
                let mut external = false;
                loop {
                    match p.next()? {
                        Tok::Id("global") => break,
                        Tok::Id("constant") => {
                            constant = true;
                            break;
                        }
                        Tok::Id("external") | Tok::Id("extern_weak") => external = true,
                        Tok::Id(_) => {
                            if p.is_p('(') {
                                p.skip_balanced()?;
                            }
                        }
                        t => return Err(format!("bad global token {:?}", t)),
                    }
                }
                let ty = p.ty()?;
                let size = ty.size();
                let mut bytes = vec![0u8; size];
                if !external {
                    let c = p.konst(&ty)?;
                    write_const(&ty, &c, &mut bytes);
                }
                Ok((size, Some(InitBytes(bytes)), constant))
            })();
            let (size, init, constant) = r.map_err(|e| format!("global {}: {}", m.globals[gi].name, e))?;
            if size >= 1 << OBJ_SHIFT {
                return Err(format!("global {} too large", m.globals[gi].name));
            }
            m.globals[gi].size = size;
            m.globals[gi].init = init;
            m.globals[gi].constant = constant;
        }
        *m.parsed.borrow_mut() = vec![None; m.funcs.len()];
        Ok(m)
    }
    fn add_func(&mut self, name: String, src: Option<(usize, usize)>) {
        let i = self.funcs.len();
        self.fidx.insert(name.clone(), i);
        self.funcs.push(FuncDecl { name, src, ret_hint: () });
    }

    pub fn func(&self, i: usize) -> R<&'static Func> {
        if let Some(f) = &self.parsed.borrow()[i] {
            return Ok(f);
        }
        let f: &'static Func = &*Box::leak(Box::new(self.parse_func(i).map(|mut f| { f.id = i; f }).map_err(|e| format!("parsing {}: {}", self.funcs[i].name, e))?));
        self.parsed.borrow_mut()[i] = Some(f);
        Ok(f)
    }

    fn parse_func(&self, i: usize) -> R<Func> {
        let d = &self.funcs[i];
        let (s, e) = d.src.ok_or("no body")?;
        let src = &self.text[s..e + 1];
        let toks = lex(src);
        let mut fp = FP {
            p: P { m: self, t: &toks, i: 0 },
            regs: HashMap::new(),
            blocks: HashMap::new(),
            nregs: 0,
        };
        fp.func(&d.name)
    }
}

fn memchr(b: &[u8], c: u8, from: usize) -> Option<usize> {
    b[from..].iter().position(|x| *x == c).map(|p| p + from)
}
fn is_alias(rest: &str) -> bool {
    // "= internal alias ptr, ptr @x"
    let r = rest.trim_start_matches(" = ");
    for w in r.split(' ') {
        match w {
            "alias" => return true,
            "global" | "constant" => return false,
            _ => {}
        }
    }
    false
}
fn header_name(line: &str) -> R<String> {
    // first '@' outside parentheses
    let b = line.as_bytes();
    let mut d = 0;
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'(' => d += 1,
            b')' => d -= 1,
            b'@' if d == 0 => {
                if b[i + 1] == b'"' {
                    let e = memchr(b, b'"', i + 2).ok_or("bad name")?;
                    return Ok(line[i + 2..e].to_string());
                }
                let mut j = i + 1;
                while j < b.len() && is_id(b[j]) {
                    j += 1;
                }
                return Ok(line[i + 1..j].to_string());
            }
            _ => {}
        }
        i += 1;
    }
    Err(format!("no name in {line}"))
}
fn global_name(line: &str) -> (String, &str) {
    let b = line.as_bytes();
    if b[1] == b'"' {
        let e = memchr(b, b'"', 2).unwrap();
        (line[2..e].to_string(), &line[e + 1..])
    } else {
        let mut j = 1;
        while is_id(b[j]) {
            j += 1;
        }
        (line[1..j].to_string(), &line[j..])
    }
}

struct FP<'m, 'a> {
    p: P<'m, 'a>,
    regs: HashMap<&'a str, u32>,
    blocks: HashMap<&'a str, u32>,
    nregs: u32,
}
impl<'m, 'a> FP<'m, 'a> {
    fn reg(&mut self, n: &'a str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n, r);
        r
    }
    fn block(&mut self, n: &'a str) -> u32 {
        let k = self.blocks.len() as u32;
        *self.blocks.entry(n).or_insert(k)
    }
    fn val(&mut self, ty: &Ty) -> R<Op> {
        if let Some(Tok::Local(n)) = self.p.peek() {
            let n = *n;
            self.p.i += 1;
            return Ok(Op::Reg(self.reg(n)));
        }
        if let Ty::Meta = ty {
            // metadata operand: skip to ',' or ')'
            let mut d = 0;
            loop {
                match self.p.peek() {
                    Some(Tok::P('(')) | Some(Tok::P('{')) => d += 1,
                    Some(Tok::P(')')) | Some(Tok::P(',')) if d == 0 => break,
                    Some(Tok::P(')')) | Some(Tok::P('}')) => d -= 1,
                    None => return Err("eof in metadata".into()),
                    _ => {}
                }
                self.p.i += 1;
            }
            return Ok(Op::K(Val::C(0)));
        }
        let c = self.p.konst(ty)?;
        Ok(Op::K(const_val(ty, &c)))
    }
    fn tyval(&mut self) -> R<(Ty, Op)> {
        let t = self.p.ty()?;
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn label(&mut self) -> R<u32> {
        self.p.exp_id("label")?;
        match self.p.next()? {
            Tok::Local(n) => Ok(self.block(n)),
            t => Err(format!("bad label {:?}", t)),
        }
    }
    fn skip_line(&mut self) {
        while let Some(t) = self.p.peek() {
            if *t == Tok::Nl {
                break;
            }
            self.p.i += 1;
        }
    }
    fn skip_flags(&mut self, fl: &[&str]) {
        while let Some(Tok::Id(s)) = self.p.peek() {
            if fl.contains(s) {
                self.p.i += 1;
            } else {
                break;
            }
        }
    }
    fn func(&mut self, name: &str) -> R<Func> {
        // header: find '@name' then '('
        while !matches!(self.p.peek(), Some(Tok::Global(_))) {
            self.p.i += 1;
        }
        self.p.i += 1;
        self.p.exp_p('(')?;
        let mut params = Vec::new();
        let mut argno = 0;
        if !self.p.eat_p(')') {
            loop {
                if self.p.is_p('.') || self.p.is_id("...") {
                    while !self.p.is_p(')') {
                        self.p.i += 1;
                    }
                    self.p.i += 1;
                    break;
                }
                self.p.ty()?;
                self.p.skip_param_attrs()?;
                match self.p.peek() {
                    Some(Tok::Local(n)) => {
                        let n = *n;
                        self.p.i += 1;
                        let r = self.reg(n);
                        params.push(r);
                    }
                    _ => {
                        let s: &'static str = Box::leak(format!("{argno}").into_boxed_str());
                        let r = self.reg(s);
                        params.push(r);
                    }
                }
                argno += 1;
                if self.p.eat_p(')') {
                    break;
                }
                self.p.exp_p(',')?;
            }
        }
        // skip to the end of the header line
        self.skip_line();
        self.p.i += 1;
        let mut blocks: Vec<Vec<Ins>> = Vec::new();
        let mut cur: Option<u32> = None;
        loop {
            match self.p.peek() {
                None => break,
                Some(Tok::Nl) => {
                    self.p.i += 1;
                }
                Some(Tok::P('}')) => break,
                Some(Tok::Label(l)) => {
                    let l = *l;
                    self.p.i += 1;
                    let b = self.block(l);
                    cur = Some(b);
                    while blocks.len() <= b as usize {
                        blocks.push(vec![]);
                    }
                }
                Some(_) => {
                    if cur.is_none() {
                        let s: &'static str = Box::leak(format!("{}", params.len()).into_boxed_str());
                        let b = self.block(s);
                        cur = Some(b);
                        while blocks.len() <= b as usize {
                            blocks.push(vec![]);
                        }
                    }
                    let ins = self.ins()?;
                    if let Some(ins) = ins {
                        let b = cur.unwrap() as usize;
                        while blocks.len() <= b {
                            blocks.push(vec![]);
                        }
                        blocks[b].push(ins);
                    }
                    self.skip_line();
                }
            }
        }
        while blocks.len() < self.blocks.len() {
            blocks.push(vec![]);
        }
        Ok(Func {
            id: 0,
            name: name.to_string(),
            nregs: self.nregs as usize,
            params,
            blocks,
        })
    }

    fn ins(&mut self) -> R<Option<Ins>> {
        let mut dst: Option<u32> = None;
        if let Some(Tok::Local(n)) = self.p.peek() {
            let n = *n;
            self.p.i += 1;
            self.p.exp_p('=')?;
            dst = Some(self.reg(n));
        }
        let d = dst.unwrap_or(u32::MAX);
        let op = match self.p.next()? {
            Tok::Id(s) => s,
            Tok::Attr => return Ok(None), // debug record
            t => return Err(format!("bad instruction {:?} near {:?}", t, self.p.ctx())),
        };
        let bin = |s: &str| -> Option<Bin> {
            Some(match s {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                "mul" => Bin::Mul,
                "udiv" => Bin::UDiv,
                "sdiv" => Bin::SDiv,
                "urem" => Bin::URem,
                "srem" => Bin::SRem,
                "shl" => Bin::Shl,
                "lshr" => Bin::LShr,
                "ashr" => Bin::AShr,
                "and" => Bin::And,
                "or" => Bin::Or,
                "xor" => Bin::Xor,
                "fadd" => Bin::FAdd,
                "fsub" => Bin::FSub,
                "fmul" => Bin::FMul,
                "fdiv" => Bin::FDiv,
                "frem" => Bin::FRem,
                _ => return None,
            })
        };
        let fmf = ["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"];
        if let Some(b) = bin(op) {
            self.skip_flags(&["nuw", "nsw", "exact", "disjoint"]);
            self.skip_flags(&fmf);
            let (ty, a) = self.tyval()?;
            self.p.exp_p(',')?;
            let c = self.val(&ty)?;
            return Ok(Some(Ins::Bin { dst: d, op: b, ty, a, b: c }));
        }
        let cast = match op {
            "trunc" => Some(Cast::Trunc),
            "zext" => Some(Cast::ZExt),
            "sext" => Some(Cast::SExt),
            "fptoui" => Some(Cast::FpToUi),
            "fptosi" => Some(Cast::FpToSi),
            "uitofp" => Some(Cast::UiToFp),
            "sitofp" => Some(Cast::SiToFp),
            "fptrunc" => Some(Cast::FpTrunc),
            "fpext" => Some(Cast::FpExt),
            "ptrtoint" | "ptrtoaddr" => Some(Cast::PtrToInt),
            "inttoptr" => Some(Cast::IntToPtr),
            "bitcast" | "addrspacecast" => Some(Cast::Bitcast),
            _ => None,
        };
        if let Some(c) = cast {
            self.skip_flags(&["nuw", "nsw", "nneg", "exact"]);
            self.skip_flags(&fmf);
            let (from, a) = self.tyval()?;
            self.p.exp_id("to")?;
            let to = self.p.ty()?;
            return Ok(Some(Ins::Cast { dst: d, op: c, from, to, a }));
        }
        Ok(Some(match op {
            "alloca" => {
                self.skip_flags(&["inalloca", "swifterror"]);
                let ty = self.p.ty()?;
                let mut count = None;
                if self.p.is_p(',') {
                    let save = self.p.i;
                    self.p.i += 1;
                    if self.p.is_type_start() {
                        let (_, v) = self.tyval()?;
                        count = Some(v);
                    } else {
                        self.p.i = save;
                    }
                }
                Ins::Alloca { dst: d, size: ty.size(), count }
            }
            "load" => {
                self.skip_flags(&["atomic", "volatile"]);
                let ty = self.p.ty()?;
                self.p.exp_p(',')?;
                let (_, ptr) = self.tyval()?;
                Ins::Load { dst: d, ty, ptr }
            }
            "store" => {
                self.skip_flags(&["atomic", "volatile"]);
                let (ty, val) = self.tyval()?;
                self.p.exp_p(',')?;
                let (_, ptr) = self.tyval()?;
                Ins::Store { ty, val, ptr }
            }
            "getelementptr" => {
                while let Some(Tok::Id(s)) = self.p.peek() {
                    if matches!(*s, "inbounds" | "nuw" | "nusw") {
                        self.p.i += 1;
                    } else if *s == "inrange" {
                        self.p.i += 1;
                        self.p.skip_balanced()?;
                    } else {
                        break;
                    }
                }
                let ety = self.p.ty()?;
                self.p.exp_p(',')?;
                let (bt, base) = self.tyval()?;
                let mut off: i64 = 0;
                let mut idx = Vec::new();
                let mut cur = ety.clone();
                let mut k = 0;
                let mut vec = matches!(bt, Ty::Vec(..));
                while self.p.is_p(',') {
                    // metadata attachment?
                    if matches!(self.p.t.get(self.p.i + 1), Some(Tok::Meta)) {
                        break;
                    }
                    self.p.i += 1;
                    let (it, iv) = self.tyval()?;
                    if matches!(it, Ty::Vec(..)) {
                        vec = true;
                    }
                    let (scale, nxt) = if k == 0 {
                        (cur.size() as i64, cur.clone())
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let ix = match &iv {
                                    Op::K(Val::C(v)) => *v as u32 as i64,
                                    _ => return Err("non-constant struct index".into()),
                                };
                                let (o, t) = gep_step(&cur, ix)?;
                                off += o;
                                cur = t;
                                k += 1;
                                continue;
                            }
                            _ => {
                                let (o, t) = gep_step(&cur, 1)?;
                                (o, t)
                            }
                        }
                    };
                    match &iv {
                        Op::K(Val::C(v)) => off = off.wrapping_add(sext(*v as u128, it.bits()).wrapping_mul(scale)),
                        _ => idx.push((iv, it.bits(), scale)),
                    }
                    cur = nxt;
                    k += 1;
                }
                Ins::Gep { dst: d, base, off, idx, vec }
            }
            "fneg" => {
                self.skip_flags(&fmf);
                let (ty, a) = self.tyval()?;
                Ins::FNeg { dst: d, ty, a }
            }
            "icmp" => {
                self.skip_flags(&["samesign"]);
                let pred = match self.p.next()? {
                    Tok::Id("eq") => Pred::Eq,
                    Tok::Id("ne") => Pred::Ne,
                    Tok::Id("ugt") => Pred::Ugt,
                    Tok::Id("uge") => Pred::Uge,
                    Tok::Id("ult") => Pred::Ult,
                    Tok::Id("ule") => Pred::Ule,
                    Tok::Id("sgt") => Pred::Sgt,
                    Tok::Id("sge") => Pred::Sge,
                    Tok::Id("slt") => Pred::Slt,
                    Tok::Id("sle") => Pred::Sle,
                    t => return Err(format!("icmp pred {:?}", t)),
                };
                let (ty, a) = self.tyval()?;
                self.p.exp_p(',')?;
                let b = self.val(&ty)?;
                Ins::Icmp { dst: d, pred, ty, a, b }
            }
            "fcmp" => {
                self.skip_flags(&fmf);
                let pred = match self.p.next()? {
                    Tok::Id(s) => s.to_string(),
                    t => return Err(format!("fcmp pred {:?}", t)),
                };
                let (ty, a) = self.tyval()?;
                self.p.exp_p(',')?;
                let b = self.val(&ty)?;
                Ins::Fcmp { dst: d, pred, ty, a, b }
            }
            "select" => {
                self.skip_flags(&fmf);
                let (cty, c) = self.tyval()?;
                self.p.exp_p(',')?;
                let (ty, a) = self.tyval()?;
                self.p.exp_p(',')?;
                let (_, b) = self.tyval()?;
                Ins::Select { dst: d, cty, c, ty, a, b }
            }
            "phi" => {
                self.skip_flags(&fmf);
                let ty = self.p.ty()?;
                let mut inc = Vec::new();
                loop {
                    self.p.exp_p('[')?;
                    let v = self.val(&ty)?;
                    self.p.exp_p(',')?;
                    let b = match self.p.next()? {
                        Tok::Local(n) => self.block(n),
                        t => return Err(format!("phi label {:?}", t)),
                    };
                    self.p.exp_p(']')?;
                    inc.push((v, b));
                    if self.p.is_p(',') && matches!(self.p.t.get(self.p.i + 1), Some(Tok::P('['))) {
                        self.p.i += 1;
                    } else {
                        break;
                    }
                }
                Ins::Phi { dst: d, ty, inc }
            }
            "br" => {
                if self.p.is_id("label") {
                    Ins::Br(self.label()?)
                } else {
                    let (_, c) = self.tyval()?;
                    self.p.exp_p(',')?;
                    let a = self.label()?;
                    self.p.exp_p(',')?;
                    let b = self.label()?;
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (ty, v) = self.tyval()?;
                self.p.exp_p(',')?;
                let def = self.label()?;
                self.p.exp_p('[')?;
                let mut cases = Vec::new();
                loop {
                    while matches!(self.p.peek(), Some(Tok::Nl)) {
                        self.p.i += 1;
                    }
                    if self.p.eat_p(']') {
                        break;
                    }
                    let t = self.p.ty()?;
                    let c = const_int(&self.p.konst(&t)?);
                    self.p.exp_p(',')?;
                    let l = self.label()?;
                    cases.push((c, l));
                }
                Ins::Switch { ty, v, def, cases }
            }
            "ret" => {
                if self.p.eat_id("void") {
                    Ins::Ret(None)
                } else {
                    let (t, v) = self.tyval()?;
                    Ins::Ret(Some((t, v)))
                }
            }
            "unreachable" => Ins::Unreachable,
            "tail" | "musttail" | "notail" => {
                self.p.exp_id("call")?;
                return self.call(dst, false).map(Some);
            }
            "call" => return self.call(dst, false).map(Some),
            "invoke" => return self.call(dst, true).map(Some),
            "landingpad" => {
                // consume the clauses on the following lines
                self.p.ty()?;
                loop {
                    let mut k = self.p.i;
                    while matches!(self.p.t.get(k), Some(Tok::Nl)) {
                        k += 1;
                    }
                    match self.p.t.get(k) {
                        Some(Tok::Id("cleanup")) => self.p.i = k + 1,
                        Some(Tok::Id("catch")) | Some(Tok::Id("filter")) => {
                            self.p.i = k + 1;
                            self.skip_line();
                        }
                        _ => break,
                    }
                }
                Ins::LandingPad { dst: d }
            }
            "resume" => Ins::Resume,
            "extractvalue" => {
                let (_, a) = self.tyval()?;
                let idx = self.idx_list()?;
                Ins::ExtractValue { dst: d, a, idx }
            }
            "insertvalue" => {
                let (ty, a) = self.tyval()?;
                self.p.exp_p(',')?;
                let (_, v) = self.tyval()?;
                let idx = self.idx_list()?;
                Ins::InsertValue { dst: d, ty, a, v, idx }
            }
            "extractelement" => {
                let (vty, v) = self.tyval()?;
                self.p.exp_p(',')?;
                let (_, i) = self.tyval()?;
                Ins::ExtractElem { dst: d, vty, v, i }
            }
            "insertelement" => {
                let (vty, v) = self.tyval()?;
                self.p.exp_p(',')?;
                let (_, e) = self.tyval()?;
                self.p.exp_p(',')?;
                let (_, i) = self.tyval()?;
                Ins::InsertElem { dst: d, vty, v, e, i }
            }
            "shufflevector" => {
                let (vty, a) = self.tyval()?;
                self.p.exp_p(',')?;
                let (_, b) = self.tyval()?;
                self.p.exp_p(',')?;
                let mt = self.p.ty()?;
                let c = self.p.konst(&mt)?;
                let n = match mt {
                    Ty::Vec(n, _) => n,
                    _ => 0,
                };
                let mask = match c {
                    Const::Agg(v) => v
                        .iter()
                        .map(|x| match x {
                            Const::Int(v) => *v as i32,
                            Const::Undef => -1,
                            _ => 0,
                        })
                        .collect(),
                    Const::Undef => vec![-1; n],
                    _ => vec![0; n],
                };
                Ins::Shuffle { dst: d, vty, a, b, mask }
            }
            "atomicrmw" => {
                self.skip_flags(&["volatile"]);
                let op = match self.p.next()? {
                    Tok::Id(s) => s.to_string(),
                    t => return Err(format!("atomicrmw {:?}", t)),
                };
                let (_, ptr) = self.tyval()?;
                self.p.exp_p(',')?;
                let (ty, v) = self.tyval()?;
                Ins::AtomicRmw { dst: d, op, ty, ptr, v }
            }
            "cmpxchg" => {
                self.skip_flags(&["weak", "volatile"]);
                let (_, ptr) = self.tyval()?;
                self.p.exp_p(',')?;
                let (ty, cmp) = self.tyval()?;
                self.p.exp_p(',')?;
                let (_, new) = self.tyval()?;
                Ins::CmpXchg { dst: d, ty, ptr, cmp, new }
            }
            "fence" => Ins::Fence,
            "freeze" => {
                let (_, a) = self.tyval()?;
                Ins::Freeze { dst: d, a }
            }
            _ => return Err(format!("unsupported instruction {op} near {:?}", self.p.ctx())),
        }))
    }
    fn idx_list(&mut self) -> R<Vec<u32>> {
        let mut v = Vec::new();
        while self.p.is_p(',') && matches!(self.p.t.get(self.p.i + 1), Some(Tok::Num(_))) {
            self.p.i += 1;
            v.push(self.p.num()? as u32);
        }
        Ok(v)
    }
    fn call(&mut self, dst: Option<u32>, invoke: bool) -> R<Ins> {
        self.skip_flags(&["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"]);
        self.p.skip_attrs_to_type()?;
        let ret = self.p.ty()?;
        // optional full function type: ret (args...)
        if self.p.is_p('(') {
            self.p.skip_balanced()?;
        }
        let callee = match self.p.next()? {
            Tok::Global(g) => match self.p.m.fidx.get(g) {
                Some(i) => Callee::Func(*i),
                None => return Err(format!("call to unknown @{g}")),
            },
            Tok::Local(n) => Callee::Ptr(Op::Reg(self.reg(n))),
            Tok::Id("asm") => {
                self.skip_flags(&["sideeffect", "alignstack", "inteldialect", "unwind"]);
                let s = match self.p.next()? {
                    Tok::Str(s) => s.to_string(),
                    t => return Err(format!("asm {:?}", t)),
                };
                self.p.exp_p(',')?;
                self.p.next()?;
                Callee::Asm(s)
            }
            Tok::Id("inttoptr") | Tok::Id("null") | Tok::Id("undef") | Tok::Id("poison") => {
                return Err("call through constant pointer".into())
            }
            t => return Err(format!("bad callee {:?} near {:?}", t, self.p.ctx())),
        };
        self.p.exp_p('(')?;
        let mut args = Vec::new();
        let mut arg_tys = Vec::new();
        let mut byval = Vec::new();
        if !self.p.eat_p(')') {
            loop {
                let t = self.p.ty()?;
                let bv = self.p.skip_param_attrs()?;
                let v = self.val(&t)?;
                args.push(v);
                arg_tys.push(t);
                byval.push(bv);
                if self.p.eat_p(')') {
                    break;
                }
                self.p.exp_p(',')?;
            }
        }
        let mut normal = None;
        if invoke {
            // "to label %x unwind label %y", possibly on the next line, after attributes
            loop {
                match self.p.next()? {
                    Tok::Id("to") => break,
                    Tok::P('[') => {
                        // operand bundles
                        while !self.p.eat_p(']') {
                            self.p.next()?;
                        }
                    }
                    _ => {}
                }
            }
            normal = Some(self.label()?);
            self.p.exp_id("unwind")?;
            self.label()?;
        }
        Ok(Ins::Call(Box::new(CallI {
            dst,
            ret,
            callee,
            args,
            arg_tys,
            byval,
            normal,
        })))
    }
}
