//! Reader for the textual LLVM IR that rustc emits for the harness (post-LTO).
//! Function bodies are parsed lazily, on first call.
use crate::val::Val;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Arr(u64, Rc<Ty>),
    Vector(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(b) => match *b {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// store size padded to alignment (alloc size)
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(b) => {
                let s = (*b as u64 + 7) / 8;
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vector(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(b) => *b,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            Ty::Vector(n, t) => *n as u32 * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) | Ty::Vector(_, t) => i as u64 * t.size(),
            _ => panic!("field_off"),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vector(_, t) => (**t).clone(),
            _ => panic!("elem"),
        }
    }
    pub fn is_float(&self) -> bool {
        matches!(self, Ty::F32 | Ty::F64)
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum IPred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FPred {
    False,
    Oeq,
    Ogt,
    Oge,
    Olt,
    Ole,
    One,
    Ord,
    Ueq,
    Ugt,
    Uge,
    Ult,
    Ule,
    Une,
    Uno,
    True,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cast {
    Trunc,
    Zext,
    Sext,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
    PtrToInt,
    IntToPtr,
    Bitcast,
}

#[derive(Clone, Debug)]
pub enum Callee {
    /// index in the module's symbol table
    Sym(u32),
    Ind(Opd),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(Bin, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    ICmp(IPred, Ty, Opd, Opd),
    FCmp(FPred, Ty, Opd, Opd),
    Select(Ty, Opd, Opd, Opd, bool),
    Load(Ty, Opd, bool),
    Store(Ty, Opd, Opd, bool),
    Alloca(u64),
    /// base, const offset, [(index, scale)]
    Gep(Opd, i64, Vec<(Opd, u32, i64)>),
    Cast(Cast, Ty, Opd, Ty),
    Call(Callee, Vec<(Ty, Opd)>, Ty),
    Invoke(Callee, Vec<(Ty, Opd)>, Ty, u32, u32),
    ExtractValue(Opd, Vec<usize>),
    InsertValue(Ty, Opd, Opd, Vec<usize>),
    ExtractElem(Opd, Opd),
    InsertElem(Opd, Opd, Opd),
    Shuffle(Opd, Opd, Vec<i64>),
    Freeze(Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    AtomicRmw(String, Ty, Opd, Opd),
    Fence,
    LandingPad,
    Ret(Option<Opd>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Unreachable,
    Resume,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Inst {
    pub dst: Option<u32>,
    pub op: Ins,
}

#[derive(Debug)]
pub struct Block {
    /// phis: (dst, [(pred, value)])
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub sym: u32,
    pub nregs: usize,
    pub nparams: usize,
    pub blocks: Vec<Block>,
}

pub enum SymKind {
    Func { start: usize, end: usize },
    Decl,
    Global { line: usize, constant: bool, tls: bool },
    Alias { target: String },
}

pub struct Sym {
    pub name: String,
    pub kind: SymKind,
}

pub struct Module {
    pub lines: Vec<String>,
    pub types: HashMap<String, Ty>,
    pub syms: Vec<Sym>,
    pub by_name: HashMap<String, u32>,
    pub funcs: RefCell<Vec<Option<Rc<Func>>>>,
}

// ---------------------------------------------------------------- tokens
#[derive(Clone, PartialEq, Debug)]
enum Tok {
    L(String),
    G(String),
    W(String),
    N(String),
    S(Vec<u8>),
    P(char),
    Meta,
    Attr,
    DotDotDot,
}

fn unquote(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && i + 2 <= b.len() - 1 {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn isid(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'.' || c == b'_' || c == b'$' || c == b'-'
}

fn tokenize(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b'/' if i + 1 < b.len() && b[i + 1] == b'*' => {
                i += 2;
                while i + 1 < b.len() && !(b[i] == b'*' && b[i + 1] == b'/') {
                    i += 1;
                }
                i += 2;
            }
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let name;
                if b[i + 1] == b'"' {
                    let mut j = i + 2;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    name = String::from_utf8(unquote(&s[i + 2..j])).unwrap_or_else(|_| s[i + 2..j].to_string());
                    i = j + 1;
                } else {
                    let mut j = i + 1;
                    while j < b.len() && isid(b[j]) {
                        j += 1;
                    }
                    name = s[i + 1..j].to_string();
                    i = j;
                }
                out.push(if c == b'%' { Tok::L(name) } else { Tok::G(name) });
            }
            b'!' => {
                i += 1;
                // metadata: !name, !123, !{...}, !DI...(...)
                while i < b.len() && (isid(b[i])) {
                    i += 1;
                }
                out.push(Tok::Meta);
            }
            b'#' => {
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                out.push(Tok::Attr);
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::S(unquote(&s[i + 1..j])));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::S(unquote(&s[i + 2..j])));
                i = j + 1;
            }
            b'.' if s[i..].starts_with("...") => {
                out.push(Tok::DotDotDot);
                i += 3;
            }
            _ if c.is_ascii_digit() || ((c == b'-' || c == b'+') && i + 1 < b.len()) => {
                let mut j = i + 1;
                while j < b.len() && (isid(b[j]) || b[j] == b'+') {
                    j += 1;
                }
                out.push(Tok::N(s[i..j].to_string()));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'.' => {
                let mut j = i + 1;
                while j < b.len() && isid(b[j]) {
                    j += 1;
                }
                out.push(Tok::W(s[i..j].to_string()));
                i = j;
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

pub trait Addrs {
    fn sym_addr(&self, name: &str) -> u64;
}

struct P<'a> {
    t: Vec<Tok>,
    i: usize,
    m: &'a Module,
    addrs: &'a dyn Addrs,
    regs: HashMap<String, u32>,
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Tok {
        let t = self.t.get(self.i).cloned().expect("eol");
        self.i += 1;
        t
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::W(x)) if x==w)
    }
    fn isp(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x==c)
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eatp(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expp(&mut self, c: char) {
        if !self.eatp(c) {
            panic!("expected {:?} at {:?} in {:?}", c, self.peek(), self.t)
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Some(Tok::W(w)) => is_type_word(w),
            Some(Tok::P('[')) | Some(Tok::P('{')) | Some(Tok::P('<')) => true,
            Some(Tok::L(n)) => self.m.types.contains_key(n),
            _ => false,
        }
    }
    /// skip attribute words until a type starts
    fn skip_to_type(&mut self) {
        while !self.at_type() {
            match self.next() {
                Tok::W(w) => {
                    if w == "align" && matches!(self.peek(), Some(Tok::N(_))) {
                        self.i += 1;
                    } else if self.isp('(') {
                        self.skip_parens();
                    }
                }
                Tok::S(_) => {
                    if self.eatp('=') {
                        self.i += 1;
                    }
                }
                Tok::N(_) => {}
                t => panic!("skip_to_type {:?} in {:?}", t, self.t),
            }
        }
    }
    fn ty(&mut self) -> Ty {
        let t = match self.next() {
            Tok::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.isw("addrspace") {
                        self.i += 1;
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "half" | "bfloat" | "x86_fp80" | "fp128" | "metadata" | "token" | "label" => Ty::Other,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().expect("int type")),
                _ => panic!("type {:?} in {:?}", w, self.t),
            },
            Tok::P('[') => {
                let n = self.num();
                assert!(self.eatw("x"));
                let e = self.ty();
                self.expp(']');
                Ty::Arr(n as u64, Rc::new(e))
            }
            Tok::P('{') => {
                let f = self.fields('}');
                Ty::Struct(Rc::new(f), false)
            }
            Tok::P('<') => {
                if self.eatp('{') {
                    let f = self.fields('}');
                    self.expp('>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num();
                    assert!(self.eatw("x"));
                    let e = self.ty();
                    self.expp('>');
                    Ty::Vector(n as u64, Rc::new(e))
                }
            }
            Tok::L(n) => self.m.types.get(&n).cloned().unwrap_or(Ty::Other),
            t => panic!("type tok {:?} in {:?}", t, self.t),
        };
        // function type (vararg callee): skip the parameter list
        if self.isp('(') && matches!(self.t.get(self.i + 1), Some(Tok::W(_)) | Some(Tok::P(')')) | Some(Tok::DotDotDot) | Some(Tok::P('[')) | Some(Tok::P('{'))) {
            // only when followed by a global/local callee
            let save = self.i;
            self.skip_parens();
            if !matches!(self.peek(), Some(Tok::G(_)) | Some(Tok::L(_))) {
                self.i = save;
            }
        }
        t
    }
    fn fields(&mut self, close: char) -> Vec<Ty> {
        let mut f = Vec::new();
        while !self.eatp(close) {
            f.push(self.ty());
            self.eatp(',');
        }
        f
    }
    fn num(&mut self) -> i128 {
        match self.next() {
            Tok::N(n) => n.parse().expect("num"),
            t => panic!("num {:?}", t),
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn opd(&mut self, ty: &Ty) -> Opd {
        if let Some(Tok::L(n)) = self.peek() {
            let n = n.clone();
            self.i += 1;
            return Opd::R(self.reg(&n));
        }
        Opd::K(self.konst(ty))
    }
    /// typed operand with attributes
    fn targ(&mut self) -> (Ty, Opd) {
        let ty = self.ty();
        if ty == Ty::Other {
            // metadata etc: skip to , or )
            let mut d = 0;
            loop {
                match self.peek() {
                    Some(Tok::P('(')) | Some(Tok::P('{')) => d += 1,
                    Some(Tok::P('}')) => d -= 1,
                    Some(Tok::P(')')) if d == 0 => break,
                    Some(Tok::P(')')) => d -= 1,
                    Some(Tok::P(',')) if d == 0 => break,
                    None => break,
                    _ => {}
                }
                self.i += 1;
            }
            return (ty, Opd::K(Val::C(0)));
        }
        self.skip_arg_attrs();
        let o = self.opd(&ty);
        (ty, o)
    }
    fn skip_arg_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::W(w)) => {
                    if is_const_word(w) {
                        return;
                    }
                    let w = w.clone();
                    self.i += 1;
                    if w == "align" && matches!(self.peek(), Some(Tok::N(_))) {
                        self.i += 1;
                    } else if self.isp('(') {
                        self.skip_parens();
                    }
                }
                _ => return,
            }
        }
    }
    fn konst(&mut self, ty: &Ty) -> Val {
        match self.next() {
            Tok::N(n) => self.knum(&n, ty),
            Tok::S(b) => Val::A(b.into_iter().map(|x| Val::C(x as u128)).collect::<Vec<_>>().into()),
            Tok::G(n) => Val::C(self.addrs.sym_addr(&n) as u128),
            Tok::W(w) => match w.as_str() {
                "true" => Val::C(1),
                "false" => Val::C(0),
                "null" => Val::C(0),
                "none" => Val::C(0),
                "undef" | "poison" | "zeroinitializer" => zero(ty),
                "splat" => {
                    self.expp('(');
                    let t = self.ty();
                    let v = self.konst(&t);
                    self.expp(')');
                    match ty {
                        Ty::Vector(n, _) => Val::A(vec![v; *n as usize].into()),
                        _ => panic!("splat"),
                    }
                }
                "getelementptr" => {
                    while matches!(self.peek(), Some(Tok::W(_))) {
                        let _ = self.next();
                        if self.isp('(') && !matches!(self.t.get(self.i - 1), Some(Tok::W(w)) if w=="inrange") {
                            break;
                        }
                        if self.isp('(') {
                            self.skip_parens();
                            if self.isp('(') {
                                break;
                            }
                        }
                    }
                    self.expp('(');
                    let sty = self.ty();
                    self.expp(',');
                    let pt = self.ty();
                    let base = self.konst(&pt).c() as u64;
                    let mut off: i64 = 0;
                    let mut cur = sty;
                    let mut first = true;
                    while self.eatp(',') {
                        let it = self.ty();
                        let iv = self.konst(&it).c();
                        let k = sx(iv, it.bits()) as i64;
                        if first {
                            off += k * cur.size() as i64;
                            first = false;
                        } else {
                            off += cur.field_off(k as usize) as i64;
                            cur = cur.elem(k as usize);
                        }
                    }
                    self.expp(')');
                    Val::C(base.wrapping_add(off as u64) as u128)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" => {
                    self.expp('(');
                    let t = self.ty();
                    let v = self.konst(&t).c();
                    assert!(self.eatw("to"));
                    let t2 = self.ty();
                    self.expp(')');
                    Val::C(v & mask(t2.bits()))
                }
                "sub" | "add" | "xor" | "mul" => {
                    while self.eatw("nuw") || self.eatw("nsw") {}
                    self.expp('(');
                    let t = self.ty();
                    let a = self.konst(&t).c();
                    self.expp(',');
                    let t2 = self.ty();
                    let b = self.konst(&t2).c();
                    self.expp(')');
                    let r = match w.as_str() {
                        "sub" => a.wrapping_sub(b),
                        "add" => a.wrapping_add(b),
                        "mul" => a.wrapping_mul(b),
                        _ => a ^ b,
                    };
                    Val::C(r & mask(t.bits()))
                }
                // newer LLVM float spelling
                _ if w.starts_with("f0x") => Val::C(u128::from_str_radix(&w[3..], 16).expect("float const")),
                _ => panic!("const word {} in {:?}", w, self.t),
            },
            Tok::P('[') => self.agg(']'),
            Tok::P('{') => self.agg('}'),
            Tok::P('<') => {
                if self.eatp('{') {
                    let v = self.agg('}');
                    self.expp('>');
                    v
                } else {
                    self.agg('>')
                }
            }
            t => panic!("const {:?} in {:?}", t, self.t),
        }
    }
    fn agg(&mut self, close: char) -> Val {
        let mut v = Vec::new();
        while !self.eatp(close) {
            let t = self.ty();
            v.push(self.konst(&t));
            self.eatp(',');
        }
        Val::A(v.into())
    }
    fn knum(&self, n: &str, ty: &Ty) -> Val {
        match ty {
            Ty::Int(b) => {
                let n2 = n.trim_start_matches('+');
                if let Some(h) = n2.strip_prefix("u0x") {
                    return Val::C(u128::from_str_radix(h, 16).unwrap() & mask(*b));
                }
                let x = if let Ok(x) = n2.parse::<i128>() { x as u128 } else { n2.parse::<u128>().expect("int const") };
                Val::C(x & mask(*b))
            }
            Ty::F64 => {
                if let Some(h) = n.strip_prefix("0x") {
                    return Val::C(u64::from_str_radix(h, 16).expect("hexf") as u128);
                }
                Val::C(pf(n).to_bits() as u128)
            }
            Ty::F32 => {
                if let Some(h) = n.strip_prefix("0x") {
                    let d = f64::from_bits(u64::from_str_radix(h, 16).unwrap());
                    return Val::C((d as f32).to_bits() as u128);
                }
                Val::C((pf(n) as f32).to_bits() as u128)
            }
            _ => panic!("numeric const {} of type {:?}", n, ty),
        }
    }
}

fn pf(n: &str) -> f64 {
    match n {
        "+inf" => f64::INFINITY,
        "-inf" => f64::NEG_INFINITY,
        "+qnan" | "+nan" | "nan" => f64::NAN,
        "-qnan" | "-nan" => -f64::NAN,
        _ => n.parse().unwrap_or_else(|_| panic!("float const {}", n)),
    }
}

fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "half" | "bfloat" | "metadata" | "token" | "x86_fp80" | "fp128" | "label")
        || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
}
fn is_const_word(w: &str) -> bool {
    matches!(
        w,
        "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "sub" | "add" | "xor" | "mul" | "ptrtoaddr"
    )
}

pub fn mask(b: u32) -> u128 {
    if b >= 128 {
        u128::MAX
    } else {
        (1u128 << b) - 1
    }
}
pub fn sx(v: u128, b: u32) -> i128 {
    if b >= 128 {
        return v as i128;
    }
    let v = v & mask(b);
    if b > 0 && (v >> (b - 1)) & 1 == 1 {
        (v | !mask(b)) as i128
    } else {
        v as i128
    }
}
pub fn zero(ty: &Ty) -> Val {
    match ty {
        Ty::Arr(n, t) | Ty::Vector(n, t) => Val::A(vec![zero(t); *n as usize].into()),
        Ty::Struct(f, _) => Val::A(f.iter().map(zero).collect::<Vec<_>>().into()),
        _ => Val::C(0),
    }
}

fn gname(s: &str) -> (String, usize) {
    // s starts with '@' or '%'
    let b = s.as_bytes();
    if b[1] == b'"' {
        let j = s[2..].find('"').unwrap() + 2;
        (String::from_utf8(unquote(&s[2..j])).unwrap(), j + 1)
    } else {
        let mut j = 1;
        while j < b.len() && isid(b[j]) {
            j += 1;
        }
        (s[1..j].to_string(), j)
    }
}

struct NoAddr;
impl Addrs for NoAddr {
    fn sym_addr(&self, _: &str) -> u64 {
        0
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).unwrap_or_else(|e| panic!("cannot read {}: {}", path, e));
        let text = String::from_utf8_lossy(&text).into_owned();
        let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        let mut m = Module { lines: vec![], types: HashMap::new(), syms: vec![], by_name: HashMap::new(), funcs: RefCell::new(vec![]) };
        // types may refer to each other; iterate
        let mut pend: Vec<(String, String)> = Vec::new();
        for l in lines.iter() {
            if l.starts_with('%') {
                if let Some(p) = l.find(" = type ") {
                    let (n, _) = gname(l);
                    pend.push((n, l[p + 8..].to_string()));
                }
            }
        }
        for _ in 0..20 {
            for (n, d) in &pend {
                if d.starts_with("opaque") {
                    m.types.insert(n.clone(), Ty::Other);
                    continue;
                }
                let t = {
                    let mut p = P { t: tokenize(d), i: 0, m: &m, addrs: &NoAddr, regs: HashMap::new() };
                    p.ty()
                };
                m.types.insert(n.clone(), t);
            }
            if pend.is_empty() {
                break;
            }
        }
        let mut i = 0;
        while i < lines.len() {
            let l = &lines[i];
            if l.starts_with("define ") {
                let at = l.find('@').unwrap();
                let (n, _) = gname(&l[at..]);
                let s = i;
                while lines[i] != "}" {
                    i += 1;
                }
                m.add(n, SymKind::Func { start: s, end: i });
            } else if l.starts_with("declare ") {
                let at = l.find('@').unwrap();
                let (n, _) = gname(&l[at..]);
                m.add(n, SymKind::Decl);
            } else if l.starts_with('@') {
                let (n, j) = gname(l);
                let rest = &l[j..];
                let head: String = rest.chars().take(200).collect();
                if head.contains(" alias ") && head.find(" alias ").unwrap() < 80 && !head.contains(" constant ") && !head.contains(" global ") {
                    let at = rest.rfind('@').unwrap();
                    let (t, _) = gname(&rest[at..]);
                    m.add(n, SymKind::Alias { target: t });
                } else if head.contains("external") && !head.contains("external_weak") && head.contains(" global ") {
                    m.add(n, SymKind::Decl);
                } else {
                    let k = head.find(" constant ").unwrap_or(usize::MAX);
                    let g = head.find(" global ").unwrap_or(usize::MAX);
                    m.add(n, SymKind::Global { line: i, constant: k < g, tls: head[..k.min(g).min(head.len())].contains("thread_local") });
                }
            }
            i += 1;
        }
        m.lines = lines;
        let n = m.syms.len();
        m.funcs = RefCell::new(vec![None; n]);
        m
    }
    fn add(&mut self, name: String, kind: SymKind) {
        let id = self.syms.len() as u32;
        self.by_name.insert(name.clone(), id);
        self.syms.push(Sym { name, kind });
    }
    pub fn resolve(&self, name: &str) -> u32 {
        let mut id = *self.by_name.get(name).unwrap_or_else(|| panic!("unknown symbol {}", name));
        while let SymKind::Alias { target } = &self.syms[id as usize].kind {
            id = self.by_name[target];
        }
        id
    }
    /// type and initial value of a global
    pub fn global_init(&self, id: u32, addrs: &dyn Addrs) -> (Ty, Val, u64) {
        let line = match &self.syms[id as usize].kind {
            SymKind::Global { line, .. } => *line,
            _ => panic!("not a global"),
        };
        let l = &self.lines[line];
        let k = l.find(" constant ").map(|x| x + 10).unwrap_or(usize::MAX);
        let g = l.find(" global ").map(|x| x + 8).unwrap_or(usize::MAX);
        let s = &l[k.min(g)..];
        let mut p = P { t: tokenize(s), i: 0, m: self, addrs, regs: HashMap::new() };
        let ty = p.ty();
        if p.peek().is_none() || p.isp(',') || matches!(p.peek(), Some(Tok::Meta)) {
            let z = zero(&ty);
            return (ty, z, 16);
        }
        let v = p.konst(&ty);
        (ty, v, 16)
    }
    pub fn func(&self, id: u32, addrs: &dyn Addrs) -> Rc<Func> {
        if let Some(f) = &self.funcs.borrow()[id as usize] {
            return f.clone();
        }
        let f = Rc::new(self.parse_func(id, addrs));
        self.funcs.borrow_mut()[id as usize] = Some(f.clone());
        f
    }
    fn parse_func(&self, id: u32, addrs: &dyn Addrs) -> Func {
        let (start, end) = match &self.syms[id as usize].kind {
            SymKind::Func { start, end } => (*start, *end),
            _ => panic!("no body for {}", self.syms[id as usize].name),
        };
        let mut p = P { t: vec![], i: 0, m: self, addrs, regs: HashMap::new() };
        // header: parameters
        let hl = &self.lines[start];
        let at = hl.find('@').unwrap();
        let (_, j) = gname(&hl[at..]);
        p.t = tokenize(&hl[at + j..]);
        p.expp('(');
        let mut nparams = 0;
        let mut auton = 0u64;
        while !p.eatp(')') {
            if p.peek() == Some(&Tok::DotDotDot) {
                p.i += 1;
                continue;
            }
            let ty = p.ty();
            let _ = ty;
            p.skip_arg_attrs();
            if let Some(Tok::L(n)) = p.peek().cloned() {
                p.i += 1;
                let r = p.reg(&n);
                assert_eq!(r as usize, nparams);
                if n.parse::<u64>().is_ok() {
                    auton = n.parse::<u64>().unwrap() + 1;
                }
            } else {
                let n = format!("{}", auton);
                auton += 1;
                p.reg(&n);
            }
            nparams += 1;
            p.eatp(',');
        }
        // logical lines
        let mut logical: Vec<String> = Vec::new();
        for l in &self.lines[start + 1..end] {
            if l.is_empty() {
                continue;
            }
            let cont = l.starts_with("   ") || l.starts_with("  ]");
            if cont {
                let k = logical.len() - 1;
                logical[k].push(' ');
                logical[k].push_str(l);
            } else {
                logical.push(l.clone());
            }
        }
        // block names
        let mut bnames: HashMap<String, u32> = HashMap::new();
        let mut nb = 0;
        if logical.is_empty() || logical[0].starts_with(' ') {
            bnames.insert(format!("{}", auton), 0);
            nb = 1;
        }
        let label = |l: &String| -> Option<String> {
            if l.starts_with(' ') || l.starts_with(';') {
                return None;
            }
            let s = if l.starts_with('"') {
                let e = l[1..].find('"').unwrap() + 1;
                l[1..e].to_string()
            } else {
                l[..l.find(':')?].to_string()
            };
            Some(s)
        };
        for l in &logical {
            if let Some(n) = label(l) {
                bnames.insert(n, nb);
                nb += 1;
            }
        }
        let mut blocks: Vec<Block> = Vec::new();
        if logical[0].starts_with(' ') {
            blocks.push(Block { phis: vec![], insts: vec![] });
        }
        for l in &logical {
            if l.starts_with(';') {
                continue;
            }
            if label(l).is_some() {
                blocks.push(Block { phis: vec![], insts: vec![] });
                continue;
            }
            p.t = tokenize(l);
            p.i = 0;
            if p.t.is_empty() {
                continue;
            }
            let b = blocks.last_mut().unwrap();
            // an instruction the parser does not know makes the paths through it unsupported
            let (ni, np) = (b.insts.len(), b.phis.len());
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| parse_inst(&mut p, b, &bnames)));
            if r.is_err() {
                b.insts.truncate(ni);
                b.phis.truncate(np);
                b.insts.push(Inst { dst: None, op: Ins::Unsupported(format!("instruction {}", l.trim())) });
            }
        }
        Func { sym: id, nregs: p.regs.len(), nparams, blocks }
    }
}

fn lbl(p: &mut P, b: &HashMap<String, u32>) -> u32 {
    assert!(p.eatw("label"), "label {:?}", p.t);
    match p.next() {
        Tok::L(n) => *b.get(&n).unwrap_or_else(|| panic!("label {}", n)),
        t => panic!("label {:?}", t),
    }
}

fn parse_call(p: &mut P) -> (Callee, Vec<(Ty, Opd)>, Ty, Option<String>) {
    p.skip_to_type();
    let rty = p.ty();
    let callee;
    match p.next() {
        Tok::G(n) => {
            if let Some(_) = p.m.by_name.get(&n) {
                callee = Callee::Sym(p.m.resolve(&n));
            } else {
                panic!("callee {}", n)
            }
        }
        Tok::L(n) => {
            let r = p.reg(&n);
            callee = Callee::Ind(Opd::R(r));
        }
        Tok::W(w) if w == "asm" => {
            // inline asm: treat as unsupported unless empty/black-box
            let desc = format!("asm {:?}", p.t);
            return (Callee::Ind(Opd::K(Val::C(0))), vec![], rty, Some(desc));
        }
        t => panic!("callee {:?} in {:?}", t, p.t),
    }
    p.expp('(');
    let mut args = Vec::new();
    while !p.eatp(')') {
        args.push(p.targ());
        p.eatp(',');
    }
    (callee, args, rty, None)
}

fn parse_inst(p: &mut P, b: &mut Block, bn: &HashMap<String, u32>) {
    let mut dst = None;
    if let Some(Tok::L(n)) = p.peek().cloned() {
        if p.t.get(1) == Some(&Tok::P('=')) {
            p.i = 2;
            dst = Some(p.reg(&n));
        }
    }
    let w = match p.next() {
        Tok::W(w) => w,
        t => panic!("inst {:?} in {:?}", t, p.t),
    };
    let flags = |p: &mut P| loop {
        match p.peek() {
            Some(Tok::W(w))
                if matches!(
                    w.as_str(),
                    "nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "inbounds" | "nusw" | "nneg" | "samesign" | "volatile"
                ) =>
            {
                p.i += 1;
            }
            Some(Tok::W(w)) if w == "inrange" => {
                p.i += 1;
                p.skip_parens();
            }
            _ => break,
        }
    };
    let op = match w.as_str() {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            flags(p);
            let ty = p.ty();
            let a = p.opd(&ty);
            p.expp(',');
            let c = p.opd(&ty);
            let o = match w.as_str() {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                "mul" => Bin::Mul,
                "udiv" => Bin::UDiv,
                "sdiv" => Bin::SDiv,
                "urem" => Bin::URem,
                "srem" => Bin::SRem,
                "shl" => Bin::Shl,
                "lshr" => Bin::LShr,
                "ashr" => Bin::AShr,
                "and" => Bin::And,
                "or" => Bin::Or,
                "xor" => Bin::Xor,
                "fadd" => Bin::FAdd,
                "fsub" => Bin::FSub,
                "fmul" => Bin::FMul,
                "fdiv" => Bin::FDiv,
                _ => Bin::FRem,
            };
            Ins::Bin(o, ty, a, c)
        }
        "fneg" => {
            flags(p);
            let ty = p.ty();
            let a = p.opd(&ty);
            Ins::FNeg(ty, a)
        }
        "icmp" => {
            flags(p);
            let pr = match p.next() {
                Tok::W(w) => match w.as_str() {
                    "eq" => IPred::Eq,
                    "ne" => IPred::Ne,
                    "ugt" => IPred::Ugt,
                    "uge" => IPred::Uge,
                    "ult" => IPred::Ult,
                    "ule" => IPred::Ule,
                    "sgt" => IPred::Sgt,
                    "sge" => IPred::Sge,
                    "slt" => IPred::Slt,
                    "sle" => IPred::Sle,
                    x => panic!("icmp {}", x),
                },
                t => panic!("icmp {:?}", t),
            };
            flags(p);
            let ty = p.ty();
            let a = p.opd(&ty);
            p.expp(',');
            let c = p.opd(&ty);
            Ins::ICmp(pr, ty, a, c)
        }
        "fcmp" => {
            flags(p);
            let pr = match p.next() {
                Tok::W(w) => match w.as_str() {
                    "false" => FPred::False,
                    "oeq" => FPred::Oeq,
                    "ogt" => FPred::Ogt,
                    "oge" => FPred::Oge,
                    "olt" => FPred::Olt,
                    "ole" => FPred::Ole,
                    "one" => FPred::One,
                    "ord" => FPred::Ord,
                    "ueq" => FPred::Ueq,
                    "ugt" => FPred::Ugt,
                    "uge" => FPred::Uge,
                    "ult" => FPred::Ult,
                    "ule" => FPred::Ule,
                    "une" => FPred::Une,
                    "uno" => FPred::Uno,
                    "true" => FPred::True,
                    x => panic!("fcmp {}", x),
                },
                t => panic!("fcmp {:?}", t),
            };
            let ty = p.ty();
            let a = p.opd(&ty);
            p.expp(',');
            let c = p.opd(&ty);
            Ins::FCmp(pr, ty, a, c)
        }
        "select" => {
            flags(p);
            let ct = p.ty();
            let c = p.opd(&ct);
            p.expp(',');
            let t1 = p.ty();
            let a = p.opd(&t1);
            p.expp(',');
            let t2 = p.ty();
            let e = p.opd(&t2);
            Ins::Select(t1, c, a, e, matches!(ct, Ty::Vector(..)))
        }
        "load" => {
            let mut at = false;
            while p.isw("atomic") || p.isw("volatile") {
                if p.isw("atomic") {
                    at = true;
                }
                p.i += 1;
            }
            let ty = p.ty();
            p.expp(',');
            let pt = p.ty();
            let a = p.opd(&pt);
            Ins::Load(ty, a, at)
        }
        "store" => {
            let mut at = false;
            while p.isw("atomic") || p.isw("volatile") {
                if p.isw("atomic") {
                    at = true;
                }
                p.i += 1;
            }
            let ty = p.ty();
            let v = p.opd(&ty);
            p.expp(',');
            let pt = p.ty();
            let a = p.opd(&pt);
            Ins::Store(ty, v, a, at)
        }
        "alloca" => {
            let ty = p.ty();
            let mut n = 1u64;
            if p.isp(',') && p.t.get(p.i + 1).map_or(false, |t| matches!(t, Tok::W(w) if is_type_word(w))) {
                p.i += 1;
                let t = p.ty();
                match p.opd(&t) {
                    Opd::K(v) => n = v.c() as u64,
                    _ => panic!("dynamic alloca"),
                }
            }
            Ins::Alloca(ty.size() * n)
        }
        "getelementptr" => {
            flags(p);
            let sty = p.ty();
            p.expp(',');
            let pt = p.ty();
            if matches!(pt, Ty::Vector(..)) {
                b.insts.push(Inst { dst, op: Ins::Unsupported("vector gep".into()) });
                return;
            }
            let base = p.opd(&pt);
            let mut off = 0i64;
            let mut dynx = Vec::new();
            let mut cur = sty;
            let mut first = true;
            while p.isp(',') && !matches!(p.t.get(p.i + 1), Some(Tok::Meta)) {
                p.i += 1;
                let it = p.ty();
                let k = p.opd(&it);
                if first {
                    first = false;
                    let s = cur.size() as i64;
                    match k {
                        Opd::K(v) => off += sx(v.c(), it.bits()) as i64 * s,
                        r => dynx.push((r, it.bits(), s)),
                    }
                } else {
                    match &cur {
                        Ty::Struct(..) => {
                            let kk = match k {
                                Opd::K(v) => v.c() as usize,
                                _ => panic!("gep struct idx"),
                            };
                            off += cur.field_off(kk) as i64;
                            cur = cur.elem(kk);
                        }
                        _ => {
                            let e = cur.elem(0);
                            let s = e.size() as i64;
                            match k {
                                Opd::K(v) => off += sx(v.c(), it.bits()) as i64 * s,
                                r => dynx.push((r, it.bits(), s)),
                            }
                            cur = e;
                        }
                    }
                }
            }
            Ins::Gep(base, off, dynx)
        }
        "trunc" | "zext" | "sext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
            flags(p);
            let t1 = p.ty();
            let a = p.opd(&t1);
            assert!(p.eatw("to"));
            let t2 = p.ty();
            let c = match w.as_str() {
                "trunc" => Cast::Trunc,
                "zext" => Cast::Zext,
                "sext" => Cast::Sext,
                "fptoui" => Cast::FpToUi,
                "fptosi" => Cast::FpToSi,
                "uitofp" => Cast::UiToFp,
                "sitofp" => Cast::SiToFp,
                "fptrunc" => Cast::FpTrunc,
                "fpext" => Cast::FpExt,
                "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt,
                "inttoptr" => Cast::IntToPtr,
                _ => Cast::Bitcast,
            };
            Ins::Cast(c, t1, a, t2)
        }
        "tail" | "musttail" | "notail" | "call" => {
            if w != "call" {
                assert!(p.eatw("call"));
            }
            let (c, a, t, asm) = parse_call(p);
            match asm {
                Some(d) => {
                    if t == Ty::Void {
                        Ins::Fence
                    } else {
                        Ins::Unsupported(d)
                    }
                }
                None => Ins::Call(c, a, t),
            }
        }
        "invoke" => {
            let (c, a, t, asm) = parse_call(p);
            assert!(asm.is_none());
            while !p.isw("to") {
                p.i += 1;
            }
            p.i += 1;
            let n = lbl(p, bn);
            assert!(p.eatw("unwind"));
            let u = lbl(p, bn);
            Ins::Invoke(c, a, t, n, u)
        }
        "extractvalue" => {
            let t = p.ty();
            let a = p.opd(&t);
            let mut ix = vec![];
            while p.eatp(',') {
                if matches!(p.peek(), Some(Tok::Meta)) {
                    break;
                }
                ix.push(p.num() as usize);
            }
            Ins::ExtractValue(a, ix)
        }
        "insertvalue" => {
            let t = p.ty();
            let a = p.opd(&t);
            p.expp(',');
            let t2 = p.ty();
            let v = p.opd(&t2);
            let mut ix = vec![];
            while p.eatp(',') {
                if matches!(p.peek(), Some(Tok::Meta)) {
                    break;
                }
                ix.push(p.num() as usize);
            }
            Ins::InsertValue(t, a, v, ix)
        }
        "extractelement" => {
            let t = p.ty();
            let a = p.opd(&t);
            p.expp(',');
            let t2 = p.ty();
            let k = p.opd(&t2);
            Ins::ExtractElem(a, k)
        }
        "insertelement" => {
            let t = p.ty();
            let a = p.opd(&t);
            p.expp(',');
            let t2 = p.ty();
            let v = p.opd(&t2);
            p.expp(',');
            let t3 = p.ty();
            let k = p.opd(&t3);
            Ins::InsertElem(a, v, k)
        }
        "shufflevector" => {
            let t = p.ty();
            let a = p.opd(&t);
            p.expp(',');
            let t2 = p.ty();
            let c = p.opd(&t2);
            p.expp(',');
            let t3 = p.ty();
            let k = match p.opd(&t3) {
                Opd::K(Val::A(v)) => v.iter().map(|x| sx(x.c(), 32) as i64).collect(),
                _ => panic!("shuffle mask"),
            };
            Ins::Shuffle(a, c, k)
        }
        "freeze" => {
            let t = p.ty();
            let a = p.opd(&t);
            Ins::Freeze(a)
        }
        "cmpxchg" => {
            while p.isw("weak") || p.isw("volatile") {
                p.i += 1;
            }
            let pt = p.ty();
            let a = p.opd(&pt);
            p.expp(',');
            let t = p.ty();
            let c = p.opd(&t);
            p.expp(',');
            let t2 = p.ty();
            let n = p.opd(&t2);
            Ins::CmpXchg(t, a, c, n)
        }
        "atomicrmw" => {
            p.eatw("volatile");
            let o = match p.next() {
                Tok::W(w) => w,
                t => panic!("rmw {:?}", t),
            };
            let pt = p.ty();
            let a = p.opd(&pt);
            p.expp(',');
            let t = p.ty();
            let v = p.opd(&t);
            Ins::AtomicRmw(o, t, a, v)
        }
        "fence" => Ins::Fence,
        "landingpad" => Ins::LandingPad,
        "resume" => Ins::Resume,
        "unreachable" => Ins::Unreachable,
        "ret" => {
            let t = p.ty();
            if t == Ty::Void {
                Ins::Ret(None)
            } else {
                let o = p.opd(&t);
                Ins::Ret(Some(o))
            }
        }
        "br" => {
            if p.isw("label") {
                Ins::Br(lbl(p, bn))
            } else {
                let t = p.ty();
                let c = p.opd(&t);
                p.expp(',');
                let a = lbl(p, bn);
                p.expp(',');
                let e = lbl(p, bn);
                Ins::CondBr(c, a, e)
            }
        }
        "switch" => {
            let t = p.ty();
            let v = p.opd(&t);
            p.expp(',');
            let d = lbl(p, bn);
            p.expp('[');
            let mut cs = vec![];
            while !p.eatp(']') {
                let t = p.ty();
                let k = p.konst(&t).c();
                p.expp(',');
                cs.push((k, lbl(p, bn)));
            }
            Ins::Switch(t, v, d, cs)
        }
        "phi" => {
            flags(p);
            let t = p.ty();
            let mut v = vec![];
            while p.eatp('[') {
                let o = p.opd(&t);
                p.expp(',');
                let n = match p.next() {
                    Tok::L(n) => bn[&n],
                    t => panic!("phi {:?}", t),
                };
                p.expp(']');
                v.push((n, o));
                if !p.eatp(',') || !p.isp('[') {
                    break;
                }
            }
            b.phis.push((dst.unwrap(), v));
            return;
        }
        x => Ins::Unsupported(x.to_string()),
    };
    b.insts.push(Inst { dst, op });
}
