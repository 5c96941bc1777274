//! Parser for textual LLVM IR as printed by rustc's LLVM (opaque pointers).
//! Bodies are parsed lazily, when a function is first called.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Half,
    Arr(u64, Rc<Ty>),
    Vec(u32, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Meta,
    Label,
    Other(String),
}

pub fn align_up(x: u64, a: u64) -> u64 {
    x.div_ceil(a) * a
}

impl Ty {
    /// bit width of a scalar
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float => 32,
            Ty::Double => 64,
            Ty::Half => 16,
            Ty::Vec(n, t) => n * t.bits(),
            _ => panic!("bits of {self:?}"),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double | Ty::Half)
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = w.div_ceil(8) as u64;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Half => 2,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => {
                let b = (*n as u64 * t.bits() as u64).div_ceil(8);
                b.next_power_of_two()
            }
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => w.div_ceil(8) as u64,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64).div_ceil(8),
            _ => self.size(),
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) | Ty::Vec(..) => align_up(self.store_size(), self.align()),
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Half => 2,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for f in fs.iter() {
                    if !*packed {
                        o = align_up(o, f.align());
                    }
                    o += f.size();
                }
                if *packed { o } else { align_up(o, self.align()) }
            }
            Ty::Void => 0,
            _ => panic!("size of {self:?}"),
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !*packed {
                        o = align_up(o, f.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += f.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_offset of {self:?}"),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(fs, _) => fs[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of {self:?}"),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(fs, _) => fs.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => panic!("count of {self:?}"),
        }
    }
}

macro_rules! strenum {
    ($n:ident { $($v:ident = $s:literal),* $(,)? }) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        pub enum $n { $($v),* }
        impl $n {
            pub fn parse(s: &str) -> $n {
                match s { $($s => $n::$v,)* _ => panic!("IR parse: operator {s}") }
            }
        }
    };
}
strenum!(BOp { Add = "add", Sub = "sub", Mul = "mul", UDiv = "udiv", SDiv = "sdiv", URem = "urem",
    SRem = "srem", Shl = "shl", LShr = "lshr", AShr = "ashr", And = "and", Or = "or", Xor = "xor",
    FAdd = "fadd", FSub = "fsub", FMul = "fmul", FDiv = "fdiv", FRem = "frem" });
strenum!(Pred { Eq = "eq", Ne = "ne", Ugt = "ugt", Uge = "uge", Ult = "ult", Ule = "ule",
    Sgt = "sgt", Sge = "sge", Slt = "slt", Sle = "sle" });
strenum!(FPred { False = "false", Oeq = "oeq", Ogt = "ogt", Oge = "oge", Olt = "olt", Ole = "ole",
    One = "one", Ord = "ord", Ueq = "ueq", Ugt = "ugt", Uge = "uge", Ult = "ult", Ule = "ule",
    Une = "une", Uno = "uno", True = "true" });
strenum!(COp { Trunc = "trunc", ZExt = "zext", SExt = "sext", FpToUi = "fptoui", FpToSi = "fptosi",
    UiToFp = "uitofp", SiToFp = "sitofp", FpTrunc = "fptrunc", FpExt = "fpext",
    PtrToInt = "ptrtoint", IntToPtr = "inttoptr", BitCast = "bitcast",
    AddrSpaceCast = "addrspacecast", PtrToAddr = "ptrtoaddr" });

/// A constant or operand as written.
#[derive(Debug, Clone)]
pub enum Val {
    Local(u32),
    Int(u128),
    Zero,
    Undef,
    Bytes(Rc<Vec<u8>>),
    Agg(Rc<Vec<(Ty, Val)>>),
    Splat(Rc<(Ty, Val)>),
    Global(Rc<str>),
    Gep(Rc<(Ty, Val, Vec<(Ty, Val)>)>),
    /// constant cast / arithmetic
    Cast(Rc<(COp, Ty, Val, Ty)>),
    Bin(Rc<(BOp, Ty, Val, Val)>),
    Asm,
    Meta,
}

#[derive(Debug, Clone)]
pub struct Arg {
    pub ty: Ty,
    pub val: Val,
}

#[derive(Debug, Clone)]
pub enum Ins {
    Bin { op: BOp, ty: Ty, a: Val, b: Val },
    FNeg { ty: Ty, a: Val },
    ICmp { pred: Pred, ty: Ty, a: Val, b: Val },
    FCmp { pred: FPred, ty: Ty, a: Val, b: Val },
    Select { cty: Ty, c: Val, ty: Ty, a: Val, b: Val },
    Cast { op: COp, from: Ty, v: Val, to: Ty },
    Load { ty: Ty, p: Val },
    Store { ty: Ty, v: Val, p: Val },
    Gep { ty: Ty, base: Val, bty: Ty, idx: Vec<(Ty, Val)> },
    Alloca { ty: Ty, n: Option<(Ty, Val)>, align: u64 },
    Call { rty: Ty, callee: Val, args: Vec<Arg> },
    Phi { ty: Ty, inc: Vec<(Val, u32)> },
    Br(u32),
    CondBr(Val, u32, u32),
    Switch { ty: Ty, v: Val, default: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(Ty, Val)>),
    Unreachable,
    ExtractValue { ty: Ty, v: Val, idx: Vec<u32> },
    InsertValue { ty: Ty, v: Val, ety: Ty, e: Val, idx: Vec<u32> },
    ExtractElement { ty: Ty, v: Val, ity: Ty, i: Val },
    InsertElement { ty: Ty, v: Val, e: Val, ity: Ty, i: Val },
    Shuffle { ty: Ty, a: Val, b: Val, mty: Ty, mask: Val },
    Freeze { ty: Ty, v: Val },
    AtomicRmw { op: String, p: Val, ty: Ty, v: Val },
    CmpXchg { p: Val, ty: Ty, cmp: Val, new: Val },
    Fence,
}

#[derive(Debug)]
pub struct Block {
    pub ins: Vec<(Option<u32>, Ins)>,
}

pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<(Ty, u32)>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub nregs: u32,
    pub cfg: std::cell::OnceCell<crate::cfg::Cfg>,
}

pub struct GlobalDef {
    pub line: (usize, usize),
    pub constant: bool,
    pub external: bool,
}

pub struct Module {
    pub src: Rc<String>,
    pub funcs: HashMap<Rc<str>, (usize, usize)>,
    pub globals: HashMap<Rc<str>, GlobalDef>,
    pub aliases: HashMap<Rc<str>, Rc<str>>,
    pub types: HashMap<String, Ty>,
    pub decls: HashMap<Rc<str>, ()>,
}

// ---------------------------------------------------------------- lexer

#[derive(Debug, Clone, PartialEq)]
pub enum Tok<'a> {
    Local(&'a str),
    Global(&'a str),
    Word(&'a str),
    Num(&'a str),
    Str(&'a str),
    CStr(&'a str),
    Meta(&'a str),
    Attr(&'a str),
    P(u8),
    Dots,
    Eof,
}

pub struct Lex<'a> {
    s: &'a str,
    b: &'a [u8],
    pub i: usize,
    peeked: Option<(Tok<'a>, usize)>,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Self {
        Lex { s, b: s.as_bytes(), i: 0, peeked: None }
    }
    fn raw(&mut self) -> Tok<'a> {
        let b = self.b;
        loop {
            while self.i < b.len() && (b[self.i] as char).is_ascii_whitespace() {
                self.i += 1;
            }
            if self.i < b.len() && b[self.i] == b';' {
                while self.i < b.len() && b[self.i] != b'\n' {
                    self.i += 1;
                }
                continue;
            }
            if b[self.i..].starts_with(b"/*") {
                while self.i < b.len() && !b[self.i..].starts_with(b"*/") {
                    self.i += 1;
                }
                self.i += 2;
                continue;
            }
            break;
        }
        if self.i >= b.len() {
            return Tok::Eof;
        }
        let c = b[self.i];
        let st = self.i;
        match c {
            b'%' | b'@' => {
                self.i += 1;
                let name;
                if b[self.i] == b'"' {
                    self.i += 1;
                    let n0 = self.i;
                    while b[self.i] != b'"' {
                        self.i += 1;
                    }
                    name = &self.s[n0..self.i];
                    self.i += 1;
                } else {
                    let n0 = self.i;
                    while self.i < b.len() && is_word(b[self.i]) {
                        self.i += 1;
                    }
                    name = &self.s[n0..self.i];
                }
                if c == b'%' { Tok::Local(name) } else { Tok::Global(name) }
            }
            b'"' => {
                self.i += 1;
                while b[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                Tok::Str(&self.s[st + 1..self.i - 1])
            }
            b'c' if b.get(self.i + 1) == Some(&b'"') => {
                self.i += 2;
                while b[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                Tok::CStr(&self.s[st + 2..self.i - 1])
            }
            b'!' => {
                self.i += 1;
                while self.i < b.len() && is_word(b[self.i]) {
                    self.i += 1;
                }
                Tok::Meta(&self.s[st..self.i])
            }
            b'#' => {
                self.i += 1;
                while self.i < b.len() && is_word(b[self.i]) {
                    self.i += 1;
                }
                Tok::Attr(&self.s[st..self.i])
            }
            b'.' if self.s[self.i..].starts_with("...") => {
                self.i += 3;
                Tok::Dots
            }
            b'0'..=b'9' | b'-' | b'+' => {
                self.i += 1;
                while self.i < b.len()
                    && (b[self.i].is_ascii_alphanumeric()
                        || b[self.i] == b'.'
                        || ((b[self.i] == b'+' || b[self.i] == b'-')
                            && (b[self.i - 1] == b'e' || b[self.i - 1] == b'E')
                            && !self.s[st..].starts_with("0x")))
                {
                    self.i += 1;
                }
                Tok::Num(&self.s[st..self.i])
            }
            c if is_word(c) => {
                while self.i < b.len() && is_word(b[self.i]) {
                    self.i += 1;
                }
                Tok::Word(&self.s[st..self.i])
            }
            _ => {
                self.i += 1;
                Tok::P(c)
            }
        }
    }
    pub fn peek(&mut self) -> Tok<'a> {
        if self.peeked.is_none() {
            let st = self.i;
            let t = self.raw();
            self.peeked = Some((t, st));
        }
        self.peeked.as_ref().unwrap().0.clone()
    }
    pub fn next(&mut self) -> Tok<'a> {
        if let Some((t, _)) = self.peeked.take() {
            return t;
        }
        self.raw()
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == Tok::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        let t = self.next();
        if t != Tok::P(c) {
            panic!("IR parse: expected {:?} got {:?} near {:?}", c as char, t, self.ctx());
        }
    }
    fn ctx(&self) -> &str {
        let a = self.i.saturating_sub(200);
        let z = (self.i + 60).min(self.s.len());
        self.s.get(a..z).unwrap_or("?")
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek() == Tok::Word(w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => d -= 1,
                Tok::Eof => panic!("IR parse: eof in parens"),
                _ => {}
            }
        }
    }
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b.get(i + 1) == Some(&b'\\') {
                out.push(b'\\');
                i += 2;
            } else {
                out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

const BINOPS: &[&str] = &[
    "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
    "fadd", "fsub", "fmul", "fdiv", "frem",
];
const CASTS: &[&str] = &[
    "trunc", "zext", "sext", "fptoui", "fptosi", "uitofp", "sitofp", "fptrunc", "fpext",
    "ptrtoint", "inttoptr", "bitcast", "addrspacecast", "ptrtoaddr",
];

pub struct FnCtx {
    names: HashMap<String, u32>,
    pub n: u32,
}
impl FnCtx {
    fn get(&mut self, s: &str) -> u32 {
        if let Some(&x) = self.names.get(s) {
            return x;
        }
        let x = self.n;
        self.n += 1;
        self.names.insert(s.to_string(), x);
        x
    }
}

pub fn parse_float(s: &str, ty: &Ty) -> u128 {
    // hex forms: 0xH (half) 0xR.. ; "0x" = double bits; decimal
    if let Some(h) = s.strip_prefix("0xH") {
        return u128::from_str_radix(h, 16).unwrap();
    }
    if let Some(h) = s.strip_prefix("f0x").or_else(|| s.strip_prefix("0xR")) {
        return u128::from_str_radix(h, 16).unwrap();
    }
    if let Some(h) = s.strip_prefix("0x") {
        let bits = u64::from_str_radix(h, 16).unwrap();
        return match ty {
            Ty::Float => (f64::from_bits(bits) as f32).to_bits() as u128,
            _ => bits as u128,
        };
    }
    let f: f64 = match s {
        "inf" | "+inf" => f64::INFINITY,
        "-inf" => f64::NEG_INFINITY,
        "nan" | "+nan" | "+qnan" | "qnan" => f64::NAN,
        _ => s.parse().unwrap_or_else(|_| panic!("IR parse: float {s}")),
    };
    match ty {
        Ty::Float => (f as f32).to_bits() as u128,
        Ty::Double => f.to_bits() as u128,
        _ => panic!("IR parse: float const {s} of {ty:?}"),
    }
}

impl Module {
    pub fn load(src: String) -> Module {
        let src = Rc::new(src);
        let mut m = Module {
            src: src.clone(),
            funcs: HashMap::new(),
            globals: HashMap::new(),
            aliases: HashMap::new(),
            types: HashMap::new(),
            decls: HashMap::new(),
        };
        let b = src.as_bytes();
        let mut i = 0;
        let mut pending_types = vec![];
        while i < b.len() {
            let e = b[i..].iter().position(|&c| c == b'\n').map(|p| i + p).unwrap_or(b.len());
            let line = &src[i..e];
            if line.starts_with("define ") {
                // body ends at a line that is exactly "}"
                let rest = &src[i..];
                let end = rest.find("\n}\n").map(|p| i + p + 2).unwrap_or(b.len());
                let name = global_name(line);
                m.funcs.insert(name.into(), (i, end));
                i = end + 1;
                continue;
            } else if line.starts_with("declare ") {
                m.decls.insert(global_name(line).into(), ());
            } else if line.starts_with('@') {
                let name = global_name(line);
                let eq = line.find(" = ").unwrap();
                let rest = &line[eq + 3..];
                let words: Vec<&str> = rest.split(' ').take(12).collect();
                if words.contains(&"alias") {
                    // @a = ... alias ty, ptr @b
                    let t = rest.rfind("ptr @").unwrap();
                    m.aliases.insert(name.into(), global_name(&rest[t + 4..]).into());
                } else {
                    let mut constant = false;
                    let mut external = false;
                    for w in &words {
                        if *w == "external" || *w == "extern_weak" {
                            external = true;
                        }
                        if *w == "constant" {
                            constant = true;
                            break;
                        }
                        if *w == "global" {
                            break;
                        }
                    }
                    m.globals.insert(name.into(), GlobalDef { line: (i, e), constant, external });
                }
            } else if line.starts_with('%') {
                pending_types.push((i, e));
            }
            i = e + 1;
        }
        for (a, z) in pending_types {
            let mut l = Lex::new(&src[a..z]);
            let Tok::Local(n) = l.next() else { continue };
            l.expect(b'=');
            l.eat_word("type");
            let n = n.to_string();
            let t = m.ty(&mut l);
            m.types.insert(n, t);
        }
        m
    }

    pub fn ty(&self, l: &mut Lex) -> Ty {
        let t = l.next();
        match t {
            Tok::Word(w) => match w {
                "void" => Ty::Void,
                "ptr" => {
                    if l.eat_word("addrspace") {
                        l.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float,
                "double" => Ty::Double,
                "half" => Ty::Half,
                "metadata" => Ty::Meta,
                "label" => Ty::Label,
                _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => {
                    Ty::Int(w[1..].parse().unwrap())
                }
                _ => Ty::Other(w.to_string()),
            },
            Tok::P(b'[') => {
                let Tok::Num(n) = l.next() else { panic!("IR parse: array") };
                l.eat_word("x");
                let e = self.ty(l);
                l.expect(b']');
                Ty::Arr(n.parse().unwrap(), Rc::new(e))
            }
            Tok::P(b'<') => {
                if l.peek() == Tok::P(b'{') {
                    l.next();
                    let mut fs = vec![];
                    while !l.eat(b'}') {
                        fs.push(self.ty(l));
                        l.eat(b',');
                    }
                    l.expect(b'>');
                    return Ty::Struct(Rc::new(fs), true);
                }
                let Tok::Num(n) = l.next() else { panic!("IR parse: vector {}", l.ctx()) };
                l.eat_word("x");
                let e = self.ty(l);
                l.expect(b'>');
                Ty::Vec(n.parse().unwrap(), Rc::new(e))
            }
            Tok::P(b'{') => {
                let mut fs = vec![];
                while !l.eat(b'}') {
                    fs.push(self.ty(l));
                    l.eat(b',');
                }
                Ty::Struct(Rc::new(fs), false)
            }
            Tok::Local(n) => self.types.get(n).cloned().unwrap_or(Ty::Other(n.to_string())),
            t => panic!("IR parse: type {t:?} near {}", l.ctx()),
        }
    }

    /// skip parameter/return attributes
    fn attrs(&self, l: &mut Lex) -> Option<u64> {
        let mut align = None;
        loop {
            match l.peek() {
                Tok::Word(w) => {
                    if matches!(
                        w,
                        "true"
                            | "false"
                            | "null"
                            | "none"
                            | "undef"
                            | "poison"
                            | "zeroinitializer"
                            | "getelementptr"
                            | "splat"
                            | "asm"
                            | "ptr"
                            | "void"
                            | "float"
                            | "double"
                            | "half"
                            | "blockaddress"
                            | "dso_local_equivalent"
                            | "no_cfi"
                            | "x"
                            | "to"
                    ) || CASTS.contains(&w)
                        || BINOPS.contains(&w)
                        || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
                        || w.starts_with("f0x")
                        || matches!(w, "inf" | "nan" | "qnan" | "snan")
                    {
                        return align;
                    }
                    l.next();
                    if w == "align" || w == "allocalign" && false {
                        if l.peek() == Tok::P(b'(') {
                            l.skip_parens();
                        } else if let Tok::Num(n) = l.peek() {
                            l.next();
                            align = n.parse().ok();
                        }
                    } else if l.peek() == Tok::P(b'(') {
                        l.skip_parens();
                    }
                }
                Tok::Attr(_) => {
                    l.next();
                }
                Tok::Str(_) => {
                    l.next();
                    if l.eat(b'=') {
                        l.next();
                    }
                }
                _ => return align,
            }
        }
    }

    pub fn val(&self, l: &mut Lex, ty: &Ty, cx: &mut FnCtx) -> Val {
        match l.next() {
            Tok::Local(n) => Val::Local(cx.get(n)),
            Tok::Global(n) => Val::Global(n.into()),
            Tok::Num(n) => match ty {
                Ty::Float | Ty::Double | Ty::Half => Val::Int(parse_float(n, ty)),
                Ty::Int(w) => {
                    let v: u128 = if let Some(neg) = n.strip_prefix('-') {
                        (neg.parse::<u128>().unwrap()).wrapping_neg()
                    } else if let Some(h) = n.strip_prefix("u0x").or(n.strip_prefix("0x")) {
                        u128::from_str_radix(h, 16).unwrap()
                    } else {
                        match n.parse::<u128>() {
                            Ok(v) => v,
                            Err(_) => panic!("IR parse: int {n} of {ty:?}"),
                        }
                    };
                    Val::Int(if *w >= 128 { v } else { v & ((1u128 << w) - 1) })
                }
                _ => panic!("IR parse: number {n} of {ty:?}: {}", l.ctx()),
            },
            Tok::Word(w) => match w {
                "true" => Val::Int(1),
                "false" => Val::Int(0),
                "null" | "zeroinitializer" | "none" => Val::Zero,
                "undef" | "poison" => Val::Undef,
                "splat" => {
                    l.expect(b'(');
                    let t = self.ty(l);
                    let v = self.val(l, &t, cx);
                    l.expect(b')');
                    Val::Splat(Rc::new((t, v)))
                }
                "getelementptr" => {
                    while let Tok::Word(w) = l.peek() {
                        l.next();
                        if w == "inrange" {
                            l.skip_parens();
                        }
                    }
                    l.expect(b'(');
                    let t = self.ty(l);
                    l.expect(b',');
                    let bt = self.ty(l);
                    let base = self.val(l, &bt, cx);
                    let mut idx = vec![];
                    while l.eat(b',') {
                        let t = self.ty(l);
                        let v = self.val(l, &t, cx);
                        idx.push((t, v));
                    }
                    l.expect(b')');
                    Val::Gep(Rc::new((t, base, idx)))
                }
                "asm" => {
                    while let Tok::Word(_) = l.peek() {
                        l.next();
                    }
                    l.next();
                    l.expect(b',');
                    l.next();
                    Val::Asm
                }
                _ if CASTS.contains(&w) => {
                    let op = COp::parse(w);
                    while let Tok::Word(_) = l.peek() {
                        l.next();
                    }
                    l.expect(b'(');
                    let t = self.ty(l);
                    let v = self.val(l, &t, cx);
                    l.eat_word("to");
                    let to = self.ty(l);
                    l.expect(b')');
                    Val::Cast(Rc::new((op, t, v, to)))
                }
                _ if BINOPS.contains(&w) => {
                    let op = BOp::parse(w);
                    while let Tok::Word(_) = l.peek() {
                        l.next();
                    }
                    l.expect(b'(');
                    let t = self.ty(l);
                    let a = self.val(l, &t, cx);
                    l.expect(b',');
                    let t2 = self.ty(l);
                    let b = self.val(l, &t2, cx);
                    l.expect(b')');
                    Val::Bin(Rc::new((op, t, a, b)))
                }
                _ if w.starts_with("f0x") || matches!(w, "inf" | "nan" | "qnan") => {
                    Val::Int(parse_float(w, ty))
                }
                _ => panic!("IR parse: value word {w} ({ty:?}) near {}", l.ctx()),
            },
            Tok::CStr(s) => Val::Bytes(Rc::new(unescape(s))),
            Tok::P(b'[') => self.agg(l, b']', cx),
            Tok::P(b'{') => self.agg(l, b'}', cx),
            Tok::P(b'<') => {
                if l.peek() == Tok::P(b'{') {
                    l.next();
                    let v = self.agg(l, b'}', cx);
                    l.expect(b'>');
                    v
                } else {
                    self.agg(l, b'>', cx)
                }
            }
            Tok::Meta(_) => {
                // metadata operand
                if l.peek() == Tok::P(b'(') {
                    l.skip_parens();
                }
                Val::Meta
            }
            t => panic!("IR parse: value {t:?} near {}", l.ctx()),
        }
    }
    fn agg(&self, l: &mut Lex, end: u8, cx: &mut FnCtx) -> Val {
        let mut v = vec![];
        while !l.eat(end) {
            let t = self.ty(l);
            let x = self.val(l, &t, cx);
            v.push((t, x));
            l.eat(b',');
        }
        Val::Agg(Rc::new(v))
    }

    /// Parse a global's type and initializer.
    pub fn global(&self, name: &str) -> Option<(Ty, Val, u64)> {
        let g = self.globals.get(name)?;
        let line = &self.src[g.line.0..g.line.1];
        let mut l = Lex::new(line);
        l.next();
        l.expect(b'=');
        loop {
            match l.next() {
                Tok::Word("constant") | Tok::Word("global") => break,
                Tok::P(b'(') => {
                    let mut d = 1;
                    while d > 0 {
                        match l.next() {
                            Tok::P(b'(') => d += 1,
                            Tok::P(b')') => d -= 1,
                            _ => {}
                        }
                    }
                }
                Tok::Eof => panic!("IR parse: global {line}"),
                _ => {}
            }
        }
        let t = self.ty(&mut l);
        let mut cx = FnCtx { names: HashMap::new(), n: 0 };
        let v = if g.external || l.peek() == Tok::Eof || l.peek() == Tok::P(b',') {
            Val::Zero
        } else {
            self.val(&mut l, &t, &mut cx)
        };
        let mut align = t.align();
        if let Some(p) = line.rfind(", align ") {
            let d: String = line[p + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
            if let Ok(a) = d.parse::<u64>() {
                align = align.max(a);
            }
        }
        Some((t, v, align))
    }

    pub fn func(&self, name: &str) -> Option<Func> {
        let (a, z) = *self.funcs.get(name)?;
        let src = self.src.clone();
        let text = &src[a..z];
        let nl = text.find('\n').unwrap();
        let mut l = Lex::new(&text[..nl]);
        let mut cx = FnCtx { names: HashMap::new(), n: 0 };
        // define [linkage...] [attrs] type @name(params) ...
        l.next();
        let ret;
        loop {
            match l.peek() {
                Tok::Word(w)
                    if matches!(
                        w,
                        "internal" | "private" | "external" | "weak" | "weak_odr" | "linkonce"
                            | "linkonce_odr" | "available_externally" | "hidden" | "protected"
                            | "dso_local" | "fastcc" | "coldcc" | "default" | "ccc" | "preserve_mostcc"
                            | "tailcc" | "preserve_nonecc" | "preserve_allcc"
                    ) =>
                {
                    l.next();
                }
                Tok::Word("cc") => {
                    l.next();
                    l.next();
                }
                _ => {
                    self.attrs(&mut l);
                    ret = self.ty(&mut l);
                    break;
                }
            }
        }
        let Tok::Global(nm) = l.next() else { panic!("IR parse: define {}", &text[..nl]) };
        let nm: Rc<str> = nm.into();
        l.expect(b'(');
        let mut params = vec![];
        let mut unnamed = 0u32;
        while !l.eat(b')') {
            if l.peek() == Tok::Dots {
                l.next();
                continue;
            }
            let t = self.ty(&mut l);
            self.attrs(&mut l);
            let r = if let Tok::Local(n) = l.peek() {
                l.next();
                if n.bytes().all(|c| c.is_ascii_digit()) {
                    unnamed += 1;
                }
                cx.get(n)
            } else {
                let n = unnamed.to_string();
                unnamed += 1;
                cx.get(&n)
            };
            params.push((t, r));
            l.eat(b',');
        }
        // body lines: first pass collects block labels
        let body = &text[nl + 1..text.len() - 1];
        let mut labels: HashMap<&str, u32> = HashMap::new();
        let mut spans: Vec<(usize, usize)> = vec![];
        // logical lines (switch spans several lines)
        let mut blocks_lines: Vec<Vec<&str>> = vec![];
        let mut pos = 0;
        let _ = &mut spans;
        while pos < body.len() {
            let e = body[pos..].find('\n').map(|p| pos + p).unwrap_or(body.len());
            let line = &body[pos..e];
            if line.is_empty() || line.trim_start().starts_with(';') || line.trim_start().starts_with('#') {
                pos = e + 1;
                continue;
            }
            if !line.starts_with(' ') {
                // label
                let c = if line.starts_with('"') {
                    line[1..].find('"').unwrap() + 1
                } else {
                    line.find(':').unwrap()
                };
                let name = line[..c].trim_start_matches('"');
                labels.insert(name, blocks_lines.len() as u32);
                blocks_lines.push(vec![]);
                pos = e + 1;
                continue;
            }
            if blocks_lines.is_empty() {
                // unnamed entry block takes the next number
                labels.insert("\0entry", 0);
                blocks_lines.push(vec![]);
            }
            let mut end = e;
            if line.trim_start().starts_with("switch ") && line.trim_end().ends_with('[') {
                let q = body[pos..].find("\n  ]").map(|p| pos + p + 4).unwrap();
                end = body[q..].find('\n').map(|p| q + p).unwrap_or(body.len());
            }
            blocks_lines.last_mut().unwrap().push(&body[pos..end]);
            pos = end + 1;
        }
        if labels.contains_key("\0entry") {
            let n = unnamed.to_string();
            labels.insert(Box::leak(n.into_boxed_str()), 0);
        }
        let mut blocks = vec![];
        for bl in &blocks_lines {
            let mut ins = vec![];
            for line in bl {
                let mut l = Lex::new(line);
                let dst = if let Tok::Local(n) = l.peek() {
                    l.next();
                    l.expect(b'=');
                    Some(cx.get(n))
                } else {
                    None
                };
                let i = self.ins(&mut l, &mut cx, &labels);
                ins.push((dst, i));
            }
            blocks.push(Block { ins });
        }
        Some(Func { name: nm, params, ret, blocks, nregs: cx.n, cfg: Default::default() })
    }

    fn skip_flags(&self, l: &mut Lex) {
        while let Tok::Word(w) = l.peek() {
            if matches!(
                w,
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw"
                    | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"
                    | "volatile" | "atomic" | "weak"
            ) {
                l.next();
            } else {
                break;
            }
        }
    }

    fn label(&self, l: &mut Lex, labels: &HashMap<&str, u32>) -> u32 {
        l.eat_word("label");
        let Tok::Local(n) = l.next() else { panic!("IR parse: label") };
        *labels.get(n).unwrap_or_else(|| panic!("IR parse: label {n}"))
    }

    fn ins(&self, l: &mut Lex, cx: &mut FnCtx, labels: &HashMap<&str, u32>) -> Ins {
        let op = match l.next() {
            Tok::Word(w) => w,
            t => panic!("IR parse: instruction {t:?}"),
        };
        match op {
            _ if BINOPS.contains(&op) => {
                self.skip_flags(l);
                let ty = self.ty(l);
                let a = self.val(l, &ty, cx);
                l.expect(b',');
                let b = self.val(l, &ty, cx);
                Ins::Bin { op: BOp::parse(op), ty, a, b }
            }
            "fneg" => {
                self.skip_flags(l);
                let ty = self.ty(l);
                let a = self.val(l, &ty, cx);
                Ins::FNeg { ty, a }
            }
            "icmp" | "fcmp" => {
                self.skip_flags(l);
                let Tok::Word(p) = l.next() else { panic!() };
                let p = p.to_string();
                let ty = self.ty(l);
                let a = self.val(l, &ty, cx);
                l.expect(b',');
                let b = self.val(l, &ty, cx);
                if op == "icmp" {
                    Ins::ICmp { pred: Pred::parse(&p), ty, a, b }
                } else {
                    Ins::FCmp { pred: FPred::parse(&p), ty, a, b }
                }
            }
            "select" => {
                self.skip_flags(l);
                let cty = self.ty(l);
                let c = self.val(l, &cty, cx);
                l.expect(b',');
                let ty = self.ty(l);
                let a = self.val(l, &ty, cx);
                l.expect(b',');
                let t2 = self.ty(l);
                let b = self.val(l, &t2, cx);
                Ins::Select { cty, c, ty, a, b }
            }
            _ if CASTS.contains(&op) => {
                self.skip_flags(l);
                let from = self.ty(l);
                let v = self.val(l, &from, cx);
                if !l.eat_word("to") {
                    panic!("IR parse: cast {}", l.ctx());
                }
                let to = self.ty(l);
                Ins::Cast { op: COp::parse(op), from, v, to }
            }
            "load" => {
                self.skip_flags(l);
                let ty = self.ty(l);
                l.expect(b',');
                let pt = self.ty(l);
                let p = self.val(l, &pt, cx);
                Ins::Load { ty, p }
            }
            "store" => {
                self.skip_flags(l);
                let ty = self.ty(l);
                let v = self.val(l, &ty, cx);
                l.expect(b',');
                let pt = self.ty(l);
                let p = self.val(l, &pt, cx);
                Ins::Store { ty, v, p }
            }
            "getelementptr" => {
                while let Tok::Word(w) = l.peek() {
                    if matches!(w, "inbounds" | "nuw" | "nusw") {
                        l.next();
                    } else if w == "inrange" {
                        l.next();
                        l.skip_parens();
                    } else {
                        break;
                    }
                }
                let ty = self.ty(l);
                l.expect(b',');
                let bty = self.ty(l);
                let base = self.val(l, &bty, cx);
                let mut idx = vec![];
                while l.peek() == Tok::P(b',') {
                    l.next();
                    if let Tok::Meta(_) = l.peek() {
                        break;
                    }
                    let t = self.ty(l);
                    let v = self.val(l, &t, cx);
                    idx.push((t, v));
                }
                Ins::Gep { ty, base, bty, idx }
            }
            "alloca" => {
                let ty = self.ty(l);
                let mut n = None;
                let mut align = ty.align();
                while l.eat(b',') {
                    if l.eat_word("align") {
                        let Tok::Num(x) = l.next() else { panic!() };
                        align = x.parse().unwrap();
                    } else if let Tok::Meta(_) = l.peek() {
                        break;
                    } else {
                        let t = self.ty(l);
                        let v = self.val(l, &t, cx);
                        n = Some((t, v));
                    }
                }
                Ins::Alloca { ty, n, align }
            }
            "tail" | "musttail" | "notail" => {
                l.eat_word("call");
                self.call(l, cx)
            }
            "call" => self.call(l, cx),
            "phi" => {
                self.skip_flags(l);
                let ty = self.ty(l);
                let mut inc = vec![];
                loop {
                    if !l.eat(b'[') {
                        break;
                    }
                    let v = self.val(l, &ty, cx);
                    l.expect(b',');
                    let Tok::Local(n) = l.next() else { panic!() };
                    let b = *labels.get(n).unwrap_or_else(|| panic!("IR parse: phi label {n}"));
                    l.expect(b']');
                    inc.push((v, b));
                    if !l.eat(b',') {
                        break;
                    }
                }
                Ins::Phi { ty, inc }
            }
            "br" => {
                if l.peek() == Tok::Word("label") {
                    return Ins::Br(self.label(l, labels));
                }
                let t = self.ty(l);
                let c = self.val(l, &t, cx);
                l.expect(b',');
                let a = self.label(l, labels);
                l.expect(b',');
                let b = self.label(l, labels);
                Ins::CondBr(c, a, b)
            }
            "switch" => {
                let ty = self.ty(l);
                let v = self.val(l, &ty, cx);
                l.expect(b',');
                let default = self.label(l, labels);
                l.expect(b'[');
                let mut cases = vec![];
                while !l.eat(b']') {
                    let t = self.ty(l);
                    let Val::Int(c) = self.val(l, &t, cx) else { panic!() };
                    l.expect(b',');
                    let b = self.label(l, labels);
                    cases.push((c, b));
                }
                Ins::Switch { ty, v, default, cases }
            }
            "ret" => {
                let t = self.ty(l);
                if t == Ty::Void {
                    Ins::Ret(None)
                } else {
                    let v = self.val(l, &t, cx);
                    Ins::Ret(Some((t, v)))
                }
            }
            "unreachable" => Ins::Unreachable,
            "extractvalue" => {
                let ty = self.ty(l);
                let v = self.val(l, &ty, cx);
                let idx = self.indices(l);
                Ins::ExtractValue { ty, v, idx }
            }
            "insertvalue" => {
                let ty = self.ty(l);
                let v = self.val(l, &ty, cx);
                l.expect(b',');
                let ety = self.ty(l);
                let e = self.val(l, &ety, cx);
                let idx = self.indices(l);
                Ins::InsertValue { ty, v, ety, e, idx }
            }
            "extractelement" => {
                let ty = self.ty(l);
                let v = self.val(l, &ty, cx);
                l.expect(b',');
                let ity = self.ty(l);
                let i = self.val(l, &ity, cx);
                Ins::ExtractElement { ty, v, ity, i }
            }
            "insertelement" => {
                let ty = self.ty(l);
                let v = self.val(l, &ty, cx);
                l.expect(b',');
                let ety = self.ty(l);
                let e = self.val(l, &ety, cx);
                l.expect(b',');
                let ity = self.ty(l);
                let i = self.val(l, &ity, cx);
                Ins::InsertElement { ty, v, e, ity, i }
            }
            "shufflevector" => {
                let ty = self.ty(l);
                let a = self.val(l, &ty, cx);
                l.expect(b',');
                let t2 = self.ty(l);
                let b = self.val(l, &t2, cx);
                l.expect(b',');
                let mty = self.ty(l);
                let mask = self.val(l, &mty, cx);
                Ins::Shuffle { ty, a, b, mty, mask }
            }
            "freeze" => {
                let ty = self.ty(l);
                let v = self.val(l, &ty, cx);
                Ins::Freeze { ty, v }
            }
            "atomicrmw" => {
                self.skip_flags(l);
                let Tok::Word(o) = l.next() else { panic!() };
                let o = o.to_string();
                let pt = self.ty(l);
                let p = self.val(l, &pt, cx);
                l.expect(b',');
                let ty = self.ty(l);
                let v = self.val(l, &ty, cx);
                Ins::AtomicRmw { op: o, p, ty, v }
            }
            "cmpxchg" => {
                self.skip_flags(l);
                let pt = self.ty(l);
                let p = self.val(l, &pt, cx);
                l.expect(b',');
                let ty = self.ty(l);
                let cmp = self.val(l, &ty, cx);
                l.expect(b',');
                let t2 = self.ty(l);
                let new = self.val(l, &t2, cx);
                Ins::CmpXchg { p, ty, cmp, new }
            }
            "fence" => Ins::Fence,
            _ => panic!("IR parse: unknown instruction {op}: {}", l.ctx()),
        }
    }

    fn indices(&self, l: &mut Lex) -> Vec<u32> {
        let mut v = vec![];
        while l.eat(b',') {
            match l.next() {
                Tok::Num(n) => v.push(n.parse().unwrap()),
                _ => break,
            }
        }
        v
    }

    fn call(&self, l: &mut Lex, cx: &mut FnCtx) -> Ins {
        self.skip_flags(l);
        while let Tok::Word(w) = l.peek() {
            if matches!(w, "fastcc" | "coldcc" | "ccc" | "preserve_mostcc" | "tailcc" | "preserve_nonecc" | "preserve_allcc") {
                l.next();
            } else if w == "cc" {
                l.next();
                l.next();
            } else {
                break;
            }
        }
        self.attrs(l);
        let mut rty = self.ty(l);
        if l.peek() == Tok::P(b'(') {
            // function type
            l.skip_parens();
        }
        if rty == Ty::Other("void".into()) {
            rty = Ty::Void;
        }
        let callee = self.val(l, &Ty::Ptr, cx);
        l.expect(b'(');
        let mut args = vec![];
        while !l.eat(b')') {
            let ty = self.ty(l);
            self.attrs(l);
            if ty == Ty::Meta {
                // metadata operand: swallow to , or )
                let mut d = 0;
                loop {
                    match l.peek() {
                        Tok::P(b'(') | Tok::P(b'{') => {
                            d += 1;
                            l.next();
                        }
                        Tok::P(b'}') => {
                            d -= 1;
                            l.next();
                        }
                        Tok::P(b')') => {
                            if d == 0 {
                                break;
                            }
                            d -= 1;
                            l.next();
                        }
                        Tok::P(b',') if d == 0 => break,
                        _ => {
                            l.next();
                        }
                    }
                }
                args.push(Arg { ty, val: Val::Meta });
            } else {
                let val = self.val(l, &ty, cx);
                args.push(Arg { ty, val });
            }
            l.eat(b',');
        }
        Ins::Call { rty, callee, args }
    }
}

fn global_name(line: &str) -> &str {
    let p = line.find('@').unwrap();
    let b = line.as_bytes();
    if b[p + 1] == b'"' {
        let e = line[p + 2..].find('"').unwrap();
        return &line[p + 2..p + 2 + e];
    }
    let mut e = p + 1;
    while e < b.len() && is_word(b[e]) {
        e += 1;
    }
    &line[p + 1..e]
}
