//! Reader for LLVM textual IR.  Functions are indexed at load and decoded on first use.

use crate::term::{mask, Pool, V};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Struct(Vec<Ty>, bool),
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Label,
    Meta,
    Other(String),
}

fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(v, packed) => {
                if *packed {
                    1
                } else {
                    v.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().min(64).max(1),
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => align_up(((*w as u64) + 7) / 8, self.align()),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(v, packed) => {
                let mut o = 0;
                for t in v {
                    if !*packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if !*packed {
                    o = align_up(o, self.align());
                }
                o
            }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) if w < 8 => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            _ => 0,
        }
    }
    /// scalar leaves: (bits, byte offset)
    pub fn leaves(&self) -> Vec<(u32, u64)> {
        let mut v = Vec::new();
        self.leaves_at(0, &mut v);
        v
    }
    fn leaves_at(&self, off: u64, out: &mut Vec<(u32, u64)>) {
        match self {
            Ty::Int(w) => out.push((*w, off)),
            Ty::Ptr | Ty::F64 => out.push((64, off)),
            Ty::F32 => out.push((32, off)),
            Ty::Struct(v, packed) => {
                let mut o = off;
                for t in v {
                    if !*packed {
                        o = off + align_up(o - off, t.align());
                    }
                    t.leaves_at(o, out);
                    o += t.size();
                }
            }
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                for i in 0..*n {
                    t.leaves_at(off + i * t.size(), out);
                }
            }
            _ => {}
        }
    }
    pub fn nleaves(&self) -> usize {
        match self {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => 1,
            Ty::Struct(v, _) => v.iter().map(|t| t.nleaves()).sum(),
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as usize * t.nleaves(),
            _ => 0,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn is_vec(&self) -> bool {
        matches!(self, Ty::Vec(..))
    }
    pub fn elem(&self) -> Ty {
        match self {
            Ty::Vec(_, t) | Ty::Arr(_, t) => (**t).clone(),
            t => t.clone(),
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty, usize) {
        // byte offset, type, leaf offset
        match self {
            Ty::Struct(v, packed) => {
                let mut o = 0;
                let mut l = 0;
                for (k, t) in v.iter().enumerate() {
                    if !*packed {
                        o = align_up(o, t.align());
                    }
                    if k as u64 == i {
                        return (o, t.clone(), l);
                    }
                    o += t.size();
                    l += t.nleaves();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.size(), (**t).clone(), i as usize * t.nleaves()),
            t => panic!("field of {:?}", t),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Opd(pub u32);
const CONST: u32 = 0x8000_0000;
impl Opd {
    #[inline]
    pub fn is_const(self) -> bool {
        self.0 & CONST != 0
    }
    #[inline]
    pub fn idx(self) -> usize {
        (self.0 & !CONST) as usize
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    /// same width
    Copy,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(usize),
    Extern(Rc<str>),
    Intrinsic(Rc<str>),
    Indirect(Opd),
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub target: u32,
    /// parallel moves for the phis of the target
    pub moves: Rc<[(u32, Opd)]>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FpOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Neg,
    /// bit 0: unordered, bit 1: less, bit 2: equal, bit 3: greater
    Cmp(u8),
    UToF,
    SToF,
    FToU,
    FToS,
    FToF,
}

const FP_FLAGS: [&str; 8] = ["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"];

#[derive(Debug)]
pub enum I {
    Bin(BinOp, u32, u32, Opd, Opd),
    Icmp(Pred, u32, u32, Opd, Opd),
    Cast(CastOp, u32, u32, u32, Opd),
    /// floating point on concrete operands: operation, from width, to width, dst, operands
    Fp(FpOp, u32, u32, u32, Opd, Opd),
    /// vector forms: element count
    VBin(BinOp, u32, u32, Rc<[Opd]>, Rc<[Opd]>),
    VIcmp(Pred, u32, u32, Rc<[Opd]>, Rc<[Opd]>),
    VCast(CastOp, u32, u32, u32, Rc<[Opd]>),
    BitcastVec(Rc<[Opd]>, u32, u32, u32), // srcs, src elem bits, dst base, dst elem bits (dst count derived)
    Select(u32, Rc<[Opd]>, Rc<[Opd]>, Rc<[Opd]>, Rc<[u32]>), // dst, conds(1 or n), a, b, widths
    Copies(u32, Rc<[Opd]>),
    Load(u32, u32, Opd),
    LoadMulti(u32, Rc<[(u32, u64)]>, Opd),
    Store(u32, Opd, Opd),
    StoreMulti(Rc<[(u32, u64)]>, Rc<[Opd]>, Opd),
    Gep(u32, Opd, u64, Rc<[(Opd, u64, u32)]>),
    Alloca(u32, u64, u64, Opd),
    Br(Edge),
    CondBr(Opd, Edge, Edge),
    Switch(u32, Opd, Edge, Vec<(u64, Edge)>),
    Ret(Rc<[Opd]>),
    Call { dst: u32, nret: u32, callee: Callee, args: Rc<[Opd]>, argw: Rc<[u32]>, retw: Rc<[u32]>, normal: Option<Edge> },
    AtomicRmw(u32, &'static str, u32, Opd, Opd),
    CmpXchg(u32, u32, Opd, Opd, Opd),
    Nop,
    Unreachable,
    Unsupported(String),
}

pub struct Func {
    pub name: String,
    pub code: Vec<I>,
    pub nregs: u32,
    pub params: Vec<(u32, u32)>, // (slot, nleaves)
    pub pool: Vec<V>,
}

pub struct FuncDecl {
    pub name: String,
    pub pretty: String,
    pub header: (usize, usize),
    pub body: (usize, usize),
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub addr: u64,
    pub init: Option<(usize, usize)>,
    pub constant: bool,
}

pub const FUNC_BASE: u64 = 0xF000_0000;
pub const GLOBAL_BASE: u64 = 0x0001_0000;

pub struct Module {
    pub text: String,
    pub named: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, usize>,
    pub funcs: Vec<FuncDecl>,
    pub fmap: HashMap<String, usize>,
    pub externs: Vec<String>,
    pub emap: HashMap<String, usize>,
    pub globals_end: u64,
}

// ---------------------------------------------------------------- cursor

pub struct Cur<'a> {
    pub s: &'a [u8],
    pub i: usize,
}

impl<'a> Cur<'a> {
    pub fn new(s: &'a str) -> Cur<'a> {
        Cur { s: s.as_bytes(), i: 0 }
    }
    pub fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\n' | b'\t') {
            self.i += 1;
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!(
                "expected '{}' at: {}",
                c as char,
                String::from_utf8_lossy(&self.s[self.i.saturating_sub(60)..(self.i + 60).min(self.s.len())])
            );
        }
    }
    /// bare word: letters, digits, _ . -
    pub fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len()
            && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.' | b'-' | b'+'))
        {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    pub fn peek_word(&mut self) -> &'a str {
        let i = self.i;
        let w = self.word();
        self.i = i;
        w
    }
    pub fn eat_word(&mut self, w: &str) -> bool {
        let i = self.i;
        if self.word() == w {
            true
        } else {
            self.i = i;
            false
        }
    }
    /// after a sigil
    pub fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = std::str::from_utf8(&self.s[st..self.i]).unwrap().to_string();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len()
                && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.' | b'-' | b'$'))
            {
                self.i += 1;
            }
            std::str::from_utf8(&self.s[st..self.i]).unwrap().to_string()
        }
    }
    pub fn skip_parens(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    pub fn int(&mut self) -> i128 {
        let w = self.word();
        w.parse::<i128>().unwrap_or_else(|_| panic!("int: {:?}", w))
    }
}

fn is_type_start(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "label" | "metadata" | "token" | "half" | "opaque")
        || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()))
}

impl Module {
    pub fn parse_ty(&self, c: &mut Cur) -> Ty {
        match c.peek() {
            b'{' => {
                c.i += 1;
                let mut v = Vec::new();
                while !c.eat(b'}') {
                    v.push(self.parse_ty(c));
                    c.eat(b',');
                }
                Ty::Struct(v, false)
            }
            b'<' => {
                c.i += 1;
                if c.eat(b'{') {
                    let mut v = Vec::new();
                    while !c.eat(b'}') {
                        v.push(self.parse_ty(c));
                        c.eat(b',');
                    }
                    c.expect(b'>');
                    Ty::Struct(v, true)
                } else {
                    let n = c.int() as u64;
                    assert!(c.eat_word("x"));
                    let t = self.parse_ty(c);
                    c.expect(b'>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            b'[' => {
                c.i += 1;
                let n = c.int() as u64;
                assert!(c.eat_word("x"));
                let t = self.parse_ty(c);
                c.expect(b']');
                Ty::Arr(n, Box::new(t))
            }
            b'%' => {
                c.i += 1;
                let n = c.name();
                self.named.get(&n).cloned().unwrap_or(Ty::Other(n))
            }
            _ => {
                let w = c.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if c.peek_word() == "addrspace" {
                            c.word();
                            c.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "label" => Ty::Label,
                    "metadata" => Ty::Meta,
                    _ => {
                        if w.starts_with('i') {
                            if let Ok(n) = w[1..].parse() {
                                return Ty::Int(n);
                            }
                        }
                        if w.is_empty() {
                            panic!(
                                "type at: {}",
                                String::from_utf8_lossy(
                                    &c.s[c.i.saturating_sub(80)..(c.i + 40).min(c.s.len())]
                                )
                            );
                        }
                        Ty::Other(w.to_string())
                    }
                }
            }
        }
    }

    /// skip parameter / return attributes until a type or value starts
    pub fn skip_attrs(&self, c: &mut Cur) {
        loop {
            match c.peek() {
                b'{' | b'<' | b'[' | b'%' | b'@' | b')' | b',' | 0 => return,
                b'#' => {
                    c.i += 1;
                    c.word();
                    continue;
                }
                b'"' => {
                    // string attribute
                    c.i += 1;
                    while c.s[c.i] != b'"' {
                        c.i += 1;
                    }
                    c.i += 1;
                    if c.eat(b'=') {
                        c.i += 1;
                        while c.s[c.i] != b'"' {
                            c.i += 1;
                        }
                        c.i += 1;
                    }
                    continue;
                }
                b'!' => return,
                _ => {}
            }
            let save = c.i;
            let w = c.word();
            if is_type_start(w) {
                c.i = save;
                return;
            }
            if is_value_word(w) {
                c.i = save;
                return;
            }
            if w.is_empty() {
                return;
            }
            if w == "align" {
                if c.peek() == b'(' {
                    c.skip_parens();
                } else {
                    c.word();
                }
                continue;
            }
            if c.i < c.s.len() && c.s[c.i] == b'(' {
                c.skip_parens();
            }
        }
    }
}

fn is_value_word(w: &str) -> bool {
    let b = w.as_bytes();
    if b.is_empty() {
        return false;
    }
    b[0].is_ascii_digit()
        || (b[0] == b'-' && b.len() > 1)
        || matches!(
            w,
            "null"
                | "true"
                | "false"
                | "undef"
                | "poison"
                | "zeroinitializer"
                | "none"
                | "getelementptr"
                | "ptrtoint"
                | "ptrtoaddr"
                | "inttoptr"
                | "bitcast"
                | "trunc"
                | "splat"
                | "asm"
                | "c"
        )
}

// ---------------------------------------------------------------- module load

pub fn demangle(n: &str) -> String {
    // enough of the v0 scheme to read: collect the identifiers
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = Vec::new();
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut n = 0usize;
            while i < b.len() && b[i].is_ascii_digit() {
                n = n * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            if i < b.len() && b[i] == b'_' {
                i += 1;
            }
            if i + n <= b.len() {
                out.push(String::from_utf8_lossy(&b[i..i + n]).to_string());
                i += n;
            }
        } else if b[i] == b's' || b[i] == b'C' {
            // disambiguator s<base62>_ : skip
            if b[i] == b's' {
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_alphanumeric() {
                    j += 1;
                }
                if j < b.len() && b[j] == b'_' && j - i <= 14 {
                    i = j + 1;
                    continue;
                }
            }
            i += 1;
        } else if b[i] == b'B' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i <= 4 {
                i = j + 1;
                continue;
            }
            i += 1;
        } else {
            i += 1;
        }
    }
    out.join("::")
}

impl Module {
    pub fn load(text: String) -> Module {
        let mut m = Module {
            text: String::new(),
            named: HashMap::new(),
            globals: Vec::new(),
            gmap: HashMap::new(),
            funcs: Vec::new(),
            fmap: HashMap::new(),
            externs: Vec::new(),
            emap: HashMap::new(),
            globals_end: 0,
        };
        // named types first
        for line in text.lines() {
            if line.starts_with('%') && line.contains(" = type ") {
                let mut c = Cur::new(line);
                c.expect(b'%');
                let n = c.name();
                c.expect(b'=');
                c.word();
                let t = m.parse_ty(&mut c);
                m.named.insert(n, t);
            }
        }
        let base = text.as_ptr() as usize;
        let mut addr = GLOBAL_BASE;
        let mut infn: Option<usize> = None;
        let mut aliases: Vec<(String, String)> = Vec::new();
        for line in text.lines() {
            let off = line.as_ptr() as usize - base;
            if let Some(f) = infn {
                if line == "}" {
                    let fd: &mut FuncDecl = &mut m.funcs[f];
                    fd.body.1 = off;
                    infn = None;
                }
                continue;
            }
            let b = line.as_bytes();
            if b.is_empty() {
                continue;
            }
            match b[0] {
                b'@' => {
                    let mut c = Cur::new(line);
                    c.expect(b'@');
                    let name = c.name();
                    c.expect(b'=');
                    let mut constant = false;
                    let mut external = false;
                    let mut alias = false;
                    loop {
                        let w = c.word();
                        match w {
                            "global" => break,
                            "constant" => {
                                constant = true;
                                break;
                            }
                            "alias" => {
                                alias = true;
                                break;
                            }
                            "external" | "extern_weak" => external = true,
                            "thread_local" | "addrspace" => {
                                if c.peek() == b'(' {
                                    c.skip_parens();
                                }
                            }
                            "" => panic!("global: {}", line),
                            _ => {}
                        }
                    }
                    let ty = m.parse_ty(&mut c);
                    if alias {
                        if c.peek() == b'(' {
                            c.skip_parens(); // function type
                        }
                        c.expect(b',');
                        c.word();
                        c.expect(b'@');
                        aliases.push((name, c.name()));
                        continue;
                    }
                    let init = if external || c.peek() == b',' || c.peek() == 0 {
                        None
                    } else {
                        Some((off + c.i, off + line.len()))
                    };
                    let al = 16.max(ty.align());
                    addr = align_up(addr, al);
                    let a = addr;
                    addr += ty.size().max(1);
                    // red zone between globals
                    addr += 16;
                    m.gmap.insert(name.clone(), m.globals.len());
                    m.globals.push(Global { name, ty, addr: a, init, constant });
                }
                b'd' => {
                    let at = match find_fn_name(b) {
                        Some(p) => p,
                        None => continue,
                    };
                    let mut c = Cur { s: b, i: at + 1 };
                    let name = c.name();
                    if line.starts_with("declare") {
                        m.emap.insert(name.clone(), m.externs.len());
                        m.externs.push(name);
                    } else if line.starts_with("define") {
                        let pretty = demangle(&name);
                        m.fmap.insert(name.clone(), m.funcs.len());
                        let bs = off + line.len() + 1;
                        infn = Some(m.funcs.len());
                        m.funcs.push(FuncDecl { name, pretty, header: (off, off + line.len()), body: (bs, bs) });
                    }
                }
                _ => {}
            }
        }
        for (a, t) in aliases {
            if let Some(&f) = m.fmap.get(&t) {
                m.fmap.insert(a, f);
            } else if let Some(&g) = m.gmap.get(&t) {
                m.gmap.insert(a, g);
            }
        }
        m.globals_end = addr;
        m.text = text;
        m
    }

    pub fn sym_addr(&self, n: &str) -> u64 {
        if let Some(&g) = self.gmap.get(n) {
            return self.globals[g].addr;
        }
        if let Some(&f) = self.fmap.get(n) {
            return FUNC_BASE + 16 * f as u64;
        }
        if let Some(&e) = self.emap.get(n) {
            if matches!(n, "statx" | "gettid" | "__cxa_thread_atexit_impl" | "copy_file_range" | "getrandom"
                | "__pthread_get_minstack" | "preadv" | "pwritev" | "preadv64v2" | "pwritev64v2") && n != "gettid"
            {
                // extern_weak: model as present only where a builtin exists
                return if n == "__cxa_thread_atexit_impl" { FUNC_BASE + 16 * (self.funcs.len() + e) as u64 } else { 0 };
            }
            return FUNC_BASE + 16 * (self.funcs.len() + e) as u64;
        }
        panic!("symbol {}", n)
    }

    /// constant of given type -> leaves
    pub fn parse_const(&self, c: &mut Cur, ty: &Ty, out: &mut Vec<u128>) {
        match c.peek() {
            b'@' => {
                c.i += 1;
                let n = c.name();
                out.push(self.sym_addr(&n) as u128);
                return;
            }
            b'{' => {
                c.i += 1;
                while !c.eat(b'}') {
                    let t = self.parse_ty(c);
                    self.parse_const(c, &t, out);
                    c.eat(b',');
                }
                return;
            }
            b'[' => {
                c.i += 1;
                while !c.eat(b']') {
                    let t = self.parse_ty(c);
                    self.parse_const(c, &t, out);
                    c.eat(b',');
                }
                return;
            }
            b'<' => {
                c.i += 1;
                let st = c.eat(b'{');
                loop {
                    if st && c.eat(b'}') {
                        c.expect(b'>');
                        break;
                    }
                    if !st && c.eat(b'>') {
                        break;
                    }
                    let t = self.parse_ty(c);
                    self.parse_const(c, &t, out);
                    c.eat(b',');
                }
                return;
            }
            _ => {}
        }
        if c.s[c.i] == b'c' && c.i + 1 < c.s.len() && c.s[c.i + 1] == b'"' {
            c.i += 2;
            while c.s[c.i] != b'"' {
                if c.s[c.i] == b'\\' && c.s[c.i + 1] == b'\\' {
                    out.push(b'\\' as u128);
                    c.i += 2;
                } else if c.s[c.i] == b'\\' {
                    let h = std::str::from_utf8(&c.s[c.i + 1..c.i + 3]).unwrap();
                    out.push(u8::from_str_radix(h, 16).unwrap() as u128);
                    c.i += 3;
                } else {
                    out.push(c.s[c.i] as u128);
                    c.i += 1;
                }
            }
            c.i += 1;
            return;
        }
        let w = c.word();
        match w {
            "zeroinitializer" | "undef" | "poison" | "none" | "null" => {
                for _ in 0..ty.nleaves() {
                    out.push(0);
                }
            }
            "true" => out.push(1),
            "false" => out.push(0),
            "splat" => {
                c.expect(b'(');
                let t = self.parse_ty(c);
                let mut v = Vec::new();
                self.parse_const(c, &t, &mut v);
                c.expect(b')');
                for _ in 0..ty.nleaves() {
                    out.push(v[0]);
                }
            }
            "getelementptr" => {
                loop {
                    match c.peek_word() {
                        "inbounds" | "nuw" | "nusw" => {
                            c.word();
                        }
                        "inrange" => {
                            c.word();
                            c.skip_parens();
                        }
                        _ => break,
                    }
                }
                c.expect(b'(');
                let t = self.parse_ty(c);
                c.expect(b',');
                let pt = self.parse_ty(c);
                let mut b = Vec::new();
                self.parse_const(c, &pt, &mut b);
                let mut addr = b[0] as u64;
                let mut cur = t;
                let mut first = true;
                while c.eat(b',') {
                    let it = self.parse_ty(c);
                    let mut v = Vec::new();
                    self.parse_const(c, &it, &mut v);
                    let w = it.bits();
                    let idx = sext(v[0] as u64, w) as i64;
                    if first {
                        addr = addr.wrapping_add((idx as u64).wrapping_mul(cur.size()));
                        first = false;
                    } else {
                        let (o, t, _) = match &cur {
                            Ty::Arr(_, t) | Ty::Vec(_, t) => ((idx as u64).wrapping_mul(t.size()), (**t).clone(), 0),
                            _ => cur.field(idx as u64),
                        };
                        addr = addr.wrapping_add(o);
                        cur = t;
                    }
                }
                c.expect(b')');
                out.push(addr as u128);
            }
            "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "trunc" | "zext" => {
                c.expect(b'(');
                let t = self.parse_ty(c);
                let mut v = Vec::new();
                self.parse_const(c, &t, &mut v);
                assert!(c.eat_word("to"));
                let d = self.parse_ty(c);
                c.expect(b')');
                if v.len() == 1 {
                    out.push(mask(v[0], d.bits()));
                } else {
                    out.extend(v);
                }
            }
            "add" | "sub" | "xor" => {
                while matches!(c.peek_word(), "nuw" | "nsw") {
                    c.word();
                }
                c.expect(b'(');
                let t = self.parse_ty(c);
                let mut v = Vec::new();
                self.parse_const(c, &t, &mut v);
                c.expect(b',');
                let t2 = self.parse_ty(c);
                self.parse_const(c, &t2, &mut v);
                c.expect(b')');
                let r = match w {
                    "add" => v[0].wrapping_add(v[1]),
                    "sub" => v[0].wrapping_sub(v[1]),
                    _ => v[0] ^ v[1],
                };
                out.push(mask(r, t.bits()));
            }
            _ => match ty {
                Ty::F64 => {
                    if let Some(h) = w.strip_prefix("0x") {
                        out.push(u64::from_str_radix(h, 16).unwrap() as u128)
                    } else {
                        out.push(w.parse::<f64>().unwrap_or(0.0).to_bits() as u128)
                    }
                }
                Ty::F32 => {
                    if let Some(h) = w.strip_prefix("0x") {
                        let d = f64::from_bits(u64::from_str_radix(h, 16).unwrap());
                        out.push((d as f32).to_bits() as u128)
                    } else {
                        out.push(w.parse::<f32>().unwrap_or(0.0).to_bits() as u128)
                    }
                }
                _ => {
                    let v: u128 = if w.starts_with('-') {
                        w.parse::<i128>().unwrap_or_else(|_| panic!("const {:?} {:?}", w, ty)) as u128
                    } else {
                        w.parse::<u128>().unwrap_or_else(|_| {
                            panic!(
                                "const {:?} {:?} near {}",
                                w,
                                ty,
                                String::from_utf8_lossy(&c.s[c.i.saturating_sub(80)..(c.i + 40).min(c.s.len())])
                            )
                        })
                    };
                    out.push(mask(v, ty.bits()))
                }
            },
        }
    }
}

fn find_fn_name(b: &[u8]) -> Option<usize> {
    // the first '@' outside parentheses and quotes
    let mut d = 0;
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'(' => d += 1,
            b')' => d -= 1,
            b'"' => {
                i += 1;
                while b[i] != b'"' {
                    i += 1;
                }
            }
            b'@' if d == 0 => return Some(i),
            _ => {}
        }
        i += 1;
    }
    None
}

#[inline]
pub fn sext(v: u64, w: u32) -> u64 {
    if w >= 64 {
        v
    } else {
        let s = 64 - w;
        (((v << s) as i64) >> s) as u64
    }
}

// ---------------------------------------------------------------- function decode

struct Dec<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    next: u32,
    pool: Vec<V>,
    poolmap: HashMap<V, u32>,
    terms: &'m mut Pool,
}

impl<'m> Dec<'m> {
    fn slot(&mut self, name: &str, n: usize) -> u32 {
        if let Some(&s) = self.regs.get(name) {
            return s;
        }
        let s = self.next;
        self.next += n.max(1) as u32;
        self.regs.insert(name.to_string(), s);
        s
    }
    fn konst(&mut self, v: u128, w: u32) -> Opd {
        let v = if w <= 64 || v <= u64::MAX as u128 { V::c(v as u64) } else { V::t(self.terms.constant(v, w)) };
        let pool = &mut self.pool;
        let i = *self.poolmap.entry(v).or_insert_with(|| {
            pool.push(v);
            pool.len() as u32 - 1
        });
        Opd(i | CONST)
    }
    fn value(&mut self, c: &mut Cur, ty: &Ty) -> Vec<Opd> {
        self.m.skip_attrs_val(c);
        if c.peek() == b'%' {
            c.i += 1;
            let n = c.name();
            let k = ty.nleaves();
            let s = self.slot(&n, k);
            return (0..k as u32).map(|i| Opd(s + i)).collect();
        }
        let mut v = Vec::new();
        self.m.parse_const(c, ty, &mut v);
        let lv = ty.leaves();
        v.into_iter()
            .enumerate()
            .map(|(i, x)| {
                let w = lv.get(i).map(|l| l.0).unwrap_or(64);
                self.konst(x, w)
            })
            .collect()
    }
    fn tv(&mut self, c: &mut Cur) -> (Ty, Vec<Opd>) {
        let t = self.m.parse_ty(c);
        let v = self.value(c, &t);
        (t, v)
    }
}

impl Module {
    fn skip_attrs_val(&self, c: &mut Cur) {
        // attributes between a type and a value
        loop {
            match c.peek() {
                b'{' | b'<' | b'[' | b'%' | b'@' | b')' | b',' | b'!' | 0 => return,
                _ => {}
            }
            let save = c.i;
            let w = c.word();
            if is_value_word(w) || matches!(w, "add" | "sub" | "xor" | "zext") {
                c.i = save;
                return;
            }
            if w.is_empty() {
                return;
            }
            if w == "align" {
                if c.peek() == b'(' {
                    c.skip_parens();
                } else {
                    c.word();
                }
                continue;
            }
            if c.i < c.s.len() && c.s[c.i] == b'(' {
                c.skip_parens();
            }
        }
    }

    pub fn decode(&self, fi: usize, terms: &mut Pool) -> Func {
        let fd = &self.funcs[fi];
        let header = &self.text[fd.header.0..fd.header.1];
        let body = &self.text[fd.body.0..fd.body.1];
        let mut d = Dec { m: self, regs: HashMap::new(), next: 0, pool: Vec::new(), poolmap: HashMap::new(), terms };

        // parameters
        let at = find_fn_name(header.as_bytes()).unwrap();
        let mut c = Cur { s: header.as_bytes(), i: at + 1 };
        c.name();
        c.expect(b'(');
        let mut params = Vec::new();
        let mut argn = 0;
        while !c.eat(b')') {
            if c.eat(b'.') {
                c.i += 2;
                continue;
            }
            self.skip_attrs(&mut c);
            let t = self.parse_ty(&mut c);
            self.skip_attrs_val(&mut c);
            let name = if c.eat(b'%') { c.name() } else { argn.to_string() };
            if name.bytes().all(|b| b.is_ascii_digit()) {
                argn += 1;
            }
            let n = t.nleaves();
            let s = d.slot(&name, n);
            params.push((s, n as u32));
            c.eat(b',');
        }

        // split into blocks of logical lines
        let mut blocks: Vec<(String, Vec<String>)> = Vec::new();
        for line in body.lines() {
            if line.is_empty() || line.starts_with(';') {
                continue;
            }
            let b = line.as_bytes();
            if b[0] != b' ' {
                let mut c = Cur::new(line);
                let n = c.name();
                blocks.push((n, Vec::new()));
                continue;
            }
            if blocks.is_empty() {
                blocks.push((argn.to_string(), Vec::new()));
            }
            let cont = b.len() > 2 && (b[2] == b' ' || b[2] == b']');
            let t = line.trim_start();
            if t.starts_with("#dbg_") || t.starts_with(';') {
                continue;
            }
            let l = &mut blocks.last_mut().unwrap().1;
            if cont {
                let x = l.last_mut().unwrap();
                x.push(' ');
                x.push_str(t);
            } else {
                l.push(t.to_string());
            }
        }
        let bidx: HashMap<String, usize> = blocks.iter().enumerate().map(|(i, b)| (b.0.clone(), i)).collect();

        // phis
        type Phi = Vec<(String, u32, Vec<Opd>)>; // (pred, dst, vals)
        let mut phis: Vec<Phi> = Vec::new();
        let mut nphi: Vec<usize> = Vec::new();
        for (_, lines) in &blocks {
            let mut v: Phi = Vec::new();
            let mut n = 0;
            for l in lines {
                let mut c = Cur::new(l);
                if !c.eat(b'%') {
                    break;
                }
                let name = c.name();
                c.expect(b'=');
                if c.word() != "phi" {
                    break;
                }
                n += 1;
                while matches!(c.peek_word(), "fast" | "nnan" | "nsz" | "ninf" | "contract" | "reassoc") {
                    c.word();
                }
                let t = self.parse_ty(&mut c);
                let s = d.slot(&name, t.nleaves());
                loop {
                    c.expect(b'[');
                    let val = d.value(&mut c, &t);
                    c.expect(b',');
                    c.expect(b'%');
                    let p = c.name();
                    c.expect(b']');
                    v.push((p, s, val));
                    if !c.eat(b',') || c.peek() != b'[' {
                        break;
                    }
                }
            }
            phis.push(v);
            nphi.push(n);
        }

        let edge = |from: &str, to: &str| -> Edge {
            let b = *bidx.get(to).unwrap_or_else(|| panic!("block {}", to));
            let mut mv = Vec::new();
            let mut seen: Vec<u32> = Vec::new();
            for (p, s, vals) in &phis[b] {
                if p == from && !seen.contains(s) {
                    seen.push(*s);
                    for (i, v) in vals.iter().enumerate() {
                        mv.push((*s + i as u32, *v));
                    }
                }
            }
            Edge { target: b as u32, moves: mv.into() }
        };

        let mut code: Vec<I> = Vec::new();
        let mut starts: Vec<u32> = Vec::new();
        for (bi, (bname, lines)) in blocks.iter().enumerate() {
            starts.push(code.len() as u32);
            for l in &lines[nphi[bi]..] {
                self.inst(&mut d, l, bname, &edge, &mut code);
            }
        }
        // resolve block ids to code offsets
        let fix = |e: &mut Edge| e.target = starts[e.target as usize];
        for i in code.iter_mut() {
            match i {
                I::Br(e) => fix(e),
                I::CondBr(_, a, b) => {
                    fix(a);
                    fix(b)
                }
                I::Switch(_, _, e, v) => {
                    fix(e);
                    for (_, x) in v {
                        fix(x)
                    }
                }
                I::Call { normal: Some(e), .. } => fix(e),
                _ => {}
            }
        }
        Func { name: fd.name.clone(), code, nregs: d.next, params, pool: d.pool }
    }

    fn inst(&self, d: &mut Dec, line: &str, bname: &str, edge: &dyn Fn(&str, &str) -> Edge, code: &mut Vec<I>) {
        let mut c = Cur::new(line);
        let mut dst = String::new();
        if c.peek() == b'%' {
            c.i += 1;
            dst = c.name();
            c.expect(b'=');
        }
        let mut op = c.word();
        while matches!(op, "tail" | "musttail" | "notail") {
            op = c.word();
        }
        let bin = match op {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            _ => None,
        };
        if let Some(b) = bin {
            while matches!(c.peek_word(), "nuw" | "nsw" | "exact" | "disjoint") {
                c.word();
            }
            let t = self.parse_ty(&mut c);
            let x = d.value(&mut c, &t);
            c.expect(b',');
            let y = d.value(&mut c, &t);
            let s = d.slot(&dst, t.nleaves());
            if t.is_vec() {
                code.push(I::VBin(b, t.elem().bits(), s, x.into(), y.into()));
            } else if t.bits() > 128 {
                code.push(I::Unsupported(line.to_string()));
            } else {
                code.push(I::Bin(b, t.bits(), s, x[0], y[0]));
            }
            return;
        }
        let fp = match op {
            "fadd" => Some(FpOp::Add),
            "fsub" => Some(FpOp::Sub),
            "fmul" => Some(FpOp::Mul),
            "fdiv" => Some(FpOp::Div),
            "frem" => Some(FpOp::Rem),
            "fneg" => Some(FpOp::Neg),
            "fcmp" => Some(FpOp::Cmp(0)),
            "uitofp" => Some(FpOp::UToF),
            "sitofp" => Some(FpOp::SToF),
            "fptoui" => Some(FpOp::FToU),
            "fptosi" => Some(FpOp::FToS),
            "fpext" | "fptrunc" => Some(FpOp::FToF),
            _ => None,
        };
        if let Some(mut o) = fp {
            while c.peek_word() == "nneg" || FP_FLAGS.contains(&c.peek_word()) {
                c.word();
            }
            if o == FpOp::Cmp(0) {
                o = FpOp::Cmp(match c.word() {
                    "false" => 0,
                    "oeq" => 4,
                    "ogt" => 8,
                    "oge" => 12,
                    "olt" => 2,
                    "ole" => 6,
                    "one" => 10,
                    "ord" => 14,
                    "ueq" => 5,
                    "ugt" => 9,
                    "uge" => 13,
                    "ult" => 3,
                    "ule" => 7,
                    "une" => 11,
                    "uno" => 1,
                    _ => 15,
                });
            }
            let t = self.parse_ty(&mut c);
            let x = d.value(&mut c, &t);
            let (y, w) = match o {
                FpOp::Neg => (x.clone(), t.elem().bits()),
                FpOp::Add | FpOp::Sub | FpOp::Mul | FpOp::Div | FpOp::Rem | FpOp::Cmp(_) => {
                    c.expect(b',');
                    (d.value(&mut c, &t), if matches!(o, FpOp::Cmp(_)) { 1 } else { t.elem().bits() })
                }
                _ => {
                    assert!(c.eat_word("to"));
                    (x.clone(), self.parse_ty(&mut c).elem().bits())
                }
            };
            let s = d.slot(&dst, t.nleaves());
            for i in 0..x.len() {
                code.push(I::Fp(o, t.elem().bits(), w, s + i as u32, x[i], y[i]));
            }
            return;
        }
        match op {
            "icmp" => {
                while c.peek_word() == "samesign" {
                    c.word();
                }
                let p = match c.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => panic!("icmp {}", x),
                };
                let t = self.parse_ty(&mut c);
                let x = d.value(&mut c, &t);
                c.expect(b',');
                let y = d.value(&mut c, &t);
                let s = d.slot(&dst, t.nleaves());
                if t.is_vec() {
                    code.push(I::VIcmp(p, t.elem().bits(), s, x.into(), y.into()));
                } else if t.bits() > 128 {
                    code.push(I::Unsupported(line.to_string()));
                } else {
                    code.push(I::Icmp(p, t.bits(), s, x[0], y[0]));
                }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "freeze" => {
                while matches!(c.peek_word(), "nuw" | "nsw" | "nneg") {
                    c.word();
                }
                let t = self.parse_ty(&mut c);
                let x = d.value(&mut c, &t);
                let dt = if op == "freeze" {
                    t.clone()
                } else {
                    assert!(c.eat_word("to"));
                    self.parse_ty(&mut c)
                };
                let s = d.slot(&dst, dt.nleaves());
                if op == "freeze" {
                    code.push(I::Copies(s, x.into()));
                    return;
                }
                if op == "bitcast" && (t.is_vec() || dt.is_vec()) {
                    code.push(I::BitcastVec(x.into(), t.elem().bits(), s, dt.elem().bits()));
                    return;
                }
                let (fw, tw) = (t.elem().bits(), dt.elem().bits());
                if fw > 128 || tw > 128 {
                    code.push(I::Unsupported(line.to_string()));
                    return;
                }
                let k = match op {
                    "sext" => CastOp::SExt,
                    _ => {
                        if tw < fw {
                            CastOp::Trunc
                        } else if tw > fw {
                            CastOp::ZExt
                        } else {
                            CastOp::Copy
                        }
                    }
                };
                if t.is_vec() {
                    code.push(I::VCast(k, fw, tw, s, x.into()));
                } else {
                    code.push(I::Cast(k, fw, tw, s, x[0]));
                }
            }
            "select" => {
                while FP_FLAGS.contains(&c.peek_word()) {
                    c.word();
                }
                let (_, cv) = d.tv(&mut c);
                c.expect(b',');
                let (t, a) = d.tv(&mut c);
                c.expect(b',');
                let (_, b) = d.tv(&mut c);
                let w: Vec<u32> = t.leaves().iter().map(|l| l.0).collect();
                let s = d.slot(&dst, t.nleaves());
                code.push(I::Select(s, cv.into(), a.into(), b.into(), w.into()));
            }
            "load" => {
                while matches!(c.peek_word(), "atomic" | "volatile") {
                    c.word();
                }
                let t = self.parse_ty(&mut c);
                c.expect(b',');
                let (_, p) = d.tv(&mut c);
                let lv = t.leaves();
                let s = d.slot(&dst, lv.len());
                if lv.iter().any(|l| l.0 > 128) || (t.is_vec() && t.elem().bits() < 8) {
                    code.push(I::Unsupported(line.to_string()));
                } else if lv.len() == 1 {
                    code.push(I::Load(s, lv[0].0, p[0]));
                } else {
                    code.push(I::LoadMulti(s, lv.into(), p[0]));
                }
            }
            "store" => {
                while matches!(c.peek_word(), "atomic" | "volatile") {
                    c.word();
                }
                let (t, v) = d.tv(&mut c);
                c.expect(b',');
                let (_, p) = d.tv(&mut c);
                let lv = t.leaves();
                if lv.iter().any(|l| l.0 > 128) || (t.is_vec() && t.elem().bits() < 8) {
                    code.push(I::Unsupported(line.to_string()));
                } else if lv.len() == 1 {
                    code.push(I::Store(lv[0].0, v[0], p[0]));
                } else {
                    code.push(I::StoreMulti(lv.into(), v.into(), p[0]));
                }
            }
            "getelementptr" => {
                while matches!(c.peek_word(), "inbounds" | "nuw" | "nusw") {
                    c.word();
                }
                let t = self.parse_ty(&mut c);
                c.expect(b',');
                let (pt, p) = d.tv(&mut c);
                if pt.is_vec() {
                    let s = d.slot(&dst, pt.nleaves());
                    let _ = s;
                    code.push(I::Unsupported(line.to_string()));
                    return;
                }
                let mut off = 0u64;
                let mut idxs = Vec::new();
                let mut cur = t;
                let mut first = true;
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    let (it, iv) = d.tv(&mut c);
                    let (scale, is_field) = if first {
                        (cur.size(), false)
                    } else {
                        match &cur {
                            Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size(), false),
                            _ => (0, true),
                        }
                    };
                    if is_field {
                        let k = d.pool[iv[0].idx()].c;
                        let (o, ft, _) = cur.field(k);
                        off = off.wrapping_add(o);
                        cur = ft;
                    } else {
                        if iv[0].is_const() && d.pool[iv[0].idx()].is_c() {
                            let k = sext(d.pool[iv[0].idx()].c, it.bits());
                            off = off.wrapping_add(k.wrapping_mul(scale));
                        } else {
                            idxs.push((iv[0], scale, it.bits()));
                        }
                        if !first {
                            cur = cur.elem();
                        }
                    }
                    first = false;
                }
                let s = d.slot(&dst, 1);
                code.push(I::Gep(s, p[0], off, idxs.into()));
            }
            "alloca" => {
                while matches!(c.peek_word(), "inalloca") {
                    c.word();
                }
                let t = self.parse_ty(&mut c);
                let mut n = d.konst(1, 64);
                let mut al = t.align().max(8);
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    if c.peek_word() == "align" {
                        c.word();
                        al = al.max(c.int() as u64);
                    } else if c.peek_word() == "addrspace" {
                        c.word();
                        c.skip_parens();
                    } else {
                        let (_, v) = d.tv(&mut c);
                        n = v[0];
                    }
                }
                let s = d.slot(&dst, 1);
                code.push(I::Alloca(s, t.size(), al, n));
            }
            "br" => {
                if c.eat_word("label") {
                    c.expect(b'%');
                    let n = c.name();
                    code.push(I::Br(edge(bname, &n)));
                } else {
                    let (_, v) = d.tv(&mut c);
                    c.expect(b',');
                    c.word();
                    c.expect(b'%');
                    let a = c.name();
                    c.expect(b',');
                    c.word();
                    c.expect(b'%');
                    let b = c.name();
                    code.push(I::CondBr(v[0], edge(bname, &a), edge(bname, &b)));
                }
            }
            "switch" => {
                let (t, v) = d.tv(&mut c);
                c.expect(b',');
                c.word();
                c.expect(b'%');
                let def = c.name();
                c.expect(b'[');
                let mut cases = Vec::new();
                while !c.eat(b']') {
                    let ct = self.parse_ty(&mut c);
                    let mut k = Vec::new();
                    self.parse_const(&mut c, &ct, &mut k);
                    c.expect(b',');
                    c.word();
                    c.expect(b'%');
                    let n = c.name();
                    cases.push((k[0] as u64, edge(bname, &n)));
                }
                if t.bits() > 64 {
                    code.push(I::Unsupported(line.to_string()));
                } else {
                    code.push(I::Switch(t.bits(), v[0], edge(bname, &def), cases));
                }
            }
            "ret" => {
                if c.peek_word() == "void" {
                    code.push(I::Ret(Vec::new().into()));
                } else {
                    let (_, v) = d.tv(&mut c);
                    code.push(I::Ret(v.into()));
                }
            }
            "unreachable" => code.push(I::Unreachable),
            "fence" => code.push(I::Nop),
            "extractvalue" => {
                let (t, v) = d.tv(&mut c);
                let mut cur = t;
                let mut l = 0;
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    let i = c.int() as u64;
                    let (_, ft, lo) = cur.field(i);
                    l += lo;
                    cur = ft;
                }
                let n = cur.nleaves();
                let s = d.slot(&dst, n);
                code.push(I::Copies(s, v[l..l + n].to_vec().into()));
            }
            "insertvalue" => {
                let (t, mut v) = d.tv(&mut c);
                c.expect(b',');
                let (_, x) = d.tv(&mut c);
                let mut cur = t.clone();
                let mut l = 0;
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    let i = c.int() as u64;
                    let (_, ft, lo) = cur.field(i);
                    l += lo;
                    cur = ft;
                }
                for (k, o) in x.iter().enumerate() {
                    v[l + k] = *o;
                }
                let s = d.slot(&dst, t.nleaves());
                code.push(I::Copies(s, v.into()));
            }
            "extractelement" => {
                let (t, v) = d.tv(&mut c);
                c.expect(b',');
                let (_, i) = d.tv(&mut c);
                let n = t.elem().nleaves();
                let s = d.slot(&dst, n);
                if i[0].is_const() {
                    let k = d.pool[i[0].idx()].c as usize;
                    code.push(I::Copies(s, v[k * n..(k + 1) * n].to_vec().into()));
                } else {
                    code.push(I::Unsupported(line.to_string()));
                }
            }
            "insertelement" => {
                let (t, mut v) = d.tv(&mut c);
                c.expect(b',');
                let (_, x) = d.tv(&mut c);
                c.expect(b',');
                let (_, i) = d.tv(&mut c);
                let s = d.slot(&dst, t.nleaves());
                if i[0].is_const() {
                    let k = d.pool[i[0].idx()].c as usize;
                    v[k] = x[0];
                    code.push(I::Copies(s, v.into()));
                } else {
                    code.push(I::Unsupported(line.to_string()));
                }
            }
            "shufflevector" => {
                let (t, a) = d.tv(&mut c);
                c.expect(b',');
                let (_, b) = d.tv(&mut c);
                c.expect(b',');
                let mt = self.parse_ty(&mut c);
                let mut mk = Vec::new();
                self.parse_const(&mut c, &mt, &mut mk);
                let mut all = a;
                all.extend(b);
                let z = d.konst(0, 64);
                let out: Vec<Opd> = mk.iter().map(|k| all.get(*k as usize).cloned().unwrap_or(z)).collect();
                let _ = t;
                let s = d.slot(&dst, out.len());
                code.push(I::Copies(s, out.into()));
            }
            "atomicrmw" => {
                while matches!(c.peek_word(), "volatile") {
                    c.word();
                }
                let k: &'static str = match c.word() {
                    "add" => "add",
                    "sub" => "sub",
                    "xchg" => "xchg",
                    "and" => "and",
                    "or" => "or",
                    "xor" => "xor",
                    "umax" => "umax",
                    "umin" => "umin",
                    x => panic!("atomicrmw {}", x),
                };
                let (_, p) = d.tv(&mut c);
                c.expect(b',');
                let (t, v) = d.tv(&mut c);
                let s = d.slot(&dst, 1);
                code.push(I::AtomicRmw(s, k, t.bits(), p[0], v[0]));
            }
            "cmpxchg" => {
                while matches!(c.peek_word(), "weak" | "volatile") {
                    c.word();
                }
                let (_, p) = d.tv(&mut c);
                c.expect(b',');
                let (t, e) = d.tv(&mut c);
                c.expect(b',');
                let (_, n) = d.tv(&mut c);
                let s = d.slot(&dst, 2);
                code.push(I::CmpXchg(s, t.bits(), p[0], e[0], n[0]));
            }
            "call" | "invoke" => {
                // calling convention and return attributes
                self.skip_attrs_call(&mut c);
                let rt = self.parse_ty(&mut c);
                // optional function type for varargs
                if c.peek() == b'(' {
                    c.skip_parens();
                }
                let callee;
                if c.peek() == b'@' {
                    c.i += 1;
                    let n = c.name();
                    if n.starts_with("llvm.") {
                        callee = Callee::Intrinsic(n.as_str().into());
                    } else if let Some(&f) = self.fmap.get(&n) {
                        callee = Callee::Func(f);
                    } else {
                        callee = Callee::Extern(n.as_str().into());
                    }
                } else if c.peek() == b'%' {
                    c.i += 1;
                    let n = c.name();
                    let s = d.slot(&n, 1);
                    callee = Callee::Indirect(Opd(s));
                } else if c.peek_word() == "asm" {
                    // inline assembly: only the optimisation barriers (no template) are modelled
                    let rest = String::from_utf8_lossy(&c.s[c.i..]).to_string();
                    let empty = rest.contains("\"\", ") || rest.contains("asm sideeffect \"\"");
                    if empty && rt == Ty::Void {
                        code.push(I::Nop);
                    } else {
                        d.slot(&dst, rt.nleaves());
                        code.push(I::Unsupported(line.to_string()));
                    }
                    return;
                } else {
                    // constant expression callee
                    let mut v = Vec::new();
                    self.parse_const(&mut c, &Ty::Ptr, &mut v);
                    callee = Callee::Indirect(d.konst(v[0], 64));
                }
                if let Callee::Intrinsic(n) = &callee {
                    if n.starts_with("llvm.lifetime")
                        || n.starts_with("llvm.assume")
                        || n.starts_with("llvm.experimental.noalias")
                        || n.starts_with("llvm.dbg")
                        || n.starts_with("llvm.invariant")
                        || n.starts_with("llvm.prefetch")
                        || n.starts_with("llvm.donothing")
                        || n.starts_with("llvm.x86.sse2.pause")
                        || n.starts_with("llvm.var.annotation")
                    {
                        code.push(I::Nop);
                        return;
                    }
                }
                c.expect(b'(');
                let mut args = Vec::new();
                let mut argw = Vec::new();
                while !c.eat(b')') {
                    self.skip_attrs(&mut c);
                    let t = self.parse_ty(&mut c);
                    if t == Ty::Meta {
                        // skip metadata operand
                        let mut depth = 0;
                        while c.i < c.s.len() {
                            match c.s[c.i] {
                                b'(' | b'{' => depth += 1,
                                b')' | b'}' if depth > 0 => depth -= 1,
                                b',' | b')' if depth == 0 => break,
                                _ => {}
                            }
                            c.i += 1;
                        }
                        c.eat(b',');
                        continue;
                    }
                    let v = d.value(&mut c, &t);
                    for (l, o) in t.leaves().iter().zip(v) {
                        argw.push(l.0);
                        args.push(o);
                    }
                    c.eat(b',');
                }
                let retw: Vec<u32> = rt.leaves().iter().map(|l| l.0).collect();
                let n = rt.nleaves();
                let s = if n > 0 && !dst.is_empty() { d.slot(&dst, n) } else { u32::MAX };
                let normal = if op == "invoke" {
                    let rest = std::str::from_utf8(&c.s[c.i..]).unwrap();
                    let p = rest.find("to label %").expect("invoke");
                    let mut c2 = Cur::new(&rest[p + 10..]);
                    let nm = c2.name();
                    Some(edge(bname, &nm))
                } else {
                    None
                };
                code.push(I::Call {
                    dst: s,
                    nret: n as u32,
                    callee,
                    args: args.into(),
                    argw: argw.into(),
                    retw: retw.into(),
                    normal,
                });
            }
            "landingpad" | "resume" | "cleanuppad" | "catchpad" => {
                if !dst.is_empty() {
                    let t = self.parse_ty(&mut c);
                    d.slot(&dst, t.nleaves());
                }
                code.push(I::Unsupported(line.to_string()));
            }
            _ => {
                code.push(I::Unsupported(line.to_string()));
            }
        }
    }

    fn skip_attrs_call(&self, c: &mut Cur) {
        // fastcc, tailcc, cc N, noundef, zeroext, range(..) ...
        loop {
            let save = c.i;
            match c.peek() {
                b'{' | b'<' | b'[' | b'%' => return,
                _ => {}
            }
            let w = c.word();
            if is_type_start(w) {
                c.i = save;
                return;
            }
            if w == "cc" || w == "align" {
                if c.peek() == b'(' {
                    c.skip_parens();
                } else {
                    c.word();
                }
                continue;
            }
            if w.is_empty() {
                if c.peek() == b'#' {
                    c.i += 1;
                    c.word();
                    continue;
                }
                panic!("call attrs: {}", String::from_utf8_lossy(&c.s[save..(save + 80).min(c.s.len())]));
            }
            if c.i < c.s.len() && c.s[c.i] == b'(' {
                c.skip_parens();
            }
        }
    }
}
