//! Text builders that return the tree the emitted text denotes.

use super::lib_::*;
use super::sym::*;
use super::ty::*;

pub const WORD: Set = LOWER.or(UPPER).or(DIGIT).or(Set::one(b'_'));
/// letters no keyword starts with: an identifier starting with one is never a keyword
pub const SAFE: Set = LOWER.minus(Set::of(b"mwiaetplco"));
/// no keyword of two letters ends in one of these
pub const TAIL: Set = WORD.minus(Set::of(b"snf"));
pub const OPC: Set = Set::of(b"+-/*=.$<>:&|^?%#@~!\\");

/// every character is a chosen one: only the shape varies
pub static mut TAME: bool = false;

pub struct B {
    pub t: Vec<u8>,
    /// in the middle of a long repetition: characters are chosen, not free (counting up from here)
    tame: Option<u32>,
    turn: u32,
}

pub fn v1(n: &str) -> Expression {
    Expression::Variable(vec![n.to_string()])
}
pub fn bx(e: Expression) -> Box<Expression> {
    Box::new(e)
}
pub fn app(a: Expression, b: Expression) -> Expression {
    Expression::Application(bx(a), bx(b))
}
pub fn int(n: &str) -> Expression {
    Expression::Integer(n.to_string())
}
pub fn fun(name: &str, args: Vec<Expression>, body: Expression) -> Function {
    Function { signature: None, definition: FunctionDefinition { name: name.to_string(), args, body } }
}
pub fn fun_s(name: &str, args: Vec<Expression>, body: Expression) -> Statement {
    Statement::Function(fun(name, args, body))
}
pub fn tcon(n: &str, a: Vec<Type>) -> Type {
    Type::TypeConstructor(vec![n.to_string()], a)
}
pub fn tvar(n: &str) -> Type {
    Type::TypeVariable(n.to_string())
}
pub fn tapp(a: Type, b: Type) -> Type {
    Type::TypeApplication(Box::new(a), Box::new(b))
}

/// number of kinds of `B::term`, and of `B::expr`
pub const TERMS: u32 = 16;
pub const EXPRS: u32 = TERMS + 6;

impl B {
    pub fn new(s: &str) -> B {
        B { t: s.as_bytes().to_vec(), tame: if unsafe { TAME } { Some(0) } else { None }, turn: 0 }
    }
    pub fn s(&mut self, s: &str) {
        self.t.extend_from_slice(s.as_bytes());
    }
    pub fn sp(&mut self, n: usize) {
        for _ in 0..n {
            self.t.push(b' ');
        }
    }
    pub fn nl(&mut self, n: usize) {
        self.t.push(b'\n');
        self.sp(n);
    }
    pub fn sym(&mut self, s: Set) -> u8 {
        let c = match self.tame {
            None => byte(s),
            Some(k) => {
                self.tame = Some(k / 3 + self.turn);
                s.nth(k)
            }
        };
        self.t.push(c);
        c
    }
    /// the `i`-th of `n` parts follows: the first three and the last two are free
    pub fn at(&mut self, i: usize, n: usize) {
        self.turn += 1;
        if n <= 5 || unsafe { TAME } {
            return;
        }
        self.tame = if i >= 3 && i + 2 < n { Some(self.turn) } else { None };
    }
    pub fn syms(&mut self, first: Set, rest: Set, n: usize) -> String {
        let a = self.t.len();
        self.sym(first);
        for _ in 1..n {
            self.sym(rest);
        }
        text(&self.t[a..]).to_string()
    }
    pub fn any(&mut self, s: Set, n: usize) -> String {
        let a = self.t.len();
        for _ in 0..n {
            self.sym(s);
        }
        text(&self.t[a..]).to_string()
    }
    /// lower case name of two symbolic characters, never a keyword
    pub fn id(&mut self) -> String {
        self.syms(SAFE, TAIL, 2)
    }
    pub fn up(&mut self) -> String {
        self.syms(UPPER, WORD, 2)
    }
    pub fn num(&mut self) -> String {
        self.syms(DIGIT, DIGIT, 2)
    }
    pub fn var(&mut self) -> Expression {
        let n = self.id();
        v1(&n)
    }

    /// one term; kind 0..TERMS
    pub fn term(&mut self, kind: u32) -> Expression {
        match kind {
            0 => self.var(),
            1 => Expression::Integer(self.num()),
            2 => {
                let a = self.num();
                self.s(".");
                let b = self.num();
                Expression::Float(a + "." + &b)
            }
            3 => {
                self.s("\"");
                let c = self.any(PRINT.minus(Set::of(b"\"\\")), 1);
                self.s("\"");
                Expression::String(c)
            }
            4 => {
                self.s("'");
                let c = self.sym(PRINT.minus(Set::of(b"\\")));
                self.s("'");
                Expression::Character(c as char)
            }
            5 => {
                let a = self.up();
                self.s(".");
                let b = self.up();
                Expression::Variable(vec![a, b])
            }
            6 => {
                let a = self.id();
                self.s(".");
                let b = self.id();
                Expression::Access(bx(v1(&a)), vec![b])
            }
            7 => {
                self.s(".");
                Expression::AccessFunction(self.id())
            }
            8 => {
                self.s("(");
                let f = self.var();
                self.s(" ");
                let x = self.var();
                self.s(")");
                app(f, x)
            }
            9 => {
                self.s("[");
                let f = self.var();
                self.s(",");
                let x = self.var();
                self.s("]");
                Expression::List(vec![f, x])
            }
            10 => {
                self.s("(");
                let f = self.var();
                self.s(",");
                let x = self.var();
                self.s(")");
                Expression::Tuple(vec![f, x])
            }
            11 => {
                self.s("{");
                let f = self.id();
                self.s("=");
                let x = self.var();
                self.s("}");
                Expression::Record(vec![(f, x)])
            }
            12 => {
                self.s("{");
                let r = self.id();
                self.s("|");
                let f = self.id();
                self.s("=");
                let x = self.var();
                self.s(" }");
                Expression::RecordUpdate(r, vec![(f, x)])
            }
            13 => {
                self.s("()");
                Expression::Tuple(vec![])
            }
            14 => {
                self.s("(+)");
                v1("+")
            }
            _ => {
                self.s("[]");
                Expression::List(vec![])
            }
        }
    }
    /// one expression; kind 0..EXPRS; the last six extend as far right as they can
    pub fn expr(&mut self, kind: u32) -> Expression {
        if kind < TERMS {
            return self.term(kind);
        }
        match kind - TERMS {
            0 => {
                let f = self.var();
                self.s(" ");
                let x = self.var();
                app(f, x)
            }
            1 => {
                let f = self.var();
                self.s(" + ");
                let x = self.var();
                Expression::BinOp(bx(v1("+")), bx(f), bx(x))
            }
            2 => {
                self.s("if ");
                let f = self.var();
                self.s(" then ");
                let x = self.var();
                self.s(" else ");
                let y = self.var();
                Expression::If(bx(f), bx(x), bx(y))
            }
            3 => {
                self.s("let ");
                let f = self.var();
                self.s(" = ");
                let x = self.var();
                self.s(" in ");
                let y = self.var();
                Expression::Let(vec![LetEntry::LetBinding(f, x)], bx(y))
            }
            4 => {
                self.s("case ");
                let f = self.var();
                self.s(" of ");
                let x = self.var();
                self.s(" -> ");
                let y = self.var();
                Expression::Case(bx(f), vec![(x, y)])
            }
            _ => {
                self.s("\\");
                let x = self.var();
                self.s(" -> ");
                let y = self.var();
                Expression::Lambda(vec![x], bx(y))
            }
        }
    }
    /// a blank of some shape that ends on column `col` if it breaks the line
    pub fn gap(&mut self, col: usize) {
        match pick(6) {
            0 => self.s(" "),
            1 => self.s("   "),
            2 => self.nl(col),
            3 => {
                self.s(" ");
                self.s("\n\n");
                self.sp(col)
            }
            4 => {
                self.s(" -- x");
                self.nl(col)
            }
            _ => {
                self.s("\n--\n");
                self.sp(col)
            }
        }
    }
    /// as `gap`, or nothing at all
    pub fn ogap(&mut self, col: usize) {
        if flag() {
            self.gap(col)
        }
    }
    /// a type; kind 0..TYPES
    pub fn type_(&mut self, kind: u32) -> Type {
        match kind {
            0 => {
                let n = self.id();
                tvar(&n)
            }
            1 => {
                let n = self.up();
                tcon(&n, vec![])
            }
            2 => {
                let a = self.up();
                self.s(".");
                let b = self.up();
                Type::TypeConstructor(vec![a, b], vec![])
            }
            3 => {
                self.s("()");
                Type::TypeTuple(vec![])
            }
            4 => {
                self.s("(");
                let a = self.type_(0);
                self.s(",");
                let b = self.type_(1);
                self.s(")");
                Type::TypeTuple(vec![a, b])
            }
            5 => {
                self.s("{");
                let n = self.id();
                self.s(":");
                let t = self.type_(1);
                self.s("}");
                Type::TypeRecord(vec![(n, t)])
            }
            6 => {
                self.s("{ ");
                let r = self.id();
                self.s(" | ");
                let n = self.id();
                self.s(":");
                let t = self.type_(0);
                self.s(" }");
                Type::TypeRecordConstructor(Box::new(tvar(&r)), vec![(n, t)])
            }
            7 => {
                self.s("(");
                let a = self.type_(0);
                self.s(" -> ");
                let b = self.type_(1);
                self.s(")");
                tapp(a, b)
            }
            8 => {
                self.s("(");
                let a = self.up();
                self.s(" ");
                let b = self.type_(0);
                self.s(")");
                tcon(&a, vec![b])
            }
            _ => {
                self.s("{}");
                Type::TypeRecord(vec![])
            }
        }
    }
}
pub const TYPES: u32 = 10;

/// the parser must read `v` as exactly `want`
pub fn expect(v: &[u8], want: &[Statement]) {
    if judged(v) {
        return;
    }
    match parse(v) {
        Some(a) => check(a.as_slice() == want, "the tree is not the one the text denotes"),
        None => fail("a well-formed text is rejected"),
    }
    cover(1);
}
/// `v` is not in the language
pub fn reject(v: &[u8]) {
    if judged(v) {
        return;
    }
    check(parse(v).is_none(), "a text outside the language is accepted");
    cover(2);
}
/// `prefix`, `n` bytes of the set, `suffix`: parser and reference agree
pub fn win(prefix: &str, set: Set, n: usize, suffix: &str) {
    let mut b = B::new(prefix);
    b.any(set, n);
    b.s(suffix);
    agree(&b.t);
}
/// every text within one edit of a template: at each position `w` bytes of `set` are inserted
/// (`over` false) or written over the text there
pub fn edits(tpl: &[&str], set: Set, w: usize, over: bool) {
    let t = tpl[pick(tpl.len() as u32) as usize].as_bytes();
    let p = pick_wide(t.len() + 1);
    let mut v = t[..p].to_vec();
    for _ in 0..w {
        v.push(byte(set));
    }
    let q = if over { (p + w).min(t.len()) } else { p };
    v.extend_from_slice(&t[q..]);
    agree(&v);
}
/// every text that lacks up to `max` consecutive bytes of a template
pub fn cuts(tpl: &[&str], max: u32) {
    let t = tpl[pick(tpl.len() as u32) as usize].as_bytes();
    let p = pick_wide(t.len());
    let w = pick(max) as usize + 1;
    let mut v = t[..p].to_vec();
    v.extend_from_slice(&t[(p + w).min(t.len())..]);
    agree(&v);
}
pub fn whole(tpl: &[&str]) {
    let t = tpl[pick(tpl.len() as u32) as usize];
    check(agree(t.as_bytes()).is_some(), "template rejected");
    cover(3);
}

/// sizes of things that repeat
const COUNTS: [usize; 50] = [
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 24, 25, 26, 30, 31, 32, 33, 40, 50, 51, 63, 64, 65, 99,
    100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 513, 999, 1000, 1001, 1025,
];
pub fn count() -> usize {
    if unsafe { JUDGE.is_some() } {
        return [8, 10, 11, 17, 33, 65, 101, 130, 257, 1025][pick(10) as usize];
    }
    COUNTS[pick(COUNTS.len() as u32) as usize]
}
/// one of the first `n` of these sizes
pub fn few(n: u32) -> usize {
    [1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 33, 65][pick(n) as usize]
}
