//! Reference reader: the accepted language and the tree it denotes, written from the grammar as a
//! plain recursive descent over bytes.  It shares no code with the parser under test (no nom, no
//! regex) and is the oracle of the differential harnesses: `file(text)` is `Some(statements)` when
//! the text is a sequence of statements and `None` when it is not.

use super::ty::*;

type R<T> = Option<(T, usize)>;

#[derive(Clone, Copy, PartialEq)]
pub enum Rel {
    Eq,
    Gt,
    Ge,
}
use self::Rel::*;

const RESERVED: [&[u8]; 15] = [
    b"module", b"where", b"import", b"as", b"exposing", b"type", b"alias", b"port", b"if", b"then",
    b"else", b"let", b"in", b"case", b"of",
];
const RESERVED_OPS: [&[u8]; 7] = [b"=", b".", b"..", b"->", b"--", b"|", b":"];

pub fn is_lower(c: u8) -> bool {
    c.wrapping_sub(b'a') < 26
}
pub fn is_upper(c: u8) -> bool {
    c.wrapping_sub(b'A') < 26
}
pub fn is_digit(c: u8) -> bool {
    c.wrapping_sub(b'0') < 10
}
pub fn is_word(c: u8) -> bool {
    is_lower(c) | is_upper(c) | is_digit(c) | (c == b'_')
}
pub fn is_op(c: u8) -> bool {
    let mut r = false;
    for &o in b"+-/*=.$<>:&|^?%#@~!\\" {
        r |= c == o;
    }
    r
}
fn is_multi(c: u8) -> bool {
    (c == b' ') | (c == b'\t') | (c == b'\r') | (c == b'\n')
}

pub struct P<'a> {
    s: &'a [u8],
}

fn st(b: &[u8]) -> String {
    super::sym::text(b).to_string()
}
fn var1(n: String) -> Expression {
    Expression::Variable(vec![n])
}

impl<'a> P<'a> {
    pub fn new(s: &'a [u8]) -> P<'a> {
        P { s }
    }
    fn at(&self, i: usize, c: u8) -> bool {
        i < self.s.len() && self.s[i] == c
    }
    fn lit(&self, i: usize, w: &[u8]) -> Option<usize> {
        for (k, &c) in w.iter().enumerate() {
            if !self.at(i + k, c) {
                return None;
            }
        }
        Some(i + w.len())
    }
    fn run(&self, i: usize, f: fn(u8) -> bool) -> usize {
        let mut j = i;
        while j < self.s.len() && f(self.s[j]) {
            j += 1;
        }
        j
    }
    fn run1(&self, i: usize, f: fn(u8) -> bool) -> Option<usize> {
        let j = self.run(i, f);
        if j > i {
            Some(j)
        } else {
            None
        }
    }
    fn multi(&self, i: usize) -> usize {
        self.run(i, is_multi)
    }
    fn sp0(&self, i: usize) -> usize {
        self.run(i, |c| c == b' ')
    }
    fn sp1(&self, i: usize) -> Option<usize> {
        self.run1(i, |c| c == b' ')
    }
    fn nlsp1(&self, i: usize) -> Option<usize> {
        self.run1(i, |c| (c == b' ') | (c == b'\n'))
    }
    fn line(&self, i: usize) -> usize {
        self.run(i, |c| c != b'\n')
    }

    // ---- layout -----------------------------------------------------------------------------

    /// Blanks, line breaks and line comments; at least one.  If a line was broken, the column the
    /// text resumes at must stand in the relation to `ind`.
    pub fn gap(&self, i: usize, ind: u32, rel: Rel) -> R<u32> {
        let mut j = i;
        let mut broke = false;
        let mut col = 0;
        loop {
            if self.at(j, b' ') {
                j = self.sp0(j);
                col = ind;
            } else if self.at(j, b'\n') {
                broke = true;
                let k = self.sp0(j + 1);
                col = (k - j - 1) as u32;
                j = k;
            } else if self.at(j, b'-') && self.at(j + 1, b'-') {
                j = self.line(j);
                col = 0;
            } else {
                break;
            }
        }
        let ok = !broke
            || match rel {
                Eq => col == ind,
                Gt => col > ind,
                Ge => col >= ind,
            };
        if j == i || !ok {
            None
        } else {
            Some((col, j))
        }
    }
    fn ogap(&self, i: usize, ind: u32) -> usize {
        self.gap(i, ind, Ge).map(|x| x.1).unwrap_or(i)
    }

    // ---- names ------------------------------------------------------------------------------

    pub fn lo(&self, i: usize) -> R<String> {
        if self.at(i, b'_') {
            return Some(("_".to_string(), i + 1));
        }
        if i < self.s.len() && is_lower(self.s[i]) {
            let j = self.run(i + 1, is_word);
            let w = &self.s[i..j];
            if RESERVED.iter().any(|r| *r == w) {
                return None;
            }
            return Some((st(w), j));
        }
        None
    }
    pub fn up(&self, i: usize) -> R<String> {
        if i < self.s.len() && is_upper(self.s[i]) {
            let j = self.run(i + 1, is_word);
            return Some((st(&self.s[i..j]), j));
        }
        None
    }
    pub fn dotted(&self, i: usize) -> R<Vec<String>> {
        let (n, mut j) = self.up(i)?;
        let mut v = vec![n];
        while self.at(j, b'.') {
            match self.up(j + 1) {
                Some((n, k)) => {
                    v.push(n);
                    j = k;
                }
                None => break,
            }
        }
        Some((v, j))
    }
    pub fn op(&self, i: usize) -> R<String> {
        let j = self.run1(i, is_op)?;
        let w = &self.s[i..j];
        if RESERVED_OPS.iter().any(|r| *r == w) {
            return None;
        }
        Some((st(w), j))
    }
    fn paren_op(&self, i: usize) -> R<String> {
        if !self.at(i, b'(') {
            return None;
        }
        let (n, j) = self.op(i + 1)?;
        if self.at(j, b')') {
            Some((n, j + 1))
        } else {
            None
        }
    }
    fn fname(&self, i: usize) -> R<String> {
        self.lo(i).or_else(|| self.paren_op(i))
    }

    // ---- literals ---------------------------------------------------------------------------

    fn number(&self, i: usize) -> R<Expression> {
        let d = if self.at(i, b'+') || self.at(i, b'-') { i + 1 } else { i };
        let j = self.run1(d, is_digit)?;
        if self.at(j, b'.') {
            if let Some(k) = self.run1(j + 1, is_digit) {
                return Some((Expression::Float(st(&self.s[i..k])), k));
            }
        }
        Some((Expression::Integer(st(&self.s[i..j])), j))
    }
    fn string(&self, i: usize) -> R<Expression> {
        if let Some(a) = self.lit(i, b"\"\"\"") {
            let j = self.run(a, |c| c != b'"');
            if let Some(e) = self.lit(j, b"\"\"\"") {
                return Some((Expression::String(st(&self.s[a..j])), e));
            }
        }
        if !self.at(i, b'"') {
            return None;
        }
        let mut j = i + 1;
        loop {
            if self.at(j, b'\\') && (self.at(j + 1, b'\\') || self.at(j + 1, b'"')) {
                j += 2;
            } else if j < self.s.len() && self.s[j] != b'"' && self.s[j] != b'\n' {
                j += 1;
            } else {
                break;
            }
        }
        if self.at(j, b'"') {
            Some((Expression::String(st(&self.s[i + 1..j])), j + 1))
        } else {
            None
        }
    }
    fn hex(c: u8) -> Option<u32> {
        let l = c | 0x20;
        if is_digit(c) {
            Some((c - b'0') as u32)
        } else if l.wrapping_sub(b'a') < 6 {
            Some((l - b'a') as u32 + 10)
        } else {
            None
        }
    }
    fn character(&self, i: usize) -> R<Expression> {
        if !self.at(i, b'\'') {
            return None;
        }
        if self.at(i + 1, b'\\') && self.at(i + 2, b'x') && self.s.len() >= i + 6 && self.s[i + 3] < 128 && self.s[i + 4] < 128 {
            if let (Some(h), Some(l)) = (P::hex(self.s[i + 3]), P::hex(self.s[i + 4])) {
                let c = char::from_u32(h * 16 + l).unwrap();
                return if self.at(i + 5, b'\'') { Some((Expression::Character(c), i + 6)) } else { None };
            }
        }
        let rest = super::sym::text(&self.s[i + 1..]);
        let c = rest.chars().next()?;
        let j = i + 1 + c.len_utf8();
        if self.at(j, b'\'') {
            Some((Expression::Character(c), j + 1))
        } else {
            None
        }
    }

    // ---- expressions ------------------------------------------------------------------------

    fn variable(&self, i: usize) -> R<Expression> {
        if let Some((n, j)) = self.lo(i) {
            return Some((var1(n), j));
        }
        if let Some((v, j)) = self.dotted(i) {
            return Some((Expression::Variable(v), j));
        }
        if let Some((n, j)) = self.paren_op(i) {
            return Some((var1(n), j));
        }
        if self.at(i, b'(') {
            let j = self.run1(i + 1, |c| c == b',')?;
            if self.at(j, b')') {
                return Some((var1(st(&self.s[i + 1..j])), j + 1));
            }
        }
        None
    }

    pub fn term(&self, i: usize, ind: u32) -> R<Expression> {
        if let Some((v, mut j)) = self.variable(i) {
            let mut path = Vec::new();
            while self.at(j, b'.') {
                match self.lo(j + 1) {
                    Some((n, k)) => {
                        path.push(n);
                        j = k;
                    }
                    None => break,
                }
            }
            return Some((if path.is_empty() { v } else { Expression::Access(Box::new(v), path) }, j));
        }
        if i >= self.s.len() {
            return None;
        }
        match self.s[i] {
            b'.' => {
                let (n, j) = self.lo(i + 1)?;
                Some((Expression::AccessFunction(n), j))
            }
            b'"' => self.string(i),
            b'\'' => self.character(i),
            b'(' => self.parens(i, ind),
            b'[' => self.list(i, ind),
            b'{' => self.record_update(i, ind).or_else(|| self.record(i, ind)).or_else(|| self.field_names(i)),
            _ => self.number(i),
        }
    }

    /// `( e )`, `( e , e )`, `()`: one expression is that expression, otherwise a tuple
    fn parens(&self, i: usize, ind: u32) -> R<Expression> {
        if !self.at(i, b'(') {
            return None;
        }
        let mut v = Vec::new();
        let mut j = i + 1;
        if let Some((e, k)) = self.expression(self.multi(j), ind) {
            v.push(e);
            j = self.multi(k);
            while self.at(j, b',') {
                match self.expression(self.multi(j + 1), ind) {
                    Some((e, k)) => {
                        v.push(e);
                        j = self.multi(k);
                    }
                    None => break,
                }
            }
        }
        if !self.at(j, b')') {
            return None;
        }
        Some((if v.len() == 1 { v.pop().unwrap() } else { Expression::Tuple(v) }, j + 1))
    }

    /// `item (gap? , gap? item)*`, possibly empty
    fn commas<T>(&self, i: usize, ind: u32, f: &dyn Fn(usize) -> R<T>) -> (Vec<T>, usize) {
        let mut v = Vec::new();
        let (x, mut j) = match f(i) {
            Some(x) => x,
            None => return (v, i),
        };
        v.push(x);
        loop {
            let k = self.ogap(j, ind);
            if !self.at(k, b',') {
                break;
            }
            match f(self.ogap(k + 1, ind)) {
                Some((x, e)) => {
                    v.push(x);
                    j = e;
                }
                None => break,
            }
        }
        (v, j)
    }
    fn close(&self, i: usize, ind: u32, c: u8) -> Option<usize> {
        let j = self.ogap(i, ind);
        if self.at(j, c) {
            Some(j + 1)
        } else {
            None
        }
    }

    fn list(&self, i: usize, ind: u32) -> R<Expression> {
        if !self.at(i, b'[') {
            return None;
        }
        let (v, j) = self.commas(self.ogap(i + 1, ind), ind, &|p| self.expression(p, ind));
        Some((Expression::List(v), self.close(j, ind, b']')?))
    }
    fn record(&self, i: usize, ind: u32) -> R<Expression> {
        if !self.at(i, b'{') {
            return None;
        }
        let (v, j) = self.commas(self.ogap(i + 1, ind), ind, &|p| {
            let (n, k) = self.lo(p)?;
            let k = self.ogap(k, ind);
            if !self.at(k, b'=') {
                return None;
            }
            let (e, k) = self.expression(self.ogap(k + 1, ind), ind)?;
            Some(((n, e), k))
        });
        Some((Expression::Record(v), self.close(j, ind, b'}')?))
    }
    fn record_update(&self, i: usize, ind: u32) -> R<Expression> {
        if !self.at(i, b'{') {
            return None;
        }
        let (n, j) = self.lo(self.ogap(i + 1, ind))?;
        let j = self.ogap(j, ind);
        if !self.at(j, b'|') {
            return None;
        }
        let (v, j) = self.commas(self.multi(j + 1), ind, &|p| {
            let (n, k) = self.lo(p)?;
            let k = self.multi(k);
            if !self.at(k, b'=') {
                return None;
            }
            let (e, k) = self.expression(self.multi(k + 1), ind)?;
            Some(((n, e), k))
        });
        let (_, j) = self.gap(j, ind, Ge)?;
        if self.at(j, b'}') {
            Some((Expression::RecordUpdate(n, v), j + 1))
        } else {
            None
        }
    }
    /// `{ a, b }`: the record pattern, each field bound to its own name
    fn field_names(&self, i: usize) -> R<Expression> {
        if !self.at(i, b'{') {
            return None;
        }
        let mut v = Vec::new();
        let mut j = i + 1;
        let mut from = j;
        while let Some((n, k)) = self.lo(self.multi(from)) {
            v.push((n.clone(), var1(n)));
            j = self.multi(k);
            if !self.at(j, b',') {
                break;
            }
            from = j + 1;
        }
        if self.at(j, b'}') {
            Some((Expression::Record(v), j + 1))
        } else {
            None
        }
    }

    fn application(&self, i: usize, ind: u32) -> R<Expression> {
        let (mut e, mut j) = self.term(i, ind)?;
        while let Some((_, k)) = self.gap(j, ind, Gt) {
            match self.term(k, ind) {
                Some((a, k)) => {
                    e = Expression::Application(Box::new(e), Box::new(a));
                    j = k;
                }
                None => break,
            }
        }
        Some((e, j))
    }
    fn binop_tail(&self, i: usize, ind: u32) -> R<(Expression, Expression)> {
        let (_, j) = self.gap(i, ind, Ge)?;
        let (o, j) = match self.lit(j, b"as") {
            Some(k) => ("as".to_string(), k),
            None => self.op(j)?,
        };
        let j = self.run1(j, is_multi)?;
        let (e, j) = self.expression(j, ind)?;
        Some(((var1(o), e), j))
    }

    pub fn expression(&self, i: usize, ind: u32) -> R<Expression> {
        if let Some((l, j)) = self.application(i, ind) {
            return match self.binop_tail(j, ind) {
                Some(((o, r), j)) => Some((Expression::BinOp(Box::new(o), Box::new(l), Box::new(r)), j)),
                None => Some((l, j)),
            };
        }
        if i >= self.s.len() {
            return None;
        }
        match self.s[i] {
            b'l' => self.let_(i, ind),
            b'c' => self.case(i, ind),
            b'i' => self.if_(i, ind),
            b'\\' => self.lambda(i, ind),
            _ => None,
        }
    }

    fn lambda(&self, i: usize, ind: u32) -> R<Expression> {
        let (a, mut j) = self.term(i + 1, ind)?;
        let mut args = vec![a];
        while let Some(k) = self.run1(j, |c| (c == b' ') | (c == b'\t')) {
            match self.term(k, ind) {
                Some((a, k)) => {
                    args.push(a);
                    j = k;
                }
                None => break,
            }
        }
        let (_, j) = self.gap(j, ind, Ge)?;
        let j = self.lit(j, b"->")?;
        let (b, j) = self.sub(j, ind, Ge)?;
        Some((Expression::Lambda(args, Box::new(b)), j))
    }
    /// gap, then an expression laid out at the column the gap ended on
    fn sub(&self, i: usize, ind: u32, rel: Rel) -> R<Expression> {
        let (n, j) = self.gap(i, ind, rel)?;
        self.expression(j, n)
    }

    fn let_entry(&self, i: usize, ind: u32) -> R<LetEntry> {
        self.let_binding(i, ind).or_else(|| self.function(i, ind).map(|(f, j)| (LetEntry::LetFunction(f), j)))
    }
    fn let_binding(&self, i: usize, ind: u32) -> R<LetEntry> {
        let target = self.variable(i).or_else(|| self.list(i, ind)).or_else(|| self.parens(i, ind)).or_else(|| self.field_names(i));
        let (t, j) = target?;
        let (_, j) = self.gap(j, ind, Ge)?;
        if !self.at(j, b'=') {
            return None;
        }
        let (e, j) = self.sub(j + 1, ind, Ge)?;
        Some((LetEntry::LetBinding(t, e), j))
    }
    fn let_(&self, i: usize, ind: u32) -> R<Expression> {
        let j = self.lit(i, b"let")?;
        let (n, j) = self.gap(j, ind, Ge)?;
        let (e, mut j) = self.let_entry(j, n)?;
        let mut v = vec![e];
        while let Some((_, k)) = self.gap(j, n, Eq) {
            match self.let_entry(k, n) {
                Some((e, k)) => {
                    v.push(e);
                    j = k;
                }
                None => break,
            }
        }
        let (_, j) = self.gap(j, ind, Ge)?;
        let j = self.lit(j, b"in")?;
        let (_, j) = self.gap(j, ind, Ge)?;
        let (b, j) = self.expression(j, ind)?;
        Some((Expression::Let(v, Box::new(b)), j))
    }
    fn branch(&self, i: usize, ind: u32) -> R<(Expression, Expression)> {
        let (p, j) = self.expression(i, ind)?;
        let (_, j) = self.gap(j, ind, Ge)?;
        let j = self.lit(j, b"->")?;
        let (e, j) = self.sub(j, ind, Ge)?;
        Some(((p, e), j))
    }
    fn case(&self, i: usize, ind: u32) -> R<Expression> {
        let j = self.lit(i, b"case")?;
        let (_, j) = self.gap(j, ind, Ge)?;
        let (e, j) = self.expression(j, ind)?;
        let (_, j) = self.gap(j, ind, Ge)?;
        let j = self.lit(j, b"of")?;
        let (n, j) = self.gap(j, ind, Ge)?;
        let (b, mut j) = self.branch(j, n)?;
        let mut v = vec![b];
        while let Some((_, k)) = self.gap(j, n, Eq) {
            match self.branch(k, n) {
                Some((b, k)) => {
                    v.push(b);
                    j = k;
                }
                None => break,
            }
        }
        Some((Expression::Case(Box::new(e), v), j))
    }
    fn if_(&self, i: usize, ind: u32) -> R<Expression> {
        let j = self.lit(i, b"if")?;
        let (_, j) = self.gap(j, ind, Ge)?;
        let (c, j) = self.expression(j, ind)?;
        let (_, j) = self.gap(j, ind, Ge)?;
        let j = self.lit(j, b"then")?;
        let (t, j) = self.sub(j, ind, Ge)?;
        let (_, j) = self.gap(j, ind, Ge)?;
        let j = self.lit(j, b"else")?;
        let (e, j) = self.sub(j, ind, Ge)?;
        Some((Expression::If(Box::new(c), Box::new(t), Box::new(e)), j))
    }

    // ---- functions --------------------------------------------------------------------------

    fn signature(&self, i: usize, ind: u32) -> R<FunctionSignature> {
        let (name, j) = self.fname(i)?;
        let j = self.sp1(j)?;
        if !self.at(j, b':') {
            return None;
        }
        let (n, j) = self.gap(j + 1, ind, Gt)?;
        let (type_, j) = self.type_annotation(j, n)?;
        Some((FunctionSignature { name, type_ }, j))
    }
    fn definition(&self, i: usize, ind: u32) -> R<FunctionDefinition> {
        let (name, mut j) = self.fname(i)?;
        let mut args = Vec::new();
        while let Some(k) = self.sp1(j) {
            match self.term(k, ind) {
                Some((a, k)) => {
                    args.push(a);
                    j = k;
                }
                None => break,
            }
        }
        let j = self.sp1(j)?;
        if !self.at(j, b'=') {
            return None;
        }
        let (body, j) = self.sub(j + 1, ind, Gt)?;
        Some((FunctionDefinition { name, args, body }, j))
    }
    pub fn function(&self, i: usize, ind: u32) -> R<Function> {
        let (signature, j) = self
            .signature(i, ind)
            .and_then(|(s, j)| {
                if !self.at(j, b'\n') {
                    return None;
                }
                let k = self.sp0(j + 1);
                if (k - j - 1) as u32 == ind {
                    Some((Some(s), k))
                } else {
                    None
                }
            })
            .unwrap_or((None, i));
        let (definition, j) = self.definition(j, ind)?;
        Some((Function { signature, definition }, j))
    }

    // ---- types ------------------------------------------------------------------------------

    fn type_variable(&self, i: usize) -> R<Type> {
        if i < self.s.len() && is_lower(self.s[i]) {
            let j = self.run(i + 1, is_word);
            return Some((Type::TypeVariable(st(&self.s[i..j])), j));
        }
        None
    }
    fn type_pairs(&self, i: usize, ind: u32) -> (Vec<(String, Type)>, usize) {
        self.commas(i, ind, &|p| {
            let (n, k) = self.lo(p)?;
            let k = self.ogap(k, ind);
            if !self.at(k, b':') {
                return None;
            }
            let (t, k) = self.type_annotation(self.ogap(k + 1, ind), ind)?;
            Some(((n, t), k))
        })
    }
    fn type_braces(&self, i: usize, ind: u32) -> R<Type> {
        if !self.at(i, b'{') {
            return None;
        }
        if let Some(x) = self.type_extension(i, ind) {
            return Some(x);
        }
        let (v, j) = self.type_pairs(self.ogap(i + 1, ind), ind);
        Some((Type::TypeRecord(v), self.close(j, ind, b'}')?))
    }
    fn type_extension(&self, i: usize, ind: u32) -> R<Type> {
        let (_, j) = self.gap(i + 1, ind, Ge)?;
        let (v, j) = self.type_variable(j)?;
        let (_, j) = self.gap(j, ind, Ge)?;
        if !self.at(j, b'|') {
            return None;
        }
        let (_, j) = self.gap(j + 1, ind, Ge)?;
        let (f, j) = self.type_pairs(j, ind);
        let (_, j) = self.gap(j, ind, Ge)?;
        if self.at(j, b'}') {
            Some((Type::TypeRecordConstructor(Box::new(v), f), j + 1))
        } else {
            None
        }
    }
    fn type_parens(&self, i: usize, ind: u32) -> R<Type> {
        if !self.at(i, b'(') {
            return None;
        }
        let a = self.ogap(i + 1, ind);
        let (mut v, j) = self.commas(a, ind, &|p| self.type_(p, ind));
        if let Some(e) = self.close(j, ind, b')') {
            return Some((if v.len() == 1 { v.pop().unwrap() } else { Type::TypeTuple(v) }, e));
        }
        let (t, j) = self.type_annotation(a, ind)?;
        Some((t, self.close(j, ind, b')')?))
    }
    fn type_atom(&self, i: usize, ind: u32) -> R<Type> {
        self.type_variable(i).or_else(|| self.type_braces(i, ind)).or_else(|| self.type_parens(i, ind))
    }
    pub fn type_constructor(&self, i: usize, ind: u32) -> R<Type> {
        let (n, mut j) = self.dotted(i)?;
        let mut args = Vec::new();
        while let Some((col, k)) = self.gap(j, ind, Gt) {
            let a = match self.dotted(k) {
                Some((v, e)) => Some((Type::TypeConstructor(v, vec![]), e)),
                None => self.type_atom(k, col),
            };
            match a {
                Some((t, k)) => {
                    args.push(t);
                    j = k;
                }
                None => break,
            }
        }
        Some((Type::TypeConstructor(n, args), j))
    }
    pub fn type_(&self, i: usize, ind: u32) -> R<Type> {
        self.type_constructor(i, ind).or_else(|| self.type_atom(i, ind))
    }
    pub fn type_annotation(&self, i: usize, ind: u32) -> R<Type> {
        let (t, mut j) = self.type_(i, ind)?;
        let mut v = vec![t];
        loop {
            let next = self
                .nlsp1(j)
                .and_then(|k| self.lit(k, b"->"))
                .and_then(|k| self.nlsp1(k))
                .and_then(|k| self.type_(k, ind));
            match next {
                Some((t, k)) => {
                    v.push(t);
                    j = k;
                }
                None => break,
            }
        }
        let mut t = v.pop().unwrap();
        while let Some(a) = v.pop() {
            t = Type::TypeApplication(Box::new(a), Box::new(t));
        }
        Some((t, j))
    }

    // ---- statements -------------------------------------------------------------------------

    fn export_item(&self, i: usize) -> R<ExportSet> {
        if let Some((n, j)) = self.fname(i) {
            return Some((ExportSet::FunctionExport(n), j));
        }
        let (n, j) = self.up(i)?;
        if self.at(j, b'(') {
            if let Some(k) = self.lit(j + 1, b"..") {
                if self.at(k, b')') {
                    return Some((ExportSet::TypeExport(n, Some(Box::new(ExportSet::AllExport))), k + 1));
                }
            }
            if let Some((c, mut k)) = self.up(j + 1) {
                let mut v = vec![ExportSet::FunctionExport(c)];
                while let Some((c, e)) = self.lit(k, b", ").and_then(|p| self.up(p)) {
                    v.push(ExportSet::FunctionExport(c));
                    k = e;
                }
                if self.at(k, b')') {
                    return Some((ExportSet::TypeExport(n, Some(Box::new(ExportSet::SubsetExport(v)))), k + 1));
                }
            }
        }
        Some((ExportSet::TypeExport(n, None), j))
    }
    pub fn exports(&self, i: usize) -> R<ExportSet> {
        if !self.at(i, b'(') {
            return None;
        }
        let j = self.ogap(i + 1, 0);
        let (x, j) = match self.lit(j, b"..") {
            Some(k) => (ExportSet::AllExport, k),
            None => {
                let (x, mut j) = self.export_item(j)?;
                let mut v = vec![x];
                loop {
                    let k = self.nlsp1(j).unwrap_or(j);
                    if !self.at(k, b',') {
                        break;
                    }
                    let k = self.nlsp1(k + 1).unwrap_or(k + 1);
                    match self.export_item(k) {
                        Some((x, k)) => {
                            v.push(x);
                            j = k;
                        }
                        None => break,
                    }
                }
                (ExportSet::SubsetExport(v), j)
            }
        };
        Some((x, self.close(j, 0, b')')?))
    }
    fn word_gap(&self, i: usize, w: &[u8]) -> Option<usize> {
        let j = self.lit(i, w)?;
        Some(self.gap(j, 0, Gt)?.1)
    }
    fn module(&self, i: usize) -> R<Statement> {
        let (kind, j) = if let Some(j) = self.word_gap(i, b"port").and_then(|j| self.word_gap(j, b"module")) {
            (1, j)
        } else if let Some(j) = self.word_gap(i, b"effect").and_then(|j| self.word_gap(j, b"module")) {
            (2, j)
        } else {
            (0, self.word_gap(i, b"module")?)
        };
        let (name, j) = self.dotted(j)?;
        let (_, mut j) = self.gap(j, 0, Gt)?;
        let mut wh = Vec::new();
        if kind == 2 {
            j = self.word_gap(j, b"where")?;
            if !self.at(j, b'{') {
                return None;
            }
            j += 1;
            let mut from = j;
            while let Some((x, k)) = self.effect_entry(from) {
                wh.push(x);
                j = k;
                match self.lit(k, b", ") {
                    Some(k) => from = k,
                    None => break,
                }
            }
            if !self.at(j, b'}') {
                return None;
            }
            j = self.gap(j + 1, 0, Gt)?.1;
        }
        let j = self.word_gap(j, b"exposing")?;
        let (e, j) = self.exports(j)?;
        Some((
            match kind {
                0 => Statement::ModuleDeclaration(name, e),
                1 => Statement::PortModuleDeclaration(name, e),
                _ => Statement::EffectModuleDeclaration(name, wh, e),
            },
            j,
        ))
    }
    fn effect_entry(&self, i: usize) -> R<(String, String)> {
        let (l, j) = self.lo(i)?;
        let j = self.sp0(j);
        if !self.at(j, b'=') {
            return None;
        }
        let (u, j) = self.up(self.sp0(j + 1))?;
        Some(((l, u), j))
    }
    fn import(&self, i: usize) -> R<Statement> {
        let j = self.sp1(self.lit(i, b"import")?)?;
        let (name, mut j) = self.dotted(j)?;
        let mut alias = None;
        let mut exp = None;
        let word = |j: usize, w: &[u8]| self.sp1(j).and_then(|k| self.lit(k, w)).and_then(|k| self.sp1(k));
        if let Some((a, k)) = word(j, b"as").and_then(|k| self.up(k)) {
            alias = Some(a);
            j = k;
        }
        if let Some((e, k)) = word(j, b"exposing").and_then(|k| self.exports(k)) {
            exp = Some(e);
            j = k;
        }
        Some((Statement::ImportStatement(name, alias, exp), j))
    }
    fn type_decl(&self, i: usize) -> R<Statement> {
        let j = self.sp1(self.lit(i, b"type")?)?;
        if let Some(x) = self.type_alias(j) {
            return Some(x);
        }
        let (name, j) = self.type_(j, 0)?;
        let (n, j) = self.gap(j, 0, Gt)?;
        if !self.at(j, b'=') {
            return None;
        }
        let (_, j) = self.gap(j + 1, n, Ge)?;
        let (c, mut j) = self.type_constructor(j, n)?;
        let mut v = vec![c];
        while let Some((_, k)) = self.gap(j, n, Ge) {
            if !self.at(k, b'|') {
                break;
            }
            match self.sp1(k + 1).and_then(|k| self.type_constructor(k, n)) {
                Some((c, k)) => {
                    v.push(c);
                    j = k;
                }
                None => break,
            }
        }
        Some((Statement::TypeDeclaration(name, v), j))
    }
    fn type_alias(&self, i: usize) -> R<Statement> {
        let j = self.sp1(self.lit(i, b"alias")?)?;
        let (name, j) = self.type_(j, 0)?;
        let j = self.sp1(j)?;
        if !self.at(j, b'=') {
            return None;
        }
        let (_, j) = self.gap(j + 1, 1, Ge)?;
        let (t, j) = self.type_annotation(j, 1)?;
        Some((Statement::TypeAliasDeclaration(name, t), j))
    }
    fn port(&self, i: usize) -> R<Statement> {
        let j = self.sp1(self.lit(i, b"port")?)?;
        let (name, mut j) = self.lo(j)?;
        let k = self.sp1(j)?;
        if self.at(k, b':') {
            let (n, k) = self.gap(k + 1, 0, Gt)?;
            let (t, k) = self.type_annotation(k, n)?;
            return Some((Statement::PortTypeDeclaration(name, t), k));
        }
        let mut args = Vec::new();
        while let Some((a, k)) = self.sp1(j).and_then(|k| self.lo(k)) {
            args.push(a);
            j = k;
        }
        let j = self.sp1(j)?;
        if !self.at(j, b'=') {
            return None;
        }
        let (e, j) = self.sub(j + 1, 0, Gt)?;
        Some((Statement::PortDeclaration(name, args, e), j))
    }
    fn infix(&self, i: usize) -> R<Statement> {
        let j = self.lit(i, b"infix")?;
        let (a, j) = if self.at(j, b'l') {
            (Assoc::L, j + 1)
        } else if self.at(j, b'r') {
            (Assoc::R, j + 1)
        } else {
            (Assoc::N, j)
        };
        let j = self.sp1(j)?;
        let k = self.run1(j, is_digit)?;
        let mut n = 0i64;
        for &c in &self.s[j..k] {
            n = n.checked_mul(10)?.checked_add((c - b'0') as i64)?;
        }
        let k = self.sp1(k)?;
        let (name, k) = self.lo(k).or_else(|| self.op(k))?;
        Some((Statement::InfixDeclaration(a, n, name), k))
    }
    fn comment(&self, i: usize) -> R<Statement> {
        if let Some(a) = self.lit(i, b"--") {
            let j = self.line(a);
            return Some((Statement::Comment(st(&self.s[a..j])), j));
        }
        let a = self.lit(i, b"{-")?;
        let mut j = a;
        while j + 1 < self.s.len() {
            if self.s[j] == b'-' && self.s[j + 1] == b'}' {
                return Some((Statement::Comment(st(&self.s[a..j])), j + 2));
            }
            j += 1;
        }
        None
    }
    pub fn statement(&self, i: usize) -> R<Statement> {
        self.module(i)
            .or_else(|| self.import(i))
            .or_else(|| self.type_decl(i))
            .or_else(|| self.port(i))
            .or_else(|| self.function(i, 0).map(|(f, j)| (Statement::Function(f), j)))
            .or_else(|| self.infix(i))
            .or_else(|| self.comment(i))
    }
    pub fn file(&self) -> Option<Vec<Statement>> {
        let mut v = Vec::new();
        let (s, mut j) = self.statement(self.multi(0))?;
        v.push(s);
        while let Some(k) = self.run1(j, is_multi) {
            match self.statement(k) {
                Some((s, k)) => {
                    v.push(s);
                    j = k;
                }
                None => break,
            }
        }
        if self.multi(j) == self.s.len() {
            Some(v)
        } else {
            None
        }
    }
}

pub fn file(s: &[u8]) -> Option<Vec<Statement>> {
    P::new(s).file()
}
