//! Stand-in for the `regex` crate used when the parser is executed symbolically.
//!
//! The regex crate is a dependency of the code under test, not the code under test; its
//! lazily built DFA tables are hostile to symbolic execution.  This crate implements the same
//! documented contract (leftmost-first matching, `find_iter` semantics) with a small
//! backtracking VM whose character-class test is one branch-free expression per byte.
//! Native replay of counterexamples and the agreement test in /verif/replay use the real crate.

use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

mod uni;

#[derive(Clone)]
struct Class {
    /// sorted, non overlapping, inclusive
    ranges: Vec<(u32, u32)>,
}

#[derive(Clone)]
enum Node {
    Empty,
    Class(Class),
    Start,
    End,
    LineStart,
    LineEnd,
    WordB,
    NotWordB,
    Cat(Vec<Node>),
    Alt(Vec<Node>),
    Rep(Box<Node>, usize, Option<usize>, bool),
    Group(Box<Node>, usize),
}

#[derive(Clone)]
enum Inst {
    Class(Class),
    Start,
    End,
    LineStart,
    LineEnd,
    WordB(bool),
    /// try .0 first, then .1
    Split(usize, usize),
    Jmp(usize),
    Save(usize),
    /// remember position in counter slot
    Mark(usize),
    /// fail unless position advanced since mark
    Check(usize),
    Match,
}

struct Prog {
    insts: Vec<Inst>,
    ncap: usize,
    nmark: usize,
    anchored: bool,
}

#[derive(Clone, PartialEq)]
pub enum Error {
    Syntax(String),
}

impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let Error::Syntax(s) = self;
        f.write_str(s)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let Error::Syntax(s) = self;
        f.write_str(s)
    }
}
impl std::error::Error for Error {}

struct Parser<'a> {
    s: &'a [char],
    i: usize,
    ngroup: usize,
    icase: bool,
    multi: bool,
    dotall: bool,
    swap: bool,
    extended: bool,
}

const MAXC: u32 = 0x10FFFF;

fn norm(mut r: Vec<(u32, u32)>) -> Vec<(u32, u32)> {
    r.sort();
    let mut out: Vec<(u32, u32)> = Vec::new();
    for (a, b) in r {
        if let Some(l) = out.last_mut() {
            if a <= l.1.saturating_add(1) {
                if b > l.1 {
                    l.1 = b;
                }
                continue;
            }
        }
        out.push((a, b));
    }
    out
}

fn negate(r: Vec<(u32, u32)>) -> Vec<(u32, u32)> {
    let r = norm(r);
    let mut out = Vec::new();
    let mut next = 0u32;
    for (a, b) in r {
        if a > next {
            out.push((next, a - 1));
        }
        next = b + 1;
    }
    if next <= MAXC {
        out.push((next, MAXC));
    }
    out
}

type R<T> = Result<T, Error>;

fn unsupported<T>(what: &str) -> R<T> {
    panic!("regex-shim: unsupported syntax: {}", what)
}

impl<'a> Parser<'a> {
    fn err<T>(&self, m: &str) -> R<T> {
        Err(Error::Syntax(m.to_string()))
    }
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).cloned()
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn alt(&mut self) -> R<Node> {
        let mut alts = vec![self.cat()?];
        while self.eat('|') {
            alts.push(self.cat()?);
        }
        Ok(if alts.len() == 1 { alts.pop().unwrap() } else { Node::Alt(alts) })
    }
    fn cat(&mut self) -> R<Node> {
        let mut v = Vec::new();
        loop {
            match self.peek() {
                None | Some('|') | Some(')') => break,
                _ => {}
            }
            if self.extended {
                let c = self.peek().unwrap();
                if c == ' ' || c == '\n' || c == '\t' || c == '\r' {
                    self.i += 1;
                    continue;
                }
                if c == '#' {
                    while let Some(c) = self.peek() {
                        self.i += 1;
                        if c == '\n' {
                            break;
                        }
                    }
                    continue;
                }
            }
            let a = self.atom()?;
            v.push(self.repeat(a)?);
        }
        Ok(match v.len() {
            0 => Node::Empty,
            1 => v.pop().unwrap(),
            _ => Node::Cat(v),
        })
    }
    fn repeat(&mut self, mut a: Node) -> R<Node> {
        loop {
            let (lo, hi) = match self.peek() {
                Some('*') => {
                    self.i += 1;
                    (0, None)
                }
                Some('+') => {
                    self.i += 1;
                    (1, None)
                }
                Some('?') => {
                    self.i += 1;
                    (0, Some(1))
                }
                Some('{') => {
                    self.i += 1;
                    let lo = self.number()?;
                    let hi = if self.eat(',') {
                        if self.peek() == Some('}') {
                            None
                        } else {
                            Some(self.number()?)
                        }
                    } else {
                        Some(lo)
                    };
                    if !self.eat('}') {
                        return self.err("unclosed counted repetition");
                    }
                    if let Some(h) = hi {
                        if h < lo {
                            return self.err("invalid repetition range");
                        }
                    }
                    (lo, hi)
                }
                _ => return Ok(a),
            };
            let mut greedy = !self.eat('?');
            if self.swap {
                greedy = !greedy;
            }
            a = Node::Rep(Box::new(a), lo, hi, greedy);
        }
    }
    fn number(&mut self) -> R<usize> {
        let mut n = 0usize;
        let mut any = false;
        while let Some(c) = self.peek() {
            if let Some(d) = c.to_digit(10) {
                n = n * 10 + d as usize;
                any = true;
                self.i += 1;
            } else {
                break;
            }
        }
        if any {
            Ok(n)
        } else {
            self.err("repetition quantifier expects a valid decimal")
        }
    }
    fn mk(&self, r: Vec<(u32, u32)>) -> Node {
        Node::Class(Class { ranges: self.fold(r) })
    }
    fn fold(&self, mut r: Vec<(u32, u32)>) -> Vec<(u32, u32)> {
        if self.icase {
            let orig = r.clone();
            for (a, b) in orig {
                if b >= 0x80 && !(a < 0x80) {
                    let _ = unsupported::<()>("case folding outside ASCII");
                }
                for c in a..=b.min(0x7f) {
                    let ch = char::from_u32(c).unwrap();
                    if ch.is_ascii_alphabetic() {
                        let o = (c ^ 0x20, c ^ 0x20);
                        r.push(o);
                        // the two non ASCII simple case folds of ASCII letters
                        if ch == 'k' || ch == 'K' {
                            r.push((0x212A, 0x212A));
                        }
                        if ch == 's' || ch == 'S' {
                            r.push((0x17F, 0x17F));
                        }
                    }
                }
            }
        }
        norm(r)
    }
    fn atom(&mut self) -> R<Node> {
        let c = self.peek().unwrap();
        self.i += 1;
        match c {
            '(' => {
                if self.eat('?') {
                    // flags / non capturing / named
                    if self.eat('P') {
                        if !self.eat('<') {
                            return self.err("bad group name");
                        }
                        while let Some(c) = self.peek() {
                            self.i += 1;
                            if c == '>' {
                                break;
                            }
                        }
                        let idx = self.ngroup;
                        self.ngroup += 1;
                        return self.group(Some(idx), None);
                    }
                    let save = (self.icase, self.multi, self.dotall, self.swap, self.extended);
                    let mut on = true;
                    loop {
                        let f = match self.peek() {
                            Some(f) => f,
                            None => return self.err("unclosed flags"),
                        };
                        self.i += 1;
                        match f {
                            'i' => self.icase = on,
                            'm' => self.multi = on,
                            's' => self.dotall = on,
                            'U' => self.swap = on,
                            'x' => self.extended = on,
                            'u' => {
                                if !on {
                                    return unsupported("(?-u)");
                                }
                            }
                            '-' => on = false,
                            ')' => return Ok(Node::Empty),
                            ':' => return self.group(None, Some(save)),
                            _ => return self.err("unrecognized flag"),
                        }
                    }
                }
                let idx = self.ngroup;
                self.ngroup += 1;
                self.group(Some(idx), None)
            }
            '[' => {
                let r = self.class()?;
                Ok(Node::Class(Class { ranges: r }))
            }
            '.' => Ok(self.mk(if self.dotall {
                vec![(0, MAXC)]
            } else {
                vec![(0, 9), (11, MAXC)]
            })),
            '^' => Ok(if self.multi { Node::LineStart } else { Node::Start }),
            '$' => Ok(if self.multi { Node::LineEnd } else { Node::End }),
            '*' | '+' | '?' => self.err("repetition operator missing expression"),
            '{' => self.err("repetition operator missing expression"),
            '\\' => self.escape(),
            c => Ok(self.mk(vec![(c as u32, c as u32)])),
        }
    }
    fn group(&mut self, idx: Option<usize>, outer: Option<(bool, bool, bool, bool, bool)>) -> R<Node> {
        let save = outer.unwrap_or((self.icase, self.multi, self.dotall, self.swap, self.extended));
        let n = self.alt()?;
        if !self.eat(')') {
            return self.err("unclosed group");
        }
        self.icase = save.0;
        self.multi = save.1;
        self.dotall = save.2;
        self.swap = save.3;
        self.extended = save.4;
        Ok(match idx {
            Some(i) => Node::Group(Box::new(n), i),
            None => n,
        })
    }
    fn perl(&self, c: char) -> Option<Vec<(u32, u32)>> {
        // Unicode aware, with the tables of the crate
        let base: Vec<(u32, u32)> = match c.to_ascii_lowercase() {
            'd' => uni::DIGIT.to_vec(),
            's' => vec![
                (9, 13),
                (32, 32),
                (0x85, 0x85),
                (0xA0, 0xA0),
                (0x1680, 0x1680),
                (0x2000, 0x200A),
                (0x2028, 0x2029),
                (0x202F, 0x202F),
                (0x205F, 0x205F),
                (0x3000, 0x3000),
            ],
            'w' => uni::WORD.to_vec(),
            _ => return None,
        };
        Some(if c.is_ascii_uppercase() { negate(base) } else { base })
    }
    /// after `\p` or `\P`
    fn property(&mut self, mut neg: bool) -> R<Vec<(u32, u32)>> {
        let mut name = String::new();
        if self.eat('{') {
            if self.eat('^') {
                neg = !neg;
            }
            while let Some(c) = self.peek() {
                self.i += 1;
                if c == '}' {
                    break;
                }
                name.push(c);
            }
        } else if let Some(c) = self.peek() {
            self.i += 1;
            name.push(c);
        }
        match uni::named(&name) {
            Some(t) => Ok(if neg { negate(t.to_vec()) } else { t.to_vec() }),
            None => unsupported("\\p"),
        }
    }
    fn escape_char(&mut self) -> R<char> {
        let c = match self.peek() {
            Some(c) => c,
            None => return self.err("incomplete escape sequence"),
        };
        self.i += 1;
        Ok(match c {
            'n' => '\n',
            't' => '\t',
            'r' => '\r',
            'a' => '\x07',
            'f' => '\x0C',
            'v' => '\x0B',
            'x' | 'u' | 'U' => {
                let mut v = 0u32;
                if self.eat('{') {
                    while let Some(c) = self.peek() {
                        self.i += 1;
                        if c == '}' {
                            break;
                        }
                        v = v * 16 + c.to_digit(16).ok_or(Error::Syntax("bad hex".into()))?;
                    }
                } else {
                    let n = match c {
                        'x' => 2,
                        'u' => 4,
                        _ => 8,
                    };
                    for _ in 0..n {
                        let c = self.peek().ok_or(Error::Syntax("bad hex".into()))?;
                        self.i += 1;
                        v = v * 16 + c.to_digit(16).ok_or(Error::Syntax("bad hex".into()))?;
                    }
                }
                char::from_u32(v).ok_or(Error::Syntax("bad hex".into()))?
            }
            '\\' | '.' | '+' | '*' | '?' | '(' | ')' | '|' | '[' | ']' | '{' | '}' | '^' | '$' | '#'
            | '&' | '-' | '~' | '/' => c,
            _ if !c.is_ascii_alphanumeric() && c.is_ascii_punctuation() => {
                // regex 1.0.0 accepts only the meta characters above
                if c == '"' || c == '\'' || c == '<' || c == '>' || c == '=' || c == '!' || c == '@'
                    || c == '%' || c == ',' || c == ';' || c == ':' || c == '`' || c == '_'
                {
                    return self.err("unrecognized escape sequence");
                }
                c
            }
            _ => return self.err("unrecognized escape sequence"),
        })
    }
    fn escape(&mut self) -> R<Node> {
        let c = match self.peek() {
            Some(c) => c,
            None => return self.err("incomplete escape sequence"),
        };
        if let Some(r) = self.perl(c) {
            self.i += 1;
            return Ok(Node::Class(Class { ranges: norm(r) }));
        }
        match c {
            'A' => {
                self.i += 1;
                Ok(Node::Start)
            }
            'z' => {
                self.i += 1;
                Ok(Node::End)
            }
            'b' => {
                self.i += 1;
                Ok(Node::WordB)
            }
            'B' => {
                self.i += 1;
                Ok(Node::NotWordB)
            }
            'p' | 'P' => {
                self.i += 1;
                let r = self.property(c == 'P')?;
                Ok(Node::Class(Class { ranges: norm(r) }))
            }
            _ => {
                let c = self.escape_char()?;
                Ok(self.mk(vec![(c as u32, c as u32)]))
            }
        }
    }
    fn class(&mut self) -> R<Vec<(u32, u32)>> {
        let neg = self.eat('^');
        let mut r: Vec<(u32, u32)> = Vec::new();
        let mut first = true;
        // leading '-' are literals
        while self.peek() == Some('-') && first {
            self.i += 1;
            r.push((45, 45));
        }
        if self.peek() == Some(']') && r.is_empty() {
            self.i += 1;
            r.push((93, 93));
        }
        loop {
            first = false;
            let _ = first;
            let c = match self.peek() {
                None => return self.err("unclosed character class"),
                Some(c) => c,
            };
            self.i += 1;
            if c == ']' {
                break;
            }
            if c == '[' {
                if self.peek() == Some(':') {
                    // POSIX class
                    let start = self.i + 1;
                    let mut j = start;
                    while j + 1 < self.s.len() && !(self.s[j] == ':' && self.s[j + 1] == ']') {
                        j += 1;
                    }
                    let mut name: String = self.s[start..j].iter().collect();
                    let mut n = false;
                    if name.starts_with('^') {
                        n = true;
                        name.remove(0);
                    }
                    let p = match name.as_str() {
                        "alpha" => vec![(65, 90), (97, 122)],
                        "digit" => vec![(48, 57)],
                        "alnum" => vec![(48, 57), (65, 90), (97, 122)],
                        "upper" => vec![(65, 90)],
                        "lower" => vec![(97, 122)],
                        "space" => vec![(9, 13), (32, 32)],
                        "blank" => vec![(9, 9), (32, 32)],
                        "punct" => vec![(33, 47), (58, 64), (91, 96), (123, 126)],
                        "word" => vec![(48, 57), (65, 90), (95, 95), (97, 122)],
                        "xdigit" => vec![(48, 57), (65, 70), (97, 102)],
                        "ascii" => vec![(0, 127)],
                        "cntrl" => vec![(0, 31), (127, 127)],
                        "graph" => vec![(33, 126)],
                        "print" => vec![(32, 126)],
                        _ => return unsupported("posix class"),
                    };
                    self.i = j + 2;
                    r.extend(if n { negate(p) } else { p });
                    continue;
                }
                let inner = self.class()?;
                r.extend(inner);
                continue;
            }
            if (c == '&' || c == '~' || c == '-') && self.peek() == Some(c) {
                return unsupported("class set operation");
            }
            let lo = if c == '\\' {
                let e = match self.peek() {
                    Some(e) => e,
                    None => return self.err("incomplete escape"),
                };
                if let Some(p) = self.perl(e) {
                    self.i += 1;
                    r.extend(p);
                    continue;
                }
                if e == 'p' || e == 'P' {
                    self.i += 1;
                    let p = self.property(e == 'P')?;
                    r.extend(p);
                    continue;
                }
                self.escape_char()?
            } else {
                c
            };
            let is_range = self.peek() == Some('-')
                && self.s.get(self.i + 1).map_or(false, |&c| c != ']' && c != '-');
            if is_range {
                self.i += 1;
                let h = self.peek().unwrap();
                self.i += 1;
                let hi = if h == '\\' { self.escape_char()? } else { h };
                if (hi as u32) < (lo as u32) {
                    return self.err("invalid character class range");
                }
                r.push((lo as u32, hi as u32));
            } else {
                r.push((lo as u32, lo as u32));
            }
        }
        let r = self.fold(r);
        Ok(if neg { negate(r) } else { norm(r) })
    }
}

struct Compiler {
    insts: Vec<Inst>,
    nmark: usize,
}

fn nullable(n: &Node) -> bool {
    match n {
        Node::Class(_) => false,
        Node::Cat(v) => v.iter().all(nullable),
        Node::Alt(v) => v.iter().any(nullable),
        Node::Rep(n, lo, _, _) => *lo == 0 || nullable(n),
        Node::Group(n, _) => nullable(n),
        _ => true,
    }
}

impl Compiler {
    fn c(&mut self, n: &Node) {
        match n {
            Node::Empty => {}
            Node::Class(c) => self.insts.push(Inst::Class(c.clone())),
            Node::Start => self.insts.push(Inst::Start),
            Node::End => self.insts.push(Inst::End),
            Node::LineStart => self.insts.push(Inst::LineStart),
            Node::LineEnd => self.insts.push(Inst::LineEnd),
            Node::WordB => self.insts.push(Inst::WordB(true)),
            Node::NotWordB => self.insts.push(Inst::WordB(false)),
            Node::Cat(v) => {
                for x in v {
                    self.c(x)
                }
            }
            Node::Group(n, i) => {
                self.insts.push(Inst::Save(2 * i));
                self.c(n);
                self.insts.push(Inst::Save(2 * i + 1));
            }
            Node::Alt(v) => {
                let mut ends = Vec::new();
                for (k, x) in v.iter().enumerate() {
                    if k + 1 < v.len() {
                        let s = self.insts.len();
                        self.insts.push(Inst::Split(s + 1, 0));
                        self.c(x);
                        ends.push(self.insts.len());
                        self.insts.push(Inst::Jmp(0));
                        let here = self.insts.len();
                        self.insts[s] = Inst::Split(s + 1, here);
                    } else {
                        self.c(x);
                    }
                }
                let here = self.insts.len();
                for e in ends {
                    self.insts[e] = Inst::Jmp(here);
                }
            }
            Node::Rep(n, lo, hi, greedy) => {
                for _ in 0..*lo {
                    self.c(n);
                }
                match hi {
                    None => {
                        let nul = nullable(n);
                        let s = self.insts.len();
                        self.insts.push(Inst::Split(0, 0));
                        let m = self.nmark;
                        if nul {
                            self.nmark += 1;
                            self.insts.push(Inst::Mark(m));
                        }
                        self.c(n);
                        if nul {
                            self.insts.push(Inst::Check(m));
                        }
                        self.insts.push(Inst::Jmp(s));
                        let here = self.insts.len();
                        self.insts[s] = if *greedy { Inst::Split(s + 1, here) } else { Inst::Split(here, s + 1) };
                    }
                    Some(h) => {
                        let mut splits = Vec::new();
                        for _ in *lo..*h {
                            splits.push(self.insts.len());
                            self.insts.push(Inst::Split(0, 0));
                            self.c(n);
                        }
                        let here = self.insts.len();
                        for s in splits {
                            self.insts[s] = if *greedy { Inst::Split(s + 1, here) } else { Inst::Split(here, s + 1) };
                        }
                    }
                }
            }
        }
    }
}

fn compile(re: &str) -> R<Prog> {
    let chars: Vec<char> = re.chars().collect();
    let mut p = Parser {
        s: &chars,
        i: 0,
        ngroup: 1,
        icase: false,
        multi: false,
        dotall: false,
        swap: false,
        extended: false,
    };
    let n = p.alt()?;
    if p.i != chars.len() {
        return Err(Error::Syntax("unopened group".into()));
    }
    let ncap = p.ngroup;
    let mut c = Compiler { insts: Vec::new(), nmark: 0 };
    c.insts.push(Inst::Save(0));
    c.c(&n);
    c.insts.push(Inst::Save(1));
    c.insts.push(Inst::Match);
    let anchored = match c.insts.get(1) {
        Some(Inst::Start) => true,
        Some(Inst::Save(_)) => matches!(c.insts.get(2), Some(Inst::Start)),
        _ => false,
    };
    Ok(Prog { insts: c.insts, ncap, nmark: c.nmark, anchored })
}

/// Width of the character at `pos` if it belongs to the class, else 0.
#[inline(never)]
fn class_at(c: &Class, t: &[u8], pos: usize) -> usize {
    if pos >= t.len() {
        return 0;
    }
    let b = t[pos];
    if b < 0x80 {
        let b = b as u32;
        let mut hit = false;
        for &(lo, hi) in c.ranges.iter() {
            // branch free on the byte: one fork per class test
            let hi = if hi > 0x7f { 0x7f } else { hi };
            if lo <= 0x7f {
                hit |= b.wrapping_sub(lo) <= hi - lo;
            }
        }
        return hit as usize;
    }
    let w = if b < 0xE0 {
        2
    } else if b < 0xF0 {
        3
    } else {
        4
    };
    // all of, or none of, the non ASCII characters: no need to decode
    match c.ranges.last() {
        None => return 0,
        Some(&(lo, hi)) => {
            if hi < 0x80 {
                return 0;
            }
            if lo <= 0x80 && hi == MAXC {
                return w;
            }
        }
    }
    let mut v = match w {
        2 => (b & 0x1f) as u32,
        3 => (b & 0x0f) as u32,
        _ => (b & 0x07) as u32,
    };
    for k in 1..w {
        v = (v << 6) | (t[pos + k] & 0x3f) as u32;
    }
    // only the ranges that characters of this width can be in
    let (first, last) = match w {
        2 => (0x80, 0x7ff),
        3 => (0x800, 0xffff),
        _ => (0x10000, MAXC),
    };
    let mut hit = false;
    for &(lo, hi) in c.ranges.iter() {
        if hi >= first && lo <= last {
            hit |= v.wrapping_sub(lo) <= hi - lo;
        }
    }
    if hit {
        w
    } else {
        0
    }
}

fn is_word(t: &[u8], pos: usize) -> bool {
    let b = t[pos];
    if b >= 0x80 {
        let _ = unsupported::<()>("word boundary next to non ASCII text");
    }
    (b >= b'0' && b <= b'9') | (b >= b'a' && b <= b'z') | (b >= b'A' && b <= b'Z') | (b == b'_')
}

impl Prog {
    /// Leftmost-first match starting exactly at `start`.
    fn run(&self, t: &[u8], start: usize) -> Option<Vec<Option<usize>>> {
        struct Th {
            pc: usize,
            pos: usize,
            caps: Vec<Option<usize>>,
            marks: Vec<usize>,
        }
        let mut stack: Vec<Th> = Vec::new();
        let mut caps = vec![None; 2 * self.ncap];
        let mut marks = vec![usize::MAX; self.nmark];
        let mut pc = 0;
        let mut pos = start;
        loop {
            let ok = match &self.insts[pc] {
                Inst::Class(c) => {
                    let w = class_at(c, t, pos);
                    pos += w;
                    pc += 1;
                    w != 0
                }
                Inst::Start => {
                    pc += 1;
                    pos == 0
                }
                Inst::End => {
                    pc += 1;
                    pos == t.len()
                }
                Inst::LineStart => {
                    pc += 1;
                    pos == 0 || t[pos - 1] == b'\n'
                }
                Inst::LineEnd => {
                    pc += 1;
                    pos == t.len() || t[pos] == b'\n'
                }
                Inst::WordB(want) => {
                    let a = pos > 0 && is_word(t, pos - 1);
                    let b = pos < t.len() && is_word(t, pos);
                    pc += 1;
                    (a != b) == *want
                }
                Inst::Split(a, b) => {
                    stack.push(Th { pc: *b, pos, caps: caps.clone(), marks: marks.clone() });
                    pc = *a;
                    true
                }
                Inst::Jmp(a) => {
                    pc = *a;
                    true
                }
                Inst::Save(k) => {
                    caps[*k] = Some(pos);
                    pc += 1;
                    true
                }
                Inst::Mark(k) => {
                    marks[*k] = pos;
                    pc += 1;
                    true
                }
                Inst::Check(k) => {
                    pc += 1;
                    marks[*k] != pos
                }
                Inst::Match => return Some(caps),
            };
            if !ok {
                match stack.pop() {
                    None => return None,
                    Some(th) => {
                        pc = th.pc;
                        pos = th.pos;
                        caps = th.caps;
                        marks = th.marks;
                    }
                }
            }
        }
    }
    fn search(&self, t: &str, from: usize) -> Option<Vec<Option<usize>>> {
        let b = t.as_bytes();
        let mut p = from;
        loop {
            if p > b.len() {
                return None;
            }
            if self.anchored && p != 0 {
                return None;
            }
            if let Some(c) = self.run(b, p) {
                return Some(c);
            }
            if self.anchored || p >= b.len() {
                return None;
            }
            p += 1;
            while p < b.len() && (b[p] & 0xC0) == 0x80 {
                p += 1;
            }
        }
    }
}

thread_local! {
    static CACHE: RefCell<Vec<(String, Rc<Prog>)>> = RefCell::new(Vec::new());
}

#[derive(Clone)]
pub struct Regex {
    src: String,
    prog: std::sync::Arc<ProgBox>,
}
struct ProgBox(Rc<Prog>);
// The symbolic executor is single threaded; so is the native agreement test.
unsafe impl Send for ProgBox {}
unsafe impl Sync for ProgBox {}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Match<'t> {
    text: &'t str,
    start: usize,
    end: usize,
}

impl<'t> Match<'t> {
    pub fn start(&self) -> usize {
        self.start
    }
    pub fn end(&self) -> usize {
        self.end
    }
    pub fn as_str(&self) -> &'t str {
        &self.text[self.start..self.end]
    }
}

pub struct Captures<'t> {
    text: &'t str,
    caps: Vec<Option<usize>>,
}

impl<'t> Captures<'t> {
    pub fn get(&self, i: usize) -> Option<Match<'t>> {
        if 2 * i + 1 >= self.caps.len() {
            return None;
        }
        match (self.caps[2 * i], self.caps[2 * i + 1]) {
            (Some(s), Some(e)) => Some(Match { text: self.text, start: s, end: e }),
            _ => None,
        }
    }
    pub fn len(&self) -> usize {
        self.caps.len() / 2
    }
    pub fn iter<'c>(&'c self) -> SubCaptureMatches<'c, 't> {
        SubCaptureMatches { c: self, i: 0 }
    }
}
impl<'t> std::ops::Index<usize> for Captures<'t> {
    type Output = str;
    fn index(&self, i: usize) -> &str {
        self.get(i).unwrap().as_str()
    }
}
pub struct SubCaptureMatches<'c, 't: 'c> {
    c: &'c Captures<'t>,
    i: usize,
}
impl<'c, 't> Iterator for SubCaptureMatches<'c, 't> {
    type Item = Option<Match<'t>>;
    fn next(&mut self) -> Option<Option<Match<'t>>> {
        if self.i >= self.c.len() {
            return None;
        }
        self.i += 1;
        Some(self.c.get(self.i - 1))
    }
}

pub struct Matches<'r, 't> {
    re: &'r Regex,
    text: &'t str,
    last_end: usize,
    last_match: Option<usize>,
}
impl<'r, 't> Matches<'r, 't> {
    fn step(&mut self) -> Option<Vec<Option<usize>>> {
        loop {
            if self.last_end > self.text.len() {
                return None;
            }
            let c = self.re.prog.0.search(self.text, self.last_end)?;
            let (s, e) = (c[0].unwrap(), c[1].unwrap());
            if s == e {
                // empty match: step over one character
                let b = self.text.as_bytes();
                let mut n = e + 1;
                while n < b.len() && (b[n] & 0xC0) == 0x80 {
                    n += 1;
                }
                self.last_end = n;
                if Some(e) == self.last_match {
                    continue;
                }
            } else {
                self.last_end = e;
            }
            self.last_match = Some(e);
            return Some(c);
        }
    }
}
impl<'r, 't> Iterator for Matches<'r, 't> {
    type Item = Match<'t>;
    fn next(&mut self) -> Option<Match<'t>> {
        let c = self.step()?;
        Some(Match { text: self.text, start: c[0].unwrap(), end: c[1].unwrap() })
    }
}
pub struct CaptureMatches<'r, 't>(Matches<'r, 't>);
impl<'r, 't> Iterator for CaptureMatches<'r, 't> {
    type Item = Captures<'t>;
    fn next(&mut self) -> Option<Captures<'t>> {
        let c = self.0.step()?;
        Some(Captures { text: self.0.text, caps: c })
    }
}

impl Regex {
    pub fn new(re: &str) -> Result<Regex, Error> {
        let hit = CACHE.with(|c| {
            c.borrow().iter().find(|(s, _)| s.as_str() == re).map(|(_, p)| p.clone())
        });
        let prog = match hit {
            Some(p) => p,
            None => {
                let p = Rc::new(compile(re)?);
                CACHE.with(|c| c.borrow_mut().push((re.to_string(), p.clone())));
                p
            }
        };
        Ok(Regex { src: re.to_string(), prog: std::sync::Arc::new(ProgBox(prog)) })
    }
    pub fn as_str(&self) -> &str {
        &self.src
    }
    pub fn is_match(&self, text: &str) -> bool {
        self.prog.0.search(text, 0).is_some()
    }
    pub fn find<'t>(&self, text: &'t str) -> Option<Match<'t>> {
        self.find_at(text, 0)
    }
    pub fn find_at<'t>(&self, text: &'t str, start: usize) -> Option<Match<'t>> {
        let c = self.prog.0.search(text, start)?;
        Some(Match { text, start: c[0].unwrap(), end: c[1].unwrap() })
    }
    pub fn find_iter<'r, 't>(&'r self, text: &'t str) -> Matches<'r, 't> {
        Matches { re: self, text, last_end: 0, last_match: None }
    }
    pub fn captures<'t>(&self, text: &'t str) -> Option<Captures<'t>> {
        let c = self.prog.0.search(text, 0)?;
        Some(Captures { text, caps: c })
    }
    pub fn captures_iter<'r, 't>(&'r self, text: &'t str) -> CaptureMatches<'r, 't> {
        CaptureMatches(self.find_iter(text))
    }
    pub fn captures_len(&self) -> usize {
        self.prog.0.ncap
    }
}

impl fmt::Debug for Regex {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.src)
    }
}
impl fmt::Display for Regex {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.src)
    }
}
impl std::str::FromStr for Regex {
    type Err = Error;
    fn from_str(s: &str) -> Result<Regex, Error> {
        Regex::new(s)
    }
}
