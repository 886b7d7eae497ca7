//! C01 totality, C02 the tree has every token of the text in order, C30 no effect but the result

use super::compo;
use super::depth;
use super::special;
use super::gen::*;
use super::mutate;
use super::lib_::*;
use super::refp;
use super::{p_expr, p_lay, p_lex, p_stmt, p_type};
use super::sym::*;
use super::ty::*;

/// places in a file: what stands before and after
const CTX: &[(&str, &str)] = &[
    ("", ""),
    ("x = ", ""),
    ("x =\n  ", "\n"),
    ("x = [", "]"),
    ("x = (", ")"),
    ("x = { a = 1, ", " }"),
    ("x = { a | ", " }"),
    ("x = \"", "\""),
    ("x = \"\"\"", "\"\"\""),
    ("x = '", "'"),
    ("x = '\\", "'"),
    ("x = case a of ", " -> b"),
    ("x =\n case a of\n  b -> ", "\n  d -> e"),
    ("x = let ", " in a"),
    ("x = if a ", " b else c"),
    ("x = \\", " -> a"),
    ("x = a ", " b"),
    ("x = a.", ""),
    ("x = 1", "2"),
    ("f : ", "\nf = 1"),
    ("f : A ", " B\nf = 1"),
    ("f ", " = 1"),
    ("type ", " = B"),
    ("type A = ", ""),
    ("type alias A = { ", " }"),
    ("module ", " exposing (..)"),
    ("module A exposing (", ")"),
    ("import ", ""),
    ("import A ", ""),
    ("port ", ""),
    ("infixl ", " +"),
    ("infixr 99999999999999999", " +"),
    ("--", "\n"),
    ("{-", "-}"),
    ("x = 1\n", "\ny = 2"),
    ("effect module A where { ", " } exposing (..)"),
];
/// the parser returns, and says of the whole text whether it is in the language: neither a success
/// that skips a part nor an error for a text without one
fn total(v: &[u8]) {
    let ok = parse(v).is_some();
    match (ok, refp::file(v).is_some()) {
        (true, false) => fail("success on a text that is not in the language as a whole"),
        (false, true) => fail("an error for a text that has none"),
        _ => {}
    }
    cover(if ok { 1 } else { 2 });
}
fn total_win(n: usize) {
    let (p, s) = CTX[pick(CTX.len() as u32) as usize];
    let mut b = B::new(p);
    b.any(ASCII, n);
    if flag() {
        b.s(s);
    }
    total(&b.t)
}
/// characters of one to four bytes
fn total_uni(n: usize) {
    let (p, s) = CTX[pick(CTX.len() as u32) as usize];
    let mut b = B::new(p);
    for _ in 0..n {
        if flag() {
            mutate::uchar(&mut b)
        } else {
            b.sym(ASCII);
        }
    }
    b.s(s);
    total(&b.t)
}
const BIG: &str = "port module Main.App exposing (Model, Msg(..), init, (<+>))\n\nimport Html exposing (..)\nimport Dict as D exposing (Dict, get)\n\n-- types\n\ntype alias Model =\n  { name : String\n  , items : List (Int, a)\n  }\n\ntype Msg a\n  = Add Int { b : a }\n  | Del (List a)\n\nport out : Msg -> Cmd msg\n\ninfixl 5 <+>\n\n{- doc\n -}\ninit : Model -> (Model, Cmd Msg)\ninit m =\n  let\n    x = 1.5\n    f y z = y + z * \"s\\\"q\"\n  in\n  case m.items of\n    [] -> ({ m | name = 'c' }, D.none)\n    a :: _ ->\n      if a == (-1) then\n        \\b -> [ b, .c d, (,) ]\n      else\n        f a <| g { h = () }\n";
fn big(w: usize, over: bool) -> Vec<u8> {
    let t = BIG.as_bytes();
    let p = pick_wide(t.len() + 1);
    let mut v = t[..p].to_vec();
    for _ in 0..w {
        v.push(byte(ASCII));
    }
    let q = if over { (p + w).min(t.len()) } else { p };
    v.extend_from_slice(&t[q..]);
    v
}
fn big_cut() -> Vec<u8> {
    let t = BIG.as_bytes();
    let p = pick_wide(t.len());
    match pick(3) {
        0 => t[..p].to_vec(),
        1 => t[p..].to_vec(),
        _ => {
            let mut v = t[..p].to_vec();
            v.extend_from_slice(&t[(p + 2).min(t.len())..]);
            v
        }
    }
}
fn long() {
    let n = [1usize, 2, 3, 5, 8, 13, 21, 40][pick(8) as usize];
    let piece = ["a ", "1", "+ ", "a.b ", "\"", "'", "\n", " ", "\\", "--", "{-", "a + ", "[] ", "x = 1\n", ".", "\"a\" ", ", "]
        [pick(17) as usize];
    let (p, s) = CTX[pick(CTX.len() as u32) as usize];
    let mut b = B::new(p);
    for _ in 0..n {
        b.s(piece)
    }
    b.sym(ASCII);
    b.s(s);
    total(&b.t)
}

// ---- C02 ------------------------------------------------------------------------------------

type Tk = Vec<Vec<u8>>;
fn put(o: &mut Tk, s: &str) {
    o.push(s.as_bytes().to_vec())
}
fn w_expr(e: &Expression, o: &mut Tk) {
    match e {
        Expression::Character(c) => {
            let mut t = [0; 4];
            let n = c.encode_utf8(&mut t).len();
            o.push(t[..n].to_vec())
        }
        Expression::String(s) | Expression::Integer(s) | Expression::Float(s) | Expression::AccessFunction(s) => put(o, s),
        Expression::Variable(v) => {
            for s in v {
                if !s.bytes().all(|c| c == b',') && s != "\\" {
                    put(o, s)
                }
            }
        }
        Expression::List(v) | Expression::Tuple(v) => v.iter().for_each(|e| w_expr(e, o)),
        Expression::Access(e, v) => {
            w_expr(e, o);
            v.iter().for_each(|s| put(o, s))
        }
        Expression::Record(v) => w_fields(v, o),
        Expression::RecordUpdate(r, v) => {
            put(o, r);
            w_fields(v, o)
        }
        Expression::If(a, b, c) => {
            w_expr(a, o);
            w_expr(b, o);
            w_expr(c, o)
        }
        Expression::Let(v, b) => {
            for x in v {
                match x {
                    LetEntry::LetBinding(p, e) => {
                        w_expr(p, o);
                        w_expr(e, o)
                    }
                    LetEntry::LetFunction(f) => w_fun(f, o),
                }
            }
            w_expr(b, o)
        }
        Expression::Case(a, v) => {
            w_expr(a, o);
            for (p, e) in v {
                w_expr(p, o);
                w_expr(e, o)
            }
        }
        Expression::Lambda(v, b) => {
            v.iter().for_each(|e| w_expr(e, o));
            w_expr(b, o)
        }
        Expression::Application(a, b) => {
            w_expr(a, o);
            w_expr(b, o)
        }
        Expression::BinOp(p, a, b) => {
            w_expr(a, o);
            w_expr(p, o);
            w_expr(b, o)
        }
    }
}
/// a field bound to its own name is the pattern `{ name }`: the name stands once
fn w_fields(v: &[(String, Expression)], o: &mut Tk) {
    for (n, e) in v {
        put(o, n);
        if *e != v1(n) {
            w_expr(e, o)
        }
    }
}
fn w_fun(f: &Function, o: &mut Tk) {
    if let Some(s) = &f.signature {
        put(o, &s.name);
        w_type(&s.type_, o)
    }
    put(o, &f.definition.name);
    f.definition.args.iter().for_each(|e| w_expr(e, o));
    w_expr(&f.definition.body, o)
}
fn w_type(t: &Type, o: &mut Tk) {
    let pairs = |v: &Vec<(String, Type)>, o: &mut Tk| {
        for (n, t) in v {
            put(o, n);
            w_type(t, o)
        }
    };
    match t {
        Type::TypeConstructor(n, a) => {
            n.iter().for_each(|s| put(o, s));
            a.iter().for_each(|t| w_type(t, o))
        }
        Type::TypeVariable(n) => put(o, n),
        Type::TypeRecordConstructor(r, v) => {
            w_type(r, o);
            pairs(v, o)
        }
        Type::TypeRecord(v) => pairs(v, o),
        Type::TypeTuple(v) => v.iter().for_each(|t| w_type(t, o)),
        Type::TypeApplication(a, b) => {
            w_type(a, o);
            w_type(b, o)
        }
    }
}
fn w_exp(e: &ExportSet, o: &mut Tk) {
    match e {
        ExportSet::AllExport => {}
        ExportSet::SubsetExport(v) => v.iter().for_each(|e| w_exp(e, o)),
        ExportSet::FunctionExport(n) => put(o, n),
        ExportSet::TypeExport(n, s) => {
            put(o, n);
            if let Some(s) = s {
                w_exp(s, o)
            }
        }
    }
}
fn w_stmt(s: &Statement, o: &mut Tk) {
    let names = |v: &Vec<String>, o: &mut Tk| v.iter().for_each(|s| put(o, s));
    match s {
        Statement::ModuleDeclaration(n, e) | Statement::PortModuleDeclaration(n, e) => {
            names(n, o);
            w_exp(e, o)
        }
        Statement::EffectModuleDeclaration(n, w, e) => {
            names(n, o);
            for (a, b) in w {
                put(o, a);
                put(o, b)
            }
            w_exp(e, o)
        }
        Statement::ImportStatement(n, a, e) => {
            names(n, o);
            if let Some(a) = a {
                put(o, "as");
                put(o, a)
            }
            if let Some(e) = e {
                w_exp(e, o)
            }
        }
        Statement::TypeAliasDeclaration(n, t) => {
            w_type(n, o);
            w_type(t, o)
        }
        Statement::TypeDeclaration(n, v) => {
            w_type(n, o);
            v.iter().for_each(|t| w_type(t, o))
        }
        Statement::PortTypeDeclaration(n, t) => {
            put(o, n);
            w_type(t, o)
        }
        Statement::PortDeclaration(n, v, e) => {
            put(o, n);
            names(v, o);
            w_expr(e, o)
        }
        Statement::Function(f) => w_fun(f, o),
        Statement::InfixDeclaration(_, n, s) => {
            let mut d = vec![];
            let mut n = *n;
            while n > 0 || d.is_empty() {
                d.insert(0, b'0' + (n % 10) as u8);
                n /= 10
            }
            o.push(d);
            put(o, s)
        }
        Statement::Comment(_) => {}
    }
}

const DROP: [&[u8]; 16] = [
    b"module", b"where", b"import", b"exposing", b"type", b"alias", b"port", b"if", b"then", b"else", b"let", b"in",
    b"case", b"of", b"effect", b"infix",
];
fn in_set(c: u8, s: &[u8]) -> bool {
    let mut r = false;
    for &d in s {
        r |= c == d
    }
    r
}
fn wordc(c: u8) -> bool {
    (c.wrapping_sub(b'a') < 26) | (c.wrapping_sub(b'A') < 26) | (c.wrapping_sub(b'0') < 10) | (c == b'_')
}
fn blankc(c: u8) -> bool {
    in_set(c, b" \n\r\t")
}
/// The names, literals and operators of a text, in order, read without any grammar.
fn lexemes(s: &[u8]) -> Tk {
    // kind 0: a word; 1: other content; 2: punctuation
    let mut o: Vec<(u8, Vec<u8>)> = vec![];
    let at = |i: usize, c: u8| i < s.len() && s[i] == c;
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        if blankc(c) {
            i += 1
        } else if c == b'"' {
            if at(i + 1, b'"') && at(i + 2, b'"') {
                let mut j = i + 3;
                while j < s.len() && s[j] != b'"' {
                    j += 1
                }
                if at(j, b'"') && at(j + 1, b'"') && at(j + 2, b'"') {
                    o.push((1, s[i + 3..j].to_vec()));
                    i = j + 3;
                    continue;
                }
            }
            let mut j = i + 1;
            while j < s.len() && s[j] != b'"' {
                j += if s[j] == b'\\' && (at(j + 1, b'\\') || at(j + 1, b'"')) { 2 } else { 1 }
            }
            o.push((1, s[i + 1..j.min(s.len())].to_vec()));
            i = j + 1
        } else if c == b'\'' {
            if at(i + 1, b'\\') && at(i + 2, b'x') {
                let h = |c: u8| if c <= b'9' { c.wrapping_sub(b'0') } else { (c | 32).wrapping_sub(b'a').wrapping_add(10) };
                let k = if i + 4 < s.len() { h(s[i + 3]).wrapping_mul(16).wrapping_add(h(s[i + 4])) } else { 0 };
                o.push((1, if k < 128 { vec![k] } else { vec![0xc0 | (k >> 6), 0x80 | (k & 63)] }));
                i += 6
            } else {
                let mut j = i + 2;
                while j < s.len() && s[j] >= 128 && s[j] < 192 {
                    j += 1
                }
                o.push((1, s[(i + 1).min(s.len())..j.min(s.len())].to_vec()));
                i = j + 1
            }
        } else if c == b'{' && at(i + 1, b'-') {
            let mut j = i + 2;
            while j < s.len() && !(at(j, b'-') && at(j + 1, b'}')) {
                j += 1
            }
            i = j + 2
        } else if in_set(c, b"()[]{},") {
            o.push((2, vec![c]));
            i += 1
        } else if wordc(c) {
            let mut j = i;
            let digits = c.wrapping_sub(b'0') < 10;
            if digits {
                while j < s.len() && s[j].wrapping_sub(b'0') < 10 {
                    j += 1
                }
                if at(j, b'.') && j + 1 < s.len() && s[j + 1].wrapping_sub(b'0') < 10 {
                    j += 1;
                    while j < s.len() && s[j].wrapping_sub(b'0') < 10 {
                        j += 1
                    }
                }
            } else if c == b'_' {
                j += 1
            } else {
                while j < s.len() && wordc(s[j]) {
                    j += 1
                }
            }
            o.push((0, s[i..j].to_vec()));
            i = j
        } else {
            let mut j = i;
            while j < s.len() && in_set(s[j], b"+-/*=.$<>:&|^?%#@~!\\") {
                j += 1
            }
            if j == i {
                // no such character outside literals and comments
                o.push((1, vec![c]));
                i += 1;
                continue;
            }
            let r = &s[i..j];
            let paren = i > 0 && s[i - 1] == b'(' && at(j, b')');
            // the name in an operator declaration may start like a comment
            let mut ls = i;
            while ls > 0 && s[ls - 1] != b'\n' {
                ls -= 1
            }
            let decl = o.len() > 1 && o[o.len() - 2].1.starts_with(b"infix") && s[ls..].starts_with(b"infix") && i > 0 && s[i - 1] == b' ';
            if !paren && !decl && r.len() > 1 && r[0] == b'-' && r[1] == b'-' {
                while i < s.len() && s[i] != b'\n' {
                    i += 1
                }
                continue;
            }
            let apart = i > 0 && (blankc(s[i - 1]) | in_set(s[i - 1], b"}")) && (j == s.len() || blankc(s[j]));
            let sign = (r[r.len() - 1] == b'-' || r[r.len() - 1] == b'+') && j < s.len() && s[j].wrapping_sub(b'0') < 10;
            let reserved = [&b"="[..], b".", b"..", b"->", b"--", b"|", b":", b"\\"].iter().any(|x| *x == r);
            if (paren || apart || decl) && !reserved {
                o.push((1, r.to_vec()));
            } else {
                let e = if sign { j - 1 } else { j };
                for &c in &s[i..e] {
                    o.push((2, vec![c]))
                }
                if sign {
                    // the sign belongs to the number
                    let mut k = j;
                    while k < s.len() && s[k].wrapping_sub(b'0') < 10 {
                        k += 1
                    }
                    if at(k, b'.') && k + 1 < s.len() && s[k + 1].wrapping_sub(b'0') < 10 {
                        k += 1;
                        while k < s.len() && s[k].wrapping_sub(b'0') < 10 {
                            k += 1
                        }
                    }
                    o.push((1, s[e..k].to_vec()));
                    j = k
                }
            }
            i = j
        }
    }
    let mut out: Tk = vec![];
    let mut k = 0;
    while k < o.len() {
        let t = &o[k];
        k += 1;
        if t.0 == 2 {
            continue;
        }
        out.push(t.1.clone());
        // `{ a = a }`: the pattern `{ a }`
        if t.0 == 0 && k >= 2 && o[k - 2].0 == 2 && in_set(o[k - 2].1[0], b"{,|") && k + 2 < o.len() {
            let mut e = k;
            let mut open = 0;
            if o[e].0 == 2 && o[e].1[0] == b'=' {
                e += 1;
                while e < o.len() && o[e].0 == 2 && o[e].1[0] == b'(' {
                    e += 1;
                    open += 1
                }
                if e < o.len() && o[e].0 == 0 && o[e].1 == t.1 {
                    e += 1;
                    while open > 0 && e < o.len() && o[e].0 == 2 && o[e].1[0] == b')' {
                        e += 1;
                        open -= 1
                    }
                    if open == 0 && e < o.len() && o[e].0 == 2 && in_set(o[e].1[0], b"},") {
                        k = e
                    }
                }
            }
        }
    }
    out
}
/// Keywords and the lambda sign carry no content; a number is told by its digits, not by the zeros
/// before them.
fn content(v: &mut Tk) {
    v.retain(|w| {
        let kw = DROP.iter().any(|k| *k == &w[..]);
        !kw && &w[..] != b"infixl" && &w[..] != b"infixr" && &w[..] != b"\\"
    });
    for w in v.iter_mut() {
        if w.iter().all(|c| c.wrapping_sub(b'0') < 10) {
            while w.len() > 1 && w[0] == b'0' {
                w.remove(0);
            }
        }
    }
}
/// Every accepted text: the leaves of its tree are its lexemes.
fn faithful(v: &[u8]) {
    let a = match parse(v) {
        Some(a) => a,
        None => {
            cover(2);
            return;
        }
    };
    // a line comment that touches the sign before it is left out: `=--` can be an operator too
    for i in 2..v.len() {
        assume(!((v[i] == b'-') & (v[i - 1] == b'-') & in_set(v[i - 2], b"=>|:{.")));
    }
    let mut got = vec![];
    a.iter().for_each(|s| w_stmt(s, &mut got));
    let mut want = lexemes(v);
    content(&mut want);
    content(&mut got);
    check(got == want, "the tree does not hold the tokens of the text, each once and in order");
    cover(1)
}
const T02: &[&str] = &[
    "module A.B exposing (c, (+), D(..), E(F, G))\nimport H as I exposing (j)\n",
    "type A b = C b | D (E, f) { g : h }\ntype alias I = J\n",
    "f : A -> b\nf c (d, e) = g c 1 -2 3.4\n",
    "x = if a then b.c else \\d -> .e d\n",
    "x =\n case a of\n  b :: c -> [ \"d\", 'e' ]\n  _ -> { f | g = h }\n",
    "x =\n let\n  a = b\n  c d = e + f\n in (g, { h = i })\n",
    "port a : B\nport c d = e\ninfixl 5 +\n",
];
fn tok_edits(w: usize, over: bool) {
    let t = T02[pick(T02.len() as u32) as usize].as_bytes();
    let p = pick_wide(t.len() + 1);
    let mut v = t[..p].to_vec();
    for _ in 0..w {
        v.push(byte(ASCII));
    }
    let q = if over { (p + w).min(t.len()) } else { p };
    v.extend_from_slice(&t[q..]);
    faithful(&v)
}
fn tok_win(n: usize) {
    let (p, s) = CTX[pick(CTX.len() as u32) as usize];
    // a number of an operator declaration is a value, not a text
    assume(p.as_bytes().len() < 2 || &p.as_bytes()[..2] != b"in" || p.as_bytes()[2] == b'p');
    let mut b = B::new(p);
    b.any(ASCII, n);
    b.s(s);
    faithful(&b.t)
}
fn tok_kinds() {
    let mut b = B::new("x = ");
    b.expr(pick(EXPRS));
    match pick(3) {
        0 => b.s(" +- "),
        1 => b.s(" :: "),
        _ => b.s(" as "),
    }
    let k = pick(EXPRS);
    b.expr(k);
    b.s("\ny : ");
    b.type_(k % TYPES);
    b.s("\ny = 1\n");
    faithful(&b.t)
}

// ---- C30 ------------------------------------------------------------------------------------

/// Parsing writes nothing and looks at nothing but its text, and what came before has no influence
/// on the result.
fn pure(v: &[u8]) {
    let (n, e) = (stdout().len(), effects());
    let a = parse(v);
    silent(n, e);
    let other = T02[2].as_bytes();
    let _ = parse(other);
    let b = parse(v);
    check(a == b, "the same text gives a different result the second time");
    silent(n, e);
    cover(if a.is_some() { 1 } else { 2 })
}
fn silent(n: usize, e: u64) {
    check(stdout().len() == n, "parsing writes to the standard output");
    check(effects() == e, "parsing writes to the error output, or asks the system for something");
}
fn pure_win(n: usize) {
    let (p, s) = CTX[pick(CTX.len() as u32) as usize];
    let mut b = B::new(p);
    b.any(ASCII, n);
    b.s(s);
    pure(&b.t)
}
/// the result does not depend on a text parsed before, whatever that was
fn history(n: usize) {
    let (p, s) = CTX[pick(CTX.len() as u32) as usize];
    let k = pick(T02.len() as u32) as usize;
    let before = parse(T02[k].as_bytes());
    let mut b = B::new(p);
    b.any(ASCII, n);
    b.s(s);
    let _ = parse(&b.t);
    let after = parse(T02[k].as_bytes());
    check(before.is_some(), "a well-formed text is rejected");
    check(before == after, "the same text gives a different result after another text was parsed");
    cover(1)
}
/// a text, then one of the same length that differs from it in a few bytes, in the same memory
fn alike(w: usize, same: bool) {
    let t = T02[pick(T02.len() as u32) as usize].as_bytes();
    let p = pick(t.len() as u32) as usize;
    let mut v = t.to_vec();
    let n = w.min(t.len() - p);
    for i in 0..n {
        v[p + i] = byte(ASCII)
    }
    let mut u = t.to_vec();
    let first = parse(&u);
    let second = if same {
        u.copy_from_slice(&v);
        parse(&u)
    } else {
        parse(&v)
    };
    check(first.is_some(), "a well-formed text is rejected");
    check(second == refp::file(&v), "the result is not the one for this text");
    cover(1)
}
/// many texts, good and bad, then one again
fn often() {
    let n = count();
    let k = pick(3) as usize;
    let t = [&b"x = '\\x41'\n"[..], b"f : A -> b\nf c = c.d + 1.5\n", b"{- a -}\nimport A exposing (b)\n"][k];
    let bad = pick(3);
    let mut v = t.to_vec();
    let at = v.len() - 2;
    v[at] = byte(ASCII);
    let (o, e) = (stdout().len(), effects());
    let first = parse(t);
    let mut r = parse(&v);
    let want = refp::file(&v);
    check(first.is_some(), "a well-formed text is rejected");
    for i in 0..n {
        match bad {
            0 => {
                let _ = parse(t);
            }
            1 => check(parse(b"x = (").is_none(), "a text outside the language is accepted"),
            _ => {
                let _ = parse(if i % 2 == 0 { b"x = [" } else { b"y = 1" });
            }
        }
        if i + 1 == n {
            r = parse(&v)
        }
    }
    check(r == want, "the result is not the one for this text");
    check(parse(t) == first, "the same text gives a different result after other texts were parsed");
    silent(o, e);
    cover(1)
}

/// two texts with free names, numbers, strings or operators of one length, one after the other
fn twice() {
    let n = [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 20, 33][pick(13) as usize];
    let k = pick(8);
    let one = |b: &mut B| match k {
        0 => b.syms(SAFE, WORD, n),
        1 | 2 => b.syms(UPPER, WORD, n),
        3 => b.any(DIGIT, n),
        4 => b.any(PRINT.minus(Set::of(b"\\\"")), n),
        // (the search for the end of a comment looks at these apart)
        5 => b.any(PRINT.minus(Set::of(b"-}m=")), n),
        6 => b.syms(OPC.minus(Set::of(b"-=.|:")), OPC.minus(Set::of(b"-")), n),
        _ => b.syms(LOWER, WORD, 1),
    };
    let mk = || {
        let mut b = B::new(["x = ", "x = ", "x : ", "x = f ", "x = \"", "{-", "x = a ", "type alias A = "][k as usize]);
        one(&mut b);
        b.s(["", "", "\nx = 1", "", "\"", "-}", " b", ""][k as usize]);
        b.s("\n");
        b.t
    };
    let (t, u) = (mk(), mk());
    let first = parse(&t);
    let second = parse(&u);
    check(first == refp::file(&t) && second == refp::file(&u), "the result is not the one for this text");
    cover(1)
}

type Entry = extern "C-unwind" fn();
/// the texts of one of these entries, with another question
fn under(judge: fn(&[u8]), list: &[Entry]) {
    unsafe { JUDGE = Some(judge) }
    list[pick(list.len() as u32) as usize]()
}
/// parsing writes nothing and asks for nothing, and the same text gives the same result again
fn silent_twice(v: &[u8]) {
    let (n, e) = (stdout().len(), effects());
    let a = parse(v);
    let b = parse(v);
    silent(n, e);
    check(a == b, "the same text gives a different result the second time");
    cover(if a.is_some() { 1 } else { 2 })
}
const REPEATED: &[Entry] = &[
    p_lex::c03_long, p_lex::c04_long, p_lex::c05_long, p_lex::c06_long, p_lex::c06_longm, p_expr::c08_count, p_expr::c09_count, p_expr::c10_count,
    p_expr::c10_ctor, p_expr::c10_nest, p_expr::c11_count, p_expr::c11_countu, p_expr::c11_names, p_expr::c12_count, p_expr::c13_chain,
    p_expr::c14_count, p_expr::c14_nest, p_expr::c15_count, p_expr::c15_nest, p_expr::c16_count, p_expr::c16_nest, p_type::c19_count,
    p_type::c19_argcount, p_type::c19_seqcount, p_type::c19_nest, p_type::c20_count, p_type::c20_head, p_stmt::c21_count, p_stmt::c22_count,
    p_stmt::c24_long, p_stmt::c24_count, p_stmt::c25_count, p_stmt::c26_count, p_stmt::c27_many, p_lay::c17_far,
];
const SHAPES: &[Entry] = &[
    p_lex::c04_name, p_lex::c06_two, p_lex::c06_two2, p_lex::c07_slot, p_expr::c12_path, p_expr::c13_emb, p_expr::c15_emb, p_expr::c16_emb,
    p_expr::c15_kinds, p_expr::c14_args, p_expr::c16_pats, p_type::c19_qual, p_type::c19_tup, p_type::c19_rec, p_type::c19_ext, p_type::c20_alias, p_stmt::c21_items,
    p_stmt::c22_kinds, p_stmt::c24_line, p_stmt::c24_block, p_stmt::c24_between, p_stmt::c25_type, p_stmt::c25_def, p_stmt::c26_sig, p_stmt::c26_body,
    p_stmt::c27_pair, p_stmt::c27_seps, p_stmt::c27_concat, p_lay::c18_one, p_lay::c17_mix, p_lay::c17_rcont,
];
/// (without those that have several free operators or many kinds)
const SHAPES2: &[Entry] = &[
    p_lex::c04_name, p_lex::c06_two, p_lex::c06_two2, p_lex::c07_slot, p_expr::c12_path, p_expr::c13_emb, p_expr::c15_emb, p_expr::c16_emb,
    p_expr::c14_args, p_expr::c16_pats, p_type::c19_qual, p_type::c19_tup, p_type::c19_rec, p_type::c19_ext, p_type::c20_alias, p_stmt::c24_line,
    p_stmt::c24_block, p_stmt::c24_between, p_stmt::c25_type, p_stmt::c25_def, p_stmt::c26_sig, p_stmt::c26_body, p_stmt::c27_pair, p_stmt::c27_seps,
    p_stmt::c27_concat, p_lay::c17_mix, p_lay::c17_rcont,
];
const DEPTH: &[Entry] = &[
    depth::c03_depth, depth::c08_depth, depth::c09_depth, depth::c10_depth, depth::c11_depth, depth::c13_depth, depth::c14_depth, depth::c15_depth,
    depth::c16_depth, depth::c17_depth, depth::c19_depth, depth::c20_depth, depth::c25_depth, depth::c26_depth,
];
const NEAR: &[Entry] = &[
    p_lex::c06_tok, p_lex::c07_tok, p_expr::c08_tok, p_expr::c10_tok, p_expr::c11_tok, p_expr::c14_tok, p_expr::c15_tok, p_expr::c16_tok,
    p_type::c19_tok, p_type::c20_tok, p_stmt::c21_tok, p_stmt::c22_tok, p_stmt::c23_tok, p_stmt::c24_tok, p_stmt::c25_tok, p_stmt::c26_tok, p_stmt::c27_tok,
];

const SPECIAL: &[Entry] = &[
    special::c06_special, special::c08_special, special::c09_special, special::c10_special, special::c11_special, special::c12_special, special::c13_special,
    special::c14_special, special::c15_special, special::c16_special, special::c19_special, special::c20_special, special::c21_special, special::c22_special,
    special::c24_special, special::c25_special, special::c26_special, special::c27_special,
];
const SPECIAL2: &[Entry] = &[
    special::c06_special, special::c07_special, special::c10_special, special::c11_special, special::c13_special, special::c20_special, special::c22_special,
    special::c23_special, special::c25_special,
];

const BREAKS: &[Entry] = &[special::c17_breaks];
const BREAKS2: &[Entry] = &[special::c17_deepbreaks];

entries! {
    c01_breaks => under(total, BREAKS);
    c02_breaks => under(faithful, BREAKS);
    c30_breaks => under(silent_twice, BREAKS);
    c01_deepbreaks => under(total, BREAKS2);
    c02_deepbreaks => under(faithful, BREAKS2);
    c01_deepspecial => under(total, SPECIAL);
    c02_special => under(faithful, SPECIAL2);
    c02_deepspecial => under(faithful, SPECIAL);
    c30_deepspecial => under(silent_twice, SPECIAL);
    c01_repeated => under(total, REPEATED);
    c01_depth => under(total, DEPTH);
    c01_shapes => under(total, SHAPES);
    c01_deepnear => under(total, NEAR);
    c02_repeated => { unsafe { TAME = true }; under(faithful, REPEATED) };
    c02_depth => { unsafe { TAME = true }; under(faithful, DEPTH) };
    c02_shapes => under(faithful, SHAPES2);
    c02_deepnear => under(faithful, NEAR);
    c30_repeated => under(silent_twice, REPEATED);
    c30_depth => under(silent_twice, DEPTH);
    c30_shapes => under(silent_twice, SHAPES);
    c30_deepnear => under(silent_twice, NEAR);
    c30_twice => twice();
    c01_win => total_win(3);
    c01_uni => total_uni(1);
    c01_long => long();
    c01_big => total(&big(1, true));
    c01_bigins => total(&big(1, false));
    c01_tok => mutate::tok_in(T02[pick(T02.len() as u32) as usize].as_bytes(), 1, &total);
    c01_deepbigtok => mutate::tok_in(BIG.as_bytes(), 1, &total);
    c01_deepbiguni => mutate::uni_in(BIG.as_bytes(), &total);
    c01_cut => total(&big_cut());
    c01_str => { let mut b = B::new("x = \""); b.any(Set::of(b"\\\"x'na \n"), 7); b.s("\""); total(&b.t) };
    c01_free => { let mut b = B::new(""); b.any(ASCII, 4); total(&b.t) };
    c01_expr => { let mut b = B::new("x = "); b.any(ASCII, 4); total(&b.t) };
    c01_deepwin => total_win(5);
    c01_deepuni => total_uni(3);
    c01_deepbig => total(&big(3, true));
    c01_deepins => total(&big(3, false));
    c01_uni2 => total_uni(2);
    c01_wide => total_win(4);
    c01_wide2 => total(&big(2, true));
    c01_wide3 => { let mut b = B::new("x = "); b.any(ASCII, 6); total(&b.t) };

    c02_over => tok_edits(2, true);
    c02_ins => tok_edits(2, false);
    c02_deepins3 => tok_edits(3, false);
    c02_deepover => tok_edits(4, true);
    c02_deepins => tok_edits(4, false);
    c02_win => tok_win(3);
    c02_tok => mutate::tok_in(T02[pick(T02.len() as u32) as usize].as_bytes(), 1, &faithful);
    c02_uni => mutate::uni_in(T02[pick(T02.len() as u32) as usize].as_bytes(), &faithful);
    c02_kinds => tok_kinds();
    c02_big => faithful(&big(1, true));
    c02_bigins => faithful(&big(1, false));
    c02_cut => faithful(&big_cut());
    c02_expr => { let mut b = B::new("x = "); b.any(ASCII, 4); faithful(&b.t) };
    c02_ops => { let mut b = B::new("x = a"); b.any(Set::of(b"+-.=|\\>() 1b"), 5); faithful(&b.t) };
    c02_rec => { let mut b = B::new("x = {"); b.any(Set::of(b"ab=,|{} ="), 6); b.s("}"); faithful(&b.t) };
    c02_deepwin => tok_win(5);
    c02_deepbig => faithful(&big(3, true));
    c02_nest => compo::nest(0, 2, 0, false, &faithful);
    c02_deepnest2 => compo::nest(0, 2, 0, true, &faithful);
    c02_wide => tok_edits(3, true);
    c02_wide2 => tok_win(4);
    c02_deepnest => compo::nest(0, 3, 0, false, &faithful);
    c02_wide3 => faithful(&big(2, true));

    c30_win => pure_win(2);
    c30_deeptok => mutate::tok_in(T02[pick(T02.len() as u32) as usize].as_bytes(), 1, &pure);
    c30_hist => history(2);
    c30_alike => alike(2, false);
    c30_place => alike(2, true);
    c30_often => often();
    c30_big => pure(&big(1, true));
    c30_expr => { let mut b = B::new("x = "); b.any(ASCII, 3); pure(&b.t) };
    c30_chr => { let mut b = B::new("x = '"); b.any(ASCII, 5); b.s("'"); pure(&b.t) };
    c30_str => { let mut b = B::new("x = \""); b.any(ASCII, 3); b.s("\""); pure(&b.t) };
    c30_wide => pure_win(3);
    c30_deephist => history(3);
    c30_deep => pure_win(4);
    c30_deep2 => history(4);
    c30_deep3 => alike(4, false);
    c30_deep4 => pure(&big(2, true));
}
