//! C21 module headers, C22 imports, C23 operator declarations, C24 comments, C25 ports,
//! C26 functions, C27 sequences of statements

use super::gen::*;
use super::mutate;
use super::lib_::*;
use super::sym::*;
use super::ty::*;

fn dotted(b: &mut B, n: usize) -> Vec<String> {
    let mut v = vec![];
    for i in 0..n {
        if i > 0 {
            b.s(".")
        }
        v.push(if i < 3 {
            b.up()
        } else {
            b.s("Q");
            "Q".to_string()
        });
    }
    v
}
const FREEOP: Set = OPC.minus(Set::of(b"-=.|:"));
/// one exported item; kind 0..ITEMS
const ITEMS: u32 = 6;
fn item(b: &mut B, kind: u32) -> ExportSet {
    match kind {
        0 => ExportSet::FunctionExport(b.id()),
        1 => {
            b.s("(");
            let o = b.syms(FREEOP, OPC, 2);
            b.s(")");
            ExportSet::FunctionExport(o)
        }
        2 => ExportSet::TypeExport(b.up(), None),
        3 => {
            let n = b.up();
            b.s("(..)");
            ExportSet::TypeExport(n, Some(Box::new(ExportSet::AllExport)))
        }
        4 => {
            let n = b.up();
            b.s("(");
            let c = b.up();
            b.s(")");
            ExportSet::TypeExport(n, Some(Box::new(ExportSet::SubsetExport(vec![ExportSet::FunctionExport(c)]))))
        }
        _ => {
            let n = b.up();
            b.s("(");
            let c = b.up();
            b.s(", ");
            let d = b.up();
            b.s(")");
            let v = vec![ExportSet::FunctionExport(c), ExportSet::FunctionExport(d)];
            ExportSet::TypeExport(n, Some(Box::new(ExportSet::SubsetExport(v))))
        }
    }
}
fn items(b: &mut B, n: usize, free: usize, sep: &str) -> ExportSet {
    b.s("(");
    let mut v = vec![];
    for i in 0..n {
        b.at(i, n);
        if i > 0 {
            b.s(sep)
        }
        let k = if i < free { pick(ITEMS) } else { i as u32 % ITEMS };
        v.push(item(b, k));
    }
    b.s(")");
    ExportSet::SubsetExport(v)
}
fn exposing(b: &mut B, n: usize, free: usize, sep: &str) -> ExportSet {
    if n == 0 {
        b.s("(..)");
        ExportSet::AllExport
    } else {
        items(b, n, free, sep)
    }
}

// ---- C21 ------------------------------------------------------------------------------------

fn header(b: &mut B, kind: u32, parts: usize, wh: usize, f: &mut dyn FnMut(&mut B) -> ExportSet) -> Statement {
    b.s(["module ", "port module ", "effect module "][kind as usize]);
    let n = dotted(b, parts);
    let mut w = vec![];
    if kind == 2 {
        b.s(" where {");
        for i in 0..wh {
            if i > 0 {
                b.s(", ")
            }
            let l = b.id();
            b.s([" = ", "=", "  ="][i % 3]);
            let u = b.up();
            w.push((l, u));
        }
        b.s("}");
    }
    b.s(" exposing ");
    let e = f(b);
    match kind {
        0 => Statement::ModuleDeclaration(n, e),
        1 => Statement::PortModuleDeclaration(n, e),
        _ => Statement::EffectModuleDeclaration(n, w, e),
    }
}
fn mod_items() {
    let mut b = B::new("");
    let k = pick(3);
    let p = pick(3) as usize + 1;
    let n = pick(4) as usize;
    let s = header(&mut b, k, p, 1, &mut |b| exposing(b, n, 3, ", "));
    b.s("\n");
    expect(&b.t, &[s])
}
fn mod_count() {
    let mut b = B::new("");
    let k = pick(3);
    let which = pick(4);
    let n = count();
    let s = match which {
        0 => header(&mut b, k, n, 1, &mut |b| exposing(b, 1, 0, ",")),
        1 => header(&mut b, k, 1, 1, &mut |b| exposing(b, n, 0, ",")),
        2 => header(&mut b, 2, 1, n - 1, &mut |b| exposing(b, 0, 0, ",")),
        _ => header(&mut b, k, 1, 1, &mut |b| {
            // one type with n constructors
            b.s("(");
            let t = b.up();
            b.s("(");
            let mut v = vec![];
            for i in 0..n {
                b.at(i, n);
                if i > 0 {
                    b.s(", ")
                }
                v.push(ExportSet::FunctionExport(b.up()));
            }
            b.s("))");
            ExportSet::SubsetExport(vec![ExportSet::TypeExport(t, Some(Box::new(ExportSet::SubsetExport(v))))])
        }),
    };
    b.s("\n\nx = 1\n");
    expect(&b.t, &[s, fun_s("x", vec![], int("1"))])
}
fn mod_gaps() {
    let mut b = B::new(["module", "port module", "port\n module"][pick(3) as usize]);
    let port = b.t[0] == b'p';
    b.gap(1);
    let n = dotted(&mut b, 2);
    b.gap(1);
    b.s("exposing");
    b.gap(1);
    b.s("(..)");
    let e = ExportSet::AllExport;
    expect(&b.t, &[if port { Statement::PortModuleDeclaration(n, e) } else { Statement::ModuleDeclaration(n, e) }])
}
fn eff_gaps() {
    let mut b = B::new("effect");
    b.gap(1);
    b.s("module A");
    b.gap(2);
    b.s("where");
    b.gap(1);
    b.s("{");
    let l = b.id();
    b.s("=");
    let u = b.up();
    b.s("}");
    b.gap(1);
    b.s("exposing (..)");
    expect(&b.t, &[Statement::EffectModuleDeclaration(vec!["A".to_string()], vec![(l, u)], ExportSet::AllExport)])
}
fn item_gaps() {
    let mut b = B::new(["module A exposing (", "import A exposing ("][pick(2) as usize]);
    let m = b.t[0] == b'm';
    b.ogap(1);
    let i0 = item(&mut b, 0);
    b.s(["", " ", "\n ", "\n", " \n   "][pick(5) as usize]);
    b.s(",");
    b.s(["", " ", "\n ", "\n", " \n   "][pick(5) as usize]);
    let i1 = item(&mut b, 3);
    b.ogap(1);
    b.s(")");
    let e = ExportSet::SubsetExport(vec![i0, i1]);
    let n = vec!["A".to_string()];
    expect(&b.t, &[if m { Statement::ModuleDeclaration(n, e) } else { Statement::ImportStatement(n, None, Some(e)) }])
}
const T21: &[&str] = &[
    "module A exposing (..)\n",
    "module A.B exposing (a, (+), C, D(..), E(F, G))\n",
    "port module A exposing\n  ( a\n  , B(..)\n  )\n",
    "effect module A where { command = B, subscription = C } exposing (d)\n",
    "module A exposing (b)\nx = 1\n",
    "effect module A where {command=B} exposing (d)\n",
];

// ---- C22 ------------------------------------------------------------------------------------

fn imp(b: &mut B, parts: usize, ali: bool, ex: Option<(usize, usize)>) -> Statement {
    b.s("import ");
    let n = dotted(b, parts);
    let mut a = None;
    if ali {
        b.s(" as ");
        a = Some(b.up());
    }
    let e = ex.map(|(n, free)| {
        b.s(" exposing ");
        exposing(b, n, free, ", ")
    });
    Statement::ImportStatement(n, a, e)
}
fn imp_kinds() {
    let mut b = B::new("");
    let p = pick(3) as usize + 1;
    let a = flag();
    let n = pick(5) as usize;
    let s = imp(&mut b, p, a, if n == 4 { None } else { Some((n, 3)) });
    b.s(["", "\n", "\n\n  \n"][pick(3) as usize]);
    expect(&b.t, &[s])
}
fn imp_count() {
    let mut b = B::new("");
    let n = count();
    let mut v = vec![];
    match pick(3) {
        0 => v.push(imp(&mut b, n, true, Some((1, 0)))),
        1 => v.push(imp(&mut b, 1, true, Some((n, 0)))),
        _ => {
            for i in 0..n {
                b.at(i, n);
                v.push(imp(&mut b, i % 3 + 1, i % 2 == 0, if i % 4 < 3 { Some((i % 4, 0)) } else { None }));
                b.s("\n");
            }
        }
    }
    expect(&b.t, &v)
}
fn imp_two() {
    let mut b = B::new("");
    let mut v = vec![];
    for _ in 0..2 {
        let a = flag();
        let n = pick(3) as usize;
        v.push(imp(&mut b, 1, a, if n == 2 { None } else { Some((n, 1)) }));
        b.s("\n");
    }
    expect(&b.t, &v)
}
const T22: &[&str] = &[
    "import A\n",
    "import A.B as C exposing (..)\n",
    "import A exposing (a, (+), B(..), C(D))\nimport E\n",
    "import A as B\nimport C exposing\n  ( d\n  , e )\n",
];

// ---- C23 ------------------------------------------------------------------------------------

fn infix() {
    let k = pick(3);
    let nd = pick(5) as usize + 1;
    let mut b = B::new(["infixl", "infixr", "infix"][k as usize]);
    b.s([" ", "   "][pick(2) as usize]);
    let a = b.t.len();
    b.any(DIGIT, nd);
    let mut n = 0i64;
    for &c in &b.t[a..] {
        n = n * 10 + (c - b'0') as i64;
    }
    b.s([" ", "  "][pick(2) as usize]);
    let o = match pick(3) {
        0 => b.id(),
        1 => b.syms(FREEOP, OPC, 1),
        _ => b.syms(FREEOP, OPC, 3),
    };
    let w = match k {
        0 => Assoc::L,
        1 => Assoc::R,
        _ => Assoc::N,
    };
    expect(&b.t, &[Statement::InfixDeclaration(w, n, o)])
}
/// numbers at the edge of the range: accepted with their value or rejected, never wrapped
fn infix_edge() {
    let n = [18usize, 19, 20, 21, 25, 40][pick(6) as usize];
    let lead = flag();
    let mut b = B::new("infixl ");
    if lead {
        b.s("0000");
    }
    b.s(["9223372036854775807", "9223372036854775808", "18446744073709551616", "1000000000000000000", "99999999999999999999"]
        [pick(5) as usize]);
    let l = b.t.len();
    let t = if lead { 11 } else { 7 };
    // the last digits are free, the rest cut to n digits
    if l - t > n {
        b.t.truncate(t + n);
    }
    let l = b.t.len();
    b.t.truncate(l - 2);
    b.any(DIGIT, 2);
    b.s(" +");
    agree(&b.t);
}
fn infix_count() {
    let n = count();
    let mut b = B::new("");
    let mut v = vec![];
    for i in 0..n {
        b.at(i, n);
        b.s(["infixl 3 ", "infixr 4 ", "infix 55 "][i % 3]);
        let o = if i % 2 == 0 {
            b.id()
        } else if i < 6 {
            b.syms(FREEOP, OPC, 2)
        } else {
            b.s("<+");
            "<+".to_string()
        };
        b.s("\n");
        v.push(match i % 3 {
            0 => Statement::InfixDeclaration(Assoc::L, 3, o),
            1 => Statement::InfixDeclaration(Assoc::R, 4, o),
            _ => Statement::InfixDeclaration(Assoc::N, 55, o),
        });
    }
    expect(&b.t, &v)
}
const T23: &[&str] = &["infixl 9 +++\n", "infixr 4 abc\n", "infix 0 ==\nx = 1\n"];

// ---- C24 ------------------------------------------------------------------------------------

const NOTNL: Set = ASCII.minus(Set::one(b'\n'));
/// ASCII, or a character of two to four bytes
fn ch(b: &mut B, s: Set, wide: bool) {
    match if wide { pick(2) } else { 0 } {
        0 => {
            b.sym(s);
        }
        _ => mutate::uchar(b),
    }
}
fn com(s: &[u8]) -> Statement {
    Statement::Comment(text(s).to_string())
}
fn one() -> Statement {
    fun_s("x", vec![], int("1"))
}
fn line_comment(n: usize, wide: bool) {
    let before = flag();
    let mut b = B::new(if before { "x = 1\n--" } else { "--" });
    let a = b.t.len();
    for _ in 0..n {
        ch(&mut b, NOTNL, wide);
    }
    let c = com(&b.t[a..]);
    let mut v = vec![c];
    if before {
        v.insert(0, one())
    }
    match pick(3) {
        0 => {}
        1 => b.s("\n"),
        _ => {
            b.s("\nx = 1\n");
            v.push(one())
        }
    }
    expect(&b.t, &v)
}
fn block_comment(n: usize, wide: bool) {
    let before = flag();
    let mut b = B::new(if before { "x = 1\n{-" } else { "{-" });
    let a = b.t.len();
    for _ in 0..n {
        ch(&mut b, ASCII, wide);
    }
    b.s("-}");
    // the comment ends at the first closing mark
    let mut e = a;
    while !(b.t[e] == b'-' && b.t[e + 1] == b'}') {
        e += 1
    }
    if e + 2 != b.t.len() {
        agree(&b.t);
        return;
    }
    let mut v = vec![com(&b.t[a..e])];
    if before {
        v.insert(0, one())
    }
    match pick(3) {
        0 => {}
        1 => b.s("\n"),
        _ => {
            b.s("\nx = 1\n");
            v.push(one())
        }
    }
    expect(&b.t, &v)
}
/// long comments: length n, symbolic at three places
fn comment_long() {
    let n = super::p_lex::size();
    let block = flag();
    let mut b = B::new(if block { "{-" } else { "--" });
    for i in 0..n {
        if i == 0 || i == n / 2 || i + 1 == n {
            b.sym(PRINT.minus(Set::of(b"-}{")));
        } else if block && i % 40 == 39 {
            b.s("\n")
        } else {
            b.s(" ")
        }
    }
    let c = com(&b.t[2..]);
    b.s(if block { "-}\n" } else { "\n" });
    b.s("x = 1\n");
    expect(&b.t, &[c, one()])
}
/// comments between all kinds of statements are statements of their own, in place
fn comment_between() {
    let mut b = B::new("");
    let k = pick(STMTS);
    let mut v = vec![stmt(&mut b, k)];
    let block = flag();
    let near = pick(4);
    b.s(["\n", "\n\n", " \n", " "][near as usize]);
    if k == 12 {
        // a line comment runs to the end of its line
        assume(near < 2);
    }
    b.s(if block { "{-" } else { "--" });
    let a = b.t.len();
    for _ in 0..2 {
        b.sym(ASCII.minus(Set::of(b"-}\n")));
    }
    v.push(com(&b.t[a..]));
    b.s(if block { "-}" } else { "" });
    b.s("\n");
    let k = pick(STMTS);
    v.push(stmt(&mut b, k));
    b.s("\n");
    expect(&b.t, &v)
}
fn comment_count() {
    let n = count();
    let k = pick(3);
    let mut b = B::new("");
    let mut v = vec![];
    for i in 0..n {
        b.at(i, n);
        let block = k == 0 || (k == 1 && i % 2 == 0);
        b.s(if block { "{-" } else { "--" });
        let a = b.t.len();
        b.sym(PRINT.minus(Set::of(b"-}")));
        v.push(com(&b.t[a..]));
        b.s(if block { "-}\n" } else { "\n" });
    }
    expect(&b.t, &v)
}
const T24: &[&str] = &[
    "-- a b\nx = 1\n{- c\n d -}\ny = 2 -- e\n",
    "{- a -}\n{--}\n--\n----\n-- {- b -}\n",
    "{-| doc\n\n    x = 1\n-}\nx = \"-- no {- -}\"\n",
];

// ---- statements -----------------------------------------------------------------------------

/// an operator; far into a long text it is a fixed one
fn opname(b: &mut B) -> String {
    if b.t.len() < 60 {
        b.syms(FREEOP, OPC, 2)
    } else {
        b.s("<+");
        "<+".to_string()
    }
}
pub const STMTS: u32 = 15;
pub fn stmt(b: &mut B, kind: u32) -> Statement {
    match kind {
        0 | 1 | 2 => header(b, kind, 1, 1, &mut |b| exposing(b, 0, 0, ",")),
        3 => imp(b, 1, false, None),
        4 => imp(b, 1, true, Some((1, 0))),
        5 => {
            b.s("type alias ");
            let n = b.up();
            b.s(" = ");
            let t = b.up();
            Statement::TypeAliasDeclaration(tcon(&n, vec![]), tcon(&t, vec![]))
        }
        6 => {
            b.s("type ");
            let n = b.up();
            b.s(" = ");
            let c = b.up();
            b.s(" | ");
            let d = b.up();
            Statement::TypeDeclaration(tcon(&n, vec![]), vec![tcon(&c, vec![]), tcon(&d, vec![])])
        }
        7 => {
            b.s("port ");
            let n = b.id();
            b.s(" : ");
            let t = b.up();
            Statement::PortTypeDeclaration(n, tcon(&t, vec![]))
        }
        8 => {
            b.s("port ");
            let n = b.id();
            b.s(" = ");
            let e = b.var();
            Statement::PortDeclaration(n, vec![], e)
        }
        9 => {
            let n = b.id();
            b.s(" ");
            let a = b.var();
            b.s(" = ");
            let e = b.var();
            fun_s(&n, vec![a], e)
        }
        10 => {
            let n = b.id();
            b.s(" : ");
            let t = b.up();
            b.s("\n");
            let m = b.id();
            b.s(" = ");
            let e = b.var();
            let mut f = fun(&m, vec![], e);
            f.signature = Some(FunctionSignature { name: n, type_: tcon(&t, vec![]) });
            Statement::Function(f)
        }
        11 => {
            b.s("infixl 5 ");
            let o = opname(b);
            Statement::InfixDeclaration(Assoc::L, 5, o)
        }
        12 => {
            b.s("--");
            let a = b.t.len();
            b.sym(PRINT);
            com(&b.t[a..])
        }
        13 => {
            b.s("{-");
            let a = b.t.len();
            b.sym(PRINT.minus(Set::of(b"-}")));
            let c = com(&b.t[a..]);
            b.s("-}");
            c
        }
        _ => {
            b.s("(");
            let o = opname(b);
            b.s(") = ");
            let e = b.var();
            fun_s(&o, vec![], e)
        }
    }
}

// ---- C25 ------------------------------------------------------------------------------------

fn port_type() {
    let mut b = B::new("port ");
    b.s(["", "  "][pick(2) as usize]);
    let n = b.id();
    b.s([" : ", "  :\n   ", " :  ", " : -- c\n  "][pick(4) as usize]);
    let m = pick(2) as usize + 1;
    let mut v = vec![];
    for i in 0..m {
        if i > 0 {
            b.s([" -> ", "\n  -> "][pick(2) as usize])
        }
        v.push(b.type_(pick(TYPES)));
    }
    let mut t = v.pop().unwrap();
    while let Some(a) = v.pop() {
        t = tapp(a, t)
    }
    b.s("\n");
    expect(&b.t, &[Statement::PortTypeDeclaration(n, t)])
}
fn port_def() {
    let mut b = B::new("port ");
    let n = b.id();
    let m = few(10) - 1;
    let mut v = vec![];
    for i in 0..m {
        b.s(if i % 2 == 0 { " " } else { "  " });
        v.push(b.id());
    }
    b.s([" = ", " =\n  ", "  = "][pick(3) as usize]);
    let k = pick(EXPRS);
    let e = b.expr(k);
    b.s("\n");
    expect(&b.t, &[Statement::PortDeclaration(n, v, e)])
}
fn port_count() {
    let n = count();
    let mut b = B::new("");
    let mut v = vec![];
    for i in 0..n {
        b.at(i, n);
        v.push(stmt(&mut b, 7 + (i % 2) as u32));
        b.s("\n");
    }
    expect(&b.t, &v)
}
const T25: &[&str] = &["port a : B -> C d\n", "port a b c = d e\n", "port a : B\nport c =\n  d\n", "port a :\n  (b -> C) -> D\n"];

// ---- C26 ------------------------------------------------------------------------------------

fn fn_args(n: usize, sig: bool) {
    let mut b = B::new("");
    let op = flag();
    fn name(b: &mut B, op: bool) -> String {
        if op {
            b.s("(");
            let o = b.syms(FREEOP, OPC, 2);
            b.s(")");
            o
        } else {
            b.id()
        }
    }
    let mut s = None;
    if sig {
        let n = name(&mut b, op);
        b.s([" : ", " :\n  "][pick(2) as usize]);
        let k = pick(TYPES);
        let t = b.type_(k);
        b.s(" -> ");
        let u = b.type_(1);
        b.s("\n");
        s = Some(FunctionSignature { name: n, type_: tapp(t, u) });
    }
    let m = name(&mut b, op);
    let mut v = vec![];
    for _ in 0..n {
        b.s(" ");
        v.push(b.term(pick(TERMS)));
    }
    b.s([" = ", " =\n  "][pick(2) as usize]);
    let e = b.var();
    b.s("\n");
    let mut f = fun(&m, v, e);
    f.signature = s;
    expect(&b.t, &[Statement::Function(f)])
}
fn fn_body() {
    let mut b = B::new("");
    let n = b.id();
    b.s(" ");
    let a = b.var();
    b.s([" = ", " =\n  ", "  =\n\n -- c\n  "][pick(3) as usize]);
    let k = pick(EXPRS);
    let e = b.expr(k);
    b.s("\n");
    let m = b.id();
    b.s(" =\n    ");
    let k = pick(EXPRS);
    let d = b.expr(k);
    b.s(["", "\n", "\n\n"][pick(3) as usize]);
    expect(&b.t, &[fun_s(&n, vec![a], e), fun_s(&m, vec![], d)])
}
fn fn_count() {
    let n = count();
    let k = pick(3);
    let mut b = B::new("");
    if k == 0 {
        // n arguments
        let m = b.id();
        let mut v = vec![];
        for i in 0..n {
            b.at(i, n);
            b.s(if i % 2 == 0 { " " } else { "  " });
            v.push(b.term([0, 13, 15, 0, 1][i % 5]));
        }
        b.s(" = 1\n");
        expect(&b.t, &[fun_s(&m, v, int("1"))]);
        return;
    }
    let mut v = vec![];
    for i in 0..n {
        b.at(i, n);
        v.push(stmt(&mut b, if k == 1 || i % 2 == 0 { 10 } else { 9 }));
        b.s("\n");
    }
    expect(&b.t, &v)
}
/// a signature pairs with the definition on the next line, and with nothing else
fn fn_pair() {
    let mut b = B::new("");
    let s = pick(3);
    let n = b.id();
    b.s(" : ");
    let t = b.up();
    b.s(["\n", "\n\n", "\n-- c\n"][s as usize]);
    let m = b.id();
    b.s(" = ");
    let e = b.var();
    b.s("\n");
    if s == 0 {
        let mut f = fun(&m, vec![], e);
        f.signature = Some(FunctionSignature { name: n, type_: tcon(&t, vec![]) });
        expect(&b.t, &[Statement::Function(f)])
    } else {
        reject(&b.t)
    }
}
const T26: &[&str] = &[
    "f : A -> B\nf a = b\n",
    "(+) a b = c\ng (a, b) { c } _ [] = d\n",
    "f a =\n  g\n    b\n\n\nh = i\n",
    "(++) : A\n(++) = b\nf : C\nf 1 \"a\" 'b' = d\n",
];

// ---- C27 ------------------------------------------------------------------------------------

fn pair() {
    let mut b = B::new("");
    let mut v = vec![];
    for i in 0..2 {
        let k = pick(STMTS);
        v.push(stmt(&mut b, k));
        if i == 0 {
            b.s("\n");
            b.any(Set::of(b"\n\r\t "), 1);
            b.s("\n");
        }
    }
    expect(&b.t, &v)
}
fn triple() {
    let mut b = B::new("");
    let mut v = vec![];
    for _ in 0..3 {
        let k = pick(STMTS);
        v.push(stmt(&mut b, k));
        b.s("\n");
    }
    expect(&b.t, &v)
}
fn seps() {
    let ws = Set::of(b"\n\r\t ");
    let mut b = B::new("");
    b.any(ws, 2);
    let k = pick(STMTS);
    let mut v = vec![stmt(&mut b, k)];
    b.s("\n");
    b.any(ws, 2);
    b.s("\n");
    let k = [9u32, 3, 12, 6][pick(4) as usize];
    v.push(stmt(&mut b, k));
    b.s("\n");
    b.any(ws, 2);
    expect(&b.t, &v)
}
fn many() {
    let n = count();
    let k = pick(STMTS + 1);
    let gap = ["\n", "\n\n\n"][pick(2) as usize];
    let mut b = B::new("");
    let mut v = vec![];
    for i in 0..n {
        b.at(i, n);
        let kind = if k == STMTS { i as u32 % STMTS } else { k };
        v.push(stmt(&mut b, kind));
        b.s(gap);
    }
    expect(&b.t, &v)
}
/// the statements of two texts put one after the other are those of the first, then the second
fn concat() {
    let t1 = T27[pick(T27.len() as u32) as usize].as_bytes();
    let t2 = T27[pick(T27.len() as u32) as usize].as_bytes();
    let p = pick(t1.len() as u32 - 1) as usize;
    let mut a = t1.to_vec();
    a[p] = byte(ASCII);
    let mut c = a.clone();
    c.extend_from_slice(t2);
    if judged(&c) {
        return;
    }
    let (x, y, z) = (parse(&a), parse(t2), parse(&c));
    if let (Some(mut x), Some(y)) = (x, y) {
        match z {
            Some(z) => {
                x.extend(y);
                check(x == z, "two texts put together do not give both lists of statements");
                cover(1);
            }
            None => fail("two well-formed texts put together are rejected"),
        }
    } else {
        cover(2)
    }
}
/// text that is not a statement makes the whole file an error, wherever it stands
fn bad() {
    let at = pick(4) as usize;
    let mut b = B::new("");
    for i in 0..4 {
        if i == at {
            let a = b.t.len();
            b.any(ASCII, 2);
            // not a comment, not blank, not the beginning of a definition
            let (c, d) = (b.t[a], b.t[a + 1]);
            assume(!((c == b' ') | (c == b'\n') | (c == b'\r') | (c == b'\t')) & !((c == b'-') & (d == b'-')));
            b.s("\n");
        }
        if i < 3 {
            stmt(&mut b, [3, 9, 6][i]);
            b.s("\n");
        }
    }
    reject(&b.t)
}
const T27: &[&str] = &[
    "module A exposing (..)\nimport B\nx = a\n",
    "type A = B | C\ntype alias D = E\n",
    "f : A\nf a =\n  case a of\n    b -> c\n    d -> e\n",
    "-- a\n{- b -}\ninfixl 4 +\n",
    "port a : B\nx =\n  let\n    y = 1\n  in\n    y\n",
];

entries! {
    c21_items => mod_items();
    c21_count => mod_count();
    c21_gaps => mod_gaps();
    c21_egaps => eff_gaps();
    c21_igaps => item_gaps();
    c21_tok => mutate::toks(T21, 1);
    c21_dup => mutate::same(T21);
    c21_uni => mutate::uni(T21);
    c21_deeptok2 => mutate::toks(T21, 2);
    c21_over => edits(T21, ASCII, 2, true);
    c21_ins => edits(T21, ASCII, 2, false);
    c21_ins3 => edits(T21, ASCII, 3, false);
    c21_deepover => edits(T21, ASCII, 4, true);
    c21_deepins => edits(T21, ASCII, 4, false);
    c21_cut => cuts(T21, 6);
    c21_win => win("module A exposing (", ASCII, 4, ")");
    c21_xwin => win("module A exposing (", ASCII, 5, ")");
    c21_deepwin => win("module A exposing (", ASCII, 6, ")");
    c21_win2 => win("module A exposing (A(", ASCII, 4, "))");
    c21_xwin2 => win("module A exposing (A(", ASCII, 5, "))");
    c21_deepwin2 => win("module A exposing (A(", ASCII, 6, "))");
    c21_win3 => win("effect module A where {", ASCII, 4, "} exposing (..)");
    c21_xwin3 => win("effect module A where {", ASCII, 5, "} exposing (..)");
    c21_deepwin3 => win("effect module A where {", ASCII, 6, "} exposing (..)");
    c21_win4 => win("module", ASCII, 3, " exposing (..)");
    c21_xwin4 => win("module", ASCII, 4, " exposing (..)");
    c21_deepwin4 => win("module", ASCII, 5, " exposing (..)");
    c21_wide => edits(T21, ASCII, 3, true);

    c22_kinds => imp_kinds();
    c22_two => imp_two();
    c22_count => imp_count();
    c22_tok => mutate::toks(T22, 1);
    c22_dup => mutate::same(T22);
    c22_uni => mutate::uni(T22);
    c22_deeptok2 => mutate::toks(T22, 2);
    c22_over => edits(T22, ASCII, 2, true);
    c22_ins => edits(T22, ASCII, 2, false);
    c22_ins3 => edits(T22, ASCII, 3, false);
    c22_deepover => edits(T22, ASCII, 4, true);
    c22_deepins => edits(T22, ASCII, 4, false);
    c22_cut => cuts(T22, 6);
    c22_win => win("import", ASCII, 4, "");
    c22_xwin => win("import", ASCII, 5, "");
    c22_deepwin => win("import", ASCII, 6, "");
    c22_win2 => win("import A", ASCII, 4, "");
    c22_xwin2 => win("import A", ASCII, 5, "");
    c22_deepwin2 => win("import A", ASCII, 6, "");
    c22_win3 => win("import A as", ASCII, 4, "");
    c22_xwin3 => win("import A as", ASCII, 5, "");
    c22_deepwin3 => win("import A as", ASCII, 6, "");
    c22_win4 => win("import A exposing", ASCII, 4, "a)");
    c22_xwin4 => win("import A exposing", ASCII, 5, "a)");
    c22_deepwin4 => win("import A exposing", ASCII, 6, "a)");
    c22_win5 => win("import A exposing (", ASCII, 4, ")");
    c22_xwin5 => win("import A exposing (", ASCII, 5, ")");
    c22_deepwin5 => win("import A exposing (", ASCII, 6, ")");
    c22_wide => edits(T22, ASCII, 3, true);

    c23_all => infix();
    c23_edge => infix_edge();
    c23_count => infix_count();
    c23_tok => mutate::toks(T23, 1);
    c23_dup => mutate::same(T23);
    c23_uni => mutate::uni(T23);
    c23_deeptok2 => mutate::toks(T23, 2);
    c23_over => edits(T23, ASCII, 2, true);
    c23_ins => edits(T23, ASCII, 2, false);
    c23_ins3 => edits(T23, ASCII, 3, false);
    c23_deepover => edits(T23, ASCII, 4, true);
    c23_deepins => edits(T23, ASCII, 4, false);
    c23_cut => cuts(T23, 5);
    c23_win => win("infix", ASCII, 5, "");
    c23_xwin => win("infix", ASCII, 6, "");
    c23_deepwin => win("infix", ASCII, 7, "");
    c23_win2 => win("infixl 9", ASCII, 4, "");
    c23_xwin2 => win("infixl 9", ASCII, 5, "");
    c23_deepwin2 => win("infixl 9", ASCII, 6, "");
    c23_win3 => win("infixr ", DIGIT.or(Set::of(b" +a")), 4, " +");
    c23_wide => win("infix", ASCII, 6, "");
    c23_wide2 => edits(T23, ASCII, 3, true);

    c24_line => { let n = pick(5) as usize; line_comment(n, false) };
    c24_linew => { let n = pick(2) as usize + 1; line_comment(n, true) };
    c24_block => { let n = pick(5) as usize; block_comment(n, false) };
    c24_blockw => { let n = pick(3) as usize + 1; block_comment(n, true) };
    c24_long => comment_long();
    c24_between => comment_between();
    c24_count => comment_count();
    c24_tok => mutate::toks(T24, 1);
    c24_dup => mutate::same(T24);
    c24_uni => mutate::uni(T24);
    c24_deeptok2 => mutate::toks(T24, 2);
    c24_over => edits(T24, ASCII, 2, true);
    c24_ins => edits(T24, ASCII, 2, false);
    c24_ins3 => edits(T24, ASCII, 3, false);
    c24_deepover => edits(T24, ASCII, 4, true);
    c24_deepins => edits(T24, ASCII, 4, false);
    c24_cut => cuts(T24, 4);
    c24_win => win("", Set::of(b"{-} \nx"), 6, "");
    c24_win2 => win("x = 1", ASCII, 4, "-}\n");
    c24_xwin2 => win("x = 1", ASCII, 5, "-}\n");
    c24_deepwin2 => win("x = 1", ASCII, 6, "-}\n");
    c24_wide => { let n = pick(9) as usize; block_comment(n, false) };
    c24_wide2 => edits(T24, ASCII, 3, true);

    c25_type => port_type();
    c25_def => port_def();
    c25_count => port_count();
    c25_tok => mutate::toks(T25, 1);
    c25_dup => mutate::same(T25);
    c25_uni => mutate::uni(T25);
    c25_deeptok2 => mutate::toks(T25, 2);
    c25_over => edits(T25, ASCII, 2, true);
    c25_ins => edits(T25, ASCII, 2, false);
    c25_ins3 => edits(T25, ASCII, 3, false);
    c25_deepover => edits(T25, ASCII, 4, true);
    c25_deepins => edits(T25, ASCII, 4, false);
    c25_cut => cuts(T25, 5);
    c25_win => win("port", ASCII, 4, " = 1");
    c25_xwin => win("port", ASCII, 5, " = 1");
    c25_deepwin => win("port", ASCII, 6, " = 1");
    c25_win2 => win("port a", ASCII, 4, "B");
    c25_xwin2 => win("port a", ASCII, 5, "B");
    c25_deepwin2 => win("port a", ASCII, 6, "B");
    c25_win3 => win("port a =", ASCII, 4, "");
    c25_xwin3 => win("port a =", ASCII, 5, "");
    c25_deepwin3 => win("port a =", ASCII, 6, "");
    c25_wide => edits(T25, ASCII, 3, true);

    c26_args => { let n = pick(3) as usize; fn_args(n, false) };
    c26_sig => { let n = pick(2) as usize; fn_args(n, true) };
    c26_body => fn_body();
    c26_count => fn_count();
    c26_pair => fn_pair();
    c26_tok => mutate::toks(T26, 1);
    c26_dup => mutate::same(T26);
    c26_uni => mutate::uni(T26);
    c26_deeptok2 => mutate::toks(T26, 2);
    c26_over => edits(T26, ASCII, 2, true);
    c26_ins => edits(T26, ASCII, 2, false);
    c26_ins3 => edits(T26, ASCII, 3, false);
    c26_deepover => edits(T26, ASCII, 4, true);
    c26_deepins => edits(T26, ASCII, 4, false);
    c26_cut => cuts(T26, 6);
    c26_win => win("f", ASCII, 4, "= a");
    c26_xwin => win("f", ASCII, 5, "= a");
    c26_deepwin => win("f", ASCII, 6, "= a");
    c26_win2 => win("f : A", ASCII, 3, "f = a");
    c26_xwin2 => win("f : A", ASCII, 4, "f = a");
    c26_deepwin2 => win("f : A", ASCII, 5, "f = a");
    c26_win3 => win("f", ASCII, 3, "\nf = a");
    c26_xwin3 => win("f", ASCII, 4, "\nf = a");
    c26_deepwin3 => win("f", ASCII, 5, "\nf = a");
    c26_win4 => win("", ASCII, 4, " = a");
    c26_xwin4 => win("", ASCII, 5, " = a");
    c26_deepwin4 => win("", ASCII, 6, " = a");
    c26_args3 => fn_args(3, false);
    c26_wide => edits(T26, ASCII, 3, true);

    c27_pair => pair();
    c27_seps => seps();
    c27_many => many();
    c27_concat => concat();
    c27_bad => bad();
    c27_tok => mutate::toks(T27, 1);
    c27_dup => mutate::same(T27);
    c27_uni => mutate::uni(T27);
    c27_deeptok2 => mutate::toks(T27, 2);
    c27_over => edits(T27, ASCII, 2, true);
    c27_ins => edits(T27, ASCII, 2, false);
    c27_ins3 => edits(T27, ASCII, 3, false);
    c27_deepover => edits(T27, ASCII, 4, true);
    c27_deepins => edits(T27, ASCII, 4, false);
    c27_cut => cuts(T27, 8);
    c27_win => win("x = 1", ASCII, 3, "y = 2");
    c27_xwin => win("x = 1", ASCII, 4, "y = 2");
    c27_deepwin => win("x = 1", ASCII, 5, "y = 2");
    c27_win2 => win("", ASCII, 4, "");
    c27_xwin2 => win("", ASCII, 5, "");
    c27_deepwin2 => win("", ASCII, 6, "");
    c27_win3 => win("x = 1\n", ASCII, 3, "\ny = 2\n");
    c27_xwin3 => win("x = 1\n", ASCII, 4, "\ny = 2\n");
    c27_deepwin3 => win("x = 1\n", ASCII, 5, "\ny = 2\n");
    c27_triple => triple();
    c27_wide => edits(T27, ASCII, 3, true);
}
