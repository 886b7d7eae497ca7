//! C03 identifiers, C04 operators, C05 numbers, C06 strings, C07 characters

use super::gen::*;
use super::mutate;
use super::lib_::*;
use super::sym::*;
use super::ty::*;

const KEYWORDS: [&str; 15] = [
    "module", "where", "import", "as", "exposing", "type", "alias", "port", "if", "then", "else", "let",
    "in", "case", "of",
];
pub fn keyword(n: &str) -> bool {
    KEYWORDS.iter().any(|k| *k == n)
}
const SIZES: [usize; 29] = [
    1, 2, 3, 9, 10, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 129, 255, 257, 511, 513, 999, 1000, 1001, 1023, 1025, 4095, 4097,
];
pub fn size() -> usize {
    SIZES[pick(SIZES.len() as u32) as usize]
}

pub const LO_CTX: u32 = 24;
/// a file with the lower case name `n` in one role
pub fn lo_ctx(k: u32, n: &str) -> (Vec<u8>, Vec<Statement>) {
    let x = |e: Expression| vec![fun_s("x", vec![], e)];
    let name = || n.to_string();
    let m = |v: Vec<ExportSet>| ExportSet::SubsetExport(v);
    let (t, s): (String, Vec<Statement>) = match k {
        0 => (format_("x = ", n, ""), x(v1(n))),
        1 => (format_("", n, " = 1"), vec![fun_s(n, vec![], int("1"))]),
        2 => (format_("f ", n, " = 1"), vec![fun_s("f", vec![v1(n)], int("1"))]),
        3 => (format_("x = {", n, "=1}"), x(Expression::Record(vec![(name(), int("1"))]))),
        4 => (format_("x = r.", n, ""), x(Expression::Access(bx(v1("r")), vec![name()]))),
        5 => (format_("x = .", n, ""), x(Expression::AccessFunction(name()))),
        6 => (format_("x = ", n, ".b"), x(Expression::Access(bx(v1(n)), vec!["b".to_string()]))),
        7 => (
            format_("x = {", n, "|b=1 }"),
            x(Expression::RecordUpdate(name(), vec![("b".to_string(), int("1"))])),
        ),
        8 => (
            format_("x = {b|", n, "=1 }"),
            x(Expression::RecordUpdate("b".to_string(), vec![(name(), int("1"))])),
        ),
        9 => (
            format_("x = let ", n, " = 1 in 2"),
            x(Expression::Let(vec![LetEntry::LetBinding(v1(n), int("1"))], bx(int("2")))),
        ),
        10 => (
            format_("x = let ", n, " y = 1 in 2"),
            x(Expression::Let(vec![LetEntry::LetFunction(fun(n, vec![v1("y")], int("1")))], bx(int("2")))),
        ),
        11 => (format_("x = \\", n, " -> 1"), x(Expression::Lambda(vec![v1(n)], bx(int("1"))))),
        12 => (
            format_("x = case y of ", n, " -> 1"),
            x(Expression::Case(bx(v1("y")), vec![(v1(n), int("1"))])),
        ),
        13 => (
            format_("module M exposing (", n, ")"),
            vec![Statement::ModuleDeclaration(vec!["M".to_string()], m(vec![ExportSet::FunctionExport(name())]))],
        ),
        14 => (
            format_("import M exposing (y, ", n, ")"),
            vec![Statement::ImportStatement(
                vec!["M".to_string()],
                None,
                Some(m(vec![ExportSet::FunctionExport("y".to_string()), ExportSet::FunctionExport(name())])),
            )],
        ),
        15 => (
            format_("", n, " : A\ny = 1"),
            vec![Statement::Function(Function {
                signature: Some(FunctionSignature { name: name(), type_: tcon("A", vec![]) }),
                definition: FunctionDefinition { name: "y".to_string(), args: vec![], body: int("1") },
            })],
        ),
        16 => (format_("port ", n, " : A"), vec![Statement::PortTypeDeclaration(name(), tcon("A", vec![]))]),
        17 => (
            format_("type alias A = {", n, ":A}"),
            vec![Statement::TypeAliasDeclaration(
                tcon("A", vec![]),
                Type::TypeRecord(vec![(name(), tcon("A", vec![]))]),
            )],
        ),
        18 => (
            format_("effect module M where {", n, " = A} exposing (..)"),
            vec![Statement::EffectModuleDeclaration(
                vec!["M".to_string()],
                vec![(name(), "A".to_string())],
                ExportSet::AllExport,
            )],
        ),
        19 => (format_("infix 4 ", n, ""), vec![Statement::InfixDeclaration(Assoc::N, 4, name())]),
        20 => (format_("x = f ", n, ""), x(app(v1("f"), v1(n)))),
        21 => (
            format_("x = if ", n, " then 1 else 2"),
            x(Expression::If(bx(v1(n)), bx(int("1")), bx(int("2")))),
        ),
        22 => (
            format_("port y ", n, " = 1"),
            vec![Statement::PortDeclaration("y".to_string(), vec![name()], int("1"))],
        ),
        _ => (
            format_("x = [1, ", n, "]"),
            x(Expression::List(vec![int("1"), v1(n)])),
        ),
    };
    (t.into_bytes(), s)
}
fn format_(a: &str, n: &str, b: &str) -> String {
    let mut s = String::from(a);
    s.push_str(n);
    s.push_str(b);
    s
}

pub const UP_CTX: u32 = 16;
pub fn up_ctx(k: u32, n: &str) -> (Vec<u8>, Vec<Statement>) {
    let x = |e: Expression| vec![fun_s("x", vec![], e)];
    let name = || n.to_string();
    let al = |t: Type| vec![Statement::TypeAliasDeclaration(tcon("A", vec![]), t)];
    let m = "M".to_string();
    let (t, s): (String, Vec<Statement>) = match k {
        0 => (format_("x = ", n, ""), x(v1(n))),
        1 => (format_("x = f ", n, " y"), x(app(app(v1("f"), v1(n)), v1("y")))),
        2 => (format_("x = M.", n, ""), x(Expression::Variable(vec![m, name()]))),
        3 => (format_("x = ", n, ".y"), x(Expression::Access(bx(v1(n)), vec!["y".to_string()]))),
        4 => (
            format_("x = case y of ", n, " z -> 1"),
            x(Expression::Case(bx(v1("y")), vec![(app(v1(n), v1("z")), int("1"))])),
        ),
        5 => (format_("type alias A = ", n, ""), al(tcon(n, vec![]))),
        6 => (format_("type alias A = List ", n, ""), al(tcon("List", vec![tcon(n, vec![])]))),
        7 => (
            format_("type alias A = M.", n, " b"),
            al(Type::TypeConstructor(vec![m, name()], vec![tvar("b")])),
        ),
        8 => (
            format_("type ", n, " = B"),
            vec![Statement::TypeDeclaration(tcon(n, vec![]), vec![tcon("B", vec![])])],
        ),
        9 => (
            format_("type A = B | ", n, " c"),
            vec![Statement::TypeDeclaration(
                tcon("A", vec![]),
                vec![tcon("B", vec![]), tcon(n, vec![tvar("c")])],
            )],
        ),
        10 => (
            format_("module ", n, " exposing (..)"),
            vec![Statement::ModuleDeclaration(vec![name()], ExportSet::AllExport)],
        ),
        11 => (format_("import M.", n, ""), vec![Statement::ImportStatement(vec![m, name()], None, None)]),
        12 => (
            format_("import M as ", n, " exposing (..)"),
            vec![Statement::ImportStatement(vec![m], Some(name()), Some(ExportSet::AllExport))],
        ),
        13 => (
            format_("import M exposing (", n, "(..))"),
            vec![Statement::ImportStatement(
                vec![m],
                None,
                Some(ExportSet::SubsetExport(vec![ExportSet::TypeExport(
                    name(),
                    Some(Box::new(ExportSet::AllExport)),
                )])),
            )],
        ),
        14 => (
            format_("module M exposing (A(B, ", n, "))"),
            vec![Statement::ModuleDeclaration(
                vec![m],
                ExportSet::SubsetExport(vec![ExportSet::TypeExport(
                    "A".to_string(),
                    Some(Box::new(ExportSet::SubsetExport(vec![
                        ExportSet::FunctionExport("B".to_string()),
                        ExportSet::FunctionExport(name()),
                    ]))),
                )]),
            )],
        ),
        _ => (
            format_("effect module M where {a = ", n, "} exposing (..)"),
            vec![Statement::EffectModuleDeclaration(
                vec![m],
                vec![("a".to_string(), name())],
                ExportSet::AllExport,
            )],
        ),
    };
    (t.into_bytes(), s)
}

fn lower(len: usize, ctx: u32) {
    let mut b = B::new("");
    let n = b.syms(LOWER, WORD, len);
    let (t, s) = lo_ctx(ctx, &n);
    if keyword(&n) {
        reject(&t)
    } else {
        expect(&t, &s)
    }
}
fn upper(len: usize, ctx: u32) {
    let mut b = B::new("");
    let n = b.syms(UPPER, WORD, len);
    let (t, s) = up_ctx(ctx, &n);
    expect(&t, &s)
}
/// a long name: symbolic first and last two characters
fn long(first: Set) -> String {
    let n = size();
    let mut b = B::new("");
    b.sym(first);
    while b.t.len() + 2 < n {
        b.s(["q", "Z", "_", "7"][b.t.len() & 3]);
    }
    while b.t.len() < n {
        b.sym(TAIL);
    }
    text(&b.t).to_string()
}

/// a name of free characters only
fn all_free(lens: &[usize]) {
    let n = lens[pick(lens.len() as u32) as usize];
    let mut b = B::new("");
    if flag() {
        let k = pick(LO_CTX);
        let n = b.syms(LOWER, WORD, n);
        let (t, s) = lo_ctx(k, &n);
        if keyword(&n) {
            reject(&t)
        } else {
            expect(&t, &s)
        }
    } else {
        let k = pick(UP_CTX);
        let n = b.syms(UPPER, WORD, n);
        let (t, s) = up_ctx(k, &n);
        expect(&t, &s)
    }
}

// ---- operators ------------------------------------------------------------------------------

const RESERVED_OPS: [&str; 7] = ["=", ".", "..", "->", "--", "|", ":"];
fn reserved_op(o: &str) -> bool {
    RESERVED_OPS.iter().any(|k| *k == o)
}
fn op_infix(n: usize) {
    let mut b = B::new("x = a ");
    let o = b.any(OPC, n);
    b.s(" b");
    if n >= 2 && o.as_bytes()[0] == b'-' && o.as_bytes()[1] == b'-' {
        // a comment to the end of the line
        let c = Statement::Comment(text(&b.t[8..]).to_string());
        expect(&b.t, &[fun_s("x", vec![], v1("a")), c]);
        cover(3)
    } else if reserved_op(&o) {
        reject(&b.t)
    } else {
        expect(&b.t, &[fun_s("x", vec![], Expression::BinOp(bx(v1(&o)), bx(v1("a")), bx(v1("b"))))])
    }
}
fn op_name(n: usize) {
    let k = pick(6);
    let mut b = B::new(["x = (", "(", "module M exposing (a, (", "infixl 3 ", "x = let (", "("][k as usize]);
    let o = b.any(OPC, n);
    b.s([")", ") a = 1", "))", "", ") a = 1 in 2", ") : A\n(+) = 1"][k as usize]);
    let f = |n: &str| fun(n, vec![v1("a")], int("1"));
    let w = match k {
        0 => fun_s("x", vec![], v1(&o)),
        1 => Statement::Function(f(&o)),
        2 => Statement::ModuleDeclaration(
            vec!["M".to_string()],
            ExportSet::SubsetExport(vec![
                ExportSet::FunctionExport("a".to_string()),
                ExportSet::FunctionExport(o.clone()),
            ]),
        ),
        3 => Statement::InfixDeclaration(Assoc::L, 3, o.clone()),
        4 => fun_s("x", vec![], Expression::Let(vec![LetEntry::LetFunction(f(&o))], bx(int("2")))),
        _ => Statement::Function(Function {
            signature: Some(FunctionSignature { name: o.clone(), type_: tcon("A", vec![]) }),
            definition: FunctionDefinition { name: "+".to_string(), args: vec![], body: int("1") },
        }),
    };
    if reserved_op(&o) {
        reject(&b.t)
    } else {
        expect(&b.t, &[w])
    }
}
fn op_long() {
    let n = size();
    let mut b = B::new("x = a ");
    let st = b.t.len();
    b.sym(OPC.minus(Set::of(b"-")));
    while b.t.len() - st + 1 < n {
        b.s(["+", "*", "<", "."][b.t.len() & 3]);
    }
    if n > 1 {
        b.sym(OPC);
    }
    let o = text(&b.t[st..]).to_string();
    b.s(" b");
    if reserved_op(&o) {
        reject(&b.t)
    } else {
        expect(&b.t, &[fun_s("x", vec![], Expression::BinOp(bx(v1(&o)), bx(v1("a")), bx(v1("b"))))])
    }
}

// ---- numbers --------------------------------------------------------------------------------

/// where a literal (or any term) can stand
pub const SLOTS: u32 = 12;
pub fn slot(k: u32, lit: &dyn Fn(&mut B) -> Expression) {
    let mut b = B::new("");
    let x = |e: Expression| fun_s("x", vec![], e);
    let w = match k {
        0 => {
            b.s("x = ");
            x(lit(&mut b))
        }
        1 => {
            b.s("x = f ");
            x(app(v1("f"), lit(&mut b)))
        }
        2 => {
            b.s("x = f ");
            let l = lit(&mut b);
            b.s(" y");
            x(app(app(v1("f"), l), v1("y")))
        }
        3 => {
            b.s("x = [");
            let l = lit(&mut b);
            b.s(",y]");
            x(Expression::List(vec![l, v1("y")]))
        }
        4 => {
            b.s("x = (y,");
            let l = lit(&mut b);
            b.s(")");
            x(Expression::Tuple(vec![v1("y"), l]))
        }
        5 => {
            b.s("x = {y=");
            let l = lit(&mut b);
            b.s("}");
            x(Expression::Record(vec![("y".to_string(), l)]))
        }
        6 => {
            b.s("x = ");
            let l = lit(&mut b);
            b.s(" + y");
            x(Expression::BinOp(bx(v1("+")), bx(l), bx(v1("y"))))
        }
        7 => {
            b.s("x = y + ");
            let l = lit(&mut b);
            x(Expression::BinOp(bx(v1("+")), bx(v1("y")), bx(l)))
        }
        8 => {
            b.s("x = case y of\n  ");
            let l = lit(&mut b);
            b.s(" -> ");
            let m = lit(&mut b);
            b.s("\n");
            x(Expression::Case(bx(v1("y")), vec![(l, m)]))
        }
        9 => {
            b.s("x = (");
            let l = lit(&mut b);
            b.s(")");
            x(l)
        }
        10 => {
            b.s("f ");
            let l = lit(&mut b);
            b.s(" = y");
            fun_s("f", vec![l], v1("y"))
        }
        _ => {
            b.s("x =\n  let y = ");
            let l = lit(&mut b);
            b.s("\n  in ");
            let m = lit(&mut b);
            b.s("\n\n");
            x(Expression::Let(vec![LetEntry::LetBinding(v1("y"), l)], bx(m)))
        }
    };
    expect(&b.t, &[w])
}
fn sign(b: &mut B) {
    match pick(3) {
        0 => {}
        1 => b.s("-"),
        _ => b.s("+"),
    }
}
fn integer(n: usize) -> impl Fn(&mut B) -> Expression {
    move |b: &mut B| {
        let a = b.t.len();
        sign(b);
        b.any(DIGIT, n);
        Expression::Integer(text(&b.t[a..]).to_string())
    }
}
fn float(n: usize, m: usize) -> impl Fn(&mut B) -> Expression {
    move |b: &mut B| {
        let a = b.t.len();
        sign(b);
        b.any(DIGIT, n);
        b.s(".");
        b.any(DIGIT, m);
        Expression::Float(text(&b.t[a..]).to_string())
    }
}
const NUMCH: Set = DIGIT.or(Set::of(b"+-.eExXa_ ()\n"));

// ---- strings --------------------------------------------------------------------------------

/// one piece of string content
fn piece(b: &mut B, multi: bool) {
    match pick(if multi { 5 } else { 6 }) {
        0 => {
            b.sym(ASCII.minus(Set::of(b"\"\\\n")));
        }
        1 => b.s("\\\\"),
        2 => {
            // any other escape is kept as it was written
            b.s("\\");
            b.sym(PRINT.minus(Set::of(b"\"\\")));
        }
        3 => mutate::uchar(b),
        4 => b.s(if multi { "\n" } else { "\t" }),
        _ => b.s("\\\""),
    }
}
fn string(n: usize) -> impl Fn(&mut B) -> Expression {
    move |b: &mut B| {
        b.s("\"");
        let a = b.t.len();
        for _ in 0..n {
            piece(b, false);
        }
        let c = text(&b.t[a..]).to_string();
        b.s("\"");
        Expression::String(c)
    }
}
fn multi(n: usize) -> impl Fn(&mut B) -> Expression {
    move |b: &mut B| {
        b.s("\"\"\"");
        let a = b.t.len();
        for _ in 0..n {
            piece(b, true);
        }
        let c = text(&b.t[a..]).to_string();
        b.s("\"\"\"");
        Expression::String(c)
    }
}
fn longstr(m: bool) -> impl Fn(&mut B) -> Expression {
    move |b: &mut B| {
        let n = size();
        let q = if m { "\"\"\"" } else { "\"" };
        b.s(q);
        let a = b.t.len();
        b.sym(PRINT.minus(Set::of(b"\"\\")));
        while b.t.len() - a + 1 < n {
            b.s(["q", " ", "'", "7"][b.t.len() & 3]);
        }
        if n > 1 {
            b.sym(PRINT.minus(Set::of(b"\"\\")));
        }
        let c = text(&b.t[a..]).to_string();
        b.s(q);
        Expression::String(c)
    }
}

// ---- characters -----------------------------------------------------------------------------

fn ch(b: &mut B) -> Expression {
    b.s("'");
    let a = b.t.len();
    match pick(3) {
        0 => {
            b.sym(ASCII.minus(Set::of(b"\\")));
        }
        1 => mutate::uchar(b),
        _ => {
            b.s("\\x");
            let mut v = 0;
            for _ in 0..2 {
                v = v * 16
                    + match pick(3) {
                        0 => (b.sym(DIGIT) - b'0') as u32,
                        1 => (b.sym(Set::range(b'a', b'f')) - b'a' + 10) as u32,
                        _ => (b.sym(Set::range(b'A', b'F')) - b'A' + 10) as u32,
                    };
            }
            b.s("'");
            return Expression::Character(char::from_u32(v).unwrap());
        }
    }
    let c = text(&b.t[a..]).chars().next().unwrap();
    b.s("'");
    Expression::Character(c)
}

fn two(f: &dyn Fn(&mut B) -> Expression) {
    let mut b = B::new("x = ");
    let l = f(&mut b);
    b.s("\ny = ");
    let m = f(&mut b);
    b.s("\n");
    expect(&b.t, &[fun_s("x", vec![], l), fun_s("y", vec![], m)])
}

/// two names, numbers, strings, operators or comments of one length in one file, all of it free
fn twin(k: u32) {
    let n = [2usize, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 33][pick(14) as usize];
    let str_ = PRINT.minus(Set::of(b"\\\""));
    let opx = OPC.minus(Set::of(b"-=.|:"));
    let mut b = B::new("");
    let mut w = vec![];
    let near = flag();
    if near {
        b.s("x = [ ")
    }
    let mut v = vec![];
    for i in 0..2 {
        if !near {
            b.s(["x = ", "y = "][i])
        }
        let e = match k {
            0 => v1(&b.syms(SAFE, WORD, n)),
            1 => v1(&b.syms(UPPER, WORD, n)),
            2 => {
                let t = b.any(DIGIT, n);
                int(&t)
            }
            3 => {
                let l = b.any(DIGIT, n);
                b.s(".");
                let r = b.any(DIGIT, 2);
                Expression::Float(format_(&l, ".", &r))
            }
            4 | 5 => {
                let q = ["\"", "\"\"\""][k as usize - 4];
                b.s(q);
                let t = b.any(str_, n);
                b.s(q);
                Expression::String(t)
            }
            6 => {
                b.s("(");
                let t = b.syms(opx, opx, n);
                b.s(")");
                v1(&t)
            }
            _ => {
                let l = b.syms(UPPER, WORD, n);
                b.s(".");
                let r = b.syms(SAFE, WORD, 2);
                Expression::Access(bx(v1(&l)), vec![r])
            }
        };
        if near {
            v.push(e);
            b.s([", ", " ]\n"][i])
        } else {
            w.push(fun_s(["x", "y"][i], vec![], e));
            b.s("\n")
        }
    }
    if near {
        w.push(fun_s("x", vec![], Expression::List(v)))
    }
    expect(&b.t, &w)
}
const HUGE: [usize; 6] = [8193, 16385, 32767, 32769, 65535, 65537];
/// a name, number or string of `n` characters, some of them free
fn long_of(n: usize, k: u32) -> impl Fn(&mut B) -> Expression {
    move |b: &mut B| {
        b.s(["", "", "\"", "\"\"\""][k as usize]);
        let a = b.t.len();
        let (s, c) = match k {
            0 => (SAFE, b'q'),
            1 => (DIGIT, b'7'),
            _ => (PRINT.minus(Set::of(b"\"\\")), b' '),
        };
        for i in 0..n {
            if i == 0 || i == n / 2 || i + 1 == n {
                b.sym(s);
            } else {
                b.t.push(c)
            }
        }
        let t = text(&b.t[a..]).to_string();
        b.s(["", "", "\"", "\"\"\""][k as usize]);
        match k {
            0 => v1(&t),
            1 => Expression::Integer(t),
            _ => Expression::String(t),
        }
    }
}
const T03: &[&str] = &[
    "module Ab.Cd exposing (ef, Gh(Ij))\nimport Kl as Mn\n",
    "ab : Cd ef -> { gh : Ij }\nab cd _ = ef.gh Ij.Kl.mn\n",
    "type Ab cd = Ef cd | Gh\ntype alias Ij = { kl | mn : Op }\n",
    "x = let ab = cd in case ef of\n  Gh ij -> \\kl -> { kl | mn = .op }\n",
];
const T04: &[&str] = &[
    "x = a +++ b <|> (c ** d)\n",
    "(<+>) a b = (+) a (<<) b\ninfixr 5 <+>\n",
    "module A exposing ((++), (>>=))\n(++) : A\n(++) = b\n",
    "x = let (+) a b = c in a * b\n",
    "x = a - b -1 :: c\n",
];
const T05: &[&str] = &[
    "x = f 12 -3 4.5 [ 6, 07 ]\n",
    "x = 1 + 2.0 - -3\n",
    "f 1 2.5 = { a = 10, b = (3, 4) }\n",
    "x = case a of\n  0 -> 1\n  -1 -> 2.2\n",
];
const T06: &[&str] = &[
    "x = f \"a\" [ \"\", \"b\\\"c\" ]\n",
    "x = \"\"\"a\nb\"\"\" ++ \"\\\\\"\ny = \"z\"\n",
    "f \"a\" = case \"b\" of\n  \"c\" -> \"d\\n\"\n",
    "x = { a = \"-- b\", c = (\"{-\", '\"') }\n",
];
const T07: &[&str] = &["x = f 'a' [ ' ', '\"' ] '''\n", "x = ('\\x41', '\\x7f') :: 'b'\n", "f 'a' = case 'b' of\n  'c' -> { d = 'e' }\n"];

entries! {
    c03_lower => { let c = pick(LO_CTX); lower(pick(9) as usize + 1, c) };
    c03_upper => { let c = pick(UP_CTX); upper(pick(4) as usize + 1, c) };
    c03_free => all_free(&[5, 8, 11, 13, 20, 40]);
    c03_long => { let c = pick(LO_CTX); let (t, s) = lo_ctx(c, &long(SAFE)); expect(&t, &s) };
    c03_longup => { let c = pick(UP_CTX); let (t, s) = up_ctx(c, &long(UPPER)); expect(&t, &s) };
    c03_uni => { let k = pick(LO_CTX); mutate::uni_in(&lo_ctx(k, "ab").0, &|v| { agree(v); }) };
    c03_uniup => { let k = pick(UP_CTX); mutate::uni_in(&up_ctx(k, "Ab").0, &|v| { agree(v); }) };
    c03_two => { let n = [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 20, 33][pick(13) as usize]; let k = pick(2); two(&|b: &mut B| if k == 0 { v1(&b.syms(SAFE, WORD, n)) } else { v1(&b.syms(UPPER, WORD, n)) }) };
    c03_huge => { let n = HUGE[pick(6) as usize]; slot(0, &long_of(n, 0)) };
    c03_twin => { let k = pick(3) as usize; twin([0, 1, 7][k]) };
    c03_tok => mutate::toks(T03, 1);
    c03_dup => mutate::same(T03);
    c03_deeptok2 => mutate::toks(T03, 2);
    c03_win => win("x = f ", LOWER.or(UPPER).or(DIGIT).or(Set::of(b"_.' \n")), 4, " y");
    c03_win2 => win("", ASCII, 3, " = 1");
    c03_xwin2 => win("", ASCII, 4, " = 1");
    c03_deepwin2 => win("", ASCII, 5, " = 1");
    c03_win3 => win("x = let ", ASCII, 3, " = 1 in 2");
    c03_xwin3 => win("x = let ", ASCII, 4, " = 1 in 2");
    c03_deepwin3 => win("x = let ", ASCII, 5, " = 1 in 2");
    c03_win4 => win("x = a", ASCII, 3, "");
    c03_xwin4 => win("x = a", ASCII, 4, "");
    c03_deepwin4 => win("x = a", ASCII, 5, "");
    c03_win5 => win("f a", ASCII, 2, " b = a");
    c03_xwin5 => win("f a", ASCII, 3, " b = a");
    c03_deepwin5 => win("f a", ASCII, 4, " b = a");
    c03_win6 => win("import A", ASCII, 3, "");
    c03_xwin6 => win("import A", ASCII, 4, "");
    c03_deepwin6 => win("import A", ASCII, 5, "");
    c03_win7 => win("type alias A = b", ASCII, 3, "");
    c03_xwin7 => win("type alias A = b", ASCII, 4, "");
    c03_deepwin7 => win("type alias A = b", ASCII, 5, "");
    c03_wide => win("x = f ", ASCII, 5, " y");

    c04_infix1 => op_infix(1);
    c04_infix2 => op_infix(2);
    c04_infix3 => op_infix(3);
    c04_infix4 => op_infix(4);
    c04_name => { let n = pick(3) as usize + 1; op_name(n) };
    c04_long => op_long();
    c04_uni => mutate::uni(T04);
    c04_twin => twin(6);
    c04_tok => mutate::toks(T04, 1);
    c04_dup => mutate::same(T04);
    c04_deeptok2 => mutate::toks(T04, 2);
    c04_win => win("x = a", ASCII, 3, "b");
    c04_xwin => win("x = a", ASCII, 4, "b");
    c04_deepwin => win("x = a", ASCII, 5, "b");
    c04_win2 => win("x = a ", ASCII, 2, " b");
    c04_xwin2 => win("x = a ", ASCII, 3, " b");
    c04_deepwin2 => win("x = a ", ASCII, 4, " b");
    c04_win3 => win("x = (", ASCII, 3, ")");
    c04_xwin3 => win("x = (", ASCII, 4, ")");
    c04_deepwin3 => win("x = (", ASCII, 5, ")");
    c04_win4 => win("x = a ", OPC.or(Set::of(b" a1(),'`")), 4, " b");
    c04_win5 => win("(", ASCII, 2, ") a = 1");
    c04_xwin5 => win("(", ASCII, 3, ") a = 1");
    c04_deepwin5 => win("(", ASCII, 4, ") a = 1");
    c04_wide => win("x = a", ASCII, 4, "b");
    c04_wide2 => op_infix(5);

    c05_int => { let k = pick(SLOTS); let n = pick(4) as usize + 1; slot(k, &integer(n)) };
    c05_float => { let k = pick(SLOTS); let n = pick(3) as usize + 1; let m = pick(3) as usize + 1; slot(k, &float(n, m)) };
    c05_huge => { let n = HUGE[pick(6) as usize]; slot(0, &long_of(n, 1)) };
    c05_long => { let n = size(); two(&integer(n)) };
    c05_longf => { let n = size(); let m = size(); two(&float(n, m)) };
    c05_uni => mutate::uni(T05);
    c05_twin => { let k = pick(2) as usize; twin([2, 3][k]) };
    c05_tok => mutate::toks(T05, 1);
    c05_dup => mutate::same(T05);
    c05_deeptok2 => mutate::toks(T05, 2);
    c05_win => win("x = ", NUMCH, 5, "");
    c05_win2 => win("x = a ", NUMCH, 4, "");
    c05_win3 => win("x = 1", ASCII, 3, "");
    c05_xwin3 => win("x = 1", ASCII, 4, "");
    c05_deepwin3 => win("x = 1", ASCII, 5, "");
    c05_win4 => win("x = 1.", ASCII, 3, "");
    c05_xwin4 => win("x = 1.", ASCII, 4, "");
    c05_deepwin4 => win("x = 1.", ASCII, 5, "");
    c05_win5 => win("x = [1", ASCII, 2, "2]");
    c05_xwin5 => win("x = [1", ASCII, 3, "2]");
    c05_deepwin5 => win("x = [1", ASCII, 4, "2]");
    c05_win6 => win("x = ", ASCII, 2, "1");
    c05_xwin6 => win("x = ", ASCII, 3, "1");
    c05_deepwin6 => win("x = ", ASCII, 4, "1");
    c05_wide => win("x = ", NUMCH, 7, "");

    c06_single => { let k = pick(SLOTS); let n = pick(2) as usize; slot(k, &string(n)) };
    c06_multi => { let k = pick(SLOTS); let n = pick(2) as usize; slot(k, &multi(n)) };
    c06_single3 => { let n = pick(3) as usize + 2; slot(0, &string(n)) };
    c06_multi3 => { let n = pick(3) as usize + 2; slot(0, &multi(n)) };
    c06_huge => { let n = HUGE[pick(6) as usize]; let k = pick(2); slot(0, &long_of(n, 2 + k)) };
    c06_long => slot(0, &longstr(false));
    c06_longm => slot(0, &longstr(true));
    c06_two => two(&string(1));
    c06_two2 => two(&multi(1));
    c06_uni => mutate::uni(T06);
    c06_twin => { let k = pick(2) as usize; twin([4, 5][k]) };
    c06_tok => mutate::toks(T06, 1);
    c06_dup => mutate::same(T06);
    c06_deeptok2 => mutate::toks(T06, 2);
    c06_win => win("x = \"", ASCII, 3, "\"");
    c06_xwin => win("x = \"", ASCII, 4, "\"");
    c06_deepwin => win("x = \"", ASCII, 5, "\"");
    c06_win2 => win("x = \"", Set::of(b"\"\\\na n'"), 6, "");
    c06_win3 => win("x = \"\"\"", ASCII, 3, "\"\"\"");
    c06_xwin3 => win("x = \"\"\"", ASCII, 4, "\"\"\"");
    c06_deepwin3 => win("x = \"\"\"", ASCII, 5, "\"\"\"");
    c06_win4 => win("x = \"\"\"", Set::of(b"\"\\\na"), 6, "");
    c06_win5 => win("x = \"a", ASCII, 2, "\\\"b\"");
    c06_xwin5 => win("x = \"a", ASCII, 3, "\\\"b\"");
    c06_deepwin5 => win("x = \"a", ASCII, 4, "\\\"b\"");
    c06_win6 => win("x = [\"", ASCII, 2, "\",\"\"]");
    c06_xwin6 => win("x = [\"", ASCII, 3, "\",\"\"]");
    c06_deepwin6 => win("x = [\"", ASCII, 4, "\",\"\"]");
    c06_wide => win("x = \"", ASCII, 5, "\"");
    c06_wide2 => { let n = 5; slot(0, &string(n)) };

    c07_slot => { let k = pick(SLOTS); slot(k, &ch) };
    c07_two => two(&ch);
    c07_uni => mutate::uni(T07);
    c07_tok => mutate::toks(T07, 1);
    c07_dup => mutate::same(T07);
    c07_deeptok2 => mutate::toks(T07, 2);
    c07_win => win("x = '", ASCII, 3, "");
    c07_xwin => win("x = '", ASCII, 4, "");
    c07_deepwin => win("x = '", ASCII, 5, "");
    c07_win2 => win("x = '\\x", ASCII, 4, "");
    c07_xwin2 => win("x = '\\x", ASCII, 5, "");
    c07_deepwin2 => win("x = '\\x", ASCII, 6, "");
    c07_win3 => win("x = '\\", ASCII, 4, "'");
    c07_xwin3 => win("x = '\\", ASCII, 5, "'");
    c07_deepwin3 => win("x = '\\", ASCII, 6, "'");
    c07_win4 => win("x = ['", ASCII, 2, "','b']");
    c07_xwin4 => win("x = ['", ASCII, 3, "','b']");
    c07_deepwin4 => win("x = ['", ASCII, 4, "','b']");
    c07_win5 => win("x = '\\x4", Set::range(0xC2, 0xDF).or(ASCII), 1, "'");
    c07_win6 => win("x = ", Set::of(b"'\\x4fGa\n "), 6, "");
    c07_wide => win("x = '\\", ASCII, 5, "");
}
