//! C19 type annotations, C20 type and alias declarations

use super::compo;
use super::gen::*;
use super::mutate;
use super::lib_::*;
use super::sym::*;
use super::ty::*;

/// kinds of `tfull`: the atoms, a constructor applied to two types, a function type
const FULL: u32 = TYPES + 2;
fn tfull(b: &mut B, kind: u32) -> Type {
    match kind.wrapping_sub(TYPES) {
        0 => {
            let n = b.up();
            b.s(" ");
            let x = b.type_(0);
            b.s(" ");
            let y = b.type_(1);
            tcon(&n, vec![x, y])
        }
        1 => {
            let x = b.type_(0);
            b.s(" -> ");
            let y = b.type_(1);
            tapp(x, y)
        }
        _ => b.type_(kind),
    }
}
fn one() -> Function {
    fun("x", vec![], int("1"))
}
fn sig(t: Type) -> Statement {
    let mut f = one();
    f.signature = Some(FunctionSignature { name: "x".to_string(), type_: t });
    Statement::Function(f)
}
fn alias(t: Type) -> Statement {
    Statement::TypeAliasDeclaration(tcon("X", vec![]), t)
}
/// where a type can stand
const EMB: u32 = 10;
fn embed(k: u32, f: &mut dyn FnMut(&mut B) -> Type) {
    let mut b = B::new("");
    let w = match k {
        0 => {
            b.s("x : ");
            let t = f(&mut b);
            b.s("\nx = 1\n");
            sig(t)
        }
        1 => {
            b.s("type alias X = ");
            alias(f(&mut b))
        }
        2 => {
            b.s("port x : ");
            Statement::PortTypeDeclaration("x".to_string(), f(&mut b))
        }
        3 => {
            b.s("type alias X = { a : ");
            let t = f(&mut b);
            b.s(", b : B }\n");
            alias(Type::TypeRecord(vec![("a".to_string(), t), ("b".to_string(), tcon("B", vec![]))]))
        }
        4 => {
            b.s("type alias X =\n  { r | a : ");
            let t = f(&mut b);
            b.s(" }\n");
            alias(Type::TypeRecordConstructor(Box::new(tvar("r")), vec![("a".to_string(), t)]))
        }
        5 => {
            b.s("x : A -> ");
            let t = f(&mut b);
            b.s("\nx = 1\n");
            sig(tapp(tcon("A", vec![]), t))
        }
        6 => {
            b.s("x : (");
            let t = f(&mut b);
            b.s(") -> A\nx = 1\n");
            sig(tapp(t, tcon("A", vec![])))
        }
        7 => {
            b.s("z =\n let\n  x : ");
            let t = f(&mut b);
            b.s("\n  x = 1\n in\n  x\n");
            let s = match sig(t) {
                Statement::Function(f) => f,
                _ => one(),
            };
            fun_s("z", vec![], Expression::Let(vec![LetEntry::LetFunction(s)], bx(v1("x"))))
        }
        8 => {
            b.s("type X = Y Z (");
            let t = f(&mut b);
            b.s(") w\n");
            Statement::TypeDeclaration(tcon("X", vec![]), vec![tcon("Y", vec![tcon("Z", vec![]), t, tvar("w")])])
        }
        _ => {
            b.s("x : A (");
            let t = f(&mut b);
            b.s(")\nx = 1\n");
            sig(tcon("A", vec![t]))
        }
    };
    expect(&b.t, &[w])
}
fn arrows(mut v: Vec<Type>) -> Type {
    let mut t = v.pop().unwrap();
    while let Some(a) = v.pop() {
        t = tapp(a, t);
    }
    t
}
fn ann_kinds(n: usize, emb: u32) {
    embed(emb, &mut |b| {
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                b.s(" -> ")
            }
            let k = pick(TYPES + 1);
            v.push(tfull(b, k));
        }
        arrows(v)
    })
}
fn ann_count() {
    let n = count();
    embed(pick(EMB), &mut |b| {
        let mut v = vec![];
        for i in 0..n {
            b.at(i, n);
            if i > 0 {
                b.s(" -> ")
            }
            v.push(b.type_((i % 2) as u32));
        }
        arrows(v)
    })
}
fn con_args(n: usize, emb: u32) {
    embed(emb, &mut |b| {
        let m = b.up();
        let mut v = vec![];
        for _ in 0..n {
            b.s(" ");
            v.push(b.type_(pick(TYPES)));
        }
        tcon(&m, v)
    })
}
fn con_count() {
    let n = count();
    embed(pick(EMB), &mut |b| {
        let m = b.up();
        let mut v = vec![];
        for i in 0..n {
            b.at(i, n);
            b.s(" ");
            v.push(b.type_((i % 3) as u32));
        }
        tcon(&m, v)
    })
}
fn qual() {
    let n = count();
    embed(0, &mut |b| {
        let mut v = vec![b.up()];
        for i in 1..n {
            b.at(i, n);
            b.s(".");
            v.push(if i < 3 {
                b.up()
            } else {
                b.s("Q");
                "Q".to_string()
            });
        }
        b.s(" ");
        let a = b.up();
        Type::TypeConstructor(v, vec![tcon(&a, vec![])])
    })
}
fn tup(n: usize, emb: u32) {
    embed(emb, &mut |b| {
        b.s("(");
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                b.s(", ")
            }
            let k = pick(TYPES + 1);
            v.push(tfull(b, k));
        }
        b.s(")");
        if n == 1 {
            v.pop().unwrap()
        } else {
            Type::TypeTuple(v)
        }
    })
}
fn rec(n: usize, ext: bool, emb: u32) {
    embed(emb, &mut |b| {
        b.s("{ ");
        let mut r = String::new();
        if ext {
            r = b.id();
            b.s(" | ");
        }
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                b.s(", ")
            }
            let f = b.id();
            b.s(" : ");
            let k = pick(FULL);
            v.push((f, tfull(b, k)));
        }
        b.s(" }");
        if ext {
            Type::TypeRecordConstructor(Box::new(tvar(&r)), v)
        } else {
            Type::TypeRecord(v)
        }
    })
}
fn seq_count() {
    let n = count();
    let k = pick(3);
    embed(pick(EMB), &mut |b| {
        b.s(["(", "{ ", "{ r | "][k as usize]);
        let mut ts = vec![];
        let mut fs = vec![];
        for i in 0..n {
            b.at(i, n);
            if i > 0 {
                b.s(", ")
            }
            if k == 0 {
                ts.push(b.type_((i % 3) as u32));
            } else {
                let f = b.id();
                b.s(" : ");
                let t = b.type_((i % 3) as u32);
                fs.push((f, t));
            }
        }
        b.s([")", " }", " }"][k as usize]);
        match k {
            0 if n == 1 => ts.pop().unwrap(),
            0 => Type::TypeTuple(ts),
            1 => Type::TypeRecord(fs),
            _ => Type::TypeRecordConstructor(Box::new(tvar("r")), fs),
        }
    })
}
fn nest(depth: usize) {
    embed([0, 1, 8][pick(3) as usize], &mut |b| {
        let mut ks = vec![];
        for _ in 0..depth {
            let k = pick(5);
            b.s(["(", "(A, ", "{ a : ", "A (", "(A -> "][k as usize]);
            // the text of a function type stays in the parentheses it opened; a tuple has none
            ks.push(k);
        }
        let mut t = b.type_(0);
        while let Some(k) = ks.pop() {
            b.s([")", ")", " }", ")", ")"][k as usize]);
            t = match k {
                0 => t,
                1 => {
                    Type::TypeTuple(vec![tcon("A", vec![]), t])
                }
                2 => Type::TypeRecord(vec![("a".to_string(), t)]),
                3 => tcon("A", vec![t]),
                _ => tapp(tcon("A", vec![]), t),
            };
        }
        t
    })
}
fn tgaps(which: u32) {
    let mut b = B::new("type alias X = ");
    let t = match which {
        0 => {
            b.s("{");
            b.ogap(2);
            let f = b.id();
            b.ogap(2);
            b.s(":");
            b.ogap(2);
            let t = b.type_(1);
            b.ogap(2);
            b.s("}");
            Type::TypeRecord(vec![(f, t)])
        }
        1 => {
            b.s("{");
            b.gap(2);
            let r = b.id();
            b.gap(2);
            b.s("|");
            b.gap(2);
            let f = b.id();
            b.s(":");
            let t = b.type_(1);
            b.gap(2);
            b.s("}");
            Type::TypeRecordConstructor(Box::new(tvar(&r)), vec![(f, t)])
        }
        2 => {
            b.s("(");
            b.ogap(2);
            let t = b.type_(0);
            b.ogap(2);
            b.s(",");
            b.ogap(2);
            let u = b.type_(1);
            b.ogap(2);
            b.s(")");
            Type::TypeTuple(vec![t, u])
        }
        3 => {
            let n = b.up();
            b.gap(2);
            let t = b.type_(0);
            b.gap(3);
            let u = b.type_(1);
            b.gap(4);
            let w = b.type_(3);
            tcon(&n, vec![t, u, w])
        }
        _ => {
            let t = b.type_(0);
            b.s([" ", "\n  ", "\n\n ", "   \n "][pick(4) as usize]);
            b.s("->");
            b.s([" ", "\n  ", "\n\n ", "   \n "][pick(4) as usize]);
            let u = b.type_(1);
            tapp(t, u)
        }
    };
    expect(&b.t, &[alias(t)])
}
const T19: &[&str] = &[
    "f : A -> (b -> C D) -> { a : B, c : d }\nf = 1\n",
    "type alias A = { r | a : (), b : (C, D e) }\n",
    "x : A.B c\n  -> D\nx = 1\n",
    "port p : (List A -> m) -> Sub {}\n",
    "f : A\nf = let g : B c\n        g = 1\n    in g\n",
];

// ---- C20 ------------------------------------------------------------------------------------

fn head(b: &mut B, n: usize) -> Type {
    let m = b.up();
    let mut v = vec![];
    for i in 0..n {
        b.s(" ");
        v.push(if i < 3 {
            b.type_(0)
        } else {
            b.s("z");
            tvar("z")
        });
    }
    tcon(&m, v)
}
fn decl_kinds(n: usize) {
    let mut b = B::new("type ");
    let sep = pick(3);
    let h = head(&mut b, sep as usize);
    b.s([" = ", "\n  = ", " =\n  "][sep as usize]);
    let mut v = vec![];
    let sep = sep % 2;
    for i in 0..n {
        if i > 0 {
            b.s(["  | ", "\n  | "][sep as usize])
        }
        let c = b.up();
        let mut a = vec![];
        let m = pick(if i == 0 { 3 } else { 2 });
        for _ in 0..m {
            b.s(" ");
            let k = pick(TYPES);
            a.push(b.type_(k));
        }
        v.push(tcon(&c, a));
    }
    b.s("\n");
    expect(&b.t, &[Statement::TypeDeclaration(h, v)])
}
fn decl_count() {
    let n = count();
    let m = few(5) - 1;
    let mut b = B::new("type ");
    let h = head(&mut b, pick(4) as usize);
    b.s("\n  = ");
    let mut v = vec![];
    for i in 0..n {
        b.at(i, n);
        if i > 0 {
            b.s("\n  | ")
        }
        let c = b.up();
        let mut a = vec![];
        for j in 0..m {
            b.s(" ");
            a.push(b.type_((j % 3) as u32));
        }
        v.push(tcon(&c, a));
    }
    b.s("\nx = 1\n");
    expect(&b.t, &[Statement::TypeDeclaration(h, v), fun_s("x", vec![], int("1"))])
}
fn head_count() {
    let n = count() - 1;
    let al = flag();
    let mut b = B::new(if al { "type alias " } else { "type " });
    let h = head(&mut b, n);
    b.s(" = ");
    let c = b.up();
    let t = tcon(&c, vec![]);
    expect(&b.t, &[if al { Statement::TypeAliasDeclaration(h, t) } else { Statement::TypeDeclaration(h, vec![t]) }])
}
fn decl_gaps() {
    let mut b = B::new("type");
    b.s([" ", "   "][pick(2) as usize]);
    let h = head(&mut b, 1);
    b.gap(2);
    b.s("=");
    b.gap(3);
    let c = b.up();
    b.gap(3);
    b.s("|");
    b.s([" ", "  "][pick(2) as usize]);
    let d = b.up();
    expect(&b.t, &[Statement::TypeDeclaration(h, vec![tcon(&c, vec![]), tcon(&d, vec![])])])
}
fn alias_kinds() {
    let mut b = B::new("type alias ");
    let h = head(&mut b, pick(3) as usize);
    b.s([" = ", " =\n  ", "  =  ", " = -- c\n    "][pick(4) as usize]);
    let k = pick(FULL);
    let t = tfull(&mut b, k);
    b.s("\n\nx = 1\n");
    expect(&b.t, &[Statement::TypeAliasDeclaration(h, t), fun_s("x", vec![], int("1"))])
}
const T20: &[&str] = &[
    "type A = B | C d (E f) | G { h : I }\n",
    "type A b c\n  = D b\n  | E c\n",
    "type alias A a =\n  { b : C\n  , d : a -> E\n  }\n",
    "type alias A = B\ntype C = D\n",
    "type A = B -- c\n  | D\n",
];

entries! {
    c19_kinds => { let e = pick(EMB); let n = pick(2) as usize + 1; ann_kinds(n, e) };
    c19_kinds3 => ann_kinds(3, 0);
    c19_count => ann_count();
    c19_args => { let e = pick(EMB); let n = pick(3) as usize; con_args(n, e) };
    c19_args3 => con_args(3, 1);
    c19_argcount => con_count();
    c19_qual => qual();
    c19_tup => { let e = pick(EMB); let n = pick(2) as usize + 1; tup(n, e) };
    c19_tup3 => tup(3, 0);
    c19_rec => { let e = pick(EMB); let n = pick(2) as usize + 1; rec(n, false, e) };
    c19_ext => { let e = pick(EMB); let n = pick(2) as usize + 1; rec(n, true, e) };
    c19_seqcount => seq_count();
    c19_nest => { let n = pick(4) as usize + 1; nest(n) };
    c19_gaps0 => tgaps(0);
    c19_gaps1 => tgaps(1);
    c19_gaps2 => tgaps(2);
    c19_gaps3 => tgaps(3);
    c19_gaps4 => tgaps(4);
    c19_tok => mutate::toks(T19, 1);
    c19_dup => mutate::same(T19);
    c19_uni => mutate::uni(T19);
    c19_deeptok2 => mutate::toks(T19, 2);
    c19_over => edits(T19, ASCII, 2, true);
    c19_ins => edits(T19, ASCII, 2, false);
    c19_ins3 => edits(T19, ASCII, 3, false);
    c19_deepover => edits(T19, ASCII, 4, true);
    c19_deepins => edits(T19, ASCII, 4, false);
    c19_cut => cuts(T19, 5);
    c19_win => win("x :", ASCII, 3, "\nx = 1");
    c19_xwin => win("x :", ASCII, 4, "\nx = 1");
    c19_deepwin => win("x :", ASCII, 5, "\nx = 1");
    c19_win2 => win("x : A", ASCII, 4, "B\nx = 1");
    c19_xwin2 => win("x : A", ASCII, 5, "B\nx = 1");
    c19_deepwin2 => win("x : A", ASCII, 6, "B\nx = 1");
    c19_win3 => win("type alias A = ", ASCII, 3, "");
    c19_xwin3 => win("type alias A = ", ASCII, 4, "");
    c19_deepwin3 => win("type alias A = ", ASCII, 5, "");
    c19_win4 => win("x : ", Set::of(b"aA (),->"), 6, "\nx = 1");
    c19_in => compo::types(pick(6), 2);
    c19_nest3 => compo::types(pick(2), 3);
    c19_wide => edits(T19, ASCII, 3, true);
    c19_wide2 => win("type alias A = ", ASCII, 5, "");

    c20_kinds => { let n = pick(3) as usize + 1; decl_kinds(n.min(2)) };
    c20_count => decl_count();
    c20_head => head_count();
    c20_gaps => decl_gaps();
    c20_alias => alias_kinds();
    c20_tok => mutate::toks(T20, 1);
    c20_dup => mutate::same(T20);
    c20_uni => mutate::uni(T20);
    c20_deeptok2 => mutate::toks(T20, 2);
    c20_over => edits(T20, ASCII, 2, true);
    c20_ins => edits(T20, ASCII, 2, false);
    c20_ins3 => edits(T20, ASCII, 3, false);
    c20_deepover => edits(T20, ASCII, 4, true);
    c20_deepins => edits(T20, ASCII, 4, false);
    c20_cut => cuts(T20, 6);
    c20_win => win("type", ASCII, 3, "A = B");
    c20_xwin => win("type", ASCII, 4, "A = B");
    c20_deepwin => win("type", ASCII, 5, "A = B");
    c20_win2 => win("type A", ASCII, 4, "B");
    c20_xwin2 => win("type A", ASCII, 5, "B");
    c20_deepwin2 => win("type A", ASCII, 6, "B");
    c20_win3 => win("type A = B", ASCII, 4, "C");
    c20_xwin3 => win("type A = B", ASCII, 5, "C");
    c20_deepwin3 => win("type A = B", ASCII, 6, "C");
    c20_win4 => win("type alias", ASCII, 3, " = A");
    c20_xwin4 => win("type alias", ASCII, 4, " = A");
    c20_deepwin4 => win("type alias", ASCII, 5, " = A");
    c20_wide => edits(T20, ASCII, 3, true);
    c20_kinds3 => decl_kinds(3);
}
