//! C08 application, C09 binary operators, C10 lists and tuples, C11 records, C12 access and
//! qualified names, C13 if, C14 lambda, C15 let, C16 case

use super::compo;
use super::gen::*;
use super::mutate;
use super::lib_::*;
use super::sym::*;
use super::ty::*;

fn x(e: Expression) -> Statement {
    fun_s("x", vec![], e)
}
/// how a whole expression can be embedded: the text around it and the tree it becomes part of
pub const EMB: u32 = 9;
pub fn embed(k: u32, f: &mut dyn FnMut(&mut B) -> Expression) {
    let mut b = B::new("");
    let w = match k {
        0 => {
            b.s("x = ");
            vec![x(f(&mut b))]
        }
        1 => {
            b.s("x =\n  (");
            let e = f(&mut b);
            b.s(")");
            vec![x(e)]
        }
        2 => {
            b.s("x = [ ");
            let e = f(&mut b);
            b.s(" ]\ny = 1\n");
            vec![x(Expression::List(vec![e])), fun_s("y", vec![], int("1"))]
        }
        3 => {
            b.s("x = ( a, ");
            let e = f(&mut b);
            b.s(" )");
            vec![x(Expression::Tuple(vec![v1("a"), e]))]
        }
        4 => {
            b.s("x = { a = ");
            let e = f(&mut b);
            b.s(" }");
            vec![x(Expression::Record(vec![("a".to_string(), e)]))]
        }
        5 => {
            b.s("x = a + ");
            let e = f(&mut b);
            vec![x(Expression::BinOp(bx(v1("+")), bx(v1("a")), bx(e)))]
        }
        6 => {
            b.s("x = f (");
            let e = f(&mut b);
            b.s(") a");
            vec![x(app(app(v1("f"), e), v1("a")))]
        }
        7 => {
            b.s("x =\n case a of\n  b -> 1\n  _ -> ");
            let e = f(&mut b);
            b.s("\n");
            vec![x(Expression::Case(bx(v1("a")), vec![(v1("b"), int("1")), (v1("_"), e)]))]
        }
        _ => {
            b.s("x =\n let\n  a = ");
            let e = f(&mut b);
            b.s("\n in\n  a\n");
            vec![x(Expression::Let(vec![LetEntry::LetBinding(v1("a"), e)], bx(v1("a"))))]
        }
    };
    expect(&b.t, &w)
}
fn nested(mut v: Vec<Expression>) -> Expression {
    let mut it = v.drain(..);
    let mut e = it.next().unwrap();
    for a in it {
        e = app(e, a);
    }
    e
}

// ---- C08 ------------------------------------------------------------------------------------

/// n terms in a row, kinds free for the first `free` of them
fn app_kinds(n: usize, emb: u32) {
    embed(emb, &mut |b| {
        let mut v = Vec::new();
        for i in 0..n {
            if i > 0 {
                b.s(" ")
            }
            v.push(b.term(pick(TERMS)));
        }
        nested(v)
    })
}
fn app_gaps(n: usize) {
    let mut b = B::new("x = ");
    let mut v = vec![];
    for i in 0..n {
        if i > 0 {
            b.gap(1 + i)
        }
        v.push(b.var());
    }
    expect(&b.t, &[x(nested(v))])
}
fn app_count() {
    let n = count();
    let k = pick(4);
    embed(pick(EMB), &mut |b| {
        let mut v = vec![b.var()];
        for i_ in 1..n {
            b.at(i_, n);
            b.s(" ");
            let t = b.term([0, 1, 8, 5][k as usize]);
            v.push(t)
        }
        nested(v)
    })
}
const T08: &[&str] = &["x = f a (g b c) [ 1 ] d\n", "x = f\n  a\n  (b c)\n", "x = a.b .c D.e F\n", "x = \"s\" 't' -1 2.3\n"];

// ---- C09 ------------------------------------------------------------------------------------

fn oper(b: &mut B, n: usize) -> Expression {
    // no operator that could start a comment, none that is reserved
    let o = b.syms(OPC.minus(Set::of(b"-=.|:")), OPC, n);
    v1(&o)
}
fn right(mut v: Vec<Expression>, mut ops: Vec<Expression>) -> Expression {
    let mut e = v.pop().unwrap();
    while let Some(a) = v.pop() {
        e = Expression::BinOp(bx(ops.pop().unwrap()), bx(a), bx(e));
    }
    e
}
fn bin_kinds(n: usize, emb: u32) {
    embed(emb, &mut |b| {
        let (mut v, mut o) = (vec![], vec![]);
        for i in 0..n {
            if i > 0 {
                b.s(" ");
                o.push(if i == 1 && flag() {
                    b.s("as");
                    v1("as")
                } else {
                    oper(b, 2)
                });
                b.s(" ");
            }
            // only the last operand may be an expression that extends to the right
            let k = pick(if i + 1 == n { EXPRS } else { TERMS + 1 });
            if k == TERMS + 1 {
                // an operator expression would continue the chain
                assume(false)
            }
            v.push(b.expr(k));
        }
        right(v, o)
    })
}
fn bin_count() {
    let n = count();
    let at = [1, 2, n / 2, n.max(1) - 1][pick(4) as usize];
    embed([0, 1, 5][pick(3) as usize], &mut |b| {
        let (mut v, mut o) = (vec![], vec![]);
        for i in 0..n {
            b.at(i, n);
            if i > 0 {
                b.s(" ");
                o.push(if i == at {
                    oper(b, 1)
                } else {
                    b.s("+");
                    v1("+")
                });
                b.s(" ");
            }
            v.push(b.var());
        }
        right(v, o)
    })
}
fn bin_gaps(n: usize) {
    let mut b = B::new("x = ");
    let (mut v, mut o) = (vec![], vec![]);
    for i in 0..n {
        if i > 0 {
            b.gap(1 + i);
            o.push(oper(&mut b, 1));
            match pick(5) {
                0 => b.s(" "),
                1 => b.s("  "),
                2 => b.s("\n    "),
                3 => b.s("\t"),
                _ => b.s(" \n\n  "),
            }
        }
        v.push(b.var());
    }
    expect(&b.t, &[x(right(v, o))])
}
/// every operator, the same one or two different ones, between three or four operands
fn bin_ops(same: bool, la: usize, lb: usize) {
    let mut b = B::new("x = ");
    let (mut v, mut o) = (vec![], vec![]);
    let (p, q) = (oper_text(la), oper_text(lb));
    let n = if same { 4 } else { 3 };
    for i in 0..n {
        if i > 0 {
            let t = if same | (i == 1) { &p } else { &q };
            b.s(" ");
            b.s(t);
            b.s(" ");
            o.push(v1(t));
        }
        v.push(b.var());
    }
    expect(&b.t, &[x(right(v, o))])
}
fn oper_text(n: usize) -> String {
    let mut b = B::new("");
    b.syms(OPC.minus(Set::of(b"-=.|:")), OPC, n)
}
const T09: &[&str] = &["x = a + b * c d\n", "x = (a :: b) as c\n", "x = a\n  |> f b\n  |> g\n", "x = if a == b then c || d else e <| f\n", "x = a >> \\b -> c + d\n"];

// ---- C10 ------------------------------------------------------------------------------------

fn seq_kinds(n: usize, tuple: bool, emb: u32) {
    embed(emb, &mut |b| {
        let mut v = vec![];
        b.s(if tuple { "(" } else { "[" });
        for i in 0..n {
            if i > 0 {
                b.s(", ")
            }
            let k = pick(EXPRS);
            v.push(b.expr(k));
        }
        b.s(if tuple { ")" } else { "]" });
        if tuple {
            // one expression in parentheses is that expression
            if v.len() == 1 {
                v.pop().unwrap()
            } else {
                Expression::Tuple(v)
            }
        } else {
            Expression::List(v)
        }
    })
}
fn seq_count() {
    let tuple = flag();
    let n = count();
    embed(pick(EMB), &mut |b| {
        let mut v = vec![];
        b.s(if tuple { "(" } else { "[" });
        for i in 0..n {
            b.at(i, n);
            if i > 0 {
                b.s(",")
            }
            let t = b.term((i % 2) as u32);
            v.push(t);
        }
        b.s(if tuple { ")" } else { "]" });
        if tuple {
            if v.len() == 1 {
                v.pop().unwrap()
            } else {
                Expression::Tuple(v)
            }
        } else {
            Expression::List(v)
        }
    })
}
fn seq_gaps(n: usize) {
    let mut b = B::new("x = [");
    let mut v = vec![];
    b.ogap(2);
    for i in 0..n {
        if i > 0 {
            b.ogap(2);
            b.s(",");
            b.ogap(3);
        }
        v.push(b.var());
    }
    if n > 0 {
        b.ogap(1);
    }
    b.s("]");
    expect(&b.t, &[x(Expression::List(v))])
}
fn blank(b: &mut B) {
    match pick(6) {
        0 => {}
        1 => b.s(" "),
        2 => b.s("\n"),
        3 => b.s("\n  \n  "),
        4 => b.s("\t"),
        _ => b.s(" \r\n"),
    }
}
fn tup_gaps(n: usize) {
    let mut b = B::new("x = (");
    let mut v = vec![];
    for i in 0..n {
        if i > 0 {
            b.s(",");
        }
        blank(&mut b);
        v.push(b.var());
        blank(&mut b);
    }
    b.s(")");
    let e = if n == 1 { v.pop().unwrap() } else { Expression::Tuple(v) };
    expect(&b.t, &[x(e)])
}
fn tup_ctor() {
    // the tuple constructor (,,)
    let n = pick(40) as usize + 1;
    let mut b = B::new("x = (");
    let c = [","].repeat(n).concat();
    b.s(&c);
    b.s(") a");
    expect(&b.t, &[x(app(v1(&c), v1("a")))])
}
/// nesting, all combinations of lists, tuples and records around a variable
fn nest(depth: usize) {
    let mut b = B::new("x = ");
    let mut ks = vec![];
    for _ in 0..depth {
        let k = pick(4);
        b.s(["[", "(a,", "{a=", "("][k as usize]);
        ks.push(k);
    }
    let mut e = b.var();
    while let Some(k) = ks.pop() {
        b.s(["]", ")", "}", ")"][k as usize]);
        e = match k {
            0 => Expression::List(vec![e]),
            1 => Expression::Tuple(vec![v1("a"), e]),
            2 => Expression::Record(vec![("a".to_string(), e)]),
            _ => e,
        };
    }
    expect(&b.t, &[x(e)])
}
const T10: &[&str] = &["x = [ a, (b, c), [], ( d ) ]\n", "x =\n  [ a\n  , b\n  ]\n", "x = (\n  a ,\n  b c)\n", "x = [(),[[]],(,)]\n", "x = [\n a,\n  b]\n"];

// ---- C11 ------------------------------------------------------------------------------------

fn fields(b: &mut B, n: usize, free: usize, gaps: bool) -> Vec<(String, Expression)> {
    let mut v = vec![];
    for i in 0..n {
        if i > 0 {
            if gaps {
                b.ogap(2)
            }
            b.s(",");
            if gaps {
                b.ogap(2)
            }
        }
        let k = b.id();
        b.s(if i % 2 == 0 { " = " } else { "=" });
        let kind = if i < free { pick(EXPRS) } else { (i % 5) as u32 };
        let e = b.expr(kind);
        v.push((k, e));
    }
    v
}
fn record(n: usize, free: usize, emb: u32) {
    embed(emb, &mut |b| {
        b.s("{");
        let v = fields(b, n, free, false);
        b.s(" }");
        Expression::Record(v)
    })
}
fn update(n: usize, free: usize, emb: u32) {
    embed(emb, &mut |b| {
        b.s("{ ");
        let r = b.id();
        b.s(" | ");
        let v = fields(b, n, free, false);
        b.s(" }");
        Expression::RecordUpdate(r, v)
    })
}
fn rec_gaps(upd: bool, n: usize) {
    let mut b = B::new("x = {");
    b.ogap(2);
    let mut r = String::new();
    if upd {
        r = b.id();
        b.ogap(2);
        b.s("|");
        blank(&mut b);
    }
    let v = fields(&mut b, n, 0, true);
    if upd {
        b.gap(2)
    } else {
        b.ogap(2)
    }
    b.s("}");
    expect(&b.t, &[x(if upd { Expression::RecordUpdate(r, v) } else { Expression::Record(v) })])
}
fn eq_gaps(upd: bool) {
    let mut b = B::new(if upd { "x = {r|" } else { "x = {" });
    let n = b.id();
    if upd {
        blank(&mut b)
    } else {
        b.ogap(2)
    }
    b.s("=");
    if upd {
        blank(&mut b)
    } else {
        b.ogap(2)
    }
    let e = b.var();
    b.s(" }");
    let v = vec![(n, e)];
    expect(&b.t, &[x(if upd { Expression::RecordUpdate("r".to_string(), v) } else { Expression::Record(v) })])
}
fn names_only() {
    // { a, b } as a pattern: every field stands for itself
    let n = pick(6) as usize + 1;
    let k = pick(3);
    let mut b = B::new(["f {", "x = \\{", "x = let {"][k as usize]);
    let mut v = vec![];
    for i in 0..n {
        if i > 0 {
            b.s(",");
        }
        if i < 2 {
            blank(&mut b);
        }
        let s = b.id();
        v.push((s.clone(), v1(&s)));
        if i == 0 {
            blank(&mut b);
        }
    }
    b.s(["} = 1", "} -> 1", "} = 1 in 2"][k as usize]);
    let e = Expression::Record(v);
    expect(
        &b.t,
        &[match k {
            0 => fun_s("f", vec![e], int("1")),
            1 => x(Expression::Lambda(vec![e], bx(int("1")))),
            _ => x(Expression::Let(vec![LetEntry::LetBinding(e, int("1"))], bx(int("2")))),
        }],
    )
}
const T11: &[&str] = &["x = { a = 1, b = f c }\n", "x = { r | a = 1, b = c }\n", "f { a, b } = a\n", "x =\n  { a = 1\n  , b = {}\n  }\n", "x =\n  { r\n    | a = { s | b = 1 }\n  }\n"];

// ---- C12 ------------------------------------------------------------------------------------

/// dotted paths: m module parts, then n fields
fn path(m: usize, n: usize, emb: u32) {
    embed(emb, &mut |b| {
        let mut q = vec![];
        for i in 0..m {
            b.at(i, m);
            if i > 0 {
                b.s(".")
            }
            q.push(b.up());
        }
        let base = if m == 0 { b.var() } else { Expression::Variable(q) };
        let mut f = vec![];
        for i in 0..n {
            b.at(i, n);
            b.s(".");
            f.push(b.id());
        }
        if n == 0 {
            base
        } else {
            Expression::Access(bx(base), f)
        }
    })
}
fn path_long() {
    let l = [66, 100, 129, 200, 257, 300, 513, 1025][pick(8) as usize];
    let k = [0, 1, 2, l][pick(4) as usize];
    if flag() {
        path(l, k, 0)
    } else {
        path(k, l, 0)
    }
}
fn path_count() {
    let m = few(14) - 1;
    let n = few(14) - 1;
    path(m, n, 0)
}
fn access_op() {
    let mut b = B::new("x = (");
    let o = b.syms(OPC.minus(Set::of(b"-=.|:")), OPC, 2);
    b.s(").");
    let f = b.id();
    expect(&b.t, &[x(Expression::Access(bx(v1(&o)), vec![f]))])
}
const T12: &[&str] = &["x = a.b.c D.E.f .g A.B\n", "x = [ .a, b.c, D.e ]\n", "x = a.b + C.d\n", "x = { a | b = c.d }.e\n"];

// ---- C13 ------------------------------------------------------------------------------------

fn if_kinds(emb: u32) {
    embed(emb, &mut |b| {
        b.s("if ");
        let c = b.expr(pick(EXPRS));
        b.s(" then ");
        let t = b.expr(pick(EXPRS));
        b.s(" else ");
        let e = b.expr(pick(EXPRS));
        Expression::If(bx(c), bx(t), bx(e))
    })
}
fn if_emb() {
    let k = pick(EMB);
    let j = pick(3);
    let kk = pick(EXPRS);
    embed(k, &mut |b| {
        b.s("if ");
        let c = b.expr(if j == 0 { kk } else { 0 });
        b.s(" then ");
        let t = b.expr(if j == 1 { kk } else { 1 });
        b.s(" else ");
        let e = b.expr(if j == 2 { kk } else { 0 });
        Expression::If(bx(c), bx(t), bx(e))
    })
}
fn if_gaps() {
    let mut b = B::new("x = if");
    b.gap(1);
    let c = b.var();
    b.gap(1);
    b.s("then");
    b.gap(2);
    let t = b.var();
    b.gap(1);
    b.s("else");
    b.gap(2);
    let e = b.var();
    expect(&b.t, &[x(Expression::If(bx(c), bx(t), bx(e)))])
}
/// chains: else if ... n times
fn if_chain() {
    let n = count();
    let mut b = B::new("x = ");
    let (mut cs, mut ts) = (vec![], vec![]);
    for i_ in 0..n {
        b.at(i_, n);
        b.s("if ");
        cs.push(b.var());
        b.s(" then ");
        ts.push(b.var());
        b.s(" else ");
    }
    let mut e = b.var();
    while let (Some(c), Some(t)) = (cs.pop(), ts.pop()) {
        e = Expression::If(bx(c), bx(t), bx(e));
    }
    expect(&b.t, &[x(e)])
}
const T13: &[&str] = &["x = if a then b else c\n", "x =\n  if a == 1 then\n    b\n  else if c then\n    d\n  else\n    e\n", "x = [if a then (if b then c else d) else e]\n"];

// ---- C14 ------------------------------------------------------------------------------------

fn lam_args(n: usize, body: u32, emb: u32) {
    embed(emb, &mut |b| {
        b.s("\\");
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                b.s(" ")
            }
            v.push(b.term(pick(TERMS)));
        }
        b.s(" -> ");
        let e = b.expr(if body == EXPRS { pick(EXPRS) } else { body });
        Expression::Lambda(v, bx(e))
    })
}
fn lam_count() {
    let n = count();
    embed(pick(EMB), &mut |b| {
        b.s("\\");
        let mut v = vec![];
        for i in 0..n {
            b.at(i, n);
            if i > 0 {
                b.s(" ")
            }
            v.push(b.var());
        }
        b.s(" -> ");
        let e = b.var();
        Expression::Lambda(v, bx(e))
    })
}
fn lam_gaps() {
    let mut b = B::new("x = \\");
    let a = b.var();
    b.s([" ", "  ", "\t", " \t "][pick(4) as usize]);
    let c = b.var();
    b.gap(1);
    b.s("->");
    b.gap(1);
    let e = b.var();
    expect(&b.t, &[x(Expression::Lambda(vec![a, c], bx(e)))])
}
/// \a -> \b -> ... nested n deep
fn lam_nest() {
    let n = few(10);
    let mut b = B::new("x = ");
    let mut v = vec![];
    for _ in 0..n {
        b.s("\\");
        v.push(b.var());
        b.s(" -> ");
    }
    let mut e = b.var();
    while let Some(a) = v.pop() {
        e = Expression::Lambda(vec![a], bx(e));
    }
    expect(&b.t, &[x(e)])
}
const T14: &[&str] = &["x = \\a b -> a + b\n", "x = f (\\_ { c } (d, e) -> \\g -> h) i\n", "x =\n  \\a ->\n    b c\n"];

// ---- C15 ------------------------------------------------------------------------------------

/// one let entry; kinds 0..LETS
const LETS: u32 = 9;
fn let_entry(b: &mut B, kind: u32, col: usize) -> LetEntry {
    let bind = |b: &mut B, t: Expression| {
        b.s(" = ");
        let e = b.var();
        LetEntry::LetBinding(t, e)
    };
    match kind {
        0 => {
            let t = b.var();
            bind(b, t)
        }
        1 => {
            b.s("(");
            let p = b.var();
            b.s(", ");
            let q = b.var();
            b.s(")");
            bind(b, Expression::Tuple(vec![p, q]))
        }
        2 => {
            b.s("{ ");
            let p = b.id();
            b.s(", ");
            let q = b.id();
            b.s(" }");
            bind(b, Expression::Record(vec![(p.clone(), v1(&p)), (q.clone(), v1(&q))]))
        }
        3 => {
            b.s("[");
            let p = b.var();
            b.s("]");
            bind(b, Expression::List(vec![p]))
        }
        4 => {
            let n = b.id();
            b.s(" ");
            let p = b.var();
            b.s(" = ");
            let e = b.var();
            LetEntry::LetFunction(fun(&n, vec![p], e))
        }
        5 => {
            let n = b.id();
            b.s(" ");
            let k = pick(TERMS);
            let p = b.term(k);
            b.s(" ");
            let q = b.var();
            b.s(" = ");
            let e = b.var();
            LetEntry::LetFunction(fun(&n, vec![p, q], e))
        }
        6 => {
            let n = b.id();
            b.s(" : ");
            let t = b.type_(1);
            b.nl(col);
            let m = b.id();
            b.s(" = ");
            let e = b.var();
            LetEntry::LetFunction(Function {
                signature: Some(FunctionSignature { name: n, type_: t }),
                definition: FunctionDefinition { name: m, args: vec![], body: e },
            })
        }
        7 => {
            let n = b.id();
            b.s(" : ");
            let t = b.type_(0);
            b.s(" -> ");
            let u = b.type_(1);
            b.nl(col);
            let m = b.id();
            b.s(" ");
            let p = b.var();
            b.s(" = ");
            let e = b.var();
            LetEntry::LetFunction(Function {
                signature: Some(FunctionSignature { name: n, type_: tapp(t, u) }),
                definition: FunctionDefinition { name: m, args: vec![p], body: e },
            })
        }
        _ => {
            b.s("()");
            bind(b, Expression::Tuple(vec![]))
        }
    }
}
fn let_entries(n: usize) {
    let col = 4;
    let mut b = B::new("x =\n  let\n    ");
    let mut v = vec![];
    for i in 0..n {
        if i > 0 {
            b.nl(col)
        }
        let k = pick(LETS);
        v.push(let_entry(&mut b, k, col));
    }
    b.s("\n  in\n    ");
    let e = b.var();
    expect(&b.t, &[x(Expression::Let(v, bx(e)))])
}
fn let_kinds() {
    // what is bound, and the body
    embed(0, &mut |b| {
        b.s("\n  let\n    ");
        let n = b.var();
        b.s(" =\n      ");
        let e = b.expr(pick(EXPRS));
        b.nl(4);
        let f = b.id();
        b.s(" ");
        let p = b.var();
        b.s(" =\n      ");
        let e2 = b.expr(pick(EXPRS));
        b.s("\n  in\n    ");
        let r = b.expr(pick(EXPRS));
        Expression::Let(vec![LetEntry::LetBinding(n, e), LetEntry::LetFunction(fun(&f, vec![p], e2))], bx(r))
    })
}
fn let_count() {
    let n = count();
    let k = pick(2);
    let mut b = B::new("x =\n  let\n    ");
    let mut v = vec![];
    for i in 0..n {
        b.at(i, n);
        if i > 0 {
            b.nl(4)
        }
        v.push(let_entry(&mut b, k * 4, 4));
    }
    b.s("\n  in\n    ");
    let e = b.var();
    expect(&b.t, &[x(Expression::Let(v, bx(e)))])
}
fn let_gaps() {
    let mut b = B::new("x = let");
    b.gap(1);
    let n = b.var();
    // `=` of a binding may stand on a line of its own
    b.gap(4);
    b.s("=");
    b.gap(4);
    let e = b.var();
    b.gap(1);
    b.s("in");
    b.gap(1);
    let r = b.var();
    expect(&b.t, &[x(Expression::Let(vec![LetEntry::LetBinding(n, e)], bx(r)))])
}
fn let_emb() {
    let k = pick(EMB);
    embed(k, &mut |b| {
        b.s("let ");
        let e = let_entry(b, pick(6), 0);
        b.s(" in ");
        let r = b.expr(pick(EXPRS));
        Expression::Let(vec![e], bx(r))
    })
}
/// let within let: in the bound expression, the body, or a local function, m deep
fn let_nest() {
    let depth = pick(6) as usize + 1;
    let k = pick(3);
    fn go(b: &mut B, d: usize, k: u32, col: usize) -> Expression {
        if d == 0 {
            return b.var();
        }
        b.s("let");
        b.nl(col + 2);
        let n = b.id();
        if k == 2 {
            b.s(" q");
        }
        b.s(" =");
        b.nl(col + 4);
        let e = if k != 1 { go(b, d - 1, k, col + 4) } else { b.var() };
        let en = if k == 2 {
            LetEntry::LetFunction(fun(&n, vec![v1("q")], e))
        } else {
            LetEntry::LetBinding(v1(&n), e)
        };
        b.nl(col);
        b.s("in");
        b.nl(col);
        let r = if k == 1 { go(b, d - 1, k, col) } else { b.var() };
        Expression::Let(vec![en], bx(r))
    }
    let mut b = B::new("x =\n  ");
    let e = go(&mut b, depth, k, 2);
    b.s("\n");
    expect(&b.t, &[x(e)])
}
const T15: &[&str] = &[
    "x = let a = 1 in a\n",
    "x =\n  let\n    a = 1\n    f b = c\n  in\n    a\n",
    "x =\n let\n  f : A\n  f = 1\n  (b, c) = d\n in f\n",
    "x =\n  let a = 1\n      b = 2\n  in a b\n",
];

// ---- C16 ------------------------------------------------------------------------------------

fn case_pats(n: usize) {
    let mut b = B::new("x =\n  case ");
    let s = b.expr(pick(EXPRS));
    b.s(" of\n    ");
    let mut v = vec![];
    for i in 0..n {
        if i > 0 {
            b.nl(4)
        }
        // a term, a constructor with arguments, or a cons pattern
        let k = pick(TERMS + 2);
        let p = b.expr(k);
        b.s(" ->\n      ");
        let e = b.var();
        v.push((p, e));
    }
    expect(&b.t, &[x(Expression::Case(bx(s), v))])
}
fn case_bodies(n: usize) {
    let mut b = B::new("x =\n  case a of\n    ");
    let mut v = vec![];
    for i in 0..n {
        if i > 0 {
            b.nl(4)
        }
        let p = b.var();
        b.s(" ->\n      ");
        let k = pick(EXPRS);
        let e = b.expr(k);
        v.push((p, e));
    }
    expect(&b.t, &[x(Expression::Case(bx(v1("a")), v))])
}
fn case_count() {
    let n = count();
    let blank = pick(3);
    let mut b = B::new("x =\n  case a of\n    ");
    let mut v = vec![];
    for i in 0..n {
        b.at(i, n);
        if i > 0 {
            if blank == 1 {
                b.s("\n")
            }
            if blank == 2 {
                b.s("\n\n    -- c")
            }
            b.nl(4)
        }
        let p = b.var();
        b.s(" -> ");
        let e = b.var();
        v.push((p, e));
    }
    expect(&b.t, &[x(Expression::Case(bx(v1("a")), v))])
}
fn case_gaps() {
    let mut b = B::new("x = case");
    b.gap(1);
    let s = b.var();
    b.gap(1);
    b.s("of");
    b.gap(3);
    let p = b.var();
    b.gap(4);
    b.s("->");
    b.gap(5);
    let e = b.var();
    expect(&b.t, &[x(Expression::Case(bx(s), vec![(p, e)]))])
}
fn case_emb() {
    let k = pick(EMB);
    let j = pick(3);
    let kk = pick(EXPRS);
    embed(k, &mut |b| {
        b.s("case ");
        let s = b.expr(if j == 0 { kk } else { 0 });
        b.s(" of ");
        let p = b.term(if j == 1 { kk % TERMS } else { 1 });
        b.s(" -> ");
        let e = b.expr(if j == 2 { kk } else { 0 });
        Expression::Case(bx(s), vec![(p, e)])
    })
}
/// case within case: the inner branches belong to the inner case, the outer to the outer
fn case_nest() {
    let n1 = pick(3) as usize + 1;
    let n2 = pick(3) as usize + 1;
    let n3 = pick(3) as usize;
    let at = pick(n1 as u32) as usize;
    let mut b = B::new("x =\n  case a of");
    let mut v = vec![];
    for i in 0..n1 {
        b.nl(4);
        let p = b.var();
        b.s(" ->");
        b.nl(8);
        let e = if i == at {
            b.s("case b of");
            let mut w = vec![];
            for j in 0..n2 {
                b.nl(10);
                let q = b.var();
                b.s(" -> ");
                let e = if j == 0 && n3 > 0 {
                    b.nl(11);
                    b.s("case c of");
                    let mut u = vec![];
                    for _ in 0..n3 {
                        b.nl(12);
                        let q = b.var();
                        b.s(" -> ");
                        let e = b.var();
                        u.push((q, e));
                    }
                    Expression::Case(bx(v1("c")), u)
                } else {
                    b.var()
                };
                w.push((q, e));
            }
            Expression::Case(bx(v1("b")), w)
        } else {
            b.var()
        };
        v.push((p, e));
    }
    b.s("\n");
    expect(&b.t, &[x(Expression::Case(bx(v1("a")), v))])
}
const T16: &[&str] = &[
    "x = case a of b -> c\n",
    "x =\n  case f a of\n    B c -> d\n    _ -> e\n",
    "x =\n  case a of\n    b ->\n      case c of\n        d -> e\n    f -> g\n",
    "x =\n case a of\n  [] -> b\n  c :: d -> e\n  (f, 1) -> g\n",
];

entries! {
    c08_kinds2 => { let e = pick(EMB); app_kinds(2, e) };
    c08_kinds3 => app_kinds(3, 0);
    c08_gaps => app_gaps(4);
    c08_count => app_count();
    c08_tok => mutate::toks(T08, 1);
    c08_dup => mutate::same(T08);
    c08_uni => mutate::uni(T08);
    c08_deeptok2 => mutate::toks(T08, 2);
    c08_shape => compo::toks(8, 1);
    c08_over => edits(T08, ASCII, 2, true);
    c08_ins => edits(T08, ASCII, 2, false);
    c08_ins3 => edits(T08, ASCII, 3, false);
    c08_deepover => edits(T08, ASCII, 4, true);
    c08_deepins => edits(T08, ASCII, 4, false);
    c08_cut => cuts(T08, 5);
    c08_win => win("x = f", ASCII, 4, "b");
    c08_xwin => win("x = f", ASCII, 5, "b");
    c08_deepwin => win("x = f", ASCII, 6, "b");
    c08_win2 => win("x = f a", Set::of(b" \nab1(")
        .or(Set::one(b')')), 6, "c d");
    c08_in => compo::nest(8, 1, 0, true, &|v| { agree(v); });
    c08_nest3 => compo::nest(8, 1, 1, false, &|v| { agree(v); });
    c08_deepnest => compo::nest(8, 1, 1, true, &|v| { agree(v); });
    c08_both => compo::both(8, false);
    c08_bothall => compo::both(8, true);
    c08_wide => win("x = f", ASCII, 5, "b");
    c08_wide2 => edits(T08, ASCII, 3, true);
    c08_wide3 => app_kinds(4, 0);

    c09_kinds2 => { let e = pick(EMB); bin_kinds(2, e) };
    c09_kinds3 => bin_kinds(3, 0);
    c09_count => bin_count();
    c09_gaps => bin_gaps(3);
    c09_same => { let n = 1 + pick(3) as usize; bin_ops(true, n, 1) };
    c09_ops => { let n = 1 + pick(2) as usize; bin_ops(false, n, 1 + pick(2) as usize) };
    c09_tok => mutate::toks(T09, 1);
    c09_dup => mutate::same(T09);
    c09_uni => mutate::uni(T09);
    c09_deeptok2 => mutate::toks(T09, 2);
    c09_shape => compo::toks(9, 1);
    c09_over => edits(T09, ASCII, 2, true);
    c09_ins => edits(T09, ASCII, 2, false);
    c09_ins3 => edits(T09, ASCII, 3, false);
    c09_deepover => edits(T09, ASCII, 4, true);
    c09_deepins => edits(T09, ASCII, 4, false);
    c09_cut => cuts(T09, 5);
    c09_win => win("x = a", ASCII, 4, "b");
    c09_xwin => win("x = a", ASCII, 5, "b");
    c09_deepwin => win("x = a", ASCII, 6, "b");
    c09_win2 => win("x = a + b ", Set::of(b"+*as \n-c"), 5, " d");
    c09_in => compo::nest(9, 1, 0, true, &|v| { agree(v); });
    c09_nest3 => compo::nest(9, 1, 1, false, &|v| { agree(v); });
    c09_deepnest => compo::nest(9, 1, 1, true, &|v| { agree(v); });
    c09_both => compo::both(9, false);
    c09_deepboth => compo::both(9, true);
    c09_wide => win("x = a ", ASCII, 5, "b");
    c09_wide2 => edits(T09, ASCII, 3, true);

    c10_list => { let e = pick(EMB); let n = pick(3) as usize; seq_kinds(n, false, e) };
    c10_list3 => seq_kinds(3, false, 0);
    c10_tuple => { let e = pick(EMB); let n = pick(3) as usize; seq_kinds(n, true, e) };
    c10_tuple3 => seq_kinds(3, true, 0);
    c10_count => seq_count();
    c10_gaps => { let n = pick(3) as usize; seq_gaps(n) };
    c10_tgaps => { let n = pick(3) as usize + 1; tup_gaps(n) };
    c10_ctor => tup_ctor();
    c10_nest => { let n = pick(5) as usize + 1; nest(n) };
    c10_tok => mutate::toks(T10, 1);
    c10_dup => mutate::same(T10);
    c10_uni => mutate::uni(T10);
    c10_deeptok2 => mutate::toks(T10, 2);
    c10_shape => compo::toks(10, 1);
    c10_over => edits(T10, ASCII, 2, true);
    c10_ins => edits(T10, ASCII, 2, false);
    c10_ins3 => edits(T10, ASCII, 3, false);
    c10_deepover => edits(T10, ASCII, 4, true);
    c10_deepins => edits(T10, ASCII, 4, false);
    c10_cut => cuts(T10, 5);
    c10_win => win("x = [", ASCII, 3, "]");
    c10_xwin => win("x = [", ASCII, 4, "]");
    c10_deepwin => win("x = [", ASCII, 5, "]");
    c10_win2 => win("x = (", ASCII, 3, ")");
    c10_xwin2 => win("x = (", ASCII, 4, ")");
    c10_deepwin2 => win("x = (", ASCII, 5, ")");
    c10_win3 => win("x = ", Set::of(b"[](), \na"), 7, "");
    c10_in => compo::nest(10, 1, 0, true, &|v| { agree(v); });
    c10_nest3 => compo::nest(10, 1, 1, false, &|v| { agree(v); });
    c10_deepnest => compo::nest(10, 1, 1, true, &|v| { agree(v); });
    c10_both => compo::both(10, false);
    c10_deepboth => compo::both(10, true);
    c10_wide => win("x = [", ASCII, 5, "]");
    c10_wide2 => edits(T10, ASCII, 3, true);

    c11_rec => { let e = pick(EMB); let n = pick(3) as usize; record(n, 2, e) };
    c11_upd => { let e = pick(EMB); let n = pick(2) as usize + 1; update(n, 2, e) };
    c11_count => { let n = count(); record(n, 0, 0) };
    c11_countu => { let n = count(); update(n, 0, 0) };
    c11_gaps => { let n = pick(3) as usize; rec_gaps(false, n) };
    c11_ugaps => { let n = pick(2) as usize + 1; rec_gaps(true, n) };
    c11_eq => eq_gaps(false);
    c11_ueq => eq_gaps(true);
    c11_names => names_only();
    c11_tok => mutate::toks(T11, 1);
    c11_dup => mutate::same(T11);
    c11_uni => mutate::uni(T11);
    c11_deeptok2 => mutate::toks(T11, 2);
    c11_shape => compo::toks(11, 1);
    c11_over => edits(T11, ASCII, 2, true);
    c11_ins => edits(T11, ASCII, 2, false);
    c11_ins3 => edits(T11, ASCII, 3, false);
    c11_deepover => edits(T11, ASCII, 4, true);
    c11_deepins => edits(T11, ASCII, 4, false);
    c11_cut => cuts(T11, 5);
    c11_win => win("x = {", ASCII, 3, "}");
    c11_xwin => win("x = {", ASCII, 4, "}");
    c11_deepwin => win("x = {", ASCII, 5, "}");
    c11_win2 => win("x = {r|a=1", ASCII, 3, "}");
    c11_xwin2 => win("x = {r|a=1", ASCII, 4, "}");
    c11_deepwin2 => win("x = {r|a=1", ASCII, 5, "}");
    c11_win3 => win("x = {", Set::of(b"{}|=,a \n1"), 6, "");
    c11_in => compo::nest(11, 1, 0, true, &|v| { agree(v); });
    c11_nest3 => compo::nest(11, 1, 1, false, &|v| { agree(v); });
    c11_deepnest => compo::nest(11, 1, 1, true, &|v| { agree(v); });
    c11_both => compo::both(11, false);
    c11_deepboth => compo::both(11, true);
    c11_wide => win("x = {", ASCII, 5, "}");
    c11_wide2 => edits(T11, ASCII, 3, true);

    c12_path => { let m = pick(5) as usize; let n = pick(5) as usize; let e = pick(EMB); path(m, n, e) };
    c12_count => path_count();
    c12_long => path_long();
    c12_op => access_op();
    c12_tok => mutate::toks(T12, 1);
    c12_dup => mutate::same(T12);
    c12_uni => mutate::uni(T12);
    c12_deeptok2 => mutate::toks(T12, 2);
    c12_shape => compo::toks(12, 1);
    c12_over => edits(T12, ASCII, 2, true);
    c12_ins => edits(T12, ASCII, 2, false);
    c12_ins3 => edits(T12, ASCII, 3, false);
    c12_deepover => edits(T12, ASCII, 4, true);
    c12_deepins => edits(T12, ASCII, 4, false);
    c12_cut => cuts(T12, 4);
    c12_win => win("x = a", ASCII, 4, "");
    c12_xwin => win("x = a", ASCII, 5, "");
    c12_deepwin => win("x = a", ASCII, 6, "");
    c12_win2 => win("x = A", ASCII, 4, "");
    c12_xwin2 => win("x = A", ASCII, 5, "");
    c12_deepwin2 => win("x = A", ASCII, 6, "");
    c12_win3 => win("x = ", Set::of(b"aA. _(+)"), 7, "");
    c12_in => compo::nest(12, 1, 0, true, &|v| { agree(v); });
    c12_nest3 => compo::nest(12, 1, 1, false, &|v| { agree(v); });
    c12_deepnest => compo::nest(12, 1, 1, true, &|v| { agree(v); });
    c12_wide => win("x = A.b", ASCII, 5, "");
    c12_wide2 => edits(T12, ASCII, 3, true);

    c13_kinds => if_kinds(0);
    c13_emb => if_emb();
    c13_gaps => if_gaps();
    c13_chain => if_chain();
    c13_tok => mutate::toks(T13, 1);
    c13_dup => mutate::same(T13);
    c13_uni => mutate::uni(T13);
    c13_deeptok2 => mutate::toks(T13, 2);
    c13_shape => compo::toks(13, 1);
    c13_over => edits(T13, ASCII, 2, true);
    c13_ins => edits(T13, ASCII, 2, false);
    c13_ins3 => edits(T13, ASCII, 3, false);
    c13_deepover => edits(T13, ASCII, 4, true);
    c13_deepins => edits(T13, ASCII, 4, false);
    c13_cut => cuts(T13, 6);
    c13_win => win("x = if", ASCII, 2, "a then b else c");
    c13_xwin => win("x = if", ASCII, 3, "a then b else c");
    c13_deepwin => win("x = if", ASCII, 4, "a then b else c");
    c13_win2 => win("x = if a then b", ASCII, 3, "else c");
    c13_xwin2 => win("x = if a then b", ASCII, 4, "else c");
    c13_deepwin2 => win("x = if a then b", ASCII, 5, "else c");
    c13_win3 => win("x = if a", ASCII, 3, "then b else c");
    c13_xwin3 => win("x = if a", ASCII, 4, "then b else c");
    c13_deepwin3 => win("x = if a", ASCII, 5, "then b else c");
    c13_win4 => win("x = if a then b else", ASCII, 3, "");
    c13_xwin4 => win("x = if a then b else", ASCII, 4, "");
    c13_deepwin4 => win("x = if a then b else", ASCII, 5, "");
    c13_in => compo::nest(13, 1, 0, true, &|v| { agree(v); });
    c13_nest3 => compo::nest(13, 1, 1, false, &|v| { agree(v); });
    c13_deepnest => compo::nest(13, 1, 1, true, &|v| { agree(v); });
    c13_both => compo::both(13, false);
    c13_deepboth => compo::both(13, true);
    c13_wide => edits(T13, ASCII, 3, true);

    c14_args => { let e = pick(EMB); let n = pick(2) as usize + 1; lam_args(n, 0, e) };
    c14_body => { let e = pick(EMB); lam_args(1, EXPRS, e) };
    c14_args3 => lam_args(3, 0, 0);
    c14_count => lam_count();
    c14_gaps => lam_gaps();
    c14_nest => lam_nest();
    c14_tok => mutate::toks(T14, 1);
    c14_dup => mutate::same(T14);
    c14_uni => mutate::uni(T14);
    c14_deeptok2 => mutate::toks(T14, 2);
    c14_shape => compo::toks(14, 1);
    c14_over => edits(T14, ASCII, 2, true);
    c14_ins => edits(T14, ASCII, 2, false);
    c14_ins3 => edits(T14, ASCII, 3, false);
    c14_deepover => edits(T14, ASCII, 4, true);
    c14_deepins => edits(T14, ASCII, 4, false);
    c14_cut => cuts(T14, 5);
    c14_win => win("x = \\", ASCII, 3, "-> a");
    c14_xwin => win("x = \\", ASCII, 4, "-> a");
    c14_deepwin => win("x = \\", ASCII, 5, "-> a");
    c14_win2 => win("x = \\a", ASCII, 4, "b");
    c14_xwin2 => win("x = \\a", ASCII, 5, "b");
    c14_deepwin2 => win("x = \\a", ASCII, 6, "b");
    c14_in => compo::nest(14, 1, 0, true, &|v| { agree(v); });
    c14_nest3 => compo::nest(14, 1, 1, false, &|v| { agree(v); });
    c14_deepnest => compo::nest(14, 1, 1, true, &|v| { agree(v); });
    c14_both => compo::both(14, false);
    c14_bothall => compo::both(14, true);
    c14_wide => win("x = \\", ASCII, 5, "");
    c14_wide2 => edits(T14, ASCII, 3, true);

    c15_one => let_entries(1);
    c15_two => let_entries(2);
    c15_kinds => let_kinds();
    c15_count => let_count();
    c15_gaps => let_gaps();
    c15_emb => let_emb();
    c15_nest => let_nest();
    c15_tok => mutate::toks(T15, 1);
    c15_dup => mutate::same(T15);
    c15_uni => mutate::uni(T15);
    c15_deeptok2 => mutate::toks(T15, 2);
    c15_shape => compo::toks(15, 1);
    c15_over => edits(T15, ASCII, 2, true);
    c15_ins => edits(T15, ASCII, 2, false);
    c15_ins3 => edits(T15, ASCII, 3, false);
    c15_deepover => edits(T15, ASCII, 4, true);
    c15_deepins => edits(T15, ASCII, 4, false);
    c15_cut => cuts(T15, 6);
    c15_win => win("x = let", ASCII, 2, "a = 1 in a");
    c15_xwin => win("x = let", ASCII, 3, "a = 1 in a");
    c15_deepwin => win("x = let", ASCII, 4, "a = 1 in a");
    c15_win2 => win("x = let a = 1", ASCII, 3, "in a");
    c15_xwin2 => win("x = let a = 1", ASCII, 4, "in a");
    c15_deepwin2 => win("x = let a = 1", ASCII, 5, "in a");
    c15_win3 => win("x = let a = 1 in", ASCII, 3, "");
    c15_xwin3 => win("x = let a = 1 in", ASCII, 4, "");
    c15_deepwin3 => win("x = let a = 1 in", ASCII, 5, "");
    c15_win4 => win("x = let a", ASCII, 3, "1 in a");
    c15_xwin4 => win("x = let a", ASCII, 4, "1 in a");
    c15_deepwin4 => win("x = let a", ASCII, 5, "1 in a");
    c15_three => let_entries(3);
    c15_in => compo::nest(15, 1, 0, true, &|v| { agree(v); });
    c15_nest3 => compo::nest(15, 1, 1, false, &|v| { agree(v); });
    c15_deepnest => compo::nest(15, 1, 1, true, &|v| { agree(v); });
    c15_both => compo::both(15, false);
    c15_deepboth => compo::both(15, true);
    c15_wide => edits(T15, ASCII, 3, true);

    c16_pats => case_pats(1);
    c16_pats2 => case_pats(2);
    c16_bodies => case_bodies(2);
    c16_count => case_count();
    c16_gaps => case_gaps();
    c16_emb => case_emb();
    c16_nest => case_nest();
    c16_tok => mutate::toks(T16, 1);
    c16_dup => mutate::same(T16);
    c16_uni => mutate::uni(T16);
    c16_deeptok2 => mutate::toks(T16, 2);
    c16_shape => compo::toks(16, 1);
    c16_over => edits(T16, ASCII, 2, true);
    c16_ins => edits(T16, ASCII, 2, false);
    c16_ins3 => edits(T16, ASCII, 3, false);
    c16_deepover => edits(T16, ASCII, 4, true);
    c16_deepins => edits(T16, ASCII, 4, false);
    c16_cut => cuts(T16, 6);
    c16_win => win("x = case", ASCII, 2, "a of b -> c");
    c16_xwin => win("x = case", ASCII, 3, "a of b -> c");
    c16_deepwin => win("x = case", ASCII, 4, "a of b -> c");
    c16_win2 => win("x = case a", ASCII, 3, "of b -> c");
    c16_xwin2 => win("x = case a", ASCII, 4, "of b -> c");
    c16_deepwin2 => win("x = case a", ASCII, 5, "of b -> c");
    c16_win3 => win("x = case a of b", ASCII, 4, "c");
    c16_xwin3 => win("x = case a of b", ASCII, 5, "c");
    c16_deepwin3 => win("x = case a of b", ASCII, 6, "c");
    c16_win4 => win("x =\n case a of\n  b -> c", ASCII, 4, "d -> e");
    c16_xwin4 => win("x =\n case a of\n  b -> c", ASCII, 5, "d -> e");
    c16_deepwin4 => win("x =\n case a of\n  b -> c", ASCII, 6, "d -> e");
    c16_bodies3 => case_bodies(3);
    c16_in => compo::nest(16, 1, 0, true, &|v| { agree(v); });
    c16_nest3 => compo::nest(16, 1, 1, false, &|v| { agree(v); });
    c16_deepnest => compo::nest(16, 1, 1, true, &|v| { agree(v); });
    c16_both => compo::both(16, false);
    c16_deepboth => compo::both(16, true);
    c16_wide => edits(T16, ASCII, 3, true);
}
