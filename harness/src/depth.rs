//! Deep nesting: each construct inside itself, many levels down.  The names of the outermost and
//! innermost levels are free.

use super::gen::*;
use super::lib_::*;
use super::sym::*;
use super::ty::*;

pub const DEPTHS: &[usize] = &[2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 20, 21, 24, 25, 26, 30, 31, 32, 33, 40, 50, 51, 63, 64, 65, 66, 80, 100, 101, 127, 128, 129, 130, 200, 255, 256, 257, 300];
pub fn depth() -> usize {
    if unsafe { JUDGE.is_some() } {
        return [5, 9, 13, 17, 33, 65, 101][pick(7) as usize];
    }
    DEPTHS[pick(DEPTHS.len() as u32) as usize]
}
fn plus(a: Expression, b: Expression) -> Expression {
    Expression::BinOp(bx(v1("+")), bx(a), bx(b))
}
fn bind(n: String, e: Expression) -> LetEntry {
    LetEntry::LetBinding(v1(&n), e)
}

/// `d` levels of construct `k`, level `i` and below; lines are indented by `step` a level
fn tower(b: &mut B, k: u32, i: usize, d: usize, step: usize) -> Expression {
    b.at(i, d + 1);
    if i == d {
        return b.var();
    }
    let col = 2 + i * step;
    // a free name, for the level to write down
    let n = {
        let at = b.t.len();
        let n = b.id();
        b.t.truncate(at);
        n
    };
    // the rest of the level, kept from the free characters of the deeper ones
    macro_rules! down {
        () => {{
            let e = tower(b, k, i + 1, d, step);
            b.at(i, d + 1);
            e
        }};
    }
    match k {
        0 => {
            // f (..)
            b.s(&n);
            b.s(" (");
            let e = down!();
            b.s(")");
            app(v1(&n), e)
        }
        1 => {
            b.s(&n);
            b.s(" + (");
            let e = down!();
            b.s(")");
            plus(v1(&n), e)
        }
        2 => {
            b.s("[");
            let e = down!();
            b.s("]");
            Expression::List(vec![e])
        }
        3 => {
            b.s("(");
            b.s(&n);
            b.s(", ");
            let e = down!();
            b.s(")");
            Expression::Tuple(vec![v1(&n), e])
        }
        4 => {
            b.s("(");
            let e = down!();
            b.s(")");
            e
        }
        5 | 6 => {
            b.s(if k == 5 { "{ " } else { "{ r | " });
            b.s(&n);
            b.s(" = ");
            let e = down!();
            b.s(" }");
            let f = vec![(n, e)];
            if k == 5 {
                Expression::Record(f)
            } else {
                Expression::RecordUpdate("r".to_string(), f)
            }
        }
        7 | 8 | 9 => {
            b.s("if ");
            let (mut x, mut y, mut z) = (v1("p"), v1("q"), v1(&n));
            if k == 7 {
                x = down!()
            } else {
                b.s("p")
            }
            b.s(" then ");
            if k == 8 {
                y = down!()
            } else {
                b.s("q")
            }
            b.s(" else ");
            if k == 9 {
                z = plus(z, {
                    b.s(&n);
                    b.s(" + ");
                    down!()
                })
            } else {
                b.s(&n)
            }
            Expression::If(bx(x), bx(y), bx(z))
        }
        10 | 11 => {
            b.s(if k == 10 { "\\" } else { "(\\" });
            b.s(&n);
            b.s(" -> ");
            let e = down!();
            if k == 11 {
                b.s(")")
            }
            Expression::Lambda(vec![v1(&n)], bx(e))
        }
        12 | 13 => {
            // let on one line: within the body, within what is bound
            b.s("let ");
            b.s(&n);
            b.s(" = ");
            let mut e = v1("c");
            if k == 13 {
                e = down!()
            } else {
                b.s("c")
            }
            b.s(" in ");
            let mut r = v1("d");
            if k == 12 {
                r = down!()
            } else {
                b.s("d")
            }
            Expression::Let(vec![bind(n, e)], bx(r))
        }
        14 | 15 | 16 => {
            // let over lines: within the body, within what is bound, within a local function
            b.s("let");
            b.nl(col + 1);
            b.s(&n);
            if k == 16 {
                b.s(" q")
            }
            b.s(" =");
            b.nl(col + step);
            let mut e = v1("c");
            if k != 14 {
                e = down!()
            } else {
                b.s("c")
            }
            b.nl(col + 1);
            b.s("second = 1");
            b.nl(col);
            b.s("in");
            b.nl(col + step);
            let mut r = v1("d");
            if k == 14 {
                r = down!()
            } else {
                b.s("d")
            }
            let l = if k == 16 { LetEntry::LetFunction(fun(&n, vec![v1("q")], e)) } else { bind(n, e) };
            Expression::Let(vec![l, bind("second".to_string(), int("1"))], bx(r))
        }
        17 | 18 | 19 => {
            // case over lines: the only branch, the first, the last
            b.s("case ");
            b.s(&n);
            b.s(" of");
            let mut v = vec![];
            if k == 19 {
                b.nl(col + step);
                b.s("p -> q");
                v.push((v1("p"), v1("q")))
            }
            b.nl(col + step);
            b.s("r ->");
            b.nl(col + step + 1);
            let e = {
                let e = tower(b, k, i + 1, d, step);
                b.at(i, d + 1);
                e
            };
            v.push((v1("r"), e));
            if k == 18 {
                b.nl(col + step);
                b.s("s -> t");
                v.push((v1("s"), v1("t")))
            }
            Expression::Case(bx(v1(&n)), v)
        }
        20 | 21 | 22 => {
            // case on one line: within the branch, in parentheses, as what is taken apart
            b.s(["case ", "(case ", "case "][k as usize - 20]);
            let mut s = v1(&n);
            if k == 22 {
                s = down!()
            } else {
                b.s(&n)
            }
            b.s(" of b -> ");
            let mut r = v1("d");
            if k != 22 {
                r = down!()
            } else {
                b.s("d")
            }
            if k == 21 {
                b.s(")")
            }
            Expression::Case(bx(s), vec![(v1("b"), r)])
        }
        23 => {
            // each in turn
            let j = i % 5;
            b.s(["(a, ", "{ a = ", "[", "(\\a -> ", "(if a then b else "][j]);
            let e = down!();
            b.s([")", " }", "]", ")", ")"][j]);
            match j {
                0 => Expression::Tuple(vec![v1("a"), e]),
                1 => Expression::Record(vec![("a".to_string(), e)]),
                2 => Expression::List(vec![e]),
                3 => Expression::Lambda(vec![v1("a")], bx(e)),
                _ => Expression::If(bx(v1("a")), bx(v1("b")), bx(e)),
            }
        }
        _ => {
            // let and case over lines, in turn
            if i % 2 == 0 {
                b.s("let");
                b.nl(col + 1);
                b.s(&n);
                b.s(" = c");
                b.nl(col);
                b.s("in");
                b.nl(col + step);
                let e = down!();
                Expression::Let(vec![bind(n, v1("c"))], bx(e))
            } else {
                b.s("case ");
                b.s(&n);
                b.s(" of");
                b.nl(col + 1);
                b.s("p ->");
                b.nl(col + step);
                let e = down!();
                b.nl(col + 1);
                b.s("q -> 1");
                Expression::Case(bx(v1(&n)), vec![(v1("p"), e), (v1("q"), int("1"))])
            }
        }
    }
}
fn deep(ks: &[u32]) {
    let d = depth();
    let k = ks[pick(ks.len() as u32) as usize];
    let step = if (14..20).contains(&k) || k == 24 { [2, 4, 5][pick(3) as usize] } else { 2 };
    let mut b = B::new("x =\n  ");
    let e = tower(&mut b, k, 0, d, step);
    b.s("\ny = 1\n");
    expect(&b.t, &[fun_s("x", vec![], e), fun_s("y", vec![], int("1"))])
}

fn ttower(b: &mut B, k: u32, i: usize, d: usize) -> Type {
    b.at(i, d + 1);
    if i == d {
        return Type::TypeVariable(b.id());
    }
    match k {
        0 => {
            b.s("(");
            let t = ttower(b, k, i + 1, d);
            b.s(")");
            t
        }
        1 => {
            b.s("(");
            let n = b.up();
            b.s(", ");
            let t = ttower(b, k, i + 1, d);
            b.s(")");
            Type::TypeTuple(vec![tcon(&n, vec![]), t])
        }
        2 => {
            b.s("(");
            let n = b.up();
            b.s(" -> ");
            let t = ttower(b, k, i + 1, d);
            b.s(")");
            tapp(tcon(&n, vec![]), t)
        }
        3 => {
            let n = b.up();
            b.s(" -> ");
            let t = ttower(b, k, i + 1, d);
            tapp(tcon(&n, vec![]), t)
        }
        4 => {
            let n = b.up();
            b.s(" (");
            let t = ttower(b, k, i + 1, d);
            b.s(")");
            tcon(&n, vec![t])
        }
        5 => {
            b.s("{ ");
            let n = b.id();
            b.s(" : ");
            let t = ttower(b, k, i + 1, d);
            b.s(" }");
            Type::TypeRecord(vec![(n, t)])
        }
        _ => {
            b.s("{ r | ");
            let n = b.id();
            b.s(" : ");
            let t = ttower(b, k, i + 1, d);
            b.s(" }");
            Type::TypeRecordConstructor(bxt(tvar("r")), vec![(n, t)])
        }
    }
}
fn bxt(t: Type) -> Box<Type> {
    Box::new(t)
}
fn tdeep(place: u32) {
    let d = depth();
    let k = pick(7);
    let mut b = B::new(["x : ", "port x : ", "type alias X = ", "type X = F "][place as usize]);
    if place == 3 && (k == 3 || k == 4) {
        b.s("(")
    }
    let t = ttower(&mut b, k, 0, d);
    if place == 3 && (k == 3 || k == 4) {
        b.s(")")
    }
    b.s(if place == 0 { "\nx = 1\ny = 1\n" } else { "\ny = 1\n" });
    let n = "x".to_string();
    let s = match place {
        0 => Statement::Function(Function { signature: Some(FunctionSignature { name: n, type_: t }), definition: fun("x", vec![], int("1")).definition }),
        1 => Statement::PortTypeDeclaration(n, t),
        2 => Statement::TypeAliasDeclaration(tcon("X", vec![]), t),
        _ => Statement::TypeDeclaration(tcon("X", vec![]), vec![tcon("F", vec![t])]),
    };
    expect(&b.t, &[s, fun_s("y", vec![], int("1"))])
}
/// a pattern deep in an argument, a lambda or a branch
fn pdeep() {
    let d = depth();
    let place = pick(3);
    let k = [2, 3, 4][pick(3) as usize];
    let mut b = B::new(["f ", "f = \\", "f =\n  case a of\n    "][place as usize]);
    let p = tower(&mut b, k, 0, d, 2);
    b.s([" = 1", " -> 1", " -> 1"][place as usize]);
    let one = int("1");
    expect(
        &b.t,
        &[match place {
            0 => fun_s("f", vec![p], one),
            1 => fun_s("f", vec![], Expression::Lambda(vec![p], bx(one))),
            _ => fun_s("f", vec![], Expression::Case(bx(v1("a")), vec![(p, one)])),
        }],
    )
}
/// a literal at the bottom: `k` picks the construct around it
pub fn literal() {
    let d = depth();
    let k = pick(4) as usize;
    let mut b = B::new("x = ");
    for _ in 0..d {
        b.s(["(", "[", "{ a = ", "f ("][k])
    }
    let mut e = b.term(pick(TERMS));
    for _ in 0..d {
        b.s([")", "]", " }", ")"][k]);
        e = match k {
            0 => e,
            1 => Expression::List(vec![e]),
            2 => Expression::Record(vec![("a".to_string(), e)]),
            _ => app(v1("f"), e),
        }
    }
    expect(&b.t, &[fun_s("x", vec![], e)])
}

entries! {
    c03_depth => literal();
    c08_depth => deep(&[0, 23]);
    c09_depth => deep(&[1]);
    c10_depth => deep(&[2, 3, 4, 23]);
    c11_depth => deep(&[5, 6]);
    c13_depth => deep(&[7, 8, 9]);
    c14_depth => deep(&[10, 11]);
    c15_depth => deep(&[12, 13, 14, 15, 16]);
    c16_depth => deep(&[17, 18, 19, 20, 21, 22]);
    c17_depth => deep(&[14, 15, 17, 18, 24]);
    c18_depth => deep(&[24, 19]);
    c19_depth => tdeep(0);
    c20_depth => tdeep(2 + pick(2));
    c25_depth => tdeep(1);
    c26_depth => pdeep();
    c27_depth => deep(&[0, 5, 12, 17]);
}
