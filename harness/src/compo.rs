//! Compositions: every expression shape inside every other, three deep.  The texts come from
//! templates with one hole each (`#`); a line break in a template goes on at the indentation of the
//! place where it stands.  Parser and reference reader must agree on them.

use super::gen::*;
use super::mutate;
use super::lib_::*;
use super::sym::*;

/// property, template
const E: &[(u8, &str)] = &[
    (8, "f #"),
    (8, "f (#)"),
    (8, "f (#) a"),
    (8, "f a (#)"),
    (8, "(#) a"),
    (8, "(#) a b"),
    (8, "f\n a\n (#)"),
    (8, "f (#) (g b) c"),
    (9, "a + #"),
    (9, "# + a"),
    (9, "(#) + a"),
    (9, "a\n|> #"),
    (9, "a + b * #"),
    (9, "# :: a :: b"),
    (9, "a :: (#) :: b"),
    (9, "f a <| #"),
    (10, "[ #, a ]"),
    (10, "[ a, # ]"),
    (10, "[#]"),
    (10, "[ a\n, #\n]"),
    (10, "(#, a)"),
    (10, "( a, #, b )"),
    (10, "(#)"),
    (10, "[ a, b, (#), c ]"),
    (11, "{ a = # }"),
    (11, "{ a = b, c = # }"),
    (11, "{ a = #, c = b, d = 1 }"),
    (11, "{ r | a = # }"),
    (11, "{ r | a = b, c = # }"),
    (11, "{ a = #\n, b = c\n}"),
    (11, "{ r\n| a = #\n, b = c\n}"),
    (12, "a.b #"),
    (12, ".a (#)"),
    (12, "A.b #"),
    (12, "#.a"),
    (12, "a.b.c (#) A.B.d A.E"),
    (13, "if # then a else b"),
    (13, "if a then # else b"),
    (13, "if a then b else #"),
    (13, "if a then\n #\nelse\n b"),
    (13, "if a then\n b\nelse\n #"),
    (13, "if a then b else if # then c else d"),
    (13, "if a then b\nelse if c then #\nelse d"),
    (14, "\\a -> #"),
    (14, "\\a b ->\n #"),
    (14, "(\\a -> #) b"),
    (14, "f (\\(a, b) -> #)"),
    (14, "\\_ { a, b } -> #"),
    (15, "let a = # in b"),
    (15, "let a = b in #"),
    (15, "let\n a = #\n c = d\nin\n a"),
    (15, "let\n c = d\n a = #\nin\nb"),
    (15, "let\n a = b\n c = d\nin\n #"),
    (15, "let\n f a = #\nin f b"),
    (15, "let\n f : A\n f = #\nin f"),
    (15, "let\n (a, b) = #\nin\na"),
    (15, "let\n a =\n  #\n b = c\nin\na"),
    (16, "case # of a -> b"),
    (16, "case a of b -> #"),
    (16, "case a of\n b -> #\n c -> d"),
    (16, "case a of\n b ->\n  #\n c -> d"),
    (16, "case a of\n b -> c\n d ->\n  #"),
    (16, "case a of\n # -> b\n _ -> c"),
    (16, "case a of\n (b, c) -> #\n _ -> d"),
    (16, "case a of\n b -> c\n\n d -> #\n\n e -> f"),
];
const T: &[&str] = &[
    "A #", "A (#)", "A (#) b", "A b (#)", "# -> a", "(#) -> a", "a -> #", "a -> (#) -> b", "(#, a)", "(a, #)", "(a, #, B)",
    "{ a : # }", "{ a : #, b : c }", "{ a : b, c : # }", "{ r | a : # }", "{ r | a : b, c : # }", "(#)", "A.B (#) c",
    "{ a : #\n, b : C\n}", "A\n (#)\n b", "a\n-> #",
];

fn tpl(b: &mut B, t: &str, ind: usize, hole: &mut dyn FnMut(&mut B, usize)) {
    let mut extra = 0;
    let mut start = false;
    for &c in t.as_bytes() {
        if start && c == b' ' {
            extra += 1
        } else if c != b'\n' {
            start = false
        }
        match c {
            b'#' => hole(b, ind + extra + 2),
            b'\n' => {
                b.nl(ind);
                extra = 0;
                start = true
            }
            _ => b.t.push(c),
        }
    }
}
fn leaf(b: &mut B, all: bool) {
    match if all { pick(8) } else { 7 } {
        0 => {
            b.s("()");
        }
        1 => {
            b.s("g ");
            b.sym(DIGIT);
        }
        2 => {
            b.term(3);
        }
        3 => {
            b.s("[]");
        }
        4 => {
            b.s("(-");
            b.sym(DIGIT);
            b.s(")");
        }
        5 => {
            b.s("A.");
            b.sym(LOWER);
        }
        6 => {
            b.s("a.");
            b.sym(LOWER);
        }
        _ => {
            b.sym(LOWER);
        }
    }
}
/// a shape of property `cat` (any for 0)
fn some(cat: u8) -> &'static str {
    if cat == 0 {
        return E[pick(E.len() as u32) as usize].1;
    }
    let n = E.iter().filter(|x| x.0 == cat).count();
    E.iter().filter(|x| x.0 == cat).nth(pick(n as u32) as usize).unwrap().1
}
fn place(b: &mut B, all: bool, f: &mut dyn FnMut(&mut B, usize)) {
    match if all { pick(4) } else { 2 } {
        0 => {
            b.s("x = ");
            f(b, 2)
        }
        1 => {
            b.s("x =\n  ");
            f(b, 2)
        }
        2 => {
            b.s("x a =\n    ");
            f(b, 4);
            b.s("\n\n\ny : A\ny =\n    1\n")
        }
        _ => {
            b.s("x =\n    let\n        a =\n            ");
            f(b, 12);
            b.s("\n\n        b = 2\n    in\n    a\n")
        }
    }
}
/// a text with one of the property's shapes, one token of it replaced by any token
pub fn toks(cat: u8, n: usize) {
    let mut b = B::new("");
    let s = some(cat);
    place(&mut b, false, &mut |b, i| tpl(b, s, i, &mut |b, _| b.s("h")));
    mutate::tok_in(&b.t, n, &|v| {
        agree(v);
    })
}
/// property `cat`: `outer` any shapes around one of the property's own, `inner` any shapes in it;
/// `all`: with every kind of leaf, in every place
pub fn nest(cat: u8, outer: usize, inner: usize, all: bool, go: &dyn Fn(&[u8])) {
    let mut b = B::new("");
    let mut v = vec![];
    for _ in 0..outer {
        v.push(some(0))
    }
    if cat > 0 {
        v.push(some(cat))
    }
    for _ in 0..inner {
        v.push(some(0))
    }
    fn chain(b: &mut B, v: &[&str], ind: usize, all: bool) {
        match v.first() {
            None => leaf(b, all),
            Some(t) => tpl(b, t, ind, &mut |b, i| chain(b, &v[1..], i, all)),
        }
    }
    place(&mut b, all, &mut |b, i| chain(b, &v, i, all));
    go(&b.t)
}
/// two shapes of any kind one after the other in one expression of the property
pub fn both(cat: u8, all: bool) {
    const P: &[(u8, &str)] = &[
        (8, "f (#) (@)"),
        (9, "(#) + @"),
        (9, "# + @"),
        (10, "[ #, @ ]"),
        (10, "(#, @)"),
        (11, "{ a = #, b = @ }"),
        (11, "{ r | a = #, b = @ }"),
        (13, "if # then @ else a"),
        (13, "if # then a else @"),
        (13, "if a then # else @"),
        (13, "if a then\n #\nelse\n @"),
        (14, "\\a -> (#) (@)"),
        (15, "let a = # in @"),
        (15, "let\n a = #\n b = @\nin\na"),
        (15, "let\n f a =\n  #\n b =\n  @\nin\nf b"),
        (16, "case # of a -> @"),
        (16, "case a of\n b -> #\n c -> @"),
        (16, "case a of\n b ->\n  #\n\n c ->\n  @"),
        (16, "case a of\n # -> b\n c -> @"),
    ];
    let n = P.iter().filter(|x| x.0 == cat).count();
    let t = P.iter().filter(|x| x.0 == cat).nth(pick(n as u32) as usize).unwrap().1;
    let at = t.find('@').unwrap();
    let (s1, s2) = (some(0), some(0));
    let mut b = B::new("");
    place(&mut b, all, &mut |b, ind| {
        // two passes: the text up to the second hole, then the rest at the same indentation
        let line = t[..at].rfind('\n');
        let extra = line.map_or(0, |p| t[p + 1..at].len() - t[p + 1..at].trim_start().len());
        tpl(b, &t[..at], ind, &mut |b, i| tpl(b, s1, i, &mut |b, _| b.s("a")));
        tpl(b, s2, ind + extra + 2, &mut |b, _| {
            b.sym(LOWER);
        });
        tpl(b, &t[at + 1..], ind, &mut |_, _| {});
    });
    agree(&b.t);
}
/// types, `depth` shapes deep, in place `k` of a file
pub fn types(k: u32, depth: usize) {
    const W: &[(&str, &str)] = &[
        ("x : ", "\nx = 1\n"),
        ("x :\n  ", "\nx a =\n  1\n"),
        ("type alias A a =\n  ", "\n"),
        ("type A a\n  = B (", ")\n  | C\n"),
        ("port x : ", "\n"),
        ("x =\n  let\n    f : ", "\n    f = 1\n  in f\n"),
    ];
    fn chain(b: &mut B, n: usize, ind: usize) {
        if n == 0 {
            match pick(5) {
                0 => b.s("()"),
                1 => {
                    b.sym(UPPER);
                }
                2 => {
                    b.s("A.");
                    b.sym(UPPER);
                }
                3 => b.s("B a"),
                _ => {
                    b.sym(LOWER);
                }
            }
            return;
        }
        let t = T[pick(T.len() as u32) as usize];
        tpl(b, t, ind, &mut |b, i| chain(b, n - 1, i))
    }
    let (p, s) = W[k as usize];
    let mut b = B::new(p);
    chain(&mut b, depth, 4);
    b.s(s);
    agree(&b.t);
}
