//! C17 layout: which column a line may start on; C18 blanks and comments between tokens

use super::gen::*;
use super::mutate;
use super::lib_::*;
use super::sym::*;
use super::ty::*;

fn x(e: Expression) -> Statement {
    fun_s("x", vec![], e)
}

// ---- C17 ------------------------------------------------------------------------------------

/// every line but the first indented by 0..n blanks; a name on each line is symbolic
fn lines(ls: &[&str], n: u32) {
    let mut b = B::new("");
    for (i, l) in ls.iter().enumerate() {
        if i > 0 {
            b.s("\n");
            b.sp(pick(n) as usize);
        }
        for c in l.bytes() {
            if c == b'@' {
                b.sym(SAFE);
            } else {
                b.t.push(c)
            }
        }
    }
    b.s("\n");
    agree(&b.t);
}
const L_APP: &[&str] = &["x =", "@", "@", "y"];
const L_DECL: &[&str] = &["x = @", "y = @", "z = @"];
const L_BIN: &[&str] = &["x =", "@", "|> @", "|> @"];
const L_BIN2: &[&str] = &["x = @ +", "@ +", "@"];
const L_LET: &[&str] = &["x =", "let", "@ = 1", "b = 2", "in", "@"];
const L_LET2: &[&str] = &["x = let a = @", "b = 2", "in", "@"];
const L_LET3: &[&str] = &["x =", "let f : A", "f = @", "in f"];
const L_LET4: &[&str] = &["x =", "let a =", "@", "@", "b = 1", "in b"];
const L_CASE: &[&str] = &["x =", "case a of", "@ ->", "1", "@ ->", "2"];
const L_CASE2: &[&str] = &["x = case a of", "@ -> 1", "@ -> 2", "_ -> 3"];
const L_CASE3: &[&str] = &["x =", "case a of", "b -> case @ of", "d -> 1", "e -> 2", "f -> 3"];
const L_CASE4: &[&str] = &["x = case a of", "b ->", "let c = @", "in c", "d -> 2"];
const L_IF: &[&str] = &["x =", "if @ then", "b", "else if c then", "@", "else", "e"];
const L_LIST: &[&str] = &["x =", "[ @", ", @", ", c", "]"];
const L_REC: &[&str] = &["x =", "{ a = @", ", b =", "@", "}"];
const L_UPD: &[&str] = &["x =", "{ a", "| b = @", ", c = 1", "}"];
const L_LAM: &[&str] = &["x =", "\\@ ->", "@", "@"];
const L_TUP: &[&str] = &["x =", "( @", ", @", ")", "@"];
const L_SIG: &[&str] = &["f : A", "-> @", "-> B", "f = 1"];
const L_TYPE: &[&str] = &["type A", "= B", "| C @", "D", "| E"];
const L_ALIAS: &[&str] = &["type alias A =", "{ a : B", ", b : @", "}", "y = 1"];
const L_MOD: &[&str] = &["module A", "exposing", "( a", ", B", ")"];
const L_MIX: &[&str] = &["x =", "let", "a = case b of", "c -> @", "d -> 2", "e = 3", "in e"];
const L_MIX2: &[&str] = &["x =", "case a of", "b -> if c then", "1", "else", "2", "d -> 3"];
const L_COM: &[&str] = &["x =", "-- c", "case a of", "-- d", "b -> 1", "-- e", "c -> 2"];

const FAR: [usize; 27] =
    [1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 513];
/// layout far to the right: the columns differ by -1, 0 or 1
fn far() {
    let c = FAR[pick(27) as usize] + 1;
    let d = c - 1 + pick(3) as usize;
    let mut b = B::new("");
    match pick(8) {
        0 => {
            b.s("x =\n case a of");
            b.nl(c);
            b.s("b -> 1");
            b.nl(d);
            b.s("c -> 2\n")
        }
        1 => {
            b.s("x =\n let");
            b.nl(c);
            b.s("b = 1");
            b.nl(d);
            b.s("c = 2\n in b\n")
        }
        2 => {
            b.s("x =\n let");
            b.nl(c);
            b.s("f : A");
            b.nl(d);
            b.s("f = 2\n in f\n")
        }
        3 => {
            b.s("x =");
            b.nl(c);
            b.s("let a =");
            b.nl(d);
            b.s("b");
            b.nl(c);
            b.s("in a\n")
        }
        4 => {
            b.s("x =");
            b.nl(c);
            b.s("[ a");
            b.nl(d);
            b.s(", b");
            b.nl(d);
            b.s("]\n")
        }
        5 => {
            b.s("x =");
            b.nl(c);
            b.s("f a");
            b.nl(d);
            b.s("b\n")
        }
        6 => {
            b.s("x =");
            b.nl(c);
            b.s("case a of");
            b.nl(c + 4);
            b.s("b ->");
            b.nl(d + 4);
            b.s("c");
            b.nl(c + 4);
            b.s("d -> e\n")
        }
        _ => {
            b.s("type alias A =");
            b.nl(c);
            b.s("{ a : B");
            b.nl(d);
            b.s(", c : D C");
            b.nl(d);
            b.s("}\n")
        }
    }
    agree(&b.t);
}
/// the rule itself: the branches of a case are the lines that start on the column of the first
/// one, up to a line that starts further left
fn case_rule() {
    let c = pick(5) as usize + 1;
    let n = 3;
    let mut b = B::new("x = case a of");
    let mut v = vec![];
    let mut same = true;
    for i in 0..n {
        let d = if i == 0 { c } else { pick(7) as usize };
        same &= d == c;
        b.nl(d);
        let p = b.var();
        b.s(" -> ");
        let e = b.var();
        v.push((p, e));
    }
    b.s("\n");
    if same {
        expect(&b.t, &[x(Expression::Case(bx(v1("a")), v))])
    } else {
        reject(&b.t)
    }
}
/// the entries of a let start on the column of the first one
fn let_rule() {
    let c = pick(5) as usize + 1;
    let mut b = B::new("x =\n let");
    let mut v = vec![];
    let mut same = true;
    for i in 0..3 {
        let d = if i == 0 { c } else { pick(7) as usize };
        same &= d == c;
        b.nl(d);
        let p = b.var();
        b.s(" = ");
        let e = b.var();
        v.push(LetEntry::LetBinding(p, e));
    }
    b.s("\n in\n ");
    let e = b.var();
    if same {
        expect(&b.t, &[x(Expression::Let(v, bx(e)))])
    } else {
        reject(&b.t)
    }
}
/// a line that starts on column zero never continues the definition above it
fn zero_rule() {
    let mut b = B::new("x =");
    let c = FAR[pick(27) as usize];
    b.nl(c);
    let mut e = b.var();
    let n = pick(3);
    for _ in 0..n {
        b.nl(c + pick(3) as usize * 3 + 1);
        let a = b.var();
        e = app(e, a);
    }
    b.s("\n");
    let m = b.id();
    b.s(" = ");
    let f = b.var();
    b.s("\n");
    expect(&b.t, &[x(e), fun_s(&m, vec![], f)])
}
/// a line continues the expression begun on a line above exactly if it starts further right
fn cont_rule() {
    let c = FAR[pick(27) as usize];
    let d = FAR[pick(27) as usize];
    let mut b = B::new("x =");
    b.nl(c);
    let f = b.var();
    b.nl(d);
    let a = b.var();
    b.s("\n");
    if d > c {
        expect(&b.t, &[x(app(f, a))])
    } else {
        reject(&b.t)
    }
}
fn blanks(n: usize, prefix: &str, suffix: &str) {
    let mut b = B::new(prefix);
    b.any(Set::of(b" \n"), n);
    b.s(suffix);
    agree(&b.t);
}

// ---- C18 ------------------------------------------------------------------------------------

/// `~` stands for a blank that must be there, `^` for one that need not
const G18: &[&str] = &[
    "x =~f~a~(g~b)~[^1^,^2^]\n",
    "x =~if~a~then~b~else~c\n",
    "x =~let~a~=~1~in~b\n",
    "x =~case~a~of~b~->~c\n",
    "x =~{^a^=^1^,^b^=^c^}\n",
    "x =~{^r^|a=1^,^b=c~}\n",
    "x =~a~+ b~* c\n",
    "x =~\\a~->~f~a\n",
    "x =~f~[^]~{^}\n",
    "type A~=~B~| C~d~(^E^,^f^)\n",
    "type alias A =~{^a^:^B~c^,^d^:^(^e^)^}\n",
    "type alias A =~{~r~|~a^:^B~}\n",
    "f :~A~b\nf =~1\n",
    "port p :~A~b\n",
    "module~A~exposing~(^..^)\n",
    "port~module~A~exposing~(^a^)\n",
    "x =~let~f~= \\a~->~[^a^]~in~if~f~then~{^}~else~b\n",
];
fn fill(t: &[u8], at: usize, g: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    for &c in t {
        match c {
            b'~' | b'^' => {
                if i == at {
                    v.extend_from_slice(g)
                } else if c == b'~' {
                    v.push(b' ')
                }
                i += 1;
            }
            _ => v.push(c),
        }
    }
    v
}
fn slots(t: &[u8]) -> usize {
    t.iter().filter(|c| (**c == b'~') | (**c == b'^')).count()
}
/// shapes of blank; those that break the line end to the right of column `c`
const SHAPES: u32 = 12;
fn shape(b: &mut B, k: u32, c: usize) {
    match k {
        0 => b.s("  "),
        1 => b.nl(c),
        2 => {
            b.s("  \n\n\n");
            b.sp(c + 11)
        }
        3 => {
            // a comment of free text
            b.s(" --");
            b.any(ASCII.minus(Set::one(b'\n')), 3);
            b.nl(c)
        }
        4 => {
            b.s("--");
            b.any(ASCII.minus(Set::one(b'\n')), 1);
            b.nl(c);
            b.s("-- y");
            b.nl(c + 2)
        }
        5 => {
            b.s("\n-- {- \" ' ( [ { ) ] }\n\n    --\n");
            b.sp(c + 5)
        }
        6 => b.sp(256),
        7 => b.nl(c + 237),
        8 => {
            for _ in 0..40 {
                b.s("\n")
            }
            b.sp(c + 1)
        }
        9 => {
            for _ in 0..5 {
                b.s("\n");
                b.sp(3);
                b.s("-- c");
            }
            b.nl(c + 1)
        }
        10 => {
            b.nl(10);
            b.s("--");
            b.any(ASCII.minus(Set::one(b'\n')), 300);
            b.nl(c)
        }
        _ => {
            b.s(" --");
            mutate::uchar(b);
            b.nl(c)
        }
    }
}
/// one slot filled with a blank of any shape: the tree stays the same
fn one_slot() {
    let t = G18[pick(G18.len() as u32) as usize].as_bytes();
    let at = pick(slots(t) as u32) as usize;
    let k = pick(SHAPES);
    let mut g = B::new("");
    shape(&mut g, k, 20);
    let plain = fill(t, usize::MAX, b"");
    let v = fill(t, at, &g.t);
    if judged(&v) {
        return;
    }
    match (parse(&plain), parse(&v)) {
        (Some(a), Some(b)) => check(a == b, "blanks or a comment between two tokens change the tree"),
        (None, _) => fail("a well-formed text is rejected"),
        _ => fail("blanks or a comment between two tokens make a text ill-formed"),
    }
    cover(1);
}
const RUNS: &[usize] = &[5, 8, 9, 10, 16, 17, 32, 33, 64, 65, 80, 81, 100, 101, 128, 129, 255, 257, 513, 1001, 1025, 4097];
pub fn run(b: &mut B, k: u32, n: usize, c: usize) {
    match k {
        0 => b.sp(n),
        1 => {
            for _ in 0..n {
                b.s("\n")
            }
            b.sp(c)
        }
        2 => b.nl(c + n),
        3 => {
            for i in 0..n.min(300) {
                b.s(["\n-- a", "\n --", "\n  -- b c"][i % 3])
            }
            b.nl(c)
        }
        4 => {
            b.s(" --");
            for i in 0..n {
                b.t.push(b" -{}a\"'(=."[i % 10])
            }
            b.nl(c)
        }
        _ => {
            // lines of blanks only
            for i in 0..n.min(300) {
                b.nl(i % 7)
            }
            b.nl(c)
        }
    }
}
/// one slot filled with a long run of blanks, lines or comments
fn long_slot() {
    let t = G18[pick(G18.len() as u32) as usize].as_bytes();
    let at = pick(slots(t) as u32) as usize;
    let n = RUNS[pick(if unsafe { JUDGE.is_some() } { 11 } else { RUNS.len() as u32 }) as usize];
    let k = pick(6);
    let mut g = B::new("");
    run(&mut g, k, n, 20);
    let plain = fill(t, usize::MAX, b"");
    let v = fill(t, at, &g.t);
    if judged(&v) {
        return;
    }
    match (parse(&plain), parse(&v)) {
        (Some(a), Some(b)) => check(a == b, "blanks or a comment between two tokens change the tree"),
        (None, _) => fail("a well-formed text is rejected"),
        _ => fail("blanks or a comment between two tokens make a text ill-formed"),
    }
    cover(1);
}
/// long runs of empty lines or blanks before, between and after statements
fn far_apart() {
    let n = RUNS[pick(RUNS.len() as u32) as usize];
    let k = pick(3);
    let at = pick(3);
    let mut b = B::new("");
    let gap = |b: &mut B| match k {
        0 => {
            for _ in 0..n {
                b.s("\n")
            }
        }
        1 => {
            for i in 0..n.min(600) {
                b.sp(i % 5);
                b.s("\n")
            }
        }
        _ => {
            b.sp(n);
            b.s("\n\n")
        }
    };
    if at == 0 && k == 0 {
        gap(&mut b)
    }
    let e = b.id();
    b.s(" = 1\n");
    if at == 1 {
        gap(&mut b)
    }
    let f = b.id();
    b.s(" = 2\n");
    if at == 2 {
        gap(&mut b)
    }
    expect(&b.t, &[fun_s(&e, vec![], int("1")), fun_s(&f, vec![], int("2"))])
}
/// every slot filled at once
fn all_slots() {
    let t = G18[pick(G18.len() as u32) as usize].as_bytes();
    let k = pick(10);
    let mut v = vec![];
    let mut col = 3;
    for &c in t {
        match c {
            b'~' | b'^' => {
                let mut g = B::new("");
                shape(&mut g, k, col);
                v.extend_from_slice(&g.t);
                col += 12
            }
            _ => v.push(c),
        }
    }
    let plain = fill(t, usize::MAX, b"");
    if judged(&v) {
        return;
    }
    match (parse(&plain), parse(&v)) {
        (Some(a), Some(b)) => check(a == b, "blanks or a comment between two tokens change the tree"),
        (None, _) => fail("a well-formed text is rejected"),
        _ => fail("blanks or a comment between two tokens make a text ill-formed"),
    }
    cover(1);
}
/// two slots, any two shapes
fn two_slots() {
    let t = G18[pick(G18.len() as u32) as usize].as_bytes();
    let n = slots(t);
    let at = pick(n as u32 - 1) as usize;
    let mut g = B::new("");
    shape(&mut g, pick(6), 20);
    let mut h = B::new("");
    shape(&mut h, pick(6), 40);
    let mut v = vec![];
    let mut i = 0;
    for &c in t {
        match c {
            b'~' | b'^' => {
                if i == at {
                    v.extend_from_slice(&g.t)
                } else if i == at + 1 {
                    v.extend_from_slice(&h.t)
                } else if c == b'~' {
                    v.push(b' ')
                }
                i += 1;
            }
            _ => v.push(c),
        }
    }
    let plain = fill(t, usize::MAX, b"");
    if judged(&v) {
        return;
    }
    match (parse(&plain), parse(&v)) {
        (Some(a), Some(b)) => check(a == b, "blanks or a comment between two tokens change the tree"),
        (None, _) => fail("a well-formed text is rejected"),
        _ => fail("blanks or a comment between two tokens make a text ill-formed"),
    }
    cover(1);
}
/// n bytes of any kind where a blank may stand: parser and reference agree
fn any_slot(n: usize) {
    let t = G18[pick(G18.len() as u32) as usize].as_bytes();
    let at = pick(slots(t) as u32) as usize;
    let mut g = B::new("");
    g.any(ASCII, n);
    agree(&fill(t, at, &g.t));
}

entries! {
    c17_app => lines(L_APP, 7);
    c17_decl => lines(L_DECL, 9);
    c17_bin => lines(L_BIN, 7);
    c17_bin2 => lines(L_BIN2, 9);
    c17_let => lines(L_LET, 4);
    c17_let2 => lines(L_LET2, 9);
    c17_let3 => lines(L_LET3, 8);
    c17_let4 => lines(L_LET4, 4);
    c17_case => lines(L_CASE, 4);
    c17_case2 => lines(L_CASE2, 9);
    c17_case3 => lines(L_CASE3, 4);
    c17_case4 => lines(L_CASE4, 6);
    c17_if => lines(L_IF, 3);
    c17_list => lines(L_LIST, 5);
    c17_rec => lines(L_REC, 5);
    c17_upd => lines(L_UPD, 5);
    c17_lam => lines(L_LAM, 6);
    c17_tup => lines(L_TUP, 4);
    c17_sig => lines(L_SIG, 6);
    c17_type => lines(L_TYPE, 5);
    c17_alias => lines(L_ALIAS, 5);
    c17_mod => lines(L_MOD, 5);
    c17_mix => lines(L_MIX, 3);
    c17_mix2 => lines(L_MIX2, 3);
    c17_com => lines(L_COM, 3);
    c17_far => far();
    c17_rcase => case_rule();
    c17_rlet => let_rule();
    c17_rzero => zero_rule();
    c17_rcont => cont_rule();
    c17_sp1 => blanks(8, "x = case a of", "b -> c\n  d -> e\n");
    c17_sp2 => blanks(8, "x =\n case a of\n  b -> c", "d -> e\n");
    c17_sp3 => blanks(8, "x =\n let\n  a = 1", "b = 2\n in a\n");
    c17_sp4 => blanks(8, "x =\n let\n  a = 1", "in a\n");
    c17_wide1 => lines(L_LET, 6);
    c17_wide2 => lines(L_CASE, 6);
    c17_wide3 => lines(L_CASE3, 6);
    c17_wide4 => lines(L_MIX, 4);
    c17_wide5 => lines(L_MIX2, 4);
    c17_wide6 => lines(L_IF, 4);

    c18_one => one_slot();
    c18_all => all_slots();
    c18_two => two_slots();
    c18_run => long_slot();
    c27_run => far_apart();
    c18_any => any_slot(2);
    c18_any3 => any_slot(3);
    c18_wide => any_slot(4);
}
