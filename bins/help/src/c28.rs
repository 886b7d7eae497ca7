//! C28: the import checker prints exactly the functions that the imports expose by name

use super::gen::*;
use super::sym::*;
use super::ty::*;
use super::*;

/// what the tool must print for these names
fn listing(names: &[String]) -> Vec<u8> {
    format!("{:#?}\n", names).into_bytes()
}
fn from_set(e: &ExportSet, out: &mut Vec<String>) {
    match e {
        ExportSet::SubsetExport(v) => v.iter().for_each(|x| from_set(x, out)),
        ExportSet::FunctionExport(n) => out.push(n.clone()),
        _ => {}
    }
}
/// the names a file's imports expose; None when the text is not a file
fn reference(t: &[u8]) -> Option<Vec<String>> {
    refp::file(t).map(|f| {
        let mut out = vec![];
        for s in &f {
            if let Statement::ImportStatement(_, _, Some(e)) = s {
                from_set(e, &mut out)
            }
        }
        out
    })
}
/// the tool on a file with this text
fn prints(t: &[u8], want: Option<Vec<String>>) {
    show(t);
    let mut w = world();
    file(&mut w, 0, b"M.elm", t);
    let k = Box::leak(Box::new(move |out: &[u8], code: i32| {
        check(code == 0, "exit status not zero");
        match &want {
            Some(n) => {
                check(out == &listing(n)[..], "the names printed are not those the imports expose");
                cover(1);
                note(1, n.len() as u64);
            }
            None => {
                check(out.starts_with(b"Error("), "no error is printed for a text that does not parse");
                cover(2)
            }
        }
    }));
    run("check", &["M.elm"], w, k)
}
/// imports before, between and after statements of any kind
fn anywhere(n: usize) {
    const S: [&str; 12] = [
        "f = g\n", "type A = B a\n", "type alias A = { a : B }\n", "-- import A exposing (b)\n", "{- import A exposing (b) -}\n",
        "port p : A\n", "port p a = b\n", "infixl 5 +\n", "g : A\ng a = let import_ = 1 in a\n", "(+) a b = \"import A exposing (c)\"\n",
        "import Q\n", "\n\n",
    ];
    let mut b = B::new("");
    let mut out = vec![];
    for i in 0..n {
        b.s("import A exposing (");
        // names may come again
        let k = out.len();
        match if i == 0 { 0 } else { pick(3) } {
            0 => out.push(b.id()),
            1 => {
                out.push(out[k - 1].clone());
                b.s(&out[k - 1].clone())
            }
            _ => {
                out.push(out[0].clone());
                b.s(&out[0].clone());
                b.s(", ");
                out.push(b.id());
            }
        }
        b.s(")\n");
        if i + 1 < n || flag() {
            b.s(S[pick(12) as usize]);
        }
    }
    prints(&b.t.clone(), Some(out))
}
/// a token of a file replaced by any, a character by any
fn near(uni: bool) {
    unsafe { mutate::LISTED = true }
    let go = |v: &[u8]| prints(v, reference(v));
    if uni {
        mutate::uni_in(T28.as_bytes(), &go)
    } else {
        mutate::tok_in(T28.as_bytes(), 1, &go)
    }
}
/// texts without any import
fn none() {
    prints(["x = 1", "module A exposing (b)\n", "-- c", "import A", "import A exposing (..)\n", "import A exposing (B(C))\n"][pick(6) as usize].as_bytes(), Some(vec![]))
}
/// one name of n free characters
fn name() {
    let n = [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 20, 33, 64, 65, 129, 300][pick(19) as usize];
    let mut b = B::new("import A exposing (");
    let s = b.syms(SAFE, Set::range(b'a', b'z').or(Set::of(b"_19Z")), 1);
    b.any(WORD, n - 1);
    let m = text(&b.t[b.t.len() - n..]).to_string();
    b.s(", ");
    b.s(&s);
    b.s(")\n");
    prints(&b.t.clone(), Some(vec![m, s]))
}
/// the file by any name, and arguments after it
fn args() {
    let f = ["M.elm", "./M.elm", "M", "M.txt", "s/M.elm", ".elm", "a b.elm", "\u{e9}.elm", "-q", "--help", "s/../M.elm"];
    let i = pick(f.len() as u32 - 1) as usize;
    let mut b = B::new("import A exposing (");
    let n = b.id();
    b.s(")\n");
    show(&b.t);
    let mut w = world();
    let d = dir(&mut w, 0, b"s");
    let p = f[i];
    let (at, nm) = if p.starts_with("s/") { (d, &p[2..]) } else if p.starts_with("./") { (0, &p[2..]) } else { (0, p) };
    file(&mut w, at, nm.as_bytes(), &b.t);
    let extra = pick(5) as usize;
    let more = ["", "x", "-q", "N.elm", ""];
    let mut a = vec![p];
    a.extend_from_slice(&more[..extra]);
    if extra == 4 {
        a.extend_from_slice(&["y"; 20])
    }
    let k = Box::leak(Box::new(move |out: &[u8], code: i32| {
        check(code == 0, "exit status not zero");
        check(out == &listing(&[n.clone()])[..], "the names printed are not those the imports expose");
        cover(1)
    }));
    run("check", &a, w, k)
}
/// an item of an import list; names of functions go to `out`
fn item(b: &mut B, out: &mut Vec<String>) {
    match pick(6) {
        0 => out.push(b.id()),
        1 => {
            b.s("(");
            let o = b.syms(Set::of(b"+*/<>&^%#@~!?$"), Set::of(b"+*/<>&^%#@~!?$=|:.-"), 2);
            out.push(o);
            b.s(")");
        }
        2 => {
            b.up();
        }
        3 => {
            b.up();
            b.s("(..)");
        }
        4 => {
            b.up();
            b.s("(");
            b.up();
            b.s(", ");
            b.up();
            b.s(")");
        }
        _ => out.push({
            b.s("_");
            "_".to_string()
        }),
    }
}
fn import(b: &mut B, max: u32, out: &mut Vec<String>) {
    b.s("import ");
    b.up();
    if flag() {
        b.s(".Aa as Bb");
    }
    match pick(3) {
        0 => {}
        1 => b.s(" exposing (..)"),
        _ => {
            b.s(" exposing (");
            for i in 0..1 + pick(max) {
                if i > 0 {
                    b.s(", ");
                }
                item(b, out);
            }
            b.s(")");
        }
    }
    b.s("\n");
}
/// statements that expose or name functions without importing them
fn other(b: &mut B) {
    match pick(6) {
        0 => {}
        1 => b.s("import Zz exposing (T(A))\n"),
        2 => b.s("f = g\n"),
        3 => b.s("-- import A exposing (b)\n"),
        4 => b.s("port p : A\n"),
        _ => b.s("x = case a of { b } -> c\n"),
    }
}
fn imports(n: usize, max: u32, around: bool) {
    let mut b = B::new("");
    let mut out = vec![];
    if around && flag() {
        b.s("module A exposing (b, (+), C(D), e)\n")
    }
    for _ in 0..n {
        import(&mut b, max, &mut out);
    }
    if around {
        other(&mut b);
    }
    prints(&b.t.clone(), Some(out))
}
fn many() {
    let n = [3usize, 8, 16, 17, 32, 33, 64, 65, 129, 257, 1025][pick(11) as usize];
    let mut b = B::new("");
    let mut out = vec![];
    if flag() {
        b.s("import A exposing (");
        for i in 0..n {
            if i > 0 {
                b.s(", ");
            }
            b.at(i, n);
            out.push(b.id());
        }
        b.s(")\n");
    } else {
        for i in 0..n {
            b.at(i, n);
            b.s("import A exposing (");
            out.push(b.id());
            b.s(")\n");
        }
    }
    prints(&b.t.clone(), Some(out))
}
/// a file longer than any buffer, with the import at its end or its start
fn long() {
    let n = [1000usize, 4090, 8190, 16380][pick(4) as usize];
    let mut b = B::new("");
    let mut out = vec![];
    let first = flag();
    if first {
        import(&mut b, 1, &mut out);
    }
    b.s("{-");
    while b.t.len() < n {
        b.s(" filler \u{e9}\u{20ac}\n")
    }
    b.s("-}\n");
    if !first {
        import(&mut b, 1, &mut out);
    }
    prints(&b.t.clone(), Some(out))
}
/// free bytes: the names the reference reader finds, or an error
fn free(prefix: &str, n: usize, suffix: &str) {
    let mut b = B::new(prefix);
    b.any(ASCII, n);
    b.s(suffix);
    prints(&b.t.clone(), reference(&b.t))
}
const T28: &str = "module A exposing (a, b)\nimport B exposing (c, (++), D(..), E(F, G), h)\nimport I as J exposing (k)\nimport L\nx = \"y\"\n";
fn edit(over: bool) {
    let t = T28.as_bytes();
    let p = pick_wide(t.len() + 1);
    let mut v = t[..p].to_vec();
    v.push(byte(ASCII));
    v.extend_from_slice(&t[if over { (p + 1).min(t.len()) } else { p }..]);
    prints(&v, reference(&v))
}
/// without an argument: the usage, and exit status 1
fn usage() {
    let k = Box::leak(Box::new(|out: &[u8], code: i32| {
        check(code == 1, "exit status without an argument is not 1");
        check(out.starts_with(b"Usage"), "no usage is printed");
        cover(1)
    }));
    run("check", &[], world(), k)
}
/// more arguments than one: the first is the file
fn second() {
    let mut b = B::new("import A exposing (");
    let n = b.id();
    b.s(")\n");
    show(&b.t);
    let mut w = world();
    file(&mut w, 0, b"M.elm", &b.t);
    file(&mut w, 0, b"N.elm", b"import B exposing (other)\n");
    let k = Box::leak(Box::new(move |out: &[u8], code: i32| {
        check(code == 0, "exit status not zero");
        check(out == &listing(&[n.clone()])[..], "the names printed are not those the imports expose");
        cover(1)
    }));
    run("check", &["M.elm", "N.elm"], w, k)
}
/// a file that is not a text has no names, nor has one that is not there
fn not_text() {
    let mut b = B::new("import A exposing (b)\n");
    b.s(["x = \"", "-- ", "{- ", ""][pick(4) as usize]);
    let s = [Set::range(0x80, 0xc1), Set::range(0xf5, 0xff), Set::range(0xc2, 0xf4)][pick(3) as usize];
    b.sym(s);
    b.s("\"-}\n");
    let mut w = world();
    file(&mut w, 0, b"M.elm", &b.t);
    may_panic();
    cover(1);
    let k = Box::leak(Box::new(move |out: &[u8], code: i32| check(code != 0 || !out.starts_with(b"["), "names are printed for a file that is not a text")));
    run("check", &[["M.elm", "N.elm"][pick(2) as usize]], w, k)
}

entries! {
    c28_nottext => not_text();
    c28_usage => usage();
    c28_second => second();
    c28_one => imports(1, 2, true);
    c28_two => imports(2, 1, false);
    c28_many => many();
    c28_long => long();
    c28_win => free("import A exposing (", 3, ")\n");
    c28_win2 => free("import A exposing (a, B", 3, ")\n");
    c28_win3 => free("import A", 3, " exposing (a)\n");
    c28_win4 => free("", 3, "");
    c28_win5 => free("import A exposing (a)\n", 2, "import B exposing (c)");
    c28_over => edit(true);
    c28_ins => edit(false);
    c28_anywhere => anywhere(2);
    c28_anywhere3 => anywhere(3);
    c28_tok => near(false);
    c28_uni => near(true);
    c28_none => none();
    c28_name => name();
    c28_args => args();
    c28_items3 => imports(1, 3, false);
    c28_deepanywhere => anywhere(4);
    c28_deep => imports(2, 2, true);
    c28_deep2 => free("import A exposing (", 5, ")\n");
}
