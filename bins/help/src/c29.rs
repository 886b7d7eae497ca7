//! C29: the dump tool prints the tree, or the verdict, of every Elm file it is given

use super::gen::*;
use super::sym::*;
use super::ty::*;
use super::*;

fn shown(t: &[u8]) -> Option<Vec<u8>> {
    refp::file(t).map(|f: Vec<Statement>| format!("{:#?}\n", f).into_bytes())
}
fn verdict(path: &str, ok: bool) -> Vec<u8> {
    format!("{:?} {}\n", path, if ok { "parsed successfully" } else { "failed to parse" }).into_bytes()
}
/// one file, by name
fn one(t: &[u8], args: &[&str], quiet: bool) {
    show(t);
    let mut w = world();
    file(&mut w, 0, b"M.elm", t);
    let want = shown(t);
    let k = Box::leak(Box::new(move |out: &[u8], code: i32| {
        check(code == 0, "exit status not zero");
        if quiet {
            check(out == &verdict("M.elm", want.is_some())[..], "not the verdict on the file");
        } else {
            match &want {
                Some(o) => check(out == &o[..], "what is printed is not the tree of the file"),
                None => check(out.starts_with(b"Error("), "no error is printed for a text that does not parse"),
            }
        }
        cover(if want.is_some() { 1 } else { 2 });
    }));
    run("dump", args, w, k)
}
fn free(prefix: &str, n: usize, suffix: &str) {
    let mut b = B::new(prefix);
    b.any(ASCII, n);
    b.s(suffix);
    if flag() {
        one(&b.t, &["-q", "M.elm"], true)
    } else {
        one(&b.t, &["M.elm"], false)
    }
}
fn kinds() {
    let mut b = B::new("x = ");
    let k = pick(EXPRS);
    b.expr(k);
    b.s("\n");
    one(&b.t, &["M.elm"], false)
}
fn statements() {
    let mut b = B::new("");
    b.s([
        "module A exposing (b, (+), C(D, E), F(..))\n",
        "import A.B as C exposing (..)\n",
        "type A a = B Int { c : D } | E (a, b)\n",
        "type alias A = { r | a : B -> C, d : () }\n",
        "infixr 5 ++\n",
        "{- a \" b -}\n",
        "f : A\nf = 'x'\n",
        "port p : A -> B\n",
        "port p a = b\n",
        "effect module A where {c = D} exposing (..)\n",
        "port module A exposing (..)\n",
    ][pick(11) as usize]);
    b.s("y");
    let _ = b.id();
    b.s(" = 1\n");
    one(&b.t, &["M.elm"], false)
}
/// a file longer than any buffer, and characters of several bytes
fn long() {
    let n = [100usize, 4090, 8190, 16380][pick(4) as usize];
    let mut b = B::new("{-");
    while b.t.len() < n {
        b.s(" filler \u{e9}\u{20ac}\u{1f600}\u{301}\n")
    }
    b.s("-}\nx = ");
    b.any(Set::of(b"1+( a"), 3);
    b.s("\n");
    one(&b.t, &["M.elm"], false)
}
/// a file of any of these texts, with every flag
fn small() {
    let t = [
        "", "\n", "   ", "-- c", "{- c -}", "x", "x = 1", "x = (", "import A\n", "\u{feff}x = 1\n", "\u{e9}", "x = \"\u{e9}\u{301}\u{1f600}\"\n",
        "x = 'a'\ny = \"\\n\\\"\"\n", "module A exposing (..)\nx = 1\n\n\n", "x = 1\r\n", "x =\t1\n",
    ];
    let t = t[pick(t.len() as u32) as usize].as_bytes();
    if flag() {
        one(t, &["-q", "M.elm"], true)
    } else {
        one(t, &["M.elm"], false)
    }
}
/// files of every size, good or not, with -q
fn sizes() {
    let n = [0usize, 1, 2, 10, 63, 64, 100, 255, 256, 300, 511, 512, 1000, 1023, 1024, 2000, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 20000, 40000]
        [pick(25) as usize];
    let mut b = B::new("{-");
    while b.t.len() < n {
        b.s(if b.t.len() % 64 == 0 { "\n" } else { "c" })
    }
    b.s("-}\nx = ");
    b.any(Set::of(b"1+( a"), 1);
    b.s("\n");
    if flag() {
        one(&b.t, &["-q", "M.elm"], true)
    } else {
        one(&b.t, &["M.elm"], false)
    }
}
/// one token of a file replaced by any
fn near(uni: bool) {
    unsafe { mutate::LISTED = true }
    let t: &[u8] = if flag() { b"module A exposing (b, C(..))\nimport D as E\n" } else { b"f : A -> b\nf c = g 'd' \"e\" 1.2 [ { h = -1 } ]\n" };
    let q = flag();
    let go = |v: &[u8]| if q { one(v, &["-q", "M.elm"], true) } else { one(v, &["M.elm"], false) };
    if uni {
        mutate::uni_in(t, &go)
    } else {
        mutate::tok_in(t, 1, &go)
    }
}
/// a file given by any name
fn by_name() {
    let f = ["M", "M.txt", ".elm", "a b.elm", "\u{e9}.elm", "M.elm.bak", "M.ELM", "x\"y.elm", "s/M.elm", "elm-stuff", "=.elm", "a\\b.elm"];
    let p = f[pick(f.len() as u32) as usize];
    let mut w = world();
    let d = dir(&mut w, 0, b"s");
    let ok = flag();
    let (at, nm) = if p.starts_with("s/") { (d, &p[2..]) } else { (0, p) };
    file(&mut w, at, nm.as_bytes(), if ok { GOOD } else { BAD });
    let want = verdict(p, ok);
    let k = Box::leak(Box::new(move |out: &[u8], code: i32| {
        check(code == 0, "exit status not zero");
        check(out == &want[..], "not the verdict on the file");
        cover(1)
    }));
    run("dump", &["-q", p], w, k)
}
/// files below a directory of n free characters, which is below another or not
fn free_dir() {
    let n = [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16][pick(12) as usize];
    let mut w = world();
    let s = dir(&mut w, 0, b"s");
    let mut b = B::new("");
    b.any(PRINT.minus(Set::of(b"/\"\\")), n);
    assume(b.t != b"." && b.t != b".." && b.t != b"C.elm");
    show(&b.t);
    let name = text(&b.t).to_string();
    let up = flag();
    let u = if up { dir(&mut w, s, b"u") } else { s };
    let d = dir(&mut w, u, &b.t);
    file(&mut w, d, b"A.elm", GOOD);
    let e = dir(&mut w, d, b"e");
    file(&mut w, e, b"B.elm", BAD);
    file(&mut w, s, b"C.elm", GOOD);
    let p = if up { "s/u/" } else { "s/" };
    let mut want = verdict(&format!("{}{}/A.elm", p, name), true);
    want.extend(verdict(&format!("{}{}/e/B.elm", p, name), false));
    want.extend(verdict("s/C.elm", true));
    tree(w, want, "s")
}
fn long_name() {
    let n = [1usize, 2, 3, 6, 8, 9, 10, 11, 12, 15, 16, 20, 31, 64, 128, 250][pick(16) as usize];
    let mut w = world();
    let d = dir(&mut w, 0, b"src");
    let mut b = B::new("");
    b.any(PRINT.minus(Set::of(b"/\"\\")), n);
    b.s(".elm");
    let name = text(&b.t).to_string();
    show(&b.t);
    file(&mut w, d, &b.t, GOOD);
    tree(w, verdict(&format!("src/{}", name), true), "src")
}
fn flags() {
    let t: &[u8] = if flag() { b"x = 1\n" } else { b"x = = 1\n" };
    match pick(7) {
        0 => one(t, &["M.elm", "-q"], true),
        1 => one(t, &["--quiet", "M.elm"], true),
        2 => one(t, &["M.elm", "--quiet"], true),
        3 => one(t, &["-q", "--", "M.elm"], true),
        4 => one(t, &["--", "M.elm"], false),
        5 => one(t, &["./M.elm"], false),
        _ => one(t, &["M.elm"], false),
    }
}
/// without a path: nothing
fn nothing() {
    let mut w = world();
    file(&mut w, 0, b"M.elm", b"x = 1\n");
    let k = Box::leak(Box::new(|out: &[u8], code: i32| {
        check(code == 0 && out.is_empty(), "something is printed although no path is given");
        cover(1)
    }));
    if flag() {
        run("dump", &["-q"], w, k)
    } else {
        run("dump", &[], w, k)
    }
}
fn sorted(v: &[u8]) -> Vec<Vec<u8>> {
    let mut l: Vec<Vec<u8>> = v.split(|c| *c == b'\n').map(|x| x.to_vec()).collect();
    l.sort();
    l
}
/// what `-q` prints about a directory, in any order
fn tree(w: Vec<Node>, want: Vec<u8>, arg: &'static str) {
    let k = Box::leak(Box::new(move |out: &[u8], code: i32| {
        check(code == 0, "exit status not zero");
        check(sorted(out) == sorted(&want), "the files reported are not the Elm files below the directory");
        cover(1)
    }));
    run("dump", &["-q", arg], w, k)
}
const GOOD: &[u8] = b"x = 1\n";
const BAD: &[u8] = b"x = = 1\n";
/// is a file of this name an Elm file: an extension after a name
fn elm(name: &str) -> bool {
    name.len() > 4 && name.ends_with(".elm")
}
const NAMES: [&str; 18] = [
    "elm-stuff.elm", "Test.elm", ".A.elm", "A.elm~",
    "A.elm", "b.elm", ".elm", "elm", "A.ELM", "A.elm.bak", "A.elmx", "xelm", "a.b.elm", "A.Elm", "..elm", " .elm", "-q.elm", "A.",
];
/// a directory with one or two files of many names
fn names() {
    let mut w = world();
    let d = dir(&mut w, 0, b"src");
    let (i, j) = (pick(NAMES.len() as u32) as usize, pick(NAMES.len() as u32) as usize);
    let mut want = vec![];
    for (k, n) in [(0, i), (1, j)] {
        if k == 1 && i == j {
            continue;
        }
        let ok = flag();
        file(&mut w, d, NAMES[n].as_bytes(), if ok { GOOD } else { BAD });
        if elm(NAMES[n]) {
            want.extend(verdict(&format!("src/{}", NAMES[n]), ok));
        }
    }
    tree(w, want, "src")
}
/// a file whose name is n free characters
fn free_name(n: usize) {
    let mut w = world();
    let d = dir(&mut w, 0, b"src");
    let mut b = B::new("");
    b.any(PRINT.minus(Set::of(if n > 8 { b"/\"\\" } else { b"/" })), n);
    assume(b.t != b"." && b.t != b".." && b.t != b"C.elm");
    let name = text(&b.t).to_string();
    show(&b.t);
    file(&mut w, d, &b.t, GOOD);
    let want = if elm(&name) { verdict(&format!("src/{}", name), true) } else { vec![] };
    tree(w, want, "src")
}
/// every way to put four files into nested directories
fn nested() {
    let mut w = world();
    let s = dir(&mut w, 0, b"s");
    let dn: [&[u8]; 4] = [b"a", b"b.elm", b".git", b"node_modules"];
    let d1 = dir(&mut w, s, dn[pick(4) as usize]);
    let up = flag();
    let d2 = dir(&mut w, if up { s } else { d1 }, b"c");
    let at = [s, d1, d2];
    let mut want = vec![];
    let fs: [(&[u8], bool); 3] = [(b"F.elm", true), (b"G.elm", false), (b"h.txt", true)];
    for (n, ok) in fs {
        let p = at[pick(3) as usize];
        file(&mut w, p, n, if ok { GOOD } else { BAD });
        if n.ends_with(b".elm") {
            let mut path = text(n).to_string();
            let mut q = p;
            while q != 0 {
                path = format!("{}/{}", text(&w[q].name), path);
                q = w[q].parent;
            }
            want.extend(verdict(&path, ok));
        }
    }
    // not below the directory
    file(&mut w, 0, b"Z.elm", GOOD);
    tree(w, want, "s")
}
/// many files, and files a level down after each other
fn many() {
    let n = [1usize, 2, 3, 9, 20, 40, 100, 260, 520][pick(9) as usize];
    let deep = flag();
    assume(!deep || n <= 100);
    let mut w = world();
    let mut at = dir(&mut w, 0, b"s");
    let mut path = "s".to_string();
    let mut want = vec![];
    let bad = [0, n / 2, n - 1][pick(3) as usize];
    for i in 0..n {
        let name = format!("M{}.elm", i);
        file(&mut w, at, name.as_bytes(), if i == bad { BAD } else { GOOD });
        want.extend(verdict(&format!("{}/{}", path, name), i != bad));
        if deep {
            at = dir(&mut w, at, b"d");
            path.push_str("/d");
        }
    }
    tree(w, want, "s")
}
/// the trees of the files of a directory, in either order
fn trees() {
    let mut w = world();
    let d = dir(&mut w, 0, b"src");
    let (a, b): (&[u8], &[u8]) = (b"x = 1\n", b"import A\n");
    file(&mut w, d, b"A.elm", a);
    file(&mut w, d, b"n.txt", b"y = 2\n");
    file(&mut w, d, b"B.elm", b);
    let (a, b) = (shown(a).unwrap(), shown(b).unwrap());
    let k = Box::leak(Box::new(move |out: &[u8], code: i32| {
        check(code == 0, "exit status not zero");
        let (p, q) = ([&a[..], &b[..]].concat(), [&b[..], &a[..]].concat());
        check(out == &p[..] || out == &q[..], "what is printed is not the trees of the Elm files");
        cover(1)
    }));
    run("dump", &[["src", "src/", "./src", "."][pick(4) as usize]], w, k)
}
/// a directory given in any form
fn forms() {
    let mut w = world();
    let s = dir(&mut w, 0, b"s");
    let d = dir(&mut w, s, b"t.elm");
    let e = dir(&mut w, d, b"u");
    dir(&mut w, s, b"none.elm");
    file(&mut w, s, b"A.elm", GOOD);
    file(&mut w, d, b"B.elm", BAD);
    file(&mut w, e, b"C.elm", GOOD);
    file(&mut w, e, b"n.txt", GOOD);
    // argument, how its paths start, which of the files are below
    const F: [(&str, &str, [&str; 3]); 13] = [
        ("s", "s/", ["A.elm", "t.elm/B.elm", "t.elm/u/C.elm"]),
        ("s/", "s/", ["A.elm", "t.elm/B.elm", "t.elm/u/C.elm"]),
        ("./s", "./s/", ["A.elm", "t.elm/B.elm", "t.elm/u/C.elm"]),
        ("./s/", "./s/", ["A.elm", "t.elm/B.elm", "t.elm/u/C.elm"]),
        (".", "./", ["s/A.elm", "s/t.elm/B.elm", "s/t.elm/u/C.elm"]),
        ("./", "./", ["s/A.elm", "s/t.elm/B.elm", "s/t.elm/u/C.elm"]),
        ("s/t.elm", "s/t.elm/", ["", "B.elm", "u/C.elm"]),
        ("s/t.elm/", "s/t.elm/", ["", "B.elm", "u/C.elm"]),
        ("s/t.elm/u", "s/t.elm/u/", ["", "", "C.elm"]),
        ("./s/t.elm/u/", "./s/t.elm/u/", ["", "", "C.elm"]),
        ("s/none.elm", "", ["", "", ""]),
        ("s/./t.elm", "s/./t.elm/", ["", "B.elm", "u/C.elm"]),
        ("s//t.elm", "s//t.elm/", ["", "B.elm", "u/C.elm"]),
    ];
    let (arg, pre, below) = &F[pick(13) as usize];
    let mut want = vec![];
    for i in 0..3 {
        if below[i].len() > 0 {
            want.extend(verdict(&format!("{}{}", pre, below[i]), i != 1))
        }
    }
    tree(w, want, arg)
}
/// names outside ASCII, of files and of directories
fn uni_names() {
    const N: [&str; 16] = [
        "\u{e9}", "\u{65e5}\u{672c}", "\u{1f600}", "a\u{301}", "\u{301}", "\u{200b}", "\u{feff}", "\u{a0}", "\n", "\t", "\r", "\u{7f}", "\"", "\\", "'", "\u{130}",
    ];
    let mut w = world();
    let s = dir(&mut w, 0, b"s");
    let n = N[pick(16) as usize];
    let m = N[pick(16) as usize];
    let d = if flag() { dir(&mut w, s, m.as_bytes()) } else { s };
    let ext = [".elm", ".\u{435}lm", ".elm\u{a0}", ".elm\n", ".\u{ff45}lm"][pick(5) as usize];
    file(&mut w, d, format!("{}{}", n, ext).as_bytes(), GOOD);
    let want = if ext == ".elm" { verdict(&format!("s/{}{}.elm", if d == s { String::new() } else { format!("{}/", m) }, n), true) } else { vec![] };
    tree(w, want, "s")
}
/// the trees, or the errors, of the files of a directory, in any order
fn mixed() {
    let t: [&[u8]; 5] = [b"x = 1\n", b"import A\n", b"-- c\n", b"x = 1\n", b"f = \\a -> a\n"];
    let (i, j, k) = (pick(5) as usize, pick(5) as usize, pick(3));
    let mut w = world();
    let d = dir(&mut w, 0, b"s");
    let e = if flag() { dir(&mut w, d, b"t") } else { d };
    file(&mut w, d, b"A.elm", t[i]);
    if k > 0 {
        file(&mut w, if k == 1 { d } else { e }, b"B.elm", b"x = (\n");
    }
    file(&mut w, e, b"C.elm", t[j]);
    let a = [shown(t[i]).unwrap_or(vec![]), shown(t[j]).unwrap_or(vec![])];
    let q = Box::leak(Box::new(move |out: &[u8], code: i32| {
        check(code == 0, "exit status not zero");
        // what an error says is free: leave out what stands between the trees
        let (p, q) = (a[0].clone(), a[1].clone());
        let ok = if k == 0 {
            let (x, y) = ([&p[..], &q[..]].concat(), [&q[..], &p[..]].concat());
            out == &x[..] || out == &y[..]
        } else {
            let within = |x: &[u8], at: usize| (at..out.len() + 1).find(|n| out[*n..].starts_with(x));
            let one = |x: &[u8], y: &[u8]| within(x, 0).and_then(|n| within(y, n + x.len())).is_some();
            (one(&p, &q) || one(&q, &p)) && within(b"Error(", 0).is_some() && within(b"Error(", 0).and_then(|n| within(b"Error(", n + 1)).is_none()
        };
        check(ok, "what is printed is not the trees, or the errors, of the Elm files");
        cover(1)
    }));
    run("dump", &["s"], w, q)
}
/// what is not a text has no tree
fn not_text() {
    let c = pick(4) as usize;
    let mut b = B::new(["x = \"", "-- ", "{- ", "x"][c]);
    match pick(5) {
        0 => {
            b.sym(Set::range(0x80, 0xc1));
        }
        1 => {
            b.sym(Set::range(0xf5, 0xff));
        }
        2 => {
            b.sym(Set::range(0xc2, 0xf4));
        }
        3 => {
            b.t.push(0xed);
            b.sym(Set::range(0xa0, 0xbf));
            b.sym(Set::range(0x80, 0xbf));
        }
        _ => {
            b.t.push(0xe2);
            b.t.push(0x82);
        }
    }
    b.s(["\"\n", "\ny = 1\n", " -}\ny = 1\n", " = 1\n"][c]);
    let v = b.t.clone();
    assume(std::str::from_utf8(&v).is_err());
    let q = flag();
    let mut w = world();
    file(&mut w, 0, b"M.elm", &v);
    may_panic();
    cover(2);
    let k = Box::leak(Box::new(move |out: &[u8], code: i32| {
        let good: &[u8] = if q { b"\"M.elm\" parsed successfully\n" } else { b"[" };
        check(code != 0 || !out.starts_with(good), "a file that is not a text has a tree")
    }));
    if q {
        run("dump", &["-q", "M.elm"], w, k)
    } else {
        run("dump", &["M.elm"], w, k)
    }
}
/// symbolic links: one to a file counts as a file of its own name, one to a directory is not entered
fn links() {
    let mut w = world();
    let s = dir(&mut w, 0, b"s");
    let t = dir(&mut w, s, b"t");
    let o = dir(&mut w, 0, b"o");
    file(&mut w, s, b"A.elm", GOOD);
    file(&mut w, s, b"n.txt", BAD);
    file(&mut w, t, b"B.elm", BAD);
    file(&mut w, o, b"C.elm", GOOD);
    const TO: [(&str, Option<bool>); 11] = [
        ("A.elm", Some(true)), ("./n.txt", Some(false)), ("t/B.elm", Some(false)), ("../o/C.elm", Some(true)), ("../s/t/../A.elm", Some(true)),
        ("t", None), ("../o", None), (".", None), ("..", None), ("t/", None), ("./t/.", None),
    ];
    const NM: [&str; 4] = ["L.elm", "l", "l.txt", ".elm"];
    let mut want = verdict("s/A.elm", true);
    want.extend(verdict("s/t/B.elm", false));
    for (i, pre) in ["", "M"].iter().enumerate() {
        if i == 1 && !flag() {
            break;
        }
        let (to, ok) = TO[pick(11) as usize];
        let nm = NM[pick(4) as usize];
        let nm = format!("{}{}", pre, nm);
        link(&mut w, s, nm.as_bytes(), to.as_bytes());
        if let (Some(ok), true) = (ok, elm(&nm)) {
            want.extend(verdict(&format!("s/{}", nm), ok))
        }
    }
    tree(w, want, "s")
}
/// a link given as the path
fn by_link() {
    let mut w = world();
    let s = dir(&mut w, 0, b"s");
    let ok = flag();
    file(&mut w, s, b"A.elm", if ok { GOOD } else { BAD });
    let (nm, to, dir_) = [("l", "s/A.elm", false), ("l", "s", true), ("l", "./s/", true), ("l.elm", "s/A.elm", false), ("l.elm", "s", true), ("m.elm", "l", false)]
        [pick(6) as usize];
    link(&mut w, 0, nm.as_bytes(), to.as_bytes());
    if to == "l" {
        link(&mut w, 0, b"l", b"s/A.elm");
    }
    let want = verdict(&if dir_ { format!("{}/A.elm", nm) } else { nm.to_string() }, ok);
    tree(w, want, nm)
}

entries! {
    c29_links => links();
    c29_bylink => by_link();
    c29_forms => forms();
    c29_uninames => uni_names();
    c29_mixed => mixed();
    c29_nottext => not_text();
    c29_small => small();
    c29_sizes => sizes();
    c29_tok => near(false);
    c29_uni => near(true);
    c29_byname => by_name();
    c29_freedir => free_dir();
    c29_longname => long_name();
    c29_flags => flags();
    c29_nothing => nothing();
    c29_kinds => kinds();
    c29_statements => statements();
    c29_long => long();
    c29_win => free("", 2, "x = 1\n");
    c29_win2 => free("x = ", 3, "\n");
    c29_win3 => free("x = \"", 1, "\"\n");
    c29_names => names();
    c29_free => free_name(5);
    c29_free3 => free_name([1, 2, 3, 4, 6, 8, 9, 10, 12, 14, 16, 20][pick(12) as usize]);
    c29_free2 => free_name(7);
    c29_nested => nested();
    c29_many => many();
    c29_trees => trees();
}
