//! Texts near a template: one token replaced by any token, one character by any character.

use super::gen::*;
use super::lib_::*;
use super::sym::*;

const CONT: Set = Set::range(0x80, 0xbf);
/// only the listed characters (where the text is printed, each byte of the others forks)
pub static mut LISTED: bool = false;
/// any character of two to four bytes
pub fn uchar(b: &mut B) {
    let lead = if unsafe { LISTED } { 7 } else { pick(8) };
    match lead {
        0 => {
            b.sym(Set::range(0xc2, 0xdf));
        }
        1 => {
            b.t.push(0xe0);
            b.sym(Set::range(0xa0, 0xbf));
        }
        2 => {
            b.sym(Set::range(0xe1, 0xec).or(Set::range(0xee, 0xef)));
            b.sym(CONT);
        }
        3 => {
            b.t.push(0xed);
            b.sym(Set::range(0x80, 0x9f));
        }
        4 => {
            b.t.push(0xf0);
            b.sym(Set::range(0x90, 0xbf));
            b.sym(CONT);
        }
        5 => {
            b.t.push(0xf4);
            b.sym(Set::range(0x80, 0x8f));
            b.sym(CONT);
        }
        6 => {
            b.sym(Set::range(0xf1, 0xf3));
            b.sym(CONT);
            b.sym(CONT);
        }
        _ => {
            // spaces, marks and the byte order mark: the characters tools like to treat apart
            b.s([
                "\u{a0}", "\u{ad}", "\u{85}", "\u{2028}", "\u{2029}", "\u{200b}", "\u{200d}", "\u{feff}", "\u{3000}", "\u{ff08}",
                "\u{2019}", "\u{201c}", "\u{2212}", "\u{3bb}", "\u{2192}", "\u{fffd}", "\u{1f600}", "\u{131}", "\u{17f}", "\u{212a}",
                "\u{660}", "\u{ff11}", "\u{300}", "\u{7f}",
            ][pick(24) as usize]);
            return;
        }
    }
    b.sym(CONT);
}
/// one character of two to four bytes at any place of a text, in place of what stands there or not
pub fn uni_in(t: &[u8], go: &dyn Fn(&[u8])) {
    let p = pick_wide(t.len() + 1);
    let mut b = B::new("");
    b.t = t[..p].to_vec();
    uchar(&mut b);
    let q = if flag() { (p + 1).min(t.len()) } else { p };
    b.t.extend_from_slice(&t[q..]);
    go(&b.t)
}
pub fn uni(tpl: &[&str]) {
    uni_in(tpl[pick(tpl.len() as u32) as usize].as_bytes(), &|v| {
        agree(v);
    })
}

fn wordc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_'
}
fn opc(c: u8) -> bool {
    b"+-/*=.$<>:&|^?%#@~!\\".contains(&c)
}
/// the places of the tokens of a well-formed ASCII text
pub fn tokens(t: &[u8]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i < t.len() {
        let c = t[i];
        let a = i;
        i += 1;
        if c == b' ' || c == b'\n' {
            continue;
        }
        if wordc(c) {
            while i < t.len() && wordc(t[i]) {
                i += 1
            }
        } else if opc(c) {
            while i < t.len() && opc(t[i]) {
                i += 1
            }
        } else if c == b'"' || c == b'\'' {
            while i < t.len() && t[i] != c {
                i += if t[i] == b'\\' { 2 } else { 1 }
            }
            i += 1
        }
        v.push((a, i.min(t.len())));
    }
    v
}
const FIXED: &[&str] = &[
    "()", "[]", "{}", "(,)", "(,,)", ".a", "a.b", "A.b", "A.B", "a.b.c", "A.B.c", "\"\"\"\"\"\"", "\"\"\"a\"\"\"", "'\\x41'", "'''", "-a",
    "(-1)", "..", "->", "--", "{-", "-}", "{--}", "{- a -}", ",", "(", ")", "[", "]", "{", "}", "\"\\\"\"", "subscription", "a b", "a + b",
    "(a)", "((a))", "[a]", "(a, b)", "{ a }", "{ a = b }", "{ a : b }", "{ a | b = c }", "\\a -> b", "if a then b else c",
    "let a = b in c", "case a of b -> c", "\n", "\n\n", "\n  ", "\t", "\r", "\r\n", "`a`", "a'", "@", "a@b", ";", "0", "00", "-0", "0x1F", "1e5",
    "1.5e3", "12.", ".5", "",
];
const WILD: u32 = 14;
fn wild(b: &mut B, k: u32, t: &[u8], tk: &[(usize, usize)], i: usize) {
    match k {
        0 => {
            let n = pick(8) as usize + 1;
            b.syms(LOWER, WORD, n);
        }
        1 => {
            let n = pick(6) as usize + 1;
            b.syms(UPPER, WORD, n);
        }
        2 => {
            b.any(WORD, 2);
        }
        3 => {
            let n = pick(3) as usize + 1;
            b.any(DIGIT, n);
        }
        4 => {
            b.s(["-", "+"][pick(2) as usize]);
            let n = pick(2) as usize + 1;
            b.any(DIGIT, n);
        }
        5 => {
            b.sym(DIGIT);
            b.s(".");
            b.any(DIGIT, 2);
        }
        6 => {
            b.s("\"");
            let n = pick(4) as usize;
            b.any(PRINT, n);
            b.s("\"");
        }
        7 => {
            b.s("'");
            b.sym(ASCII);
            b.s("'");
        }
        8 => {
            let n = pick(3) as usize + 1;
            b.any(OPC, n);
        }
        9 => {
            b.s("(");
            let n = pick(2) as usize + 1;
            b.any(OPC, n);
            b.s(")");
        }
        10 => {
            let q = ["\"", "'", "\"\"\"", ""][pick(4) as usize];
            b.s(q);
            uchar(b);
            b.s(q);
        }
        11 => {
            // as another token of the text
            let j = pick_wide(tk.len());
            b.t.extend_from_slice(&t[tk[j].0..tk[j].1]);
        }
        12 => {
            // itself, twice
            b.t.extend_from_slice(&t[tk[i].0..tk[i].1]);
            b.s(["", " ", "\n "][pick(3) as usize]);
            b.t.extend_from_slice(&t[tk[i].0..tk[i].1]);
        }
        _ => b.s(FIXED[pick(FIXED.len() as u32) as usize]),
    }
}
/// one token of a text replaced by any token (`n`: so many neighbouring ones, each by any)
pub fn tok_in(t: &[u8], n: usize, go: &dyn Fn(&[u8])) {
    let tk = tokens(t);
    let i = pick_wide(tk.len());
    let mut b = B::new("");
    b.t = t[..tk[i].0].to_vec();
    let mut j = i;
    for m in 0..n {
        if i + m < tk.len() {
            j = i + m;
            if m > 0 {
                b.t.extend_from_slice(&t[tk[j - 1].1..tk[j].0]);
            }
            wild(&mut b, pick(WILD), t, &tk, j)
        }
    }
    b.t.extend_from_slice(&t[tk[j].1..]);
    go(&b.t)
}
pub fn toks(tpl: &[&str], n: usize) {
    tok_in(tpl[pick(tpl.len() as u32) as usize].as_bytes(), n, &|v| {
        agree(v);
    })
}
/// two tokens of a text, anywhere, become the same new one
pub fn same(tpl: &[&str]) {
    let t = tpl[pick(tpl.len() as u32) as usize].as_bytes();
    let tk = tokens(t);
    let i = pick_wide(tk.len());
    let j = pick_wide(tk.len());
    if i >= j {
        assume(false)
    }
    let mut w = B::new("");
    match pick(5) {
        0 => {
            w.sym(LOWER);
        }
        1 => {
            w.sym(UPPER);
        }
        2 => {
            w.sym(DIGIT);
        }
        3 => {
            w.sym(OPC);
        }
        _ => w.s(["()", "_", "\"\"", "[]", "{}", "a.b", "A.b", "'a'", "1.5", "->"][pick(10) as usize]),
    }
    let mut v = t[..tk[i].0].to_vec();
    v.extend_from_slice(&w.t);
    v.extend_from_slice(&t[tk[i].1..tk[j].0]);
    v.extend_from_slice(&w.t);
    v.extend_from_slice(&t[tk[j].1..]);
    agree(&v);
}
