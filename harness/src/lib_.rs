use super::refp;
use super::sym::*;
use super::ty::*;
use nom::types::CompleteStr;

/// The parser under test on a whole file: the statements, or None when it reports an error.
/// Text left over after a success would be a silent truncation of the file.
pub fn parse(v: &[u8]) -> Option<Vec<Statement>> {
    show(v);
    match elm_parser::ast::file(CompleteStr(text(v))) {
        Ok((r, a)) => {
            check(r.0.is_empty(), "success with text left over");
            Some(a)
        }
        Err(_) => None,
    }
}

/// what to ask of a text instead of its tree: the properties about all texts use the texts of the others
pub static mut JUDGE: Option<fn(&[u8])> = None;
pub fn judged(v: &[u8]) -> bool {
    match unsafe { JUDGE } {
        Some(f) => {
            f(v);
            true
        }
        None => false,
    }
}

/// parser under test and reference agree on `v`
pub fn agree(v: &[u8]) -> Option<Vec<Statement>> {
    if judged(v) {
        return None;
    }
    let want = refp::file(v);
    let got = parse(v);
    match (&got, &want) {
        (Some(a), Some(b)) => {
            check(a == b, "the tree is not the one the text denotes");
            cover(1);
            note(1, a.len() as u64);
        }
        (None, None) => {
            cover(2);
            note(2, 0);
        }
        (None, Some(_)) => fail("a well-formed text is rejected"),
        (Some(_), None) => fail("a text outside the language is accepted"),
    }
    got
}
