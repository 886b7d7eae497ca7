//! Entries for the two command-line tools.  In the encoded program the tool's `main` runs over a
//! file system and arguments that live in this crate (`model`); natively the built tool runs as a
//! process of its own in a scratch directory (`native`).
extern crate elm_parser;
#[macro_use]
mod macros {
    macro_rules! entries {
        ($($name:ident => $e:expr;)*) => {
            $( #[no_mangle] pub extern "C-unwind" fn $name() { $e } )*
            pub const ENTRIES: &[(&str, extern "C-unwind" fn())] =
                &[$((stringify!($name), $name as extern "C-unwind" fn())),*];
        };
    }
}
#[path = "../../../harness/src/sym.rs"]
pub mod sym;
#[path = "../../../harness/src/ty.rs"]
pub mod ty;
#[path = "../../../harness/src/refp.rs"]
pub mod refp;
#[path = "../../../harness/src/lib_.rs"]
pub mod lib_;
#[path = "../../../harness/src/gen.rs"]
pub mod gen;
#[path = "../../../harness/src/mutate.rs"]
pub mod mutate;
pub mod c28;
pub mod c29;

/// one file or directory of the world a tool runs in
pub struct Node {
    pub name: Vec<u8>,
    pub parent: usize,
    /// None: a directory, or a link
    pub data: Option<Vec<u8>>,
    /// where a symbolic link points, from the directory it is in
    pub link: Option<Vec<u8>>,
}
/// node 0 is the working directory
pub fn world() -> Vec<Node> {
    vec![Node { name: vec![], parent: 0, data: None, link: None }]
}
pub fn file(w: &mut Vec<Node>, parent: usize, name: &[u8], data: &[u8]) -> usize {
    w.push(Node { name: name.to_vec(), parent, data: Some(data.to_vec()), link: None });
    w.len() - 1
}
pub fn dir(w: &mut Vec<Node>, parent: usize, name: &[u8]) -> usize {
    w.push(Node { name: name.to_vec(), parent, data: None, link: None });
    w.len() - 1
}
pub fn link(w: &mut Vec<Node>, parent: usize, name: &[u8], to: &[u8]) -> usize {
    w.push(Node { name: name.to_vec(), parent, data: None, link: Some(to.to_vec()) });
    w.len() - 1
}

#[cfg(not(feature = "native"))]
#[path = "model.rs"]
mod run_;
#[cfg(feature = "native")]
#[path = "native.rs"]
mod run_;
/// from here on a panic of the tool is an accepted end
pub static mut MAY_PANIC: bool = false;
pub fn may_panic() {
    unsafe { MAY_PANIC = true }
    sym::note(99, 1)
}
/// runs a tool with the arguments (without its own name) and hands what it wrote to standard
/// output, and its exit status, to `k`
pub use run_::run;

#[cfg(not(feature = "native"))]
#[no_mangle]
pub extern "C-unwind" fn warm() {
    let src = "module Main exposing (..)\nimport A as B exposing (x, (+), T(..))\nf : Int\nf a = { a | b = 'x' }\n";
    let _ = lib_::parse(src.as_bytes());
    let _ = refp::file(src.as_bytes());
}
