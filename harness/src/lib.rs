//! Harnesses: each entry is a program over symbolic input bytes that runs the parser under test
//! and asserts a property of the result.  `replay` includes this file as a module, so paths inside
//! are relative.
extern crate elm_parser;
#[macro_use]
mod macros {
    macro_rules! entries {
        ($($name:ident => $e:expr;)*) => {
            $( #[no_mangle] pub extern "C-unwind" fn $name() { $e } )*
            pub const ENTRIES: &[(&str, extern "C-unwind" fn())] =
                &[$((stringify!($name), $name as extern "C-unwind" fn())),*];
        };
    }
}
pub mod sym;
pub mod ty;
pub mod refp;
pub mod lib_;
pub mod gen;
pub mod compo;
pub mod mutate;
pub mod depth;
pub mod special;
pub mod p_lex;
pub mod p_expr;
pub mod p_type;
pub mod p_stmt;
pub mod p_lay;
pub mod p_glob;

pub const ENTRIES: &[&[(&str, extern "C-unwind" fn())]] = &[p_lex::ENTRIES, p_expr::ENTRIES, p_type::ENTRIES, p_stmt::ENTRIES, p_lay::ENTRIES, depth::ENTRIES, special::ENTRIES, p_glob::ENTRIES];

#[no_mangle]
pub extern "C-unwind" fn warm() {
    let src = "module Main exposing (..)\nimport A as B exposing (x, (+), T(..))\n\ntype A a = B Int | C { a : Int }\ntype alias R = { r | x : Int, y : (a, b) }\nport p : Int -> String\nf : Int\nf a = let\n   x = 1\n  in\n  case a of\n    1 -> \"x\"\n    _ -> { a | b = 'x' }\n{- c -}\n-- d\ninfixl 4 +\ng = if a then b else [1.5, (x,y)] + \\a -> .b a.b\n";
    let _ = lib_::parse(src.as_bytes());
    let _ = refp::file(src.as_bytes());
}
