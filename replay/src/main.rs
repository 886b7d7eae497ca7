//! Runs one harness entry natively, with the real regex crate, on a recorded witness.
#[path = "../../harness/src/lib.rs"]
mod harness;
mod rt;

fn main() {
    rt::main(harness::ENTRIES)
}
