//! Runs one entry on a recorded witness with the natively built tools.
#[path = "../../../replay/src/rt.rs"]
mod rt;

fn main() {
    rt::main(&[elm_help::c28::ENTRIES, elm_help::c29::ENTRIES])
}
