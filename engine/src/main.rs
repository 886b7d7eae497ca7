mod exec;
mod explore;
mod libc;
mod ll;
mod mem;
mod solver;
mod term;

fn main() {
    explore::main();
}
