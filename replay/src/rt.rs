//! Runs one entry natively on a recorded witness.
//!
//! usage: EXE ENTRY WITNESS-HEX      prints: END NOTES STDOUT-HEX MESSAGE

use std::cell::RefCell;
use std::io::Write;
use std::panic;
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering::Relaxed};

/// the real error output; descriptor 2 is a buffer
static ERR: AtomicI32 = AtomicI32::new(2);
/// the calls below, which look or reach outside the process
static SHOW: AtomicU64 = AtomicU64::new(0);
static EFFECTS: AtomicU64 = AtomicU64::new(0);

extern "C" {
    fn dlsym(h: *mut u8, n: *const u8) -> *mut u8;
}
// these stand before the C library's own, count, and go on to them
#[allow(unknown_lints)]
macro_rules! counted {
    ($($f:ident($($a:ident),*);)*) => {
        $(#[no_mangle]
        #[allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
        pub unsafe extern "C" fn $f($($a: usize),*) -> usize {
            EFFECTS.fetch_add(1, Relaxed);
            let f = dlsym(usize::MAX as *mut u8, concat!(stringify!($f), "\0").as_ptr());
            let f: unsafe extern "C" fn($($a: usize),*) -> usize = std::mem::transmute(f);
            f($($a),*)
        })*
    };
}
counted! {
    getenv(a); secure_getenv(a); setenv(a, b, c); unsetenv(a);
    open(a, b, c); open64(a, b, c); openat(a, b, c, d); openat64(a, b, c, d); fopen(a, b); fopen64(a, b); creat(a, b);
    stat(a, b); stat64(a, b); lstat(a, b); lstat64(a, b); fstatat(a, b, c, d); fstatat64(a, b, c, d); statx(a, b, c, d, e);
    access(a, b); opendir(a); realpath(a, b); getcwd(a, b); chdir(a); mkdir(a, b); rmdir(a); unlink(a); rename(a, b);
    clock_gettime(a, b); gettimeofday(a, b); time(a); nanosleep(a, b); clock_nanosleep(a, b, c, d); usleep(a);
    socket(a, b, c); connect(a, b, c); fork(); execvp(a, b); posix_spawnp(a, b, c, d, e, f); kill(a, b); gethostname(a, b);
    pthread_create(a, b, c, d); system(a);
}
#[no_mangle]
pub extern "C-unwind" fn sym_effects() -> u64 {
    EFFECTS.load(Relaxed) + unsafe { lseek(2, 0, 1) } as u64
}

struct St {
    inputs: Vec<u8>,
    pos: usize,
    notes: Vec<(u64, u64)>,
}
thread_local! {
    static S: RefCell<St> = const { RefCell::new(St { inputs: Vec::new(), pos: 0, notes: Vec::new() }) };
}
struct Discard;
struct Fail(String);
struct Short;
struct Domain;

fn next() -> u8 {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let p = s.pos;
        s.pos += 1;
        match s.inputs.get(p) {
            Some(b) => *b,
            None => panic::panic_any(Short),
        }
    })
}
#[no_mangle]
pub extern "C-unwind" fn sym_set(a: u64, b: u64, c: u64, d: u64) -> u8 {
    let x = next();
    if [a, b, c, d][(x >> 6) as usize] >> (x & 63) & 1 == 0 {
        panic::panic_any(Domain)
    }
    x
}
#[no_mangle]
pub extern "C-unwind" fn sym_pick(n: u32) -> u32 {
    let x = next() as u32;
    if x >= n {
        panic::panic_any(Domain)
    }
    x
}
#[no_mangle]
pub extern "C-unwind" fn sym_assume(b: bool) {
    if !b {
        panic::panic_any(Discard)
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sym_fail(p: *const u8, n: usize) -> ! {
    let b = std::slice::from_raw_parts(p, n);
    panic::panic_any(Fail(String::from_utf8_lossy(b).to_string()))
}
#[no_mangle]
pub extern "C-unwind" fn sym_note(t: u64, v: u64) {
    S.with(|s| s.borrow_mut().notes.push((t, v)))
}
#[no_mangle]
pub extern "C-unwind" fn sym_cover(_: u32) {}

#[no_mangle]
pub unsafe extern "C-unwind" fn sym_show(p: *const u8, n: usize) {
    if SHOW.load(Relaxed) != 0 {
        let t = format!("text: {:?}\n", String::from_utf8_lossy(std::slice::from_raw_parts(p, n)));
        write(ERR.load(Relaxed), t.as_ptr(), t.len());
    }
}

extern "C" {
    fn memfd_create(n: *const i8, f: u32) -> i32;
    fn dup(a: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn lseek(f: i32, o: i64, w: i32) -> i64;
    fn pread(f: i32, b: *mut u8, n: usize, o: i64) -> isize;
    fn write(f: i32, b: *const u8, n: usize) -> isize;
}
#[no_mangle]
pub extern "C-unwind" fn sym_out_len() -> usize {
    let _ = std::io::stdout().flush();
    unsafe { lseek(1, 0, 1) as usize }
}
#[no_mangle]
pub extern "C-unwind" fn sym_out_byte(i: usize) -> u8 {
    let mut b = [0u8];
    unsafe { pread(1, b.as_mut_ptr(), 1, i as i64) };
    b[0]
}

fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

type Entries = &'static [&'static [(&'static str, extern "C-unwind" fn())]];
fn run(entries: Entries, entry: String, w: Vec<u8>) -> String {
    S.with(|s| s.borrow_mut().inputs = w);
    let f = entries.iter().flat_map(|x| x.iter()).find(|e| e.0 == entry).unwrap_or_else(|| panic!("no entry {}", entry)).1;
    let loc = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let l2 = loc.clone();
    panic::set_hook(Box::new(move |i| {
        *l2.lock().unwrap() = format!("{} {}", i.location().map(|l| l.to_string()).unwrap_or_default(), i.payload_as_str().unwrap_or(""));
    }));
    let r = panic::catch_unwind(|| f());
    let _ = panic::take_hook();
    let (end, msg) = match r {
        Ok(()) => ("done", String::new()),
        Err(e) => {
            if e.is::<Discard>() {
                ("discard", String::new())
            } else if let Some(f) = e.downcast_ref::<Fail>() {
                ("fail", f.0.clone())
            } else if e.is::<Short>() {
                ("short", String::new())
            } else if e.is::<Domain>() {
                ("domain", String::new())
            } else {
                ("panic", loc.lock().unwrap().clone())
            }
        }
    };
    let n = sym_out_len();
    let out: Vec<u8> = (0..n).map(|i| sym_out_byte(i)).collect();
    S.with(|s| {
        let s = s.borrow();
        let notes: Vec<String> = s.notes.iter().map(|(t, v)| format!("{:x}={:x}", t, v)).collect();
        let notes = if notes.is_empty() { "-".to_string() } else { notes.join(",") };
        format!("{} {} {} {}\n", end, notes, hex(&out), msg.replace('\n', " "))
    })
}

pub fn main(entries: Entries) {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        for e in entries.iter().flat_map(|x| x.iter()) {
            println!("{}", e.0);
        }
        return;
    }
    SHOW.store(std::env::var_os("REPLAY_SHOW").is_some() as u64, Relaxed);
    let fd = unsafe {
        let keep = dup(1);
        let m = memfd_create(c"out".as_ptr() as *const i8, 0);
        dup2(m, 1);
        ERR.store(dup(2), Relaxed);
        dup2(memfd_create(c"err".as_ptr() as *const i8, 0), 2);
        keep
    };
    let (e, w) = (a[1].clone(), unhex(&a[2]));
    // deep recursion on the main thread's stack is not what is being checked here
    let s = std::thread::Builder::new().stack_size(256 << 20).spawn(move || run(entries, e, w)).unwrap().join().unwrap();
    unsafe {
        write(fd, s.as_ptr(), s.len());
        // what was written to the error output is of use to whoever reads a replay
        let mut b = vec![0u8; lseek(2, 0, 1).max(0) as usize];
        pread(2, b.as_mut_ptr(), b.len(), 0);
        write(ERR.load(Relaxed), b.as_ptr(), b.len());
    }
}
