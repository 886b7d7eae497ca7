//! Files, directories, arguments and process exit as the encoded tools see them: the system calls
//! they reach, over a tree of nodes whose names and contents may be symbolic.
use super::sym::*;
use super::Node;
use std::io::Write;

extern "Rust" {
    fn verif_tool_main();
}
extern "C" {
    fn __errno_location() -> *mut i32;
}
extern "C-unwind" {
    /// the initialiser through which the system hands the arguments to std
    fn sym_args_init() -> usize;
    fn sym_done() -> !;
}

static mut FS: Vec<Node> = vec![];
/// (node, offset) per descriptor, from 3
static mut FDS: Vec<(usize, usize)> = vec![];
static mut FINISH: Option<&'static mut dyn FnMut(&[u8], i32)> = None;

#[allow(static_mut_refs)]
pub fn run(_tool: &str, args: &[&str], w: Vec<Node>, k: &'static mut dyn FnMut(&[u8], i32)) {
    unsafe {
        FS = w;
        FINISH = Some(k);
        let mut v: Vec<*const u8> = vec![];
        for a in ["elm-tool"].iter().chain(args.iter()) {
            let mut s = a.as_bytes().to_vec();
            s.push(0);
            v.push(Box::leak(s.into_boxed_slice()).as_ptr());
        }
        v.push(std::ptr::null());
        let n = v.len() - 1;
        let init: extern "C" fn(i32, *const *const u8, *const *const u8) = std::mem::transmute(sym_args_init());
        init(n as i32, Box::leak(v.into_boxed_slice()).as_ptr(), std::ptr::null());
        verif_tool_main();
        let _ = std::io::stdout().flush();
        finish(0)
    }
}
#[allow(static_mut_refs)]
unsafe fn finish(code: i32) {
    let out = stdout();
    (FINISH.as_mut().unwrap())(&out, code)
}
#[no_mangle]
pub unsafe extern "C" fn exit(code: i32) -> ! {
    finish(code & 255);
    sym_done()
}

unsafe fn err(e: i32) -> i32 {
    *__errno_location() = e;
    -1
}
unsafe fn bytes<'a>(p: *const u8) -> &'a [u8] {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1
    }
    std::slice::from_raw_parts(p, n)
}
unsafe fn find(p: *const u8) -> Option<usize> {
    walk(0, bytes(p), true, 0)
}
/// the node a path leads to; whether a link at its end is followed
#[allow(static_mut_refs)]
unsafe fn walk(from: usize, p: &[u8], follow: bool, depth: u32) -> Option<usize> {
    let mut at = from;
    if p.is_empty() || depth > 8 {
        return None;
    }
    let mut l = p.split(|c| *c == b'/').peekable();
    while let Some(c) = l.next() {
        if FS[at].data.is_some() || FS[at].link.is_some() {
            return None;
        }
        if c.is_empty() || c == b"." {
            continue;
        }
        if c == b".." {
            at = FS[at].parent;
            continue;
        }
        let dir = at;
        at = FS.iter().enumerate().skip(1).find(|(_, n)| n.parent == dir && n.name == c)?.0;
        if let Some(to) = &FS[at].link {
            if follow || l.peek().is_some() {
                at = walk(dir, to, true, depth + 1)?
            }
        }
    }
    Some(at)
}

#[repr(C)]
pub struct Stat {
    dev: u64,
    ino: u64,
    nlink: u64,
    mode: u32,
    uid: u32,
    gid: u32,
    pad: u32,
    rdev: u64,
    size: i64,
    blksize: i64,
    blocks: i64,
    rest: [i64; 9],
}
#[allow(static_mut_refs)]
unsafe fn stat(i: usize, s: *mut Stat) -> i32 {
    let n = &FS[i];
    *s = Stat {
        dev: 1,
        ino: 100 + i as u64,
        nlink: 1,
        mode: if n.link.is_some() {
            0o120777
        } else if n.data.is_some() {
            0o100644
        } else {
            0o040755
        },
        uid: 0,
        gid: 0,
        pad: 0,
        rdev: 0,
        size: n.data.as_ref().map_or(4096, |d| d.len() as i64),
        blksize: 4096,
        blocks: 8,
        rest: [0; 9],
    };
    0
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const u8, s: *mut Stat) -> i32 {
    match find(p) {
        Some(i) => stat(i, s),
        None => err(2),
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const u8, s: *mut Stat) -> i32 {
    match walk(0, bytes(p), false, 0) {
        Some(i) => stat(i, s),
        None => err(2),
    }
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn fstat64(fd: i32, s: *mut Stat) -> i32 {
    if fd < 3 {
        return err(9);
    }
    stat(FDS[fd as usize - 3].0, s)
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn open64(p: *const u8, _flags: i32) -> i32 {
    match find(p) {
        Some(i) => {
            FDS.push((i, 0));
            FDS.len() as i32 + 2
        }
        None => err(2),
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(_fd: i32) -> i32 {
    0
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    let f = &mut FDS[fd as usize - 3];
    match whence {
        0 => f.1 = off as usize,
        1 => f.1 = (f.1 as i64 + off) as usize,
        _ => f.1 = (FS[f.0].data.as_ref().map_or(0, |d| d.len()) as i64 + off) as usize,
    }
    f.1 as i64
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
    let f = &mut FDS[fd as usize - 3];
    match &FS[f.0].data {
        None => err(21) as isize,
        Some(d) => {
            let k = n.min(d.len() - f.1);
            std::ptr::copy_nonoverlapping(d.as_ptr().add(f.1), b, k);
            f.1 += k;
            k as isize
        }
    }
}

#[repr(C)]
pub struct Dirent {
    ino: u64,
    off: i64,
    reclen: u16,
    kind: u8,
    name: [u8; 256],
}
pub struct Dir {
    at: usize,
    pos: usize,
    ent: Dirent,
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn opendir(p: *const u8) -> *mut Dir {
    match find(p) {
        Some(i) if FS[i].data.is_none() => Box::leak(Box::new(Dir {
            at: i,
            pos: 0,
            ent: Dirent { ino: 0, off: 0, reclen: 280, kind: 0, name: [0; 256] },
        })),
        o => {
            err(if o.is_some() { 20 } else { 2 });
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn readdir64(d: *mut Dir) -> *const Dirent {
    let d = &mut *d;
    d.pos += 1;
    let e = &mut d.ent;
    match d.pos {
        1 | 2 => {
            e.ino = 100 + d.at as u64;
            e.kind = 4;
            e.name[0] = b'.';
            e.name[1] = if d.pos == 2 { b'.' } else { 0 };
            e.name[2] = 0;
            e
        }
        n => match FS.iter().enumerate().skip(1).filter(|x| x.1.parent == d.at).nth(n - 3) {
            Some((i, n)) => {
                e.ino = 100 + i as u64;
                e.kind = if n.link.is_some() { 10 } else if n.data.is_some() { 8 } else { 4 };
                e.name[..n.name.len()].copy_from_slice(&n.name);
                e.name[n.name.len()] = 0;
                e
            }
            None => std::ptr::null(),
        },
    }
}
#[no_mangle]
pub unsafe extern "C" fn closedir(_d: *mut Dir) -> i32 {
    0
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(_d: *mut Dir) -> i32 {
    err(95)
}
