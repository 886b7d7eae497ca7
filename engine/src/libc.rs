//! The outside of the compiled code: the harness interface and the C library.

use crate::exec::*;
use crate::ll::*;
use crate::mem::*;
use crate::term::*;

#[derive(Clone, Default)]
pub struct Env {
    pub tls_keys: u32,
    pub effects: u32,
}

fn cstr(st: &State, a: u64) -> R<String> {
    let mut s = Vec::new();
    for i in 0..4096 {
        match st.mem.byte(a + i)? {
            (_, t) if t != 0 => return internal("symbolic C string"),
            (0, _) => break,
            (b, _) => s.push(b),
        }
    }
    Ok(String::from_utf8_lossy(&s).to_string())
}

impl Exec {
    fn text(&self, st: &State, a: u64, n: u64) -> R<String> {
        let mut s = Vec::new();
        for i in 0..n.min(4096) {
            let (b, t) = st.mem.byte(a + i)?;
            s.push(if t != 0 { b'?' } else { b });
        }
        Ok(String::from_utf8_lossy(&s).to_string())
    }

    fn malloc(&mut self, st: &mut State, n: u64, al: u64) -> R<u64> {
        let al = al.max(16);
        let a = (st.mem.heap_top + 16 + al - 1) / al * al;
        let end = a + (n + 15) / 16 * 16;
        if n > 1 << 30 || end > HEAP + HEAP_SIZE {
            return internal(format!("heap exhausted (allocation of {})", n));
        }
        st.mem.heap_top = end;
        st.mem.write_c(a - 8, 8, n)?;
        Ok(a)
    }

    pub fn extern_call(&mut self, st: &mut State, n: &str, a: &[V]) -> R<Vec<V>> {
        let ok = |x: u64| Ok(vec![V::c(x)]);
        match n {
            "malloc" => {
                let k = self.conc(st, a[0], 64)?;
                ok(self.malloc(st, k, 16)?)
            }
            "free" => Ok(vec![]),
            "calloc" => {
                let (x, y) = (self.conc(st, a[0], 64)?, self.conc(st, a[1], 64)?);
                ok(self.malloc(st, x * y, 16)?)
            }
            "realloc" => {
                let (p, k) = (self.conc(st, a[0], 64)?, self.conc(st, a[1], 64)?);
                let q = self.malloc(st, k, 16)?;
                if p != 0 {
                    let old = st.mem.read_c(p - 8, 8)?.unwrap();
                    st.mem.copy(q, p, old.min(k))?;
                }
                ok(q)
            }
            "posix_memalign" => {
                let (p, al, k) = (self.conc(st, a[0], 64)?, self.conc(st, a[1], 64)?, self.conc(st, a[2], 64)?);
                let q = self.malloc(st, k, al)?;
                st.mem.write_c(p, 8, q)?;
                ok(0)
            }
            "memcpy" | "memmove" => {
                let (d, s, k) = (self.conc(st, a[0], 64)?, self.conc(st, a[1], 64)?, self.conc(st, a[2], 64)?);
                st.mem.copy(d, s, k)?;
                ok(d)
            }
            "memset" => {
                let (d, k) = (self.conc(st, a[0], 64)?, self.conc(st, a[2], 64)?);
                let b = self.p.vextract(a[1], 32, 0, 8);
                st.mem.fill(d, b, k)?;
                ok(d)
            }
            "bcmp" => {
                let (x, y, k) = (self.conc(st, a[0], 64)?, self.conc(st, a[1], 64)?, self.conc(st, a[2], 64)?);
                let e = self.bytes_eq(st, x, y, k)?;
                if e.is_c() {
                    return ok(1 - e.c);
                }
                let ne = self.p.not(e.id());
                let r = self.p.zext(ne, 32);
                Ok(vec![self.p.val(r)])
            }
            "memcmp" => {
                let (x, y, k) = (self.conc(st, a[0], 64)?, self.conc(st, a[1], 64)?, self.conc(st, a[2], 64)?);
                for i in 0..k {
                    let (p, q) = (st.mem.byte_v(x + i)?, st.mem.byte_v(y + i)?);
                    if p == q {
                        continue;
                    }
                    let e = self.p.vcmp(Pred::Eq, 8, p, q);
                    if self.vtruth(st, e)? {
                        continue;
                    }
                    let l = self.p.vcmp(Pred::Ult, 8, p, q);
                    return ok(if self.vtruth(st, l)? { 0xffff_ffff } else { 1 });
                }
                ok(0)
            }
            "strlen" => {
                let p = self.conc(st, a[0], 64)?;
                let mut i = 0;
                loop {
                    let b = st.mem.byte_v(p + i)?;
                    let z = self.p.vcmp(Pred::Eq, 8, b, V::c(0));
                    if self.vtruth(st, z)? {
                        return ok(i);
                    }
                    i += 1;
                }
            }
            "write" => {
                let (fd, p, k) = (self.conc(st, a[0], 32)?, self.conc(st, a[1], 64)?, self.conc(st, a[2], 64)?);
                self.output(st, fd, p, k)?;
                ok(k)
            }
            "writev" => {
                let (fd, p, k) = (self.conc(st, a[0], 32)?, self.conc(st, a[1], 64)?, self.conc(st, a[2], 32)?);
                let mut t = 0;
                for i in 0..k {
                    let (b, l) = (self.load(st, p + 16 * i, 64)?, self.load(st, p + 16 * i + 8, 64)?);
                    let (b, l) = (self.conc(st, b, 64)?, self.conc(st, l, 64)?);
                    self.output(st, fd, b, l)?;
                    t += l;
                }
                ok(t)
            }
            // what reaches outside the process: counted, and answered as if nothing were there
            "getenv" => {
                st.env.effects += 1;
                ok(0)
            }
            "open64" | "open" | "openat64" | "stat64" | "lstat64" | "fstatat64" | "mkdir" | "unlink" | "unlinkat" | "rename"
            | "rmdir" | "access" | "socket" | "fork" | "chdir" | "gethostname" | "connect" | "setenv" | "unsetenv"
            | "nanosleep" | "clock_nanosleep" | "kill" | "system" | "execvp" => {
                st.env.effects += 1;
                st.mem.write_c(STACK + 16, 4, 2)?;
                ok(0xffff_ffff)
            }
            "opendir" | "realpath" | "getcwd" | "secure_getenv" => {
                st.env.effects += 1;
                st.mem.write_c(STACK + 16, 4, 2)?;
                ok(0)
            }
            "clock_gettime" => {
                st.env.effects += 1;
                let p = self.conc(st, a[1], 64)?;
                st.mem.write_c(p, 8, 1_000_000 + st.env.effects as u64)?;
                st.mem.write_c(p + 8, 8, 0)?;
                ok(0)
            }
            "isatty" => ok(0),
            "gettid" | "getpid" => ok(1),
            "__cxa_thread_atexit_impl" => ok(0),
            "pthread_key_create" => {
                let p = self.conc(st, a[0], 64)?;
                st.env.tls_keys += 1;
                let k = st.env.tls_keys as u64;
                st.mem.write_c(p, 4, k)?;
                ok(0)
            }
            "pthread_setspecific" | "pthread_key_delete" => ok(0),
            "__errno_location" => {
                // a fixed cell at the bottom of the stack segment
                ok(STACK + 16)
            }
            "abort" => Err(E::End(End::Panic("abort".into()))),
            "exit" | "_exit" => {
                let k = self.conc(st, a[0], 32)?;
                Err(E::End(End::Exit(k as u32)))
            }
            "syscall" => match self.conc(st, a[0], 64)? {
                // getrandom: some fixed bytes (the keys of hash tables)
                318 => {
                    let (p, n) = (self.conc(st, a[1], 64)?, self.conc(st, a[2], 64)?);
                    for i in 0..n {
                        st.mem.write_c(p + i, 1, (17 + 31 * i) & 255)?;
                    }
                    ok(n)
                }
                // statx: not there, std falls back to stat64
                332 => {
                    st.mem.write_c(STACK + 16, 4, 38)?;
                    ok(u64::MAX)
                }
                k => internal(format!("syscall {}", k)),
            },
            "sym_effects" => ok(st.env.effects as u64 + st.errout.len() as u64),
            // ---------------------------------------------------- harness interface
            "sym_set" => {
                let mut d = [0u64; 4];
                for i in 0..4 {
                    if !a[i].is_c() {
                        return internal("symbolic domain");
                    }
                    d[i] = a[i].c;
                }
                if set_empty(&d) {
                    return internal("empty domain");
                }
                let i = st.doms.len() as u32;
                st.doms.push(d);
                st.convars.push(false);
                let t = self.p.var(i);
                if set_len(&d) == 1 {
                    return ok(set_iter(&d).next().unwrap() as u64);
                }
                Ok(vec![V::t(t)])
            }
            "sym_pick" => {
                let i = match st.pending {
                    Some(i) => i,
                    None => {
                        let k = self.conc(st, a[0], 32)?;
                        if k == 0 || k > 256 {
                            return internal("sym_pick range");
                        }
                        let mut d = [0u64; 4];
                        for j in 0..k as usize {
                            d[j >> 6] |= 1 << (j & 63);
                        }
                        let i = st.doms.len() as u32;
                        st.doms.push(d);
                        st.convars.push(false);
                        st.pending = Some(i);
                        i
                    }
                };
                let v = self.p.var(i);
                let v = self.p.zext(v, 32);
                let r = self.conc(st, V::t(v), 32)?;
                st.pending = None;
                ok(r)
            }
            "sym_conc" => {
                let r = self.conc(st, a[0], 64)?;
                ok(r)
            }
            "sym_assume" => {
                if self.vtruth(st, a[0])? {
                    Ok(vec![])
                } else {
                    Err(E::End(End::Discard))
                }
            }
            "sym_fail" => {
                let (p, k) = (self.conc(st, a[0], 64)?, self.conc(st, a[1], 64)?);
                let s = self.text(st, p, k)?;
                Err(E::End(End::Fail(s)))
            }
            "sym_note" => {
                let k = self.conc(st, a[0], 64)?;
                st.notes.push((k, a[1]));
                Ok(vec![])
            }
            "sym_cover" => {
                let k = self.conc(st, a[0], 32)? as u32;
                if !st.covers.contains(&k) {
                    st.covers.push(k);
                }
                Ok(vec![])
            }
            "sym_show" => Ok(vec![]),
            "sym_done" => Err(E::End(End::Done)),
            "sym_args_init" => {
                // the function through which the loader hands the arguments to std
                let m = self.m;
                match m.globals.iter().find(|g| g.name.contains("ARGV_INIT_ARRAY")) {
                    Some(g) => {
                        let v = self.load(st, g.addr, 64)?;
                        Ok(vec![v])
                    }
                    None => internal("no initialiser of the arguments"),
                }
            }
            "sym_out_len" => ok(st.out.len() as u64),
            "sym_out_byte" => {
                let i = self.conc(st, a[0], 64)?;
                match st.out.get(i as usize) {
                    Some(v) => Ok(vec![*v]),
                    None => internal("captured output index"),
                }
            }
            _ => {
                let _ = cstr;
                internal(format!("external function {}", n))
            }
        }
    }

    fn output(&mut self, st: &mut State, fd: u64, p: u64, k: u64) -> R<()> {
        let mut v = Vec::with_capacity(k as usize);
        for i in 0..k {
            v.push(st.mem.byte_v(p + i)?);
        }
        match fd {
            1 => st.out.extend(v),
            2 => st.errout.extend(v),
            _ => return internal(format!("write to descriptor {}", fd)),
        }
        Ok(())
    }
}
