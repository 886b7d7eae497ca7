//! Symbolic interpreter: one state per path, fork on every undecided condition.

use crate::ll::*;
use crate::mem::*;
use crate::solver::Solver;
use crate::term::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub fi: usize,
    pub pc: u32,
    pub regs: Vec<V>,
    pub sp: u64,
}

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub cur: Frame,
    pub up: Vec<Rc<Frame>>,
    pub sp: u64,
    pub doms: Vec<Set>,
    pub cons: Vec<TermId>,
    pub convars: Vec<bool>,
    pub notes: Vec<(u64, V)>,
    pub covers: Vec<u32>,
    pub out: Vec<V>,
    pub errout: Vec<V>,
    pub steps: u64,
    pub forks: u32,
    pub entry: usize,
    pub env: crate::libc::Env,
    /// input created by a choice that is still being concretised
    pub pending: Option<u32>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum End {
    Done,
    Discard,
    Fail(String),
    Panic(String),
    Exit(u32),
    Cap,
    /// the solver or the clock gave up on this path
    Time,
    Internal(String),
}

pub enum E {
    Fork(TermId),
    End(End),
}
impl From<Fault> for E {
    fn from(f: Fault) -> E {
        E::End(End::Internal(format!("memory fault at {:#x}", f.0)))
    }
}
pub type R<T> = Result<T, E>;
pub fn internal<T>(s: impl Into<String>) -> R<T> {
    Err(E::End(End::Internal(s.into())))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Special {
    None,
    PanicFmt,
    PanicNounwind,
    MemchrAligned,
    Memrchr,
    MemchrRaw,
    MemrchrRaw,
    Memchr2Raw,
    Memchr3Raw,
    CountChars,
    Never(&'static str),
}

#[derive(Default, Clone)]
pub struct Stats {
    pub steps: u64,
    pub forks: u64,
    pub concretised: u64,
    pub table_loads: u64,
    pub calls: u64,
}

pub struct Exec {
    pub m: &'static Module,
    pub funcs: Vec<Option<&'static Func>>,
    pub special: Vec<Special>,
    pub p: Pool,
    pub s: Solver,
    pub stats: Stats,
    pub cap: u64,
    pub deadline: Option<std::time::Instant>,
    pub executed: Vec<bool>,
    pub switch_memo: HashMap<(usize, u32, TermId, u32), TermId>,
}

fn classify(n: &str) -> Special {
    if n.contains("4core9panicking9panic_fmt") {
        Special::PanicFmt
    } else if n.contains("4core9panicking18panic_nounwind_fmt") || n.contains("4core9panicking26panic_nounwind_nobacktrace") {
        Special::PanicNounwind
    } else if n.contains("5slice6memchr14memchr_aligned") {
        Special::MemchrAligned
    } else if n.contains("5slice6memchr7memrchr") {
        Special::Memrchr
    } else if n.contains("10memchr_raw6detect") || n.contains("10memchr_raw9find_sse2") || n.contains("10memchr_raw9find_avx2") {
        Special::MemchrRaw
    } else if n.contains("11memrchr_raw6detect") || n.contains("11memrchr_raw9find_sse2") || n.contains("11memrchr_raw9find_avx2") {
        Special::MemrchrRaw
    } else if n.contains("11memchr2_raw6detect") || n.contains("11memchr2_raw9find_sse2") {
        Special::Memchr2Raw
    } else if n.contains("11memchr3_raw6detect") || n.contains("11memchr3_raw9find_sse2") {
        Special::Memchr3Raw
    } else if n.contains("3str5count14do_count_chars") {
        Special::CountChars
    } else {
        Special::None
    }
}

impl Exec {
    pub fn new(m: &'static Module) -> Exec {
        let special = m.funcs.iter().map(|f| classify(&f.name)).collect();
        Exec {
            m,
            funcs: vec![None; m.funcs.len()],
            special,
            p: Pool::new(),
            s: Solver::new(),
            stats: Stats::default(),
            cap: 50_000_000,
            deadline: None,
            executed: vec![false; m.funcs.len()],
            switch_memo: HashMap::new(),
        }
    }
    pub fn func(&mut self, i: usize) -> &'static Func {
        if let Some(f) = self.funcs[i] {
            return f;
        }
        let f: &'static Func = Box::leak(Box::new(self.m.decode(i, &mut self.p)));
        self.funcs[i] = Some(f);
        self.executed[i] = true;
        f
    }

    pub fn init_mem(&mut self) -> Mem {
        let mut mem = Mem::new(self.m.globals_end);
        for g in &self.m.globals {
            if let Some((a, b)) = g.init {
                let text = &self.m.text[a..b];
                if text.trim_start().starts_with("zeroinitializer") {
                    continue;
                }
                let mut c = Cur::new(text);
                let mut v = Vec::new();
                self.m.parse_const(&mut c, &g.ty, &mut v);
                let lv = g.ty.leaves();
                assert_eq!(lv.len(), v.len(), "initialiser of {}", g.name);
                for ((w, off), x) in lv.iter().zip(v) {
                    let n = (*w as usize + 7) / 8;
                    if n <= 8 {
                        mem.write_c(g.addr + off, n, x as u64).unwrap_or_else(|e| panic!("global {} {:?}", g.name, e));
                    } else {
                        mem.write_c(g.addr + off, 8, x as u64).unwrap();
                        mem.write_c(g.addr + off + 8, n - 8, (x >> 64) as u64).unwrap();
                    }
                }
            }
        }
        mem
    }

    pub fn start(&mut self, mem: Mem, entry: usize, name: &str) -> State {
        let fi = *self.m.fmap.get(name).unwrap_or_else(|| panic!("no function {}", name));
        let f = self.func(fi);
        State {
            mem,
            cur: Frame { f, fi, pc: 0, regs: vec![V::c(0); f.nregs as usize], sp: STACK + 64 },
            up: Vec::new(),
            sp: STACK + 64,
            doms: Vec::new(),
            cons: Vec::new(),
            convars: Vec::new(),
            notes: Vec::new(),
            covers: Vec::new(),
            out: Vec::new(),
            errout: Vec::new(),
            steps: 0,
            forks: 0,
            entry,
            env: Default::default(),
            pending: None,
        }
    }

    // ------------------------------------------------------------ conditions

    /// which outcomes of `t` are possible on this path (bit 0 false, bit 1 true)
    pub fn outcomes(&mut self, st: &State, t: TermId) -> u8 {
        let n = *self.p.n(t);
        if n.tab != 0 {
            let v = (n.sup - 1) as usize;
            let r = self.s.split1(&mut self.p, t, &st.doms[v]);
            if r == 3 && st.convars[v] {
                let f = self.s.sat(&mut self.p, &st.cons, &st.doms, Some((t, false)));
                let tr = self.s.sat(&mut self.p, &st.cons, &st.doms, Some((t, true)));
                return f as u8 | (tr as u8) << 1;
            }
            r
        } else {
            let f = self.s.sat(&mut self.p, &st.cons, &st.doms, Some((t, false)));
            let tr = self.s.sat(&mut self.p, &st.cons, &st.doms, Some((t, true)));
            f as u8 | (tr as u8) << 1
        }
    }
    pub fn truth(&mut self, st: &State, t: TermId) -> R<bool> {
        let n = *self.p.n(t);
        match n.op {
            Op::Const => return Ok(n.k != 0),
            _ if n.tab != 0 => {}
            Op::And => return Ok(self.truth(st, n.a)? && self.truth(st, n.b)?),
            Op::Or => return Ok(self.truth(st, n.a)? || self.truth(st, n.b)?),
            Op::Not => return Ok(!self.truth(st, n.a)?),
            Op::Ite => {
                return if self.truth(st, n.a)? { self.truth(st, n.b) } else { self.truth(st, n.c) };
            }
            Op::Xor => return Ok(self.truth(st, n.a)? != self.truth(st, n.b)?),
            _ => {}
        }
        let o = self.outcomes(st, t);
        if self.s.unknown {
            self.s.unknown = false;
            return Err(E::End(End::Time));
        }
        match o {
            1 => Ok(false),
            2 => Ok(true),
            3 => Err(E::Fork(t)),
            _ => internal("infeasible state"),
        }
    }
    #[inline]
    pub fn vtruth(&mut self, st: &State, v: V) -> R<bool> {
        if v.is_c() {
            Ok(v.c & 1 != 0)
        } else {
            self.truth(st, v.id())
        }
    }
    pub fn constrain(&mut self, st: &mut State, t: TermId, pol: bool) {
        let n = *self.p.n(t);
        if n.tab != 0 {
            let s = self.p.true_set(n.tab - 1);
            let v = (n.sup - 1) as usize;
            st.doms[v] = if pol { set_and(&st.doms[v], &s) } else { set_minus(&st.doms[v], &s) };
        } else {
            let c = if pol { t } else { self.p.not(t) };
            for v in self.p.support(c) {
                st.convars[v as usize] = true;
            }
            st.cons.push(c);
        }
    }
    /// one value a term takes on this path
    fn some_value(&mut self, st: &State, t: TermId) -> u128 {
        let n = *self.p.n(t);
        let sup = self.p.support(t);
        if n.tab != 0 && !st.convars[sup[0] as usize] {
            let d = st.doms[sup[0] as usize];
            let i = set_iter(&d).next().unwrap();
            return self.p.tables[n.tab as usize - 1][i as usize] as u128;
        }
        let m = self.s.model(&mut self.p, &st.cons, &st.doms, &mut |d| set_iter(d).next().unwrap());
        self.p.eval(t, &|v| m[v as usize])
    }
    /// the value as a machine word, forking over its possible values
    pub fn conc(&mut self, st: &State, v: V, w: u32) -> R<u64> {
        if v.is_c() {
            return Ok(v.c);
        }
        let t = v.id();
        if self.p.n(t).op == Op::Const {
            return internal("wide constant");
        }
        let n = *self.p.n(t);
        if n.tab != 0 {
            let d = st.doms[n.sup as usize - 1];
            let tb = &self.p.tables[n.tab as usize - 1];
            let mut it = set_iter(&d).map(|i| tb[i as usize]);
            let f = it.next().unwrap();
            if it.all(|x| x == f) {
                return Ok(f);
            }
        }
        self.stats.concretised += 1;
        if std::env::var("SYMX_DBG").is_ok() { eprintln!("CONC {} in {} pc {}", self.p.show(t, 3), self.m.funcs[st.cur.fi].pretty, st.cur.pc); }
        let k = self.some_value(st, t);
        if self.s.unknown {
            self.s.unknown = false;
            return Err(E::End(End::Time));
        }
        let kc = self.p.constant(k, w);
        let e = self.p.cmp(Op::Eq, t, kc);
        if self.truth(st, e)? {
            Ok(k as u64)
        } else {
            internal("concretise")
        }
    }

    // ------------------------------------------------------------ memory

    pub fn load(&mut self, st: &State, a: u64, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as usize;
        if n <= 8 {
            if let Some(x) = st.mem.read_c(a, n)? {
                return Ok(V::c(mask64(x, w)));
            }
            return self.load_sym(st, a, w, n);
        }
        let l = self.load(st, a, 64)?;
        let h = self.load(st, a + 8, w - 64)?;
        Ok(self.p.vconcat(h, w - 64, l, 64))
    }
    fn load_sym(&mut self, st: &State, a: u64, w: u32, n: usize) -> R<V> {
        let mut r = st.mem.byte_v(a)?;
        for j in 1..n {
            let b = st.mem.byte_v(a + j as u64)?;
            r = self.p.vconcat(b, 8, r, 8 * j as u32);
        }
        if w < 8 * n as u32 {
            r = self.p.vextract(r, 8 * n as u32, 0, w);
        }
        Ok(r)
    }
    pub fn store(&mut self, st: &mut State, a: u64, w: u32, v: V) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        if v.is_c() {
            if n <= 8 {
                st.mem.write_c(a, n, v.c)?;
            } else {
                st.mem.write_c(a, 8, v.c)?;
                st.mem.write_c(a + 8, n - 8, 0)?;
            }
            return Ok(());
        }
        let mut t = v.id();
        if w < 8 * n as u32 {
            t = self.p.zext(t, 8 * n as u32);
        }
        for j in 0..n {
            let b = self.p.extract(t, 8 * j as u32, 8);
            st.mem.set_byte(a + j as u64, self.p.val(b))?;
        }
        Ok(())
    }
    fn load_at(&mut self, st: &State, a: V, w: u32) -> R<V> {
        if a.is_c() {
            return self.load(st, a.c, w);
        }
        // symbolic address over one byte: a table of the loaded values
        let n = *self.p.n(a.id());
        if n.tab != 0 && w <= 64 {
            let d = st.doms[n.sup as usize - 1];
            let mut t = Box::new([0u64; 256]);
            let mut ok = true;
            let mut first = None;
            for i in set_iter(&d) {
                let ad = self.p.tables[n.tab as usize - 1][i as usize];
                match st.mem.read_c(ad, ((w + 7) / 8) as usize) {
                    Ok(Some(x)) => {
                        t[i as usize] = mask64(x, w);
                        first.get_or_insert(t[i as usize]);
                    }
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                self.stats.table_loads += 1;
                // values outside the domain are irrelevant: repeat an inside one
                let f = first.unwrap();
                for i in 0..256 {
                    if !set_has(&d, i) {
                        t[i] = f;
                    }
                }
                if t.iter().all(|x| *x == f) {
                    return Ok(V::c(f));
                }
                let r = self.p.table_term(n.sup - 1, w, t);
                return Ok(self.p.val(r));
            }
        }
        let a = self.conc(st, a, 64)?;
        self.load(st, a, w)
    }

    pub fn bytes_eq(&mut self, st: &State, a: u64, b: u64, n: u64) -> R<V> {
        let mut r = V::c(1);
        for i in 0..n {
            let x = st.mem.byte_v(a + i)?;
            let y = st.mem.byte_v(b + i)?;
            if x.is_c() && y.is_c() {
                if x.c != y.c {
                    return Ok(V::c(0));
                }
                continue;
            }
            let e = self.p.vcmp(Pred::Eq, 8, x, y);
            if e.is_c() && e.c == 0 {
                return Ok(e);
            }
            r = self.p.vbin(BinOp::And, 1, r, e);
        }
        Ok(r)
    }

    // ------------------------------------------------------------ calls

    fn push(&mut self, st: &mut State, fi: usize, args: &[V]) -> R<()> {
        if st.up.len() > 4000 {
            return internal("call depth");
        }
        let f = self.func(fi);
        let mut regs = vec![V::c(0); f.nregs as usize];
        let mut k = 0;
        for &(s, n) in &f.params {
            for j in 0..n {
                regs[(s + j) as usize] = args[k];
                k += 1;
            }
        }
        if k != args.len() {
            return internal(format!("argument count calling {}", f.name));
        }
        self.stats.calls += 1;
        let fr = std::mem::replace(&mut st.cur, Frame { f, fi, pc: 0, regs, sp: st.sp });
        st.up.push(Rc::new(fr));
        Ok(())
    }

    fn edge(&mut self, st: &mut State, e: &Edge) {
        let f = st.cur.f;
        let mv = &e.moves;
        let regs = &mut st.cur.regs;
        match mv.len() {
            0 => {}
            1 => {
                let (d, o) = mv[0];
                regs[d as usize] = if o.is_const() { f.pool[o.idx()] } else { regs[o.idx()] };
            }
            _ => {
                let mut tmp: [V; 32] = [V::c(0); 32];
                if mv.len() <= 32 {
                    for (i, (_, o)) in mv.iter().enumerate() {
                        tmp[i] = if o.is_const() { f.pool[o.idx()] } else { regs[o.idx()] };
                    }
                    for (i, (d, _)) in mv.iter().enumerate() {
                        regs[*d as usize] = tmp[i];
                    }
                } else {
                    let t: Vec<V> =
                        mv.iter().map(|(_, o)| if o.is_const() { f.pool[o.idx()] } else { regs[o.idx()] }).collect();
                    for (i, (d, _)) in mv.iter().enumerate() {
                        regs[*d as usize] = t[i];
                    }
                }
            }
        }
        st.cur.pc = e.target;
    }

    /// finish a call instruction in the current frame
    fn finish_call(&mut self, st: &mut State, rets: &[V]) -> R<()> {
        let f = st.cur.f;
        if let I::Call { dst, nret, normal, .. } = &f.code[st.cur.pc as usize] {
            if *dst != u32::MAX {
                if (*nret as usize) != rets.len() {
                    return internal(format!("return count in {}", f.name));
                }
                for (i, v) in rets.iter().enumerate() {
                    st.cur.regs[*dst as usize + i] = *v;
                }
            }
            match normal {
                Some(e) => self.edge(st, e),
                None => st.cur.pc += 1,
            }
            Ok(())
        } else {
            internal("return to a non-call")
        }
    }

    fn location(&self, st: &State, a: u64) -> String {
        let g = |o: u64, n| st.mem.read_c(a + o, n).ok().flatten().unwrap_or(0);
        let (p, l) = (g(0, 8), g(8, 8));
        let mut s = String::new();
        for i in 0..l.min(200) {
            match st.mem.byte(p + i) {
                Ok((0, _)) if i + 1 == l => {}
                Ok((b, _)) => s.push(b as char),
                _ => break,
            }
        }
        format!("{}:{}:{}", s, g(16, 4), g(20, 4))
    }

    fn call_special(&mut self, st: &State, sp: Special, fi: usize, args: &[V]) -> R<Vec<V>> {
        match sp {
            Special::PanicFmt | Special::PanicNounwind => {
                let loc = args.iter().rev().find(|a| a.is_c() && a.c > GLOBAL_BASE).map(|a| self.location(st, a.c));
                // an entry may say that this text may end the tool
                if st.notes.iter().any(|n| n.0 == 99) {
                    return Err(E::End(End::Done));
                }
                // the innermost frames name the place for readers
                Err(E::End(End::Panic(loc.unwrap_or_default())))
            }
            Special::MemchrAligned => {
                let (x, p, n) = (args[0], self.conc(st, args[1], 64)?, self.conc(st, args[2], 64)?);
                for i in 0..n {
                    let b = st.mem.byte_v(p + i)?;
                    let e = self.p.vcmp(Pred::Eq, 8, b, x);
                    if self.vtruth(st, e)? {
                        return Ok(vec![V::c(1), V::c(i)]);
                    }
                }
                Ok(vec![V::c(0), V::c(0)])
            }
            Special::Memrchr => {
                let (x, p, n) = (args[0], self.conc(st, args[1], 64)?, self.conc(st, args[2], 64)?);
                for i in (0..n).rev() {
                    let b = st.mem.byte_v(p + i)?;
                    let e = self.p.vcmp(Pred::Eq, 8, b, x);
                    if self.vtruth(st, e)? {
                        return Ok(vec![V::c(1), V::c(i)]);
                    }
                }
                Ok(vec![V::c(0), V::c(0)])
            }
            Special::MemchrRaw | Special::MemrchrRaw | Special::Memchr2Raw | Special::Memchr3Raw => {
                let k = match sp {
                    Special::Memchr2Raw => 2,
                    Special::Memchr3Raw => 3,
                    _ => 1,
                };
                let (p, e) = (self.conc(st, args[k], 64)?, self.conc(st, args[k + 1], 64)?);
                let n = e - p;
                for j in 0..n {
                    let i = if sp == Special::MemrchrRaw { n - 1 - j } else { j };
                    let b = st.mem.byte_v(p + i)?;
                    for x in &args[..k] {
                        let q = self.p.vcmp(Pred::Eq, 8, b, *x);
                        if self.vtruth(st, q)? {
                            return Ok(vec![V::c(1), V::c(p + i)]);
                        }
                    }
                }
                Ok(vec![V::c(0), V::c(0)])
            }
            Special::CountChars => {
                let (p, n) = (self.conc(st, args[0], 64)?, self.conc(st, args[1], 64)?);
                let mut c = 0;
                for i in 0..n {
                    let b = st.mem.byte_v(p + i)?;
                    let m = self.p.vbin(BinOp::And, 8, b, V::c(0xC0));
                    let q = self.p.vcmp(Pred::Ne, 8, m, V::c(0x80));
                    if self.vtruth(st, q)? {
                        c += 1;
                    }
                }
                Ok(vec![V::c(c)])
            }
            Special::None | Special::Never(_) => internal(format!("special {}", self.m.funcs[fi].pretty)),
        }
    }

    fn call(&mut self, st: &mut State, callee: &Callee, args: &[V], argw: &[u32], retw: &[u32]) -> R<()> {
        match callee {
            Callee::Func(fi) => {
                let fi = *fi;
                let sp = self.special[fi];
                if sp == Special::None {
                    return self.push(st, fi, args);
                }
                let r = self.call_special(st, sp, fi, args)?;
                self.finish_call(st, &r)
            }
            Callee::Intrinsic(n) => {
                let n = n.clone();
                let r = self.intrinsic(st, &n, args, argw, retw)?;
                self.finish_call(st, &r)
            }
            Callee::Extern(n) => {
                let n = n.clone();
                let r = self.extern_call(st, &n, args)?;
                self.finish_call(st, &r)
            }
            Callee::Indirect(o) => {
                let v = if o.is_const() { st.cur.f.pool[o.idx()] } else { st.cur.regs[o.idx()] };
                let a = self.conc(st, v, 64)?;
                if a < FUNC_BASE || (a - FUNC_BASE) % 16 != 0 {
                    return internal(format!("indirect call to {:#x}", a));
                }
                let i = ((a - FUNC_BASE) / 16) as usize;
                if i < self.m.funcs.len() {
                    self.call(st, &Callee::Func(i), args, argw, retw)
                } else {
                    let n: Rc<str> = self.m.externs[i - self.m.funcs.len()].as_str().into();
                    self.call(st, &Callee::Extern(n), args, argw, retw)
                }
            }
        }
    }

    /// function of one symbolic byte, as a table
    fn by_table(&mut self, st: &State, t: TermId, w: u32, f: &dyn Fn(u64) -> u64) -> Option<V> {
        let n = *self.p.n(t);
        let _ = st;
        if n.tab == 0 {
            return None;
        }
        let mut tb = Box::new([0u64; 256]);
        for i in 0..256 {
            tb[i] = mask64(f(self.p.tables[n.tab as usize - 1][i]), w);
        }
        if tb.iter().all(|x| *x == tb[0]) {
            return Some(V::c(tb[0]));
        }
        let r = self.p.table_term(n.sup - 1, w, tb);
        Some(self.p.val(r))
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, a: &[V], argw: &[u32], retw: &[u32]) -> R<Vec<V>> {
        let p = &n[5..];
        let base: &str = {
            // strip type suffixes
            let mut e = p.len();
            for (i, _) in p.match_indices('.') {
                let rest = &p[i + 1..];
                let b = rest.as_bytes();
                if (b[0] == b'i' || b[0] == b'p' || b[0] == b'v') && b.len() > 1 && b[1].is_ascii_digit() {
                    e = i;
                    break;
                }
            }
            &p[..e]
        };
        let w = argw.first().copied().unwrap_or(0);
        match base {
            "memcpy" | "memmove" | "memcpy.inline" => {
                let (d, s, l) = (self.conc(st, a[0], 64)?, self.conc(st, a[1], 64)?, self.conc(st, a[2], 64)?);
                st.mem.copy(d, s, l)?;
                Ok(vec![])
            }
            "memset" => {
                let (d, l) = (self.conc(st, a[0], 64)?, self.conc(st, a[2], 64)?);
                st.mem.fill(d, a[1], l)?;
                Ok(vec![])
            }
            "umax" | "umin" | "smax" | "smin" => {
                let k = retw.len();
                let mut out = Vec::new();
                for i in 0..k {
                    let (x, y) = (a[i], a[k + i]);
                    let pr = match base {
                        "umax" => Pred::Ugt,
                        "umin" => Pred::Ult,
                        "smax" => Pred::Sgt,
                        _ => Pred::Slt,
                    };
                    let c = self.p.vcmp(pr, w, x, y);
                    out.push(self.p.vite(c, w, x, y));
                }
                Ok(out)
            }
            "abs" => {
                let c = self.p.vcmp(Pred::Slt, w, a[0], V::c(0));
                let ng = self.p.vbin(BinOp::Sub, w, V::c(0), a[0]);
                Ok(vec![self.p.vite(c, w, ng, a[0])])
            }
            "uadd.sat" | "usub.sat" => {
                let r;
                let c;
                if base == "uadd.sat" {
                    r = self.p.vbin(BinOp::Add, w, a[0], a[1]);
                    c = self.p.vcmp(Pred::Ult, w, r, a[0]);
                    let m = V::c(mask64(u64::MAX, w));
                    return Ok(vec![self.p.vite(c, w, m, r)]);
                }
                r = self.p.vbin(BinOp::Sub, w, a[0], a[1]);
                c = self.p.vcmp(Pred::Ult, w, a[0], a[1]);
                Ok(vec![self.p.vite(c, w, V::c(0), r)])
            }
            "uadd.with.overflow" => {
                let r = self.p.vbin(BinOp::Add, w, a[0], a[1]);
                let c = self.p.vcmp(Pred::Ult, w, r, a[0]);
                Ok(vec![r, c])
            }
            "usub.with.overflow" => {
                let r = self.p.vbin(BinOp::Sub, w, a[0], a[1]);
                let c = self.p.vcmp(Pred::Ult, w, a[0], a[1]);
                Ok(vec![r, c])
            }
            "umul.with.overflow" | "smul.with.overflow" | "sadd.with.overflow" | "ssub.with.overflow" => {
                if w > 64 {
                    return internal(n);
                }
                // compute at double width
                let dw = w * 2;
                let signed = base.starts_with('s');
                let (x, y) = (self.p.of(a[0], w), self.p.of(a[1], w));
                let (x, y) =
                    if signed { (self.p.sext(x, dw), self.p.sext(y, dw)) } else { (self.p.zext(x, dw), self.p.zext(y, dw)) };
                let o = match &base[1..4] {
                    "mul" => Op::Mul,
                    "add" => Op::Add,
                    _ => Op::Sub,
                };
                let r = self.p.bin(o, dw, x, y);
                let lo = self.p.extract(r, 0, w);
                let back = if signed { self.p.sext(lo, dw) } else { self.p.zext(lo, dw) };
                let e = self.p.cmp(Op::Eq, back, r);
                let c = self.p.not(e);
                Ok(vec![self.p.val(lo), self.p.val(c)])
            }
            "ucmp" | "scmp" => {
                let pr = if base == "ucmp" { Pred::Ult } else { Pred::Slt };
                let rw = retw[0];
                let lt = self.p.vcmp(pr, w, a[0], a[1]);
                let gt = self.p.vcmp(pr, w, a[1], a[0]);
                let z = self.p.vite(gt, rw, V::c(1), V::c(0));
                Ok(vec![self.p.vite(lt, rw, V::c(mask64(u64::MAX, rw)), z)])
            }
            "fshl" | "fshr" => {
                let k = self.conc(st, a[2], w)? % w as u64;
                let k = if base == "fshl" { k } else { (w as u64 - k) % w as u64 };
                if base == "fshr" && k == 0 {
                    return Ok(vec![a[1]]);
                }
                if k == 0 {
                    return Ok(vec![a[0]]);
                }
                let h = self.p.vextract(a[0], w, 0, w - k as u32);
                let l = self.p.vextract(a[1], w, w - k as u32, k as u32);
                Ok(vec![self.p.vconcat(h, w - k as u32, l, k as u32)])
            }
            "bswap" => {
                let n = w / 8;
                let mut r = self.p.vextract(a[0], w, 0, 8);
                for i in 1..n {
                    let b = self.p.vextract(a[0], w, 8 * i, 8);
                    r = self.p.vconcat(r, 8 * i, b, 8);
                }
                Ok(vec![r])
            }
            "ctpop" | "cttz" | "ctlz" | "bitreverse" => {
                let f = |x: u64| -> u64 {
                    match base {
                        "ctpop" => x.count_ones() as u64,
                        "cttz" => {
                            if x == 0 {
                                w as u64
                            } else {
                                x.trailing_zeros() as u64
                            }
                        }
                        "ctlz" => (x.leading_zeros() as u64) - (64 - w as u64),
                        _ => x.reverse_bits() >> (64 - w),
                    }
                };
                if w > 64 {
                    return internal(n);
                }
                if a[0].is_c() {
                    return Ok(vec![V::c(f(a[0].c))]);
                }
                if let Some(v) = self.by_table(st, a[0].id(), w, &f) {
                    return Ok(vec![v]);
                }
                let x = self.conc(st, a[0], w)?;
                Ok(vec![V::c(f(x))])
            }
            "is.constant" => Ok(vec![V::c(0)]),
            "expect" | "threadlocal.address" | "ptrmask" | "launder.invariant.group" | "ssa.copy" => Ok(vec![a[0]]),
            "load.relative" => {
                let (b, o) = (self.conc(st, a[0], 64)?, self.conc(st, a[1], 64)?);
                let x = self.load(st, b.wrapping_add(o), 32)?;
                let x = self.conc(st, x, 32)?;
                Ok(vec![V::c(b.wrapping_add(sext(x, 32)))])
            }
            "trap" | "ubsantrap" => Err(E::End(End::Panic("trap".into()))),
            "vector.reduce.add" => {
                let mut r = a[0];
                for x in &a[1..] {
                    r = self.p.vbin(BinOp::Add, w, r, *x);
                }
                Ok(vec![r])
            }
            "stacksave" => Ok(vec![V::c(st.sp)]),
            "stackrestore" => {
                st.sp = self.conc(st, a[0], 64)?;
                Ok(vec![])
            }
            _ => internal(format!("intrinsic {}", n)),
        }
    }

    // ------------------------------------------------------------ the loop

    pub fn run(&mut self, st: &mut State) -> E {
        let start = st.steps;
        let r = self.run_inner(st);
        self.stats.steps += st.steps - start;
        match r {
            Ok(()) => unreachable!(),
            Err(e) => e,
        }
    }

    fn run_inner(&mut self, st: &mut State) -> R<()> {
        loop {
            let f = st.cur.f;
            let i = &f.code[st.cur.pc as usize];
            st.steps += 1;
            if st.steps > self.cap {
                return Err(E::End(End::Cap));
            }
            if st.steps & 0xffff == 0 {
                if let Some(d) = self.deadline {
                    if std::time::Instant::now() > d {
                        return Err(E::End(End::Time));
                    }
                }
            }
            macro_rules! g {
                ($o:expr) => {{
                    let o: Opd = $o;
                    if o.is_const() {
                        f.pool[o.idx()]
                    } else {
                        st.cur.regs[o.idx()]
                    }
                }};
            }
            match i {
                I::Bin(op, w, d, x, y) => {
                    let (mut x, mut y) = (g!(*x), g!(*y));
                    if *w > 1 && !x.is_c() && !y.is_c() {
                        (x, y) = self.unmerge(st, *w, x, y)?;
                    }
                    let v = self.bin(*op, *w, x, y)?;
                    st.cur.regs[*d as usize] = v;
                }
                I::Fp(o, fw, tw, d, x, y) => {
                    let (x, y) = (g!(*x), g!(*y));
                    let v = if *o == FpOp::Neg {
                        self.bin(BinOp::Xor, *fw, x, V::c(1 << (*fw - 1)))?
                    } else if *fw > 64 || *tw > 64 {
                        return internal(format!("wide float in {}", f.name));
                    } else {
                        // no bit-level model: one value at a time, the others are left to the other branch
                        let (x, y) = (self.conc(st, x, *fw)?, self.conc(st, y, *fw)?);
                        V::c(fp(*o, *fw, *tw, x, y))
                    };
                    st.cur.regs[*d as usize] = v;
                }
                I::Icmp(pr, w, d, x, y) => {
                    let (x, y) = (g!(*x), g!(*y));
                    let v = if x.is_c() && y.is_c() { V::c(cmp64(*pr, *w, x.c, y.c) as u64) } else { self.p.vcmp(*pr, *w, x, y) };
                    st.cur.regs[*d as usize] = v;
                }
                I::Cast(k, fw, tw, d, x) => {
                    let x = g!(*x);
                    // a truth value that becomes part of an index or a length: one path for each
                    let v = if !x.is_c() && *tw == 64 && matches!(k, CastOp::ZExt) && self.p.boolish(x.id()) {
                        let t = self.p.extract(x.id(), 0, 1);
                        V::c(self.truth(st, t)? as u64)
                    } else {
                        self.cast(*k, *fw, *tw, x)
                    };
                    st.cur.regs[*d as usize] = v;
                }
                I::VBin(op, w, d, xs, ys) => {
                    let mut out = Vec::with_capacity(xs.len());
                    for (x, y) in xs.iter().zip(ys.iter()) {
                        let (x, y) = (g!(*x), g!(*y));
                        out.push(self.bin(*op, *w, x, y)?);
                    }
                    for (j, v) in out.into_iter().enumerate() {
                        st.cur.regs[*d as usize + j] = v;
                    }
                }
                I::VIcmp(pr, w, d, xs, ys) => {
                    for (j, (x, y)) in xs.iter().zip(ys.iter()).enumerate() {
                        let (x, y) = (g!(*x), g!(*y));
                        let v = if x.is_c() && y.is_c() { V::c(cmp64(*pr, *w, x.c, y.c) as u64) } else { self.p.vcmp(*pr, *w, x, y) };
                        st.cur.regs[*d as usize + j] = v;
                    }
                }
                I::VCast(k, fw, tw, d, xs) => {
                    for (j, x) in xs.iter().enumerate() {
                        let x = g!(*x);
                        let v = self.cast(*k, *fw, *tw, x);
                        st.cur.regs[*d as usize + j] = v;
                    }
                }
                I::BitcastVec(xs, sw, d, dw) => {
                    let mut all = g!(xs[0]);
                    let mut tot = *sw;
                    for x in xs[1..].iter() {
                        let x = g!(*x);
                        let (h, l) = (self.p.of(x, *sw), self.p.of(all, tot));
                        let r = self.p.concat(h, l);
                        tot += *sw;
                        all = V::t(r);
                    }
                    let n = tot / dw;
                    for j in 0..n {
                        let t = self.p.of(all, tot);
                        let e = self.p.extract(t, j * dw, *dw);
                        st.cur.regs[(*d + j) as usize] = self.p.val(e);
                    }
                }
                I::Select(d, cs, xs, ys, ws) => {
                    for j in 0..xs.len() {
                        let c = g!(cs[if cs.len() > 1 { j } else { 0 }]);
                        let (x, y) = (g!(xs[j]), g!(ys[j]));
                        let v = if c.is_c() {
                            if c.c & 1 != 0 {
                                x
                            } else {
                                y
                            }
                        } else if x == y {
                            x
                        } else {
                            let w = ws[j];
                            let r = if w == 1 {
                                Some(self.p.vite(c, w, x, y))
                            } else {
                                let t = self.p.n(c.id()).sup;
                                let ok = |v: V, p: &Pool| v.is_c() || p.n(v.id()).sup == t;
                                if w <= 64 && t != MANY && ok(x, &self.p) && ok(y, &self.p) {
                                    Some(self.p.vite(c, w, x, y))
                                } else {
                                    None
                                }
                            };
                            match r {
                                Some(v) => v,
                                None => {
                                    if self.truth(st, c.id())? {
                                        x
                                    } else {
                                        y
                                    }
                                }
                            }
                        };
                        st.cur.regs[*d as usize + j] = v;
                    }
                }
                I::Copies(d, xs) => {
                    let n = xs.len();
                    if n == 1 {
                        let v = g!(xs[0]);
                        st.cur.regs[*d as usize] = v;
                    } else {
                        let t: Vec<V> = xs.iter().map(|x| g!(*x)).collect();
                        st.cur.regs[*d as usize..*d as usize + n].copy_from_slice(&t);
                    }
                }
                I::Load(d, w, a) => {
                    let a = g!(*a);
                    let v = if a.is_c() { self.load(st, a.c, *w)? } else { self.load_at(st, a, *w)? };
                    st.cur.regs[*d as usize] = v;
                }
                I::LoadMulti(d, lv, a) => {
                    let a = g!(*a);
                    let a = self.conc(st, a, 64)?;
                    for (j, (w, off)) in lv.iter().enumerate() {
                        let v = self.load(st, a + off, *w)?;
                        st.cur.regs[*d as usize + j] = v;
                    }
                }
                I::Store(w, v, a) => {
                    let (v, a) = (g!(*v), g!(*a));
                    let a = self.conc(st, a, 64)?;
                    self.store(st, a, *w, v)?;
                }
                I::StoreMulti(lv, vs, a) => {
                    let a = g!(*a);
                    let a = self.conc(st, a, 64)?;
                    for (j, (w, off)) in lv.iter().enumerate() {
                        let v = g!(vs[j]);
                        self.store(st, a + off, *w, v)?;
                    }
                }
                I::Gep(d, b, off, idx) => {
                    let b = g!(*b);
                    let mut r = if b.is_c() {
                        V::c(b.c.wrapping_add(*off))
                    } else {
                        self.p.vbin(BinOp::Add, 64, b, V::c(*off))
                    };
                    for (x, scale, w) in idx.iter() {
                        let x = g!(*x);
                        if x.is_c() && r.is_c() {
                            r = V::c(r.c.wrapping_add(sext(x.c, *w).wrapping_mul(*scale)));
                        } else {
                            let x = self.p.vsext(x, *w, 64);
                            let m = self.p.vbin(BinOp::Mul, 64, x, V::c(*scale));
                            r = self.p.vbin(BinOp::Add, 64, r, m);
                        }
                    }
                    st.cur.regs[*d as usize] = r;
                }
                I::Alloca(d, size, al, n) => {
                    let n = g!(*n);
                    let n = self.conc(st, n, 64)?;
                    let a = (st.sp + al - 1) / al * al;
                    st.sp = a + size * n + 8;
                    if st.sp > STACK + STACK_SIZE {
                        return internal("stack overflow");
                    }
                    st.cur.regs[*d as usize] = V::c(a);
                }
                I::Br(e) => {
                    self.edge(st, e);
                    continue;
                }
                I::CondBr(c, a, b) => {
                    let c = g!(*c);
                    let t = if c.is_c() { c.c & 1 != 0 } else { self.truth(st, c.id())? };
                    self.edge(st, if t { a } else { b });
                    continue;
                }
                I::Switch(w, x, def, cases) => {
                    let x = g!(*x);
                    if x.is_c() {
                        let v = mask64(x.c, *w);
                        let e = cases.iter().find(|c| c.0 == v).map(|c| &c.1).unwrap_or(def);
                        self.edge(st, e);
                        continue;
                    }
                    let t = x.id();
                    let v = self.some_value(st, t) as u64;
                    let hit = cases.iter().position(|c| c.0 == v);
                    let same = |i: usize, h: usize| {
                        cases[i].1.target == cases[h].1.target && cases[i].1.moves[..] == cases[h].1.moves[..]
                    };
                    let hit = hit.map(|h| (0..=h).find(|i| same(*i, h)).unwrap());
                    let key = (st.cur.fi, st.cur.pc, t, hit.map(|h| h as u32).unwrap_or(u32::MAX));
                    let cond = match self.switch_memo.get(&key) {
                        Some(c) => *c,
                        None => {
                            let mut cond = self.p.constant(0, 1);
                            for (i, c) in cases.iter().enumerate() {
                                if hit.map(|h| same(i, h)).unwrap_or(true) {
                                    let k = self.p.constant(c.0 as u128, *w);
                                    let q = self.p.cmp(Op::Eq, t, k);
                                    cond = self.p.bin(Op::Or, 1, cond, q);
                                }
                            }
                            if hit.is_none() {
                                cond = self.p.not(cond);
                            }
                            self.switch_memo.insert(key, cond);
                            cond
                        }
                    };
                    if !self.truth(st, cond)? {
                        return internal("switch");
                    }
                    let e = hit.map(|h| &cases[h].1).unwrap_or(def);
                    self.edge(st, e);
                    continue;
                }
                I::Ret(vs) => {
                    let vals: Vec<V> = vs.iter().map(|v| g!(*v)).collect();
                    match st.up.pop() {
                        None => {
                            if let Some(v) = vals.first() {
                                st.notes.push((u64::MAX, *v));
                            }
                            return Err(E::End(End::Done));
                        }
                        Some(fr) => {
                            st.sp = st.cur.sp;
                            st.cur = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                            self.finish_call(st, &vals)?;
                        }
                    }
                    continue;
                }
                I::Call { callee, args, argw, retw, .. } => {
                    let mut buf: [V; 16] = [V::c(0); 16];
                    if args.len() <= 16 {
                        for (j, a) in args.iter().enumerate() {
                            buf[j] = g!(*a);
                        }
                        let n = args.len();
                        self.call(st, callee, &buf[..n], argw, retw)?;
                    } else {
                        let v: Vec<V> = args.iter().map(|a| g!(*a)).collect();
                        self.call(st, callee, &v, argw, retw)?;
                    }
                    continue;
                }
                I::AtomicRmw(d, op, w, a, v) => {
                    let (a, v) = (g!(*a), g!(*v));
                    let a = self.conc(st, a, 64)?;
                    let old = self.load(st, a, *w)?;
                    let new = match *op {
                        "xchg" => v,
                        "add" => self.bin(BinOp::Add, *w, old, v)?,
                        "sub" => self.bin(BinOp::Sub, *w, old, v)?,
                        "and" => self.bin(BinOp::And, *w, old, v)?,
                        "or" => self.bin(BinOp::Or, *w, old, v)?,
                        "xor" => self.bin(BinOp::Xor, *w, old, v)?,
                        _ => return internal(format!("atomicrmw {}", op)),
                    };
                    self.store(st, a, *w, new)?;
                    st.cur.regs[*d as usize] = old;
                }
                I::CmpXchg(d, w, a, e, n) => {
                    let (a, e, n) = (g!(*a), g!(*e), g!(*n));
                    let a = self.conc(st, a, 64)?;
                    let old = self.load(st, a, *w)?;
                    let q = self.p.vcmp(Pred::Eq, *w, old, e);
                    let ok = self.vtruth(st, q)?;
                    if ok {
                        self.store(st, a, *w, n)?;
                    }
                    st.cur.regs[*d as usize] = old;
                    st.cur.regs[*d as usize + 1] = V::c(ok as u64);
                }
                I::Nop => {}
                I::Unreachable => return internal(format!("unreachable in {}", f.name)),
                I::Unsupported(s) => return internal(format!("unsupported: {} in {}", s, f.name)),
            }
            st.cur.pc += 1;
        }
    }

    /// Arithmetic that mixes different inputs: a two-valued operand (a condition turned into a
    /// number, typically a length) is decided here instead of being carried along.
    fn unmerge(&mut self, st: &State, w: u32, x: V, y: V) -> R<(V, V)> {
        if self.p.n(x.id()).sup == self.p.n(y.id()).sup && self.p.n(x.id()).tab != 0 {
            return Ok((x, y));
        }
        let mut r = [x, y];
        for v in r.iter_mut() {
            let n = *self.p.n(v.id());
            if n.tab != 0 {
                let d = st.doms[n.sup as usize - 1];
                let tb = &self.p.tables[n.tab as usize - 1];
                let mut a = None;
                let mut b = None;
                let mut many = false;
                for i in set_iter(&d) {
                    let k = tb[i as usize];
                    if a.is_none() || a == Some(k) {
                        a = Some(k)
                    } else if b.is_none() || b == Some(k) {
                        b = Some(k)
                    } else {
                        many = true;
                        break;
                    }
                }
                if !many {
                    *v = V::c(self.conc(st, *v, w)?);
                }
            }
        }
        Ok((r[0], r[1]))
    }

    #[inline]
    fn bin(&mut self, op: BinOp, w: u32, x: V, y: V) -> R<V> {
        if x.is_c() && y.is_c() && w <= 64 {
            let (a, b) = (x.c, y.c);
            let r = match op {
                BinOp::Add => a.wrapping_add(b),
                BinOp::Sub => a.wrapping_sub(b),
                BinOp::Mul => a.wrapping_mul(b),
                BinOp::And => a & b,
                BinOp::Or => a | b,
                BinOp::Xor => a ^ b,
                BinOp::Shl => {
                    if b >= w as u64 {
                        0
                    } else {
                        a << b
                    }
                }
                BinOp::LShr => {
                    if b >= w as u64 {
                        0
                    } else {
                        a >> b
                    }
                }
                BinOp::AShr => ((sext(a, w) as i64) >> b.min(63)) as u64,
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                    if b == 0 {
                        return internal("division by zero");
                    }
                    match op {
                        BinOp::UDiv => a / b,
                        BinOp::URem => a % b,
                        BinOp::SDiv => (sext(a, w) as i64).wrapping_div(sext(b, w) as i64) as u64,
                        _ => (sext(a, w) as i64).wrapping_rem(sext(b, w) as i64) as u64,
                    }
                }
            };
            return Ok(V::c(mask64(r, w)));
        }
        Ok(self.p.vbin(op, w, x, y))
    }
    #[inline]
    fn cast(&mut self, k: CastOp, fw: u32, tw: u32, x: V) -> V {
        if x.is_c() && fw <= 64 {
            return match k {
                CastOp::Trunc => V::c(mask64(x.c, tw)),
                CastOp::ZExt | CastOp::Copy => x,
                CastOp::SExt if tw <= 64 => V::c(mask64(sext(x.c, fw), tw)),
                CastOp::SExt => self.p.vsext(x, fw, tw),
            };
        }
        match k {
            CastOp::Trunc => {
                let t = self.p.of(x, fw);
                let r = self.p.extract(t, 0, tw);
                self.p.val(r)
            }
            CastOp::ZExt => {
                let t = self.p.of(x, fw);
                let r = self.p.zext(t, tw);
                self.p.val(r)
            }
            CastOp::SExt => self.p.vsext(x, fw, tw),
            CastOp::Copy => x,
        }
    }
}

#[inline]
fn cmp64(p: Pred, w: u32, a: u64, b: u64) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        _ => {
            let (a, b) = (sext(a, w) as i64, sext(b, w) as i64);
            match p {
                Pred::Sgt => a > b,
                Pred::Sge => a >= b,
                Pred::Slt => a < b,
                _ => a <= b,
            }
        }
    }
}

fn fp(o: FpOp, fw: u32, tw: u32, x: u64, y: u64) -> u64 {
    fn get(w: u32, x: u64) -> f64 {
        if w == 32 {
            f32::from_bits(x as u32) as f64
        } else {
            f64::from_bits(x)
        }
    }
    fn put(w: u32, v: f64) -> u64 {
        if w == 32 {
            (v as f32).to_bits() as u64
        } else {
            v.to_bits()
        }
    }
    let sx = if fw == 64 { x as i64 } else { ((x << (64 - fw)) as i64) >> (64 - fw) };
    match o {
        FpOp::UToF => {
            if tw == 32 {
                (x as f32).to_bits() as u64
            } else {
                (x as f64).to_bits()
            }
        }
        FpOp::SToF => {
            if tw == 32 {
                (sx as f32).to_bits() as u64
            } else {
                (sx as f64).to_bits()
            }
        }
        FpOp::FToU => mask64(get(fw, x) as u64, tw),
        FpOp::FToS => mask64(get(fw, x) as i64 as u64, tw),
        FpOp::FToF => put(tw, get(fw, x)),
        FpOp::Neg => put(tw, -get(fw, x)),
        FpOp::Cmp(m) => {
            let k = match get(fw, x).partial_cmp(&get(fw, y)) {
                None => 0,
                Some(std::cmp::Ordering::Less) => 1,
                Some(std::cmp::Ordering::Equal) => 2,
                Some(std::cmp::Ordering::Greater) => 3,
            };
            (m >> k & 1) as u64
        }
        _ => {
            // one operation in double precision and one rounding give the single precision result
            let (a, b) = (get(fw, x), get(fw, y));
            put(
                tw,
                match o {
                    FpOp::Add => a + b,
                    FpOp::Sub => a - b,
                    FpOp::Mul => a * b,
                    FpOp::Div => a / b,
                    _ => a % b,
                },
            )
        }
    }
}
