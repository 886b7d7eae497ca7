//! Z3 behind every branch decision.
//!
//! `split`: which outcomes of a condition are possible for the inputs of a path.  The verdict is
//! Z3's; for conditions over one input byte it is memoised on (condition, set of byte values) up
//! to renaming of the byte, and cross-checked against the condition's value table.

use crate::term::*;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3", kind = "dylib")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvuge(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
}

extern "C" fn on_error(c: P, e: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {}", m.to_string_lossy());
    std::process::exit(3);
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub memo_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub multi: u64,
    pub nanos: u64,
}

pub struct Solver {
    ctx: P,
    s: P,
    ast: FxMap<TermId, P>,
    bv: FxMap<u32, P>,
    memo: FxMap<(u32, u32), u8>,
    sets: FxMap<Set, u32>,
    mmemo: FxMap<Vec<u64>, bool>,
    pub stats: Stats,
    /// a query ended without an answer: the path that asked is given up
    pub unknown: bool,
}

impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, c"model".as_ptr(), c"true".as_ptr());
            Z3_set_param_value(cfg, c"timeout".as_ptr(), c"20000".as_ptr());
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_error));
            let s = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, s);
            Solver {
                ctx,
                s,
                ast: FxMap::default(),
                bv: FxMap::default(),
                memo: FxMap::default(),
                sets: FxMap::default(),
                mmemo: FxMap::default(),
                stats: Stats::default(),
                unknown: false,
            }
        }
    }
    fn sort(&mut self, w: u32) -> P {
        let c = self.ctx;
        *self.bv.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w) })
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        unsafe {
            if w <= 64 {
                let s = self.sort(w);
                Z3_mk_unsigned_int64(self.ctx, v as u64, s)
            } else {
                let (sl, sh) = (self.sort(64), self.sort(w - 64));
                let l = Z3_mk_unsigned_int64(self.ctx, v as u64, sl);
                let h = Z3_mk_unsigned_int64(self.ctx, (v >> 64) as u64, sh);
                Z3_mk_concat(self.ctx, h, l)
            }
        }
    }
    fn b2bv(&mut self, b: P) -> P {
        let (o, z) = (self.num(1, 1), self.num(0, 1));
        unsafe { Z3_mk_ite(self.ctx, b, o, z) }
    }
    /// the bit-vector encoding of a term, from its structure
    pub fn enc(&mut self, p: &Pool, t: TermId) -> P {
        if let Some(&a) = self.ast.get(&t) {
            return a;
        }
        let n = *p.n(t);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.k, n.w),
                Op::Var => {
                    let s = self.sort(8);
                    Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), s)
                }
                Op::Not => {
                    let a = self.enc(p, n.a);
                    Z3_mk_bvnot(c, a)
                }
                Op::Ite => {
                    let a = self.enc(p, n.a);
                    let one = self.num(1, 1);
                    let x = self.enc(p, n.b);
                    let y = self.enc(p, n.c);
                    Z3_mk_ite(c, Z3_mk_eq(c, a, one), x, y)
                }
                Op::SExt => {
                    let a = self.enc(p, n.a);
                    Z3_mk_sign_ext(c, n.w - p.n(n.a).w, a)
                }
                Op::Extract => {
                    let a = self.enc(p, n.a);
                    Z3_mk_extract(c, n.k as u32 + n.w - 1, n.k as u32, a)
                }
                Op::Concat => {
                    let a = self.enc(p, n.a);
                    let b = self.enc(p, n.b);
                    Z3_mk_concat(c, a, b)
                }
                Op::Table => {
                    let v = self.enc(p, n.a);
                    let t = p.tables[n.k as usize].clone();
                    // runs of equal values
                    let mut hi = 255usize;
                    let mut r = self.num(mask(t[255] as u128, n.w), n.w);
                    for i in (0..255).rev() {
                        if t[i] != t[hi] {
                            let bound = self.num(i as u128, 8);
                            let x = self.num(mask(t[i] as u128, n.w), n.w);
                            r = Z3_mk_ite(c, Z3_mk_bvule(c, v, bound), x, r);
                            hi = i;
                        }
                    }
                    r
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.enc(p, n.a);
                    let b = self.enc(p, n.b);
                    let x = match n.op {
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    };
                    self.b2bv(x)
                }
                _ => {
                    let a = self.enc(p, n.a);
                    let b = self.enc(p, n.b);
                    match n.op {
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.ast.insert(t, r);
        r
    }
    fn in_set(&mut self, v: P, s: &Set) -> P {
        let c = self.ctx;
        if s.iter().all(|x| *x == u64::MAX) {
            return unsafe { Z3_mk_true(c) };
        }
        let mut parts = Vec::new();
        let mut i = 0usize;
        while i < 256 {
            if set_has(s, i) {
                let st = i;
                while i < 256 && set_has(s, i) {
                    i += 1;
                }
                unsafe {
                    if st + 1 == i {
                        let k = self.num(st as u128, 8);
                        parts.push(Z3_mk_eq(c, v, k));
                    } else {
                        let (l, h) = (self.num(st as u128, 8), self.num(i as u128 - 1, 8));
                        let both = [Z3_mk_bvuge(c, v, l), Z3_mk_bvule(c, v, h)];
                        parts.push(Z3_mk_and(c, 2, both.as_ptr()));
                    }
                }
            } else {
                i += 1;
            }
        }
        unsafe { Z3_mk_or(c, parts.len() as u32, parts.as_ptr()) }
    }
    fn truth(&mut self, p: &Pool, t: TermId, v: bool) -> P {
        let a = self.enc(p, t);
        let k = self.num(v as u128, 1);
        unsafe { Z3_mk_eq(self.ctx, a, k) }
    }
    fn check(&mut self, asserts: &[P]) -> bool {
        unsafe {
            let t0 = Instant::now();
            Z3_solver_push(self.ctx, self.s);
            for a in asserts {
                Z3_solver_assert(self.ctx, self.s, *a);
            }
            let r = Z3_solver_check(self.ctx, self.s);
            Z3_solver_pop(self.ctx, self.s, 1);
            self.stats.nanos += t0.elapsed().as_nanos() as u64;
            self.stats.queries += 1;
            match r {
                1 => {
                    self.stats.sat += 1;
                    true
                }
                -1 => {
                    self.stats.unsat += 1;
                    false
                }
                _ => {
                    self.unknown = true;
                    true
                }
            }
        }
    }
    fn set_id(&mut self, s: &Set) -> u32 {
        let n = self.sets.len() as u32;
        *self.sets.entry(*s).or_insert(n)
    }

    /// possible outcomes of a condition over one variable with domain `d`: bit 0 = can be false, bit 1 = can be true
    pub fn split1(&mut self, p: &mut Pool, t: TermId, d: &Set) -> u8 {
        let n = *p.n(t);
        let key = (n.tab, self.set_id(d));
        if let Some(&r) = self.memo.get(&key) {
            self.stats.memo_hits += 1;
            return r;
        }
        let v = p.var(n.sup - 1);
        let v = self.enc(p, v);
        let dom = self.in_set(v, d);
        let (pos, neg) = (self.truth(p, t, true), self.truth(p, t, false));
        let mut r = 0;
        if self.check(&[dom, neg]) {
            r |= 1;
        }
        if self.check(&[dom, pos]) {
            r |= 2;
        }
        if self.unknown {
            return 3;
        }
        // cross-check with the table
        let ts = p.true_set(n.tab - 1);
        let x = (!set_empty(&set_minus(d, &ts))) as u8 | ((!set_empty(&set_and(d, &ts))) as u8) << 1;
        if x != r {
            eprintln!("solver and table disagree on {} over {:?}: {} {}", p.show(t, 6), d, r, x);
            std::process::exit(3);
        }
        self.memo.insert(key, r);
        r
    }

    /// satisfiability of `extra` (term, polarity) with constraints and domains
    pub fn sat(&mut self, p: &mut Pool, cons: &[TermId], doms: &[Set], extra: Option<(TermId, bool)>) -> bool {
        self.stats.multi += 1;
        if let (Some((t, _)), true) = (extra, std::env::var("SYMX_DBG").is_ok()) { eprintln!("MULTI {}", p.show(t, 5)); }
        let (vars, cs) = self.slice(p, cons, extra.map(|e| e.0));
        let mut key: Vec<u64> = cs.iter().map(|c| *c as u64).collect();
        key.sort();
        key.push(u64::MAX);
        if let Some((t, b)) = extra {
            key.push((t as u64) << 1 | b as u64);
        }
        for v in &vars {
            let d = doms[*v as usize];
            let id = self.set_id(&d);
            key.push((*v as u64) << 32 | id as u64);
        }
        if let Some(&r) = self.mmemo.get(&key) {
            self.stats.memo_hits += 1;
            return r;
        }
        let a = self.asserts(p, &vars, &cs, doms, extra);
        let r = self.check(&a);
        if self.unknown {
            return true;
        }
        self.mmemo.insert(key, r);
        r
    }
    fn slice(&mut self, p: &mut Pool, cons: &[TermId], t: Option<TermId>) -> (Vec<u32>, Vec<TermId>) {
        match t {
            None => {
                let mut vs = Vec::new();
                for c in cons {
                    vs.extend(p.support(*c));
                }
                vs.sort();
                vs.dedup();
                (vs, cons.to_vec())
            }
            Some(t) => {
                let mut vs = p.support(t);
                let mut used = vec![false; cons.len()];
                let mut out = Vec::new();
                loop {
                    let mut ch = false;
                    for (i, c) in cons.iter().enumerate() {
                        if used[i] {
                            continue;
                        }
                        let s = p.support(*c);
                        if s.iter().any(|v| vs.contains(v)) {
                            used[i] = true;
                            out.push(*c);
                            for v in s {
                                if !vs.contains(&v) {
                                    vs.push(v)
                                }
                            }
                            ch = true;
                        }
                    }
                    if !ch {
                        break;
                    }
                }
                vs.sort();
                (vs, out)
            }
        }
    }
    fn asserts(&mut self, p: &mut Pool, vars: &[u32], cs: &[TermId], doms: &[Set], extra: Option<(TermId, bool)>) -> Vec<P> {
        let mut a = Vec::new();
        for v in vars {
            let t = p.var(*v);
            let e = self.enc(p, t);
            let s = doms[*v as usize];
            a.push(self.in_set(e, &s));
        }
        for c in cs {
            a.push(self.truth(p, *c, true));
        }
        if let Some((t, b)) = extra {
            a.push(self.truth(p, t, b));
        }
        a
    }
    /// a model of the path: one value per variable.  `pick` chooses within a domain for unconstrained variables.
    pub fn model(&mut self, p: &mut Pool, cons: &[TermId], doms: &[Set], pick: &mut dyn FnMut(&Set) -> u8) -> Vec<u8> {
        let mut out: Vec<u8> = doms.iter().map(|d| pick(d)).collect();
        if cons.is_empty() {
            return out;
        }
        let (vars, cs) = self.slice(p, cons, None);
        let a = self.asserts(p, &vars, &cs, doms, None);
        unsafe {
            let t0 = Instant::now();
            Z3_solver_push(self.ctx, self.s);
            for x in &a {
                Z3_solver_assert(self.ctx, self.s, *x);
            }
            let r = Z3_solver_check(self.ctx, self.s);
            self.stats.queries += 1;
            if r == 0 {
                Z3_solver_pop(self.ctx, self.s, 1);
                self.unknown = true;
                return out;
            }
            if r != 1 {
                eprintln!("z3: no model for a feasible path ({})", r);
                std::process::exit(3);
            }
            self.stats.sat += 1;
            let m = Z3_solver_get_model(self.ctx, self.s);
            Z3_model_inc_ref(self.ctx, m);
            for v in vars {
                let t = p.var(v);
                let e = self.enc(p, t);
                let mut o: P = std::ptr::null_mut();
                let mut x = 0u64;
                Z3_model_eval(self.ctx, m, e, true, &mut o);
                Z3_get_numeral_uint64(self.ctx, o, &mut x);
                out[v as usize] = x as u8;
            }
            Z3_model_dec_ref(self.ctx, m);
            Z3_solver_pop(self.ctx, self.s, 1);
            self.stats.nanos += t0.elapsed().as_nanos() as u64;
        }
        out
    }
}
