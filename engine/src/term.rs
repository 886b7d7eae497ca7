//! Hash-consed bit-vector terms over 8-bit input variables.
//!
//! Terms that depend on exactly one input byte additionally carry their value table and are
//! canonicalised by it; terms over several inputs are kept in a concatenation normal form.

use crate::ll::{sext, BinOp, Pred};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    #[inline]
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i + 8 <= b.len() {
            self.write_u64(u64::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3], b[i + 4], b[i + 5], b[i + 6], b[i + 7]]));
            i += 8;
        }
        while i < b.len() {
            self.write_u64(b[i] as u64);
            i += 1;
        }
    }
    #[inline]
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    #[inline]
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    #[inline]
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    #[inline]
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    #[inline]
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub type FxMap<K, T> = HashMap<K, T, BuildHasherDefault<Fx>>;

pub type TermId = u32;

/// A value: concrete (`t == 0`) or a term.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct V {
    pub c: u64,
    t: u32,
}
impl V {
    #[inline]
    pub fn c(c: u64) -> V {
        V { c, t: 0 }
    }
    #[inline]
    pub fn t(t: TermId) -> V {
        V { c: 0, t }
    }
    #[inline]
    pub fn is_c(self) -> bool {
        self.t == 0
    }
    #[inline]
    pub fn id(self) -> TermId {
        self.t
    }
}

#[inline]
pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
#[inline]
pub fn mask64(v: u64, w: u32) -> u64 {
    if w >= 64 {
        v
    } else {
        v & ((1u64 << w) - 1)
    }
}
fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    SExt,
    Extract, // k = low bit
    Concat,  // a = high, b = low
    Table,   // over variable a, table id in k
}

#[derive(Clone, Copy)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
    /// 0 none, u32::MAX several, otherwise variable index + 1
    pub sup: u32,
    /// table id + 1 for single-variable terms of at most 64 bits
    pub tab: u32,
}
pub const MANY: u32 = u32::MAX;

pub type Table = [u64; 256];
pub type Set = [u64; 4];

pub struct Pool {
    pub nodes: Vec<Node>,
    cons: FxMap<(Op, u32, u32, u32, u32, u128), TermId>,
    pub tables: Vec<Box<Table>>,
    tabmap: FxMap<u64, Vec<u32>>,
    canon: FxMap<(u32, u32, u32), TermId>, // var, width, table
    sets: Vec<Option<Set>>,
    vars: Vec<TermId>,
    supmap: FxMap<TermId, Vec<u32>>,
}

pub fn ev_bin(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let r = match op {
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => a.checked_div(b).unwrap_or(u128::MAX),
        Op::URem => a.checked_rem(b).unwrap_or(a),
        Op::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                if x >= 0 {
                    u128::MAX
                } else {
                    1
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sext128(a, w);
            (if b >= w as u128 { if x < 0 { -1 } else { 0 } } else { x >> b }) as u128
        }
        _ => unreachable!(),
    };
    mask(r, w)
}
/// comparison on operands of width w
pub fn ev_cmp(op: Op, w: u32, a: u128, b: u128) -> bool {
    match op {
        Op::Eq => a == b,
        Op::Ult => a < b,
        Op::Ule => a <= b,
        Op::Slt => sext128(a, w) < sext128(b, w),
        Op::Sle => sext128(a, w) <= sext128(b, w),
        _ => unreachable!(),
    }
}

impl Pool {
    pub fn new() -> Pool {
        let dummy = Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0, sup: 0, tab: 0 };
        Pool {
            nodes: vec![dummy],
            cons: FxMap::default(),
            tables: Vec::new(),
            tabmap: FxMap::default(),
            canon: FxMap::default(),
            sets: Vec::new(),
            vars: Vec::new(),
            supmap: FxMap::default(),
        }
    }
    #[inline]
    pub fn n(&self, t: TermId) -> &Node {
        &self.nodes[t as usize]
    }
    pub fn constant(&mut self, v: u128, w: u32) -> TermId {
        let v = mask(v, w);
        self.raw(Op::Const, w, 0, 0, 0, v)
    }
    pub fn is_const(&self, t: TermId) -> Option<u128> {
        let n = self.n(t);
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    /// term of a value
    pub fn of(&mut self, v: V, w: u32) -> TermId {
        if v.is_c() {
            self.constant(v.c as u128, w)
        } else {
            debug_assert_eq!(self.n(v.id()).w, w);
            v.id()
        }
    }
    pub fn val(&self, t: TermId) -> V {
        let n = self.n(t);
        if n.op == Op::Const && n.k <= u64::MAX as u128 {
            V::c(n.k as u64)
        } else {
            V::t(t)
        }
    }
    pub fn var(&mut self, i: u32) -> TermId {
        while self.vars.len() <= i as usize {
            let k = self.vars.len() as u32;
            let mut t = [0u64; 256];
            for (j, x) in t.iter_mut().enumerate() {
                *x = j as u64;
            }
            let id = self.nodes.len() as u32;
            let tab = self.intern(Box::new(t)) + 1;
            self.nodes.push(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: k as u128, sup: k + 1, tab });
            self.canon.insert((k, 8, tab - 1), id);
            self.vars.push(id);
        }
        self.vars[i as usize]
    }
    fn intern(&mut self, t: Box<Table>) -> u32 {
        let mut h = Fx::default();
        for x in t.iter() {
            h.write_u64(*x);
        }
        let h = h.finish();
        if let Some(v) = self.tabmap.get(&h) {
            for &i in v {
                if *self.tables[i as usize] == *t {
                    return i;
                }
            }
        }
        let i = self.tables.len() as u32;
        self.tables.push(t);
        self.sets.push(None);
        self.tabmap.entry(h).or_default().push(i);
        i
    }
    /// values of the variable for which a one-bit table is true
    pub fn true_set(&mut self, tab: u32) -> Set {
        if let Some(s) = self.sets[tab as usize] {
            return s;
        }
        let mut s = [0u64; 4];
        for (i, x) in self.tables[tab as usize].iter().enumerate() {
            if *x != 0 {
                s[i >> 6] |= 1 << (i & 63);
            }
        }
        self.sets[tab as usize] = Some(s);
        s
    }

    fn sup_of(&self, a: u32, b: u32, c: u32) -> u32 {
        let mut s = 0;
        for x in [a, b, c] {
            if x == 0 {
                continue;
            }
            let t = self.nodes[x as usize].sup;
            if t == 0 || t == s {
                continue;
            }
            if s == 0 {
                s = t
            } else {
                return MANY;
            }
        }
        s
    }

    fn at(&self, t: TermId, i: usize) -> u128 {
        let n = self.n(t);
        if n.op == Op::Const {
            n.k
        } else if n.tab != 0 {
            self.tables[n.tab as usize - 1][i] as u128
        } else {
            // a wide single-variable term (more than 64 bits)
            self.compute(n.op, n.w, n.a, n.b, n.c, n.k, i)
        }
    }
    fn compute(&self, op: Op, w: u32, a: u32, b: u32, c: u32, k: u128, i: usize) -> u128 {
        let r = match op {
            Op::Const => k,
            Op::Var => i as u128,
            Op::Not => !self.at(a, i),
            Op::Ite => {
                if self.at(a, i) != 0 {
                    self.at(b, i)
                } else {
                    self.at(c, i)
                }
            }
            Op::SExt => sext128(self.at(a, i), self.n(a).w) as u128,
            Op::Extract => self.at(a, i) >> k,
            Op::Concat => (self.at(a, i) << self.n(b).w) | self.at(b, i),
            Op::Table => self.tables[k as usize][i] as u128,
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                ev_cmp(op, self.n(a).w, self.at(a, i), self.at(b, i)) as u128
            }
            _ => ev_bin(op, w, self.at(a, i), self.at(b, i)),
        };
        mask(r, w)
    }

    /// value under an assignment
    pub fn eval(&self, t: TermId, asg: &dyn Fn(u32) -> u8) -> u128 {
        let mut memo = FxMap::default();
        self.eval_m(t, asg, &mut memo)
    }
    fn eval_m(&self, t: TermId, asg: &dyn Fn(u32) -> u8, memo: &mut FxMap<TermId, u128>) -> u128 {
        let n = *self.n(t);
        if n.op == Op::Const {
            return n.k;
        }
        if n.tab != 0 {
            return self.tables[n.tab as usize - 1][asg(n.sup - 1) as usize] as u128;
        }
        if let Some(&r) = memo.get(&t) {
            return r;
        }
        let a = if n.a != 0 { self.eval_m(n.a, asg, memo) } else { 0 };
        let r = match n.op {
            Op::Not => !a,
            Op::Ite => {
                if a != 0 {
                    self.eval_m(n.b, asg, memo)
                } else {
                    self.eval_m(n.c, asg, memo)
                }
            }
            Op::SExt => sext128(a, self.n(n.a).w) as u128,
            Op::Extract => a >> n.k,
            Op::Concat => (a << self.n(n.b).w) | self.eval_m(n.b, asg, memo),
            Op::Table => self.tables[n.k as usize][a as usize] as u128,
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                ev_cmp(n.op, self.n(n.a).w, a, self.eval_m(n.b, asg, memo)) as u128
            }
            Op::Const | Op::Var => unreachable!(),
            _ => ev_bin(n.op, n.w, a, self.eval_m(n.b, asg, memo)),
        };
        let r = mask(r, n.w);
        memo.insert(t, r);
        r
    }

    /// all variables of a term
    pub fn support(&mut self, t: TermId) -> Vec<u32> {
        let n = *self.n(t);
        if n.sup == 0 {
            return vec![];
        }
        if n.sup != MANY {
            return vec![n.sup - 1];
        }
        if let Some(v) = self.supmap.get(&t) {
            return v.clone();
        }
        let mut v = Vec::new();
        for x in [n.a, n.b, n.c] {
            if x != 0 {
                v.extend(self.support(x));
            }
        }
        v.sort();
        v.dedup();
        self.supmap.insert(t, v.clone());
        v
    }

    /// build a node: constant folding, table canonicalisation, hash-consing; no other rewriting
    fn raw(&mut self, op: Op, w: u32, a: u32, b: u32, c: u32, k: u128) -> TermId {
        let key = (op, w, a, b, c, k);
        if let Some(&t) = self.cons.get(&key) {
            return t;
        }
        let sup = self.sup_of(a, b, c);
        if sup == 0 && op != Op::Const {
            let v = self.compute(op, w, a, b, c, k, 0);
            let t = self.constant(v, w);
            self.cons.insert(key, t);
            return t;
        }
        let mut tab = 0;
        if sup != 0 && sup != MANY && w <= 64 {
            let mut t = Box::new([0u64; 256]);
            let mut same = true;
            for i in 0..256 {
                t[i] = self.compute(op, w, a, b, c, k, i) as u64;
                same &= t[i] == t[0];
            }
            if same {
                let r = self.constant(t[0] as u128, w);
                self.cons.insert(key, r);
                return r;
            }
            tab = self.intern(t) + 1;
            if let Some(&r) = self.canon.get(&(sup - 1, w, tab - 1)) {
                self.cons.insert(key, r);
                return r;
            }
        }
        let id = self.nodes.len() as u32;
        self.nodes.push(Node { op, w, a, b, c, k, sup, tab });
        if tab != 0 {
            self.canon.insert((sup - 1, w, tab - 1), id);
        }
        self.cons.insert(key, id);
        id
    }

    pub fn table_term(&mut self, var: u32, w: u32, t: Box<Table>) -> TermId {
        let v = self.var(var);
        let k = self.intern(t);
        self.raw(Op::Table, w, v, 0, 0, k as u128)
    }

    // ------------------------------------------------------------ constructors

    pub fn not(&mut self, a: TermId) -> TermId {
        let n = *self.n(a);
        if n.op == Op::Not {
            return n.a;
        }
        self.raw(Op::Not, n.w, a, 0, 0, 0)
    }

    pub fn concat(&mut self, hi: TermId, lo: TermId) -> TermId {
        let (h, l) = (*self.n(hi), *self.n(lo));
        let w = h.w + l.w;
        // merge adjacent constants and adjacent extracts
        if h.op == Op::Const && l.op == Op::Const {
            return self.constant((h.k << l.w) | l.k, w);
        }
        if h.op == Op::Extract && l.op == Op::Extract && h.a == l.a && h.k == l.k + l.w as u128 {
            return self.extract(h.a, l.k as u32, w);
        }
        if h.sup == l.sup && h.sup != MANY {
            return self.raw(Op::Concat, w, hi, lo, 0, 0);
        }
        // right-leaning: (a ++ b) ++ c = a ++ (b ++ c)
        if h.op == Op::Concat && h.tab == 0 {
            let t = self.concat(h.b, lo);
            return self.concat(h.a, t);
        }
        if l.op == Op::Concat && l.tab == 0 {
            // hi ++ (x ++ rest): merge hi and x where possible
            let x = *self.n(l.a);
            if (h.op == Op::Const && x.op == Op::Const)
                || (h.op == Op::Extract && x.op == Op::Extract && h.a == x.a && h.k == x.k + x.w as u128)
            {
                let m = self.concat(hi, l.a);
                return self.concat(m, l.b);
            }
        }
        self.raw(Op::Concat, w, hi, lo, 0, 0)
    }

    pub fn extract(&mut self, a: TermId, lo: u32, w: u32) -> TermId {
        let n = *self.n(a);
        if lo == 0 && n.w == w {
            return a;
        }
        if n.op == Op::Const {
            return self.constant(n.k >> lo, w);
        }
        if n.sup != MANY && n.tab != 0 {
            return self.raw(Op::Extract, w, a, 0, 0, lo as u128);
        }
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::Concat => {
                let lw = self.n(n.b).w;
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, w, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, w, x, y);
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.raw(Op::Extract, w, a, 0, 0, lo as u128)
    }

    /// is the value 0 or 1 by its form?
    pub fn boolish(&self, a: TermId) -> bool {
        let n = self.n(a);
        match n.op {
            _ if n.w == 1 => true,
            Op::Const => n.k < 2,
            Op::Concat => {
                let h = self.n(n.a);
                h.op == Op::Const && h.k == 0 && self.boolish(n.b)
            }
            Op::And | Op::Or | Op::Xor => self.boolish(n.a) && self.boolish(n.b),
            _ => false,
        }
    }
    pub fn zext(&mut self, a: TermId, w: u32) -> TermId {
        let n = *self.n(a);
        if n.w == w {
            return a;
        }
        let z = self.constant(0, w - n.w);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: TermId, w: u32) -> TermId {
        let n = *self.n(a);
        if n.w == w {
            return a;
        }
        if n.op == Op::Concat && self.is_const(n.a) == Some(0) {
            return self.zext(a, w);
        }
        if n.w == 1 && n.sup == MANY {
            let m = self.constant(u128::MAX, w);
            let z = self.constant(0, w);
            return self.ite(a, m, z);
        }
        self.raw(Op::SExt, w, a, 0, 0, 0)
    }

    pub fn ite(&mut self, c: TermId, a: TermId, b: TermId) -> TermId {
        if a == b {
            return a;
        }
        match self.is_const(c) {
            Some(0) => return b,
            Some(_) => return a,
            _ => {}
        }
        let w = self.n(a).w;
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(Op::Or, 1, c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.bin(Op::And, 1, n, b);
                }
                (_, Some(0)) => return self.bin(Op::And, 1, c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, 1, n, a);
                }
                _ => {}
            }
        }
        self.raw(Op::Ite, w, c, a, b, 0)
    }

    fn is_concat(&self, t: TermId) -> bool {
        let n = self.n(t);
        n.op == Op::Concat && n.sup == MANY
    }
    fn low_width(&self, t: TermId) -> u32 {
        self.n(self.n(t).b).w
    }

    pub fn bin(&mut self, op: Op, w: u32, a: TermId, b: TermId) -> TermId {
        let (mut a, mut b) = (a, b);
        let commut = matches!(op, Op::And | Op::Or | Op::Xor | Op::Add | Op::Mul);
        // constants to the right
        if commut && (self.is_const(a).is_some() || (self.is_const(b).is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Op::Const && nb.op == Op::Const {
            let v = ev_bin(op, w, na.k, nb.k);
            return self.constant(v, w);
        }
        let ones = mask(u128::MAX, w);
        if nb.op == Op::Const {
            match op {
                Op::And if nb.k == 0 => return b,
                Op::And if nb.k == ones => return a,
                Op::Or if nb.k == ones => return b,
                Op::Or | Op::Xor | Op::Add | Op::Sub | Op::Shl | Op::LShr | Op::AShr if nb.k == 0 => return a,
                Op::Xor if nb.k == ones => return self.not(a),
                Op::Mul if nb.k == 1 => return a,
                Op::Mul if nb.k == 0 => return b,
                Op::UDiv if nb.k == 1 => return a,
                _ => {}
            }
        }
        if a == b {
            match op {
                Op::And | Op::Or => return a,
                Op::Xor | Op::Sub => return self.constant(0, w),
                _ => {}
            }
        }
        // complementary booleans
        if w == 1 && matches!(op, Op::And | Op::Or) && (na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a) {
            return self.constant((op == Op::Or) as u128, 1);
        }
        let sup = self.sup_of(a, b, 0);
        if sup == MANY || w > 64 {
            match op {
                Op::And | Op::Or | Op::Xor => {
                    if self.is_concat(a) || self.is_concat(b) {
                        let ok = |p: &Pool, t: TermId| {
                            p.is_concat(t) || p.is_const(t).is_some() || p.n(t).op == Op::Extract || p.n(t).tab != 0
                        };
                        if ok(self, a) && ok(self, b) {
                            let lw = if self.is_concat(a) && self.is_concat(b) {
                                self.low_width(a).min(self.low_width(b))
                            } else if self.is_concat(a) {
                                self.low_width(a)
                            } else {
                                self.low_width(b)
                            };
                            let (al, bl) = (self.extract(a, 0, lw), self.extract(b, 0, lw));
                            let (ah, bh) = (self.extract(a, lw, w - lw), self.extract(b, lw, w - lw));
                            let l = self.bin(op, lw, al, bl);
                            let h = self.bin(op, w - lw, ah, bh);
                            return self.concat(h, l);
                        }
                    }
                    if nb.op == Op::Const && op == Op::And && w > 1 {
                        // low mask / high mask
                        let tz = nb.k.trailing_zeros();
                        let run = (nb.k >> tz).trailing_ones();
                        if nb.k == mask(u128::MAX, run) << tz {
                            let m = self.extract(a, tz, run);
                            let m = if tz > 0 {
                                let z = self.constant(0, tz);
                                self.concat(m, z)
                            } else {
                                m
                            };
                            return self.zext(m, w);
                        }
                    }
                }
                Op::Shl | Op::LShr if nb.op == Op::Const => {
                    let k = nb.k as u32;
                    if nb.k >= w as u128 {
                        return self.constant(0, w);
                    }
                    if op == Op::Shl {
                        let h = self.extract(a, 0, w - k);
                        let z = self.constant(0, k);
                        return self.concat(h, z);
                    } else {
                        let h = self.extract(a, k, w - k);
                        return self.zext(h, w);
                    }
                }
                Op::Sub if nb.op == Op::Const => {
                    let k = self.constant(nb.k.wrapping_neg(), w);
                    return self.bin(Op::Add, w, a, k);
                }
                Op::Add if nb.op == Op::Const && na.op == Op::Add => {
                    if let Some(k) = self.is_const(na.b) {
                        let k2 = self.constant(k.wrapping_add(nb.k), w);
                        return self.bin(Op::Add, w, na.a, k2);
                    }
                }
                Op::UDiv | Op::URem if nb.op == Op::Const && nb.k.is_power_of_two() => {
                    let s = nb.k.trailing_zeros();
                    if op == Op::UDiv {
                        let k = self.constant(s as u128, w);
                        return self.bin(Op::LShr, w, a, k);
                    } else if s == 0 {
                        return self.constant(0, w);
                    } else {
                        let l = self.extract(a, 0, s);
                        return self.zext(l, w);
                    }
                }
                _ => {}
            }
        }
        self.raw(op, w, a, b, 0, 0)
    }

    fn max_val(&self, t: TermId) -> u128 {
        let n = self.n(t);
        match n.op {
            Op::Const => n.k,
            Op::Concat => (self.max_val(n.a) << self.n(n.b).w) | mask(u128::MAX, self.n(n.b).w),
            _ => mask(u128::MAX, n.w),
        }
    }

    pub fn cmp(&mut self, op: Op, a: TermId, b: TermId) -> TermId {
        let (na, nb) = (*self.n(a), *self.n(b));
        let w = na.w;
        if na.op == Op::Const && nb.op == Op::Const {
            let v = ev_cmp(op, w, na.k, nb.k);
            return self.constant(v as u128, 1);
        }
        if a == b {
            return self.constant(matches!(op, Op::Eq | Op::Ule | Op::Sle) as u128, 1);
        }
        let sup = self.sup_of(a, b, 0);
        if op == Op::Eq {
            if na.op == Op::Const || (nb.op != Op::Const && a > b) {
                if sup == MANY || w > 64 {
                    return self.cmp(op, b, a);
                }
            }
            if w == 1 {
                if let Some(k) = self.is_const(b) {
                    return if k == 1 { a } else { self.not(a) };
                }
            }
            if sup == MANY || w > 64 {
                if self.is_concat(a) || self.is_concat(b) || ((na.op == Op::Concat || nb.op == Op::Concat) && w > 64) {
                    let lw = if na.op == Op::Concat && nb.op == Op::Concat {
                        self.low_width(a).min(self.low_width(b))
                    } else if na.op == Op::Concat {
                        self.low_width(a)
                    } else {
                        self.low_width(b)
                    };
                    let (al, bl) = (self.extract(a, 0, lw), self.extract(b, 0, lw));
                    let l = self.cmp(Op::Eq, al, bl);
                    if self.is_const(l) == Some(0) {
                        return l;
                    }
                    let (ah, bh) = (self.extract(a, lw, w - lw), self.extract(b, lw, w - lw));
                    let h = self.cmp(Op::Eq, ah, bh);
                    return self.bin(Op::And, 1, l, h);
                }
                if nb.op == Op::Const {
                    match na.op {
                        Op::Or if nb.k == 0 => {
                            let z = b;
                            let l = self.cmp(Op::Eq, na.a, z);
                            let h = self.cmp(Op::Eq, na.b, z);
                            return self.bin(Op::And, 1, l, h);
                        }
                        Op::Xor if nb.k == 0 => return self.cmp(Op::Eq, na.a, na.b),
                        Op::Add => {
                            if let Some(k) = self.is_const(na.b) {
                                let c = self.constant(nb.k.wrapping_sub(k), w);
                                return self.cmp(Op::Eq, na.a, c);
                            }
                        }
                        Op::Not => {
                            let c = self.constant(!nb.k, w);
                            return self.cmp(Op::Eq, na.a, c);
                        }
                        Op::Ite => {
                            if self.is_const(na.b).is_some() || self.is_const(na.c).is_some() {
                                let x = self.cmp(Op::Eq, na.b, b);
                                let y = self.cmp(Op::Eq, na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        _ => {}
                    }
                }
            }
            return self.raw(op, 1, a, b, 0, 0);
        }
        if sup == MANY || w > 64 {
            // unsigned comparisons with leading zeros
            if matches!(op, Op::Ult | Op::Ule) {
                let (ma, mb) = (self.max_val(a), self.max_val(b));
                if na.op == Op::Const {
                    // k < b
                    if na.k > mb || (na.k == mb && op == Op::Ult) {
                        return self.constant(0, 1);
                    }
                    if op == Op::Ule && na.k == 0 {
                        return self.constant(1, 1);
                    }
                    if na.k == 0 {
                        let z = self.constant(0, w);
                        let e = self.cmp(Op::Eq, b, z);
                        return self.not(e);
                    }
                }
                if nb.op == Op::Const {
                    if ma < nb.k || (ma == nb.k && op == Op::Ule) {
                        return self.constant(1, 1);
                    }
                    if op == Op::Ult && nb.k == 0 {
                        return self.constant(0, 1);
                    }
                    if (op == Op::Ult && nb.k == 1) || (op == Op::Ule && nb.k == 0) {
                        let z = self.constant(0, w);
                        return self.cmp(Op::Eq, a, z);
                    }
                }
                let need = 128 - (ma | mb).leading_zeros();
                let need = need.max(1);
                if need < w {
                    let x = self.extract(a, 0, need);
                    let y = self.extract(b, 0, need);
                    return self.cmp(op, x, y);
                }
                // differing low parts below a power of two bound: a < 2^k  <=>  high part == 0
                if nb.op == Op::Const && op == Op::Ult && nb.k.is_power_of_two() {
                    let s = nb.k.trailing_zeros();
                    let h = self.extract(a, s, w - s);
                    let z = self.constant(0, w - s);
                    return self.cmp(Op::Eq, h, z);
                }
            } else {
                // signed: both non-negative by construction
                let (ma, mb) = (self.max_val(a), self.max_val(b));
                let top = 1u128 << (w - 1);
                if ma < top && mb < top {
                    return self.cmp(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                // sign test
                if op == Op::Slt && self.is_const(b) == Some(0) {
                    return self.extract(a, w - 1, 1);
                }
                if op == Op::Slt && self.is_const(a) == Some(mask(u128::MAX, w)) {
                    let s = self.extract(b, w - 1, 1);
                    return self.not(s);
                }
            }
        }
        self.raw(op, 1, a, b, 0, 0)
    }

    // ------------------------------------------------------------ IR operations on values

    pub fn vbin(&mut self, op: BinOp, w: u32, a: V, b: V) -> V {
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
        };
        let (x, y) = (self.of(a, w), self.of(b, w));
        let r = self.bin(o, w, x, y);
        self.val(r)
    }
    pub fn vcmp(&mut self, p: Pred, w: u32, a: V, b: V) -> V {
        let (x, y) = (self.of(a, w), self.of(b, w));
        let r = match p {
            Pred::Eq => self.cmp(Op::Eq, x, y),
            Pred::Ne => {
                let e = self.cmp(Op::Eq, x, y);
                self.not(e)
            }
            Pred::Ult => self.cmp(Op::Ult, x, y),
            Pred::Ule => self.cmp(Op::Ule, x, y),
            Pred::Ugt => self.cmp(Op::Ult, y, x),
            Pred::Uge => self.cmp(Op::Ule, y, x),
            Pred::Slt => self.cmp(Op::Slt, x, y),
            Pred::Sle => self.cmp(Op::Sle, x, y),
            Pred::Sgt => self.cmp(Op::Slt, y, x),
            Pred::Sge => self.cmp(Op::Sle, y, x),
        };
        self.val(r)
    }
    pub fn vextract(&mut self, a: V, w: u32, lo: u32, n: u32) -> V {
        if a.is_c() {
            return V::c(mask64(if lo >= 64 { 0 } else { a.c >> lo }, n));
        }
        debug_assert_eq!(self.n(a.id()).w, w);
        let r = self.extract(a.id(), lo, n);
        self.val(r)
    }
    pub fn vzext(&mut self, a: V, to: u32) -> V {
        if a.is_c() {
            return a;
        }
        let r = self.zext(a.id(), to);
        self.val(r)
    }
    pub fn vsext(&mut self, a: V, from: u32, to: u32) -> V {
        if a.is_c() && to <= 64 {
            return V::c(mask64(sext(a.c, from), to));
        }
        let t = self.of(a, from);
        let r = self.sext(t, to);
        self.val(r)
    }
    pub fn vite(&mut self, c: V, w: u32, a: V, b: V) -> V {
        if c.is_c() {
            return if c.c & 1 != 0 { a } else { b };
        }
        let (x, y) = (self.of(a, w), self.of(b, w));
        let r = self.ite(c.id(), x, y);
        self.val(r)
    }
    pub fn vconcat(&mut self, hi: V, hw: u32, lo: V, lw: u32) -> V {
        if hi.is_c() && lo.is_c() && hw + lw <= 64 {
            return V::c((hi.c << lw) | lo.c);
        }
        let (x, y) = (self.of(hi, hw), self.of(lo, lw));
        let r = self.concat(x, y);
        self.val(r)
    }

    pub fn show(&self, t: TermId, depth: u32) -> String {
        let n = self.n(t);
        if depth == 0 && n.a != 0 {
            return format!("t{}", t);
        }
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => format!("v{}", n.k),
            _ => {
                let mut s = format!("({:?}:{}", n.op, n.w);
                if n.op == Op::Extract {
                    s += &format!("@{}", n.k);
                }
                for x in [n.a, n.b, n.c] {
                    if x != 0 {
                        s += " ";
                        s += &self.show(x, depth - 1);
                    }
                }
                s + ")"
            }
        }
    }
}

#[inline]
pub fn set_and(a: &Set, b: &Set) -> Set {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
#[inline]
pub fn set_minus(a: &Set, b: &Set) -> Set {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
#[inline]
pub fn set_empty(a: &Set) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
#[inline]
pub fn set_has(a: &Set, i: usize) -> bool {
    a[i >> 6] >> (i & 63) & 1 != 0
}
pub fn set_len(a: &Set) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
pub fn set_iter(a: &Set) -> impl Iterator<Item = u8> + '_ {
    (0..256usize).filter(move |i| set_has(a, *i)).map(|i| i as u8)
}
