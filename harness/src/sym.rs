//! Harness interface.  Under the symbolic engine these externs create solver variables; in the
//! native replay binary they read a recorded witness.

extern "C-unwind" {
    /// one input byte, any value of the 256-bit set
    fn sym_set(a: u64, b: u64, c: u64, d: u64) -> u8;
    /// one input in 0..n, explored value by value
    fn sym_pick(n: u32) -> u32;
    fn sym_assume(b: bool);
    fn sym_fail(p: *const u8, n: usize) -> !;
    fn sym_note(tag: u64, v: u64);
    fn sym_cover(id: u32);
    /// the text being parsed, for the report of a violation
    fn sym_show(p: *const u8, n: usize);
    /// calls that look or reach outside the process so far, and bytes written to the error output
    fn sym_effects() -> u64;
    fn sym_out_len() -> usize;
    fn sym_out_byte(i: usize) -> u8;
}

#[derive(Clone, Copy)]
pub struct Set(pub [u64; 4]);

impl Set {
    pub const EMPTY: Set = Set([0; 4]);
    pub const fn range(lo: u8, hi: u8) -> Set {
        let mut s = [0u64; 4];
        let mut i = lo as usize;
        while i <= hi as usize {
            s[i >> 6] |= 1 << (i & 63);
            i += 1;
        }
        Set(s)
    }
    pub const fn one(c: u8) -> Set {
        Set::range(c, c)
    }
    pub const fn of(b: &[u8]) -> Set {
        let mut s = [0u64; 4];
        let mut i = 0;
        while i < b.len() {
            s[(b[i] >> 6) as usize] |= 1 << (b[i] & 63);
            i += 1;
        }
        Set(s)
    }
    pub const fn or(self, o: Set) -> Set {
        let (a, b) = (self.0, o.0);
        Set([a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]])
    }
    pub const fn minus(self, o: Set) -> Set {
        let (a, b) = (self.0, o.0);
        Set([a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]])
    }
    /// the `k`-th member, around and around
    pub fn nth(self, k: u32) -> u8 {
        let n = self.0.iter().map(|w| w.count_ones()).sum::<u32>();
        let mut k = k % n;
        for c in 0..=255u8 {
            if self.0[(c >> 6) as usize] >> (c & 63) & 1 == 1 {
                if k == 0 {
                    return c;
                }
                k -= 1
            }
        }
        unreachable!()
    }
    pub const fn and(self, o: Set) -> Set {
        let (a, b) = (self.0, o.0);
        Set([a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]])
    }
}

pub const LOWER: Set = Set::range(b'a', b'z');
pub const UPPER: Set = Set::range(b'A', b'Z');
pub const DIGIT: Set = Set::range(b'0', b'9');
pub const ASCII: Set = Set::range(0, 127);
pub const PRINT: Set = Set::range(32, 126);

pub fn byte(s: Set) -> u8 {
    unsafe { sym_set(s.0[0], s.0[1], s.0[2], s.0[3]) }
}
pub fn pick(n: u32) -> u32 {
    unsafe { sym_pick(n) }
}
pub fn flag() -> bool {
    pick(2) == 1
}
pub fn assume(b: bool) {
    unsafe { sym_assume(b) }
}
pub fn fail(m: &str) -> ! {
    unsafe { sym_fail(m.as_ptr(), m.len()) }
}
pub fn check(b: bool, m: &str) {
    if !b {
        fail(m)
    }
}
pub fn note(tag: u64, v: u64) {
    unsafe { sym_note(tag, v) }
}
pub fn show(v: &[u8]) {
    unsafe { sym_show(v.as_ptr(), v.len()) }
}
pub fn cover(id: u32) {
    unsafe { sym_cover(id) }
}
pub fn effects() -> u64 {
    unsafe { sym_effects() }
}
pub fn stdout() -> Vec<u8> {
    unsafe {
        let n = sym_out_len();
        (0..n).map(|i| sym_out_byte(i)).collect()
    }
}
/// the bytes of a source text, as the parser's input type
pub fn text(v: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(v) }
}
/// one input in 0..n for n above the range of `pick`
pub fn pick_wide(n: usize) -> usize {
    if n <= 256 {
        return pick(n as u32) as usize;
    }
    let hi = pick(((n + 255) / 256) as u32) as usize;
    let left = n - hi * 256;
    hi * 256 + pick(left.min(256) as u32) as usize
}
