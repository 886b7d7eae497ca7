//! Byte-addressed copy-on-write memory with a symbolic shadow.

use crate::term::*;
use std::rc::Rc;

pub const PAGE: usize = 256;
const CHUNK: usize = 256; // pages per chunk: 64 KiB
const CB: u64 = (PAGE * CHUNK) as u64;

#[derive(Clone)]
pub struct Page {
    pub b: [u8; PAGE],
    pub s: Option<Box<[u32; PAGE]>>,
}
#[derive(Clone)]
pub struct Chunk {
    p: Vec<Option<Rc<Page>>>,
}

pub const STACK: u64 = 0x1000_0000;
pub const STACK_SIZE: u64 = 0x0400_0000;
pub const HEAP: u64 = 0x4000_0000;
pub const HEAP_SIZE: u64 = 0x4000_0000;

#[derive(Clone, Default)]
pub struct Seg {
    chunks: Vec<Option<Rc<Chunk>>>,
}

#[derive(Clone)]
pub struct Mem {
    glob: Seg,
    stack: Seg,
    heap: Seg,
    pub glob_end: u64,
    pub heap_top: u64,
}

#[derive(Debug)]
pub struct Fault(pub u64);

impl Seg {
    #[inline]
    fn page(&self, off: u64) -> Option<&Page> {
        let c = (off / CB) as usize;
        match self.chunks.get(c) {
            Some(Some(ch)) => ch.p[(off as usize / PAGE) % CHUNK].as_deref(),
            _ => None,
        }
    }
    #[inline]
    fn page_mut(&mut self, off: u64) -> &mut Page {
        let c = (off / CB) as usize;
        if self.chunks.len() <= c {
            self.chunks.resize(c + 1, None);
        }
        let ch = self.chunks[c].get_or_insert_with(|| Rc::new(Chunk { p: vec![None; CHUNK] }));
        let ch = Rc::make_mut(ch);
        let pg = ch.p[(off as usize / PAGE) % CHUNK].get_or_insert_with(|| Rc::new(Page { b: [0; PAGE], s: None }));
        Rc::make_mut(pg)
    }
}

impl Mem {
    pub fn new(glob_end: u64) -> Mem {
        Mem { glob: Seg::default(), stack: Seg::default(), heap: Seg::default(), glob_end, heap_top: HEAP }
    }
    #[inline]
    fn locate(&self, a: u64, n: u64) -> Result<(u8, u64), Fault> {
        if a >= HEAP && a < HEAP + HEAP_SIZE {
            if a + n > self.heap_top {
                return Err(Fault(a));
            }
            Ok((2, a - HEAP))
        } else if a >= STACK && a < STACK + STACK_SIZE {
            Ok((1, a - STACK))
        } else if a >= crate::ll::GLOBAL_BASE && a.wrapping_add(n) <= self.glob_end {
            Ok((0, a))
        } else {
            Err(Fault(a))
        }
    }
    #[inline]
    fn seg(&self, k: u8) -> &Seg {
        match k {
            0 => &self.glob,
            1 => &self.stack,
            _ => &self.heap,
        }
    }
    #[inline]
    fn seg_mut(&mut self, k: u8) -> &mut Seg {
        match k {
            0 => &mut self.glob,
            1 => &mut self.stack,
            _ => &mut self.heap,
        }
    }
    /// concrete little-endian read of up to 8 bytes; None if any byte is symbolic
    #[inline]
    pub fn read_c(&self, a: u64, n: usize) -> Result<Option<u64>, Fault> {
        let (k, off) = self.locate(a, n as u64)?;
        let i = off as usize % PAGE;
        if i + n <= PAGE {
            match self.seg(k).page(off) {
                None => Ok(Some(0)),
                Some(p) => {
                    if let Some(s) = &p.s {
                        if s[i..i + n].iter().any(|x| *x != 0) {
                            return Ok(None);
                        }
                    }
                    if n == 8 {
                        let mut x = [0u8; 8];
                        x.copy_from_slice(&p.b[i..i + 8]);
                        return Ok(Some(u64::from_le_bytes(x)));
                    }
                    let mut r = 0u64;
                    for j in 0..n {
                        r |= (p.b[i + j] as u64) << (8 * j);
                    }
                    Ok(Some(r))
                }
            }
        } else {
            let mut r = 0u64;
            for j in 0..n {
                let (c, s) = self.byte(a + j as u64)?;
                if s != 0 {
                    return Ok(None);
                }
                r |= (c as u64) << (8 * j);
            }
            Ok(Some(r))
        }
    }
    #[inline]
    pub fn byte(&self, a: u64) -> Result<(u8, u32), Fault> {
        let (k, off) = self.locate(a, 1)?;
        Ok(match self.seg(k).page(off) {
            None => (0, 0),
            Some(p) => {
                let i = off as usize % PAGE;
                (p.b[i], p.s.as_ref().map(|s| s[i]).unwrap_or(0))
            }
        })
    }
    #[inline]
    pub fn byte_v(&self, a: u64) -> Result<V, Fault> {
        let (b, s) = self.byte(a)?;
        Ok(if s != 0 { V::t(s) } else { V::c(b as u64) })
    }
    #[inline]
    pub fn set_byte(&mut self, a: u64, v: V) -> Result<(), Fault> {
        let (k, off) = self.locate(a, 1)?;
        let p = self.seg_mut(k).page_mut(off);
        let i = off as usize % PAGE;
        if v.is_c() {
            p.b[i] = v.c as u8;
            if let Some(s) = &mut p.s {
                s[i] = 0;
            }
        } else {
            p.b[i] = 0xEE;
            p.s.get_or_insert_with(|| Box::new([0; PAGE]))[i] = v.id();
        }
        Ok(())
    }
    #[inline]
    pub fn write_c(&mut self, a: u64, n: usize, v: u64) -> Result<(), Fault> {
        let (k, off) = self.locate(a, n as u64)?;
        let i = off as usize % PAGE;
        if i + n <= PAGE {
            let p = self.seg_mut(k).page_mut(off);
            if n == 8 {
                p.b[i..i + 8].copy_from_slice(&v.to_le_bytes());
            } else {
                let x = v.to_le_bytes();
                p.b[i..i + n].copy_from_slice(&x[..n]);
            }
            if let Some(s) = &mut p.s {
                for x in &mut s[i..i + n] {
                    *x = 0;
                }
            }
        } else {
            for j in 0..n {
                self.set_byte(a + j as u64, V::c((v >> (8 * j)) & 0xff))?;
            }
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), Fault> {
        if n == 0 || dst == src {
            return Ok(());
        }
        if n >= 1 << 28 {
            return Err(Fault(dst));
        }
        let mut tmp: Vec<(u8, u32)> = Vec::with_capacity(n as usize);
        let mut a = src;
        let end = src + n;
        let (k, _) = self.locate(src, n)?;
        let mut anysym = false;
        while a < end {
            let off = if k == 0 { a } else if k == 1 { a - STACK } else { a - HEAP };
            let i = off as usize % PAGE;
            let m = (PAGE - i).min((end - a) as usize);
            match self.seg(k).page(off) {
                None => tmp.extend(std::iter::repeat((0, 0)).take(m)),
                Some(p) => match &p.s {
                    None => tmp.extend(p.b[i..i + m].iter().map(|b| (*b, 0))),
                    Some(s) => {
                        anysym = true;
                        tmp.extend((0..m).map(|j| (p.b[i + j], s[i + j])))
                    }
                },
            }
            a += m as u64;
        }
        let (k, _) = self.locate(dst, n)?;
        let mut a = dst;
        let end = dst + n;
        let mut t = 0;
        while a < end {
            let off = if k == 0 { a } else if k == 1 { a - STACK } else { a - HEAP };
            let i = off as usize % PAGE;
            let m = (PAGE - i).min((end - a) as usize);
            let p = self.seg_mut(k).page_mut(off);
            for j in 0..m {
                p.b[i + j] = tmp[t + j].0;
            }
            if anysym && tmp[t..t + m].iter().any(|x| x.1 != 0) {
                let s = p.s.get_or_insert_with(|| Box::new([0; PAGE]));
                for j in 0..m {
                    s[i + j] = tmp[t + j].1;
                }
            } else if let Some(s) = &mut p.s {
                for j in 0..m {
                    s[i + j] = 0;
                }
            }
            t += m;
            a += m as u64;
        }
        Ok(())
    }
    pub fn fill(&mut self, dst: u64, v: V, n: u64) -> Result<(), Fault> {
        if n >= 1 << 28 {
            return Err(Fault(dst));
        }
        for j in 0..n {
            self.set_byte(dst + j, v)?;
        }
        Ok(())
    }
    pub fn write_bytes(&mut self, a: u64, b: &[u8]) -> Result<(), Fault> {
        for (i, x) in b.iter().enumerate() {
            self.set_byte(a + i as u64, V::c(*x as u64))?;
        }
        Ok(())
    }
}
