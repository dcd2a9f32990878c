//! Copy-on-write byte memory with per-byte validity and optional symbolic bytes.
use crate::term::T;
use std::rc::Rc;

pub const PG: u64 = 4096;
pub const HEAP_BASE: u64 = 0x1000_0000;
pub const STACK_BASE: u64 = 0x6000_0000;
pub const STACK_END: u64 = 0x7000_0000;

#[derive(Clone)]
pub struct Sym {
    pub t: Box<[T]>,
    pub k: Box<[u8]>,
}
#[derive(Clone)]
pub struct Page {
    pub data: Box<[u8; PG as usize]>,
    pub valid: [u64; 64],
    pub live: u32,
    pub sym: Option<Box<Sym>>,
}
impl Page {
    fn new() -> Page { Page { data: Box::new([0; PG as usize]), valid: [0; 64], live: 0, sym: None } }
}
#[derive(Clone, Default)]
pub struct Region {
    pub base: u64,
    pub pages: Vec<Option<Rc<Page>>>,
}
#[derive(Clone)]
pub struct Mem {
    pub glob: Region,
    pub heap: Region,
    pub stack: Region,
    pub hp: u64,
    pub sp: u64,
    pub nalloc: u64,
    /// fresh memory is filled with POISON
    pub poison: bool,
}
/// bit pattern of a float that was never written
pub const POISON: u64 = 0xfff7_a5c3_a5c3_a5c3;

/// first address that is not valid
pub type MR<X> = Result<X, u64>;

fn set_bits(v: &mut [u64; 64], s: usize, e: usize, on: bool) -> i32 {
    let mut n = 0i32;
    let mut i = s;
    while i < e {
        let w = i >> 6;
        let b = i & 63;
        let l = (64 - b).min(e - i);
        let m = (if l == 64 { u64::MAX } else { (1u64 << l) - 1 }) << b;
        let old = v[w];
        let new = if on { old | m } else { old & !m };
        n += new.count_ones() as i32 - old.count_ones() as i32;
        v[w] = new;
        i += l;
    }
    n
}

impl Region {
    fn get(&self, p: u64) -> Option<&Rc<Page>> { self.pages.get(p as usize).and_then(|x| x.as_ref()) }
    fn get_mut(&mut self, p: u64) -> Option<&mut Page> { self.pages.get_mut(p as usize).and_then(|x| x.as_mut()).map(Rc::make_mut) }
    fn force(&mut self, p: u64) -> &mut Page {
        let p = p as usize;
        if self.pages.len() <= p { self.pages.resize(p + 1, None); }
        Rc::make_mut(self.pages[p].get_or_insert_with(|| Rc::new(Page::new())))
    }
}

impl Mem {
    pub fn new(gbase: u64) -> Mem {
        Mem {
            glob: Region { base: gbase, pages: vec![] },
            heap: Region { base: HEAP_BASE, pages: vec![] },
            stack: Region { base: STACK_BASE, pages: vec![] },
            hp: HEAP_BASE + 64,
            sp: STACK_BASE + 64,
            nalloc: 0,
            poison: false,
        }
    }
    #[inline]
    fn reg(&self, a: u64) -> Option<&Region> {
        if a >= HEAP_BASE && a < STACK_BASE { Some(&self.heap) } else if a >= STACK_BASE && a < STACK_END { Some(&self.stack) } else if a >= self.glob.base && a < HEAP_BASE { Some(&self.glob) } else { None }
    }
    #[inline]
    fn reg_mut(&mut self, a: u64) -> Option<&mut Region> {
        if a >= HEAP_BASE && a < STACK_BASE { Some(&mut self.heap) } else if a >= STACK_BASE && a < STACK_END { Some(&mut self.stack) } else if a >= self.glob.base && a < HEAP_BASE { Some(&mut self.glob) } else { None }
    }
    /// (page, offset) if [a, a+n) lies in one page and is valid
    #[inline]
    fn fast(&self, a: u64, n: u64) -> Option<(&Page, usize)> {
        let r = self.reg(a)?;
        let o = a - r.base;
        let p = r.pages.get((o / PG) as usize)?.as_ref()?;
        let off = (o % PG) as usize;
        if off as u64 + n > PG { return None; }
        let w = off >> 6;
        let b = off & 63;
        if b as u64 + n <= 64 {
            let m = (if n == 64 { u64::MAX } else { (1u64 << n) - 1 }) << b;
            if p.valid[w] & m != m { return None; }
        } else {
            for i in off..off + n as usize { if p.valid[i >> 6] >> (i & 63) & 1 == 0 { return None; } }
        }
        Some((p, off))
    }
    pub fn set_valid(&mut self, a: u64, n: u64, on: bool) {
        let Some(r) = self.reg_mut(a) else { return };
        let mut o = a - r.base;
        let end = o + n;
        while o < end {
            let pi = o / PG;
            let s = (o % PG) as usize;
            let e = ((end - pi * PG).min(PG)) as usize;
            if on {
                let p = r.force(pi);
                let d = set_bits(&mut p.valid, s, e, true);
                p.live = (p.live as i32 + d) as u32;
                if let Some(sy) = &mut p.sym { sy.t[s..e].fill(0); }
            } else if let Some(p) = r.get_mut(pi) {
                let d = set_bits(&mut p.valid, s, e, false);
                p.live = (p.live as i32 + d) as u32;
                if let Some(sy) = &mut p.sym { sy.t[s..e].fill(0); }
                if p.live == 0 && p.data[4088..] == [0; 8] { r.pages[pi as usize] = None; }
            }
            o = pi * PG + e as u64;
        }
    }
    pub fn is_valid(&self, a: u64, n: u64) -> MR<()> {
        if n == 0 { return Ok(()); }
        if n <= 64 && self.fast(a, n).is_some() { return Ok(()); }
        for i in 0..n {
            let x = a.wrapping_add(i);
            let ok = (|| {
                let r = self.reg(x)?;
                let o = x - r.base;
                let p = r.get(o / PG)?;
                let k = (o % PG) as usize;
                Some(p.valid[k >> 6] >> (k & 63) & 1 == 1)
            })();
            if ok != Some(true) { return Err(x); }
        }
        Ok(())
    }
    /// concrete read of n<=16 bytes; symbolic bytes reported through `sym`
    #[inline]
    pub fn read(&self, a: u64, n: u64, sym: &mut Option<[(T, u8); 16]>) -> MR<u128> {
        if let Some((p, o)) = self.fast(a, n) {
            let n = n as usize;
            if let Some(s) = &p.sym {
                if s.t[o..o + n].iter().any(|&t| t != 0) {
                    let mut v = [(0, 0); 16];
                    for i in 0..n { v[i] = (s.t[o + i], s.k[o + i]); }
                    *sym = Some(v);
                }
            }
            if n == 8 { return Ok(u64::from_le_bytes(p.data[o..o + 8].try_into().unwrap()) as u128); }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&p.data[o..o + n]);
            return Ok(u128::from_le_bytes(b));
        }
        self.is_valid(a, n)?;
        let mut v = 0u128;
        let mut sv = [(0, 0); 16];
        let mut any = false;
        for i in 0..n {
            let (b, t, k) = self.byte(a + i)?;
            v |= (b as u128) << (8 * i);
            if t != 0 { any = true; sv[i as usize] = (t, k); }
        }
        if any { *sym = Some(sv); }
        Ok(v)
    }
    pub fn byte(&self, a: u64) -> MR<(u8, T, u8)> {
        let r = self.reg(a).ok_or(a)?;
        let o = a - r.base;
        let p = r.get(o / PG).ok_or(a)?;
        let k = (o % PG) as usize;
        if p.valid[k >> 6] >> (k & 63) & 1 == 0 { return Err(a); }
        let (t, i) = match &p.sym { Some(s) => (s.t[k], s.k[k]), None => (0, 0) };
        Ok((p.data[k], t, i))
    }
    #[inline]
    fn page_mut(&mut self, a: u64) -> (&mut Page, usize) {
        let r = self.reg_mut(a).unwrap();
        let o = a - r.base;
        (r.get_mut(o / PG).unwrap(), (o % PG) as usize)
    }
    pub fn write(&mut self, a: u64, n: u64, v: u128) -> MR<()> {
        if self.fast(a, n).is_some() {
            let (p, o) = self.page_mut(a);
            let n = n as usize;
            p.data[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
            if let Some(s) = &mut p.sym { s.t[o..o + n].fill(0); }
            return Ok(());
        }
        self.is_valid(a, n)?;
        for i in 0..n {
            let (p, o) = self.page_mut(a + i);
            p.data[o] = (v >> (8 * i)) as u8;
            if let Some(s) = &mut p.sym { s.t[o] = 0; }
        }
        Ok(())
    }
    pub fn write_sym(&mut self, a: u64, n: u64, t: T) -> MR<()> {
        self.is_valid(a, n)?;
        for i in 0..n { self.put_sym_byte(a + i, t, i as u8); }
        Ok(())
    }
    pub fn put_sym_byte(&mut self, a: u64, t: T, k: u8) {
        let (p, o) = self.page_mut(a);
        p.data[o] = 0;
        let s = p.sym.get_or_insert_with(|| Box::new(Sym { t: vec![0; PG as usize].into(), k: vec![0; PG as usize].into() }));
        s.t[o] = t;
        s.k[o] = k;
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> MR<()> {
        if n == 0 { return Ok(()); }
        self.is_valid(s, n)?;
        self.is_valid(d, n)?;
        // gather then scatter, page-wise
        let mut buf: Vec<u8> = Vec::with_capacity(n as usize);
        let mut syms: Vec<(u64, T, u8)> = vec![];
        let mut i = 0;
        while i < n {
            let r = self.reg(s + i).unwrap();
            let o = s + i - r.base;
            let p = r.get(o / PG).unwrap();
            let k = (o % PG) as usize;
            let l = (PG as usize - k).min((n - i) as usize);
            buf.extend_from_slice(&p.data[k..k + l]);
            if let Some(sy) = &p.sym { for j in 0..l { if sy.t[k + j] != 0 { syms.push((i + j as u64, sy.t[k + j], sy.k[k + j])); } } }
            i += l as u64;
        }
        self.write_bytes_unchecked(d, &buf);
        for (o, t, k) in syms { self.put_sym_byte(d + o, t, k); }
        Ok(())
    }
    fn write_bytes_unchecked(&mut self, d: u64, buf: &[u8]) {
        let n = buf.len() as u64;
        let mut i = 0;
        while i < n {
            let (p, k) = self.page_mut(d + i);
            let l = (PG as usize - k).min((n - i) as usize);
            p.data[k..k + l].copy_from_slice(&buf[i as usize..i as usize + l]);
            if let Some(sy) = &mut p.sym { sy.t[k..k + l].fill(0); }
            i += l as u64;
        }
    }
    pub fn write_bytes(&mut self, d: u64, buf: &[u8]) -> MR<()> {
        self.is_valid(d, buf.len() as u64)?;
        self.write_bytes_unchecked(d, buf);
        Ok(())
    }
    pub fn fill(&mut self, d: u64, v: u8, n: u64) -> MR<()> {
        self.is_valid(d, n)?;
        self.write_bytes_unchecked(d, &vec![v; n as usize]);
        Ok(())
    }
    pub fn malloc(&mut self, n: u64, align: u64) -> u64 {
        let al = align.max(16);
        let a = (self.hp + 16 + al - 1) / al * al;
        self.nalloc += 1;
        // header with the size, directly before the block (never valid for the program)
        self.hdr(a, n);
        if n > 0 { self.set_valid(a, n, true); }
        self.hp = a + n.max(1);
        if self.poison { self.taint(a, n); }
        a
    }
    fn hdr(&mut self, a: u64, n: u64) {
        let o = a - 8 - HEAP_BASE;
        let p = self.heap.force(o / PG);
        let k = (o % PG) as usize;
        p.data[k..k + 8].copy_from_slice(&n.to_le_bytes());
    }
    fn taint(&mut self, a: u64, n: u64) {
        if n == 0 { return; }
        let b: Vec<u8> = (0..n).map(|i| (POISON >> (8 * (i % 8))) as u8).collect();
        self.write_bytes_unchecked(a, &b);
    }
    pub fn zero(&mut self, a: u64, n: u64) { self.write_bytes_unchecked(a, &vec![0; n as usize]); }
    pub fn block_size(&self, a: u64) -> Option<u64> {
        if a < HEAP_BASE + 16 || a >= self.hp { return None; }
        let o = a - 8 - HEAP_BASE;
        let p = self.heap.get(o / PG)?;
        let k = (o % PG) as usize;
        Some(u64::from_le_bytes(p.data[k..k + 8].try_into().unwrap()))
    }
    pub fn free(&mut self, a: u64) -> MR<()> {
        let n = self.block_size(a).ok_or(a)?;
        if n > 0 { self.is_valid(a, 1)?; self.set_valid(a, n, false); }
        Ok(())
    }
    pub fn alloca(&mut self, n: u64, align: u64) -> u64 {
        let al = align.max(16);
        let a = (self.sp + 16 + al - 1) / al * al;
        if n > 0 { self.set_valid(a, n, true); }
        self.sp = a + n.max(1);
        if self.poison { self.taint(a, n); }
        a
    }
    pub fn pop_stack(&mut self, sp: u64) {
        if self.sp > sp {
            let n = self.sp - sp;
            self.set_valid(sp, n, false);
            self.sp = sp;
        }
    }
    /// apply f to every symbolic term stored in memory
    pub fn map_syms(&mut self, f: &mut dyn FnMut(T) -> T, fix: &mut dyn FnMut(T) -> Option<u128>) {
        for r in [&mut self.glob, &mut self.heap, &mut self.stack] {
            for p in r.pages.iter_mut() {
                let need = match p { Some(p) => match &p.sym { Some(s) => s.t.iter().any(|&t| t != 0 && f(t) != t), None => false }, None => false };
                if !need { continue; }
                let p = Rc::make_mut(p.as_mut().unwrap());
                let s = p.sym.as_mut().unwrap();
                for i in 0..PG as usize {
                    if s.t[i] != 0 {
                        let n = f(s.t[i]);
                        if n != s.t[i] {
                            if let Some(v) = fix(n) {
                                p.data[i] = (v >> (8 * s.k[i] as u32)) as u8;
                                s.t[i] = 0;
                            } else { s.t[i] = n; }
                        }
                    }
                }
            }
        }
    }
}
