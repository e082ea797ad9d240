//! Byte-level memory, 4 GiB address space, copy-on-write pages; each byte concrete or symbolic.
use crate::expr::Ex;
use std::rc::Rc;

pub const PAGE: usize = 4096;
#[derive(Clone)]
pub struct Page { pub b: [u8; PAGE], pub s: Option<Box<[Ex; PAGE]>> }
type L2 = [Option<Rc<Page>>; 1024];

#[derive(Clone)]
pub struct Mem { l1: Vec<Option<Rc<L2>>> }

#[derive(Debug)]
pub struct Fault(pub u64);

impl Mem {
    pub fn new() -> Self { Mem { l1: vec![None; 1024] } }
    #[inline(always)]
    pub fn page(&self, addr: u64) -> Result<&Page, Fault> {
        if addr >> 32 != 0 || addr < 0x1000 { return Err(Fault(addr)); }
        match &self.l1[(addr >> 22) as usize] {
            Some(l2) => match &l2[(addr >> 12) as usize & 1023] { Some(p) => Ok(p), None => Err(Fault(addr)) },
            None => Err(Fault(addr)),
        }
    }
    #[inline(always)]
    pub fn page_mut(&mut self, addr: u64) -> Result<&mut Page, Fault> {
        if addr >> 32 != 0 || addr < 0x1000 { return Err(Fault(addr)); }
        let slot = &mut self.l1[(addr >> 22) as usize];
        match slot {
            Some(l2) => match &mut Rc::make_mut(l2)[(addr >> 12) as usize & 1023] { Some(p) => Ok(Rc::make_mut(p)), None => Err(Fault(addr)) },
            None => Err(Fault(addr)),
        }
    }
    pub fn map(&mut self, addr: u64, len: u64) {
        let mut a = addr & !0xfff;
        while a < addr + len.max(1) {
            let slot = &mut self.l1[(a >> 22) as usize];
            let l2 = slot.get_or_insert_with(|| Rc::new(std::array::from_fn(|_| None)));
            let l2 = Rc::make_mut(l2);
            let e = &mut l2[(a >> 12) as usize & 1023];
            if e.is_none() { *e = Some(Rc::new(Page { b: [0; PAGE], s: None })); }
            a += PAGE as u64;
        }
    }
    pub fn is_mapped(&self, addr: u64) -> bool { self.page(addr).is_ok() }
    /// concrete load of up to 16 bytes; None if any byte is symbolic
    #[inline(always)]
    pub fn load(&self, addr: u64, n: usize) -> Result<Option<u128>, Fault> {
        let off = addr as usize & 0xfff;
        if off + n <= PAGE {
            let p = self.page(addr)?;
            if let Some(s) = &p.s { if s[off..off + n].iter().any(|x| *x != 0) { return Ok(None); } }
            let mut v = [0u8; 16];
            v[..n].copy_from_slice(&p.b[off..off + n]);
            return Ok(Some(u128::from_le_bytes(v)));
        }
        let mut v = 0u128;
        for i in 0..n {
            let (b, e) = self.byte(addr + i as u64)?;
            if e != 0 { return Ok(None); }
            v |= (b as u128) << (8 * i);
        }
        Ok(Some(v))
    }
    #[inline(always)]
    pub fn load64(&self, addr: u64) -> Result<Option<u64>, Fault> {
        let off = addr as usize & 0xfff;
        if off + 8 <= PAGE {
            let p = self.page(addr)?;
            if let Some(s) = &p.s { if s[off..off + 8].iter().any(|x| *x != 0) { return Ok(None); } }
            return Ok(Some(u64::from_le_bytes(p.b[off..off + 8].try_into().unwrap())));
        }
        Ok(self.load(addr, 8)?.map(|x| x as u64))
    }
    pub fn byte(&self, addr: u64) -> Result<(u8, Ex), Fault> {
        let p = self.page(addr)?;
        let off = addr as usize & 0xfff;
        Ok((p.b[off], p.s.as_ref().map_or(0, |s| s[off])))
    }
    #[inline(always)]
    pub fn store(&mut self, addr: u64, n: usize, v: u128) -> Result<(), Fault> {
        let off = addr as usize & 0xfff;
        let bytes = v.to_le_bytes();
        if off + n <= PAGE {
            let p = self.page_mut(addr)?;
            p.b[off..off + n].copy_from_slice(&bytes[..n]);
            if let Some(s) = &mut p.s { s[off..off + n].iter_mut().for_each(|x| *x = 0); }
            return Ok(());
        }
        for i in 0..n { self.set_byte(addr + i as u64, bytes[i], 0)?; }
        Ok(())
    }
    pub fn set_byte(&mut self, addr: u64, b: u8, e: Ex) -> Result<(), Fault> {
        let p = self.page_mut(addr)?;
        let off = addr as usize & 0xfff;
        p.b[off] = b;
        match &mut p.s {
            Some(s) => s[off] = e,
            None => if e != 0 { let mut s: Box<[Ex; PAGE]> = Box::new([0; PAGE]); s[off] = e; p.s = Some(s); },
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), Fault> {
        if n == 0 { return Ok(()); }
        let mut buf: Vec<u8> = Vec::with_capacity(n as usize);
        let mut sym: Option<Vec<Ex>> = None;
        let mut i = 0u64;
        while i < n {
            let a = src + i;
            let off = a as usize & 0xfff;
            let k = ((PAGE - off) as u64).min(n - i) as usize;
            let p = self.page(a)?;
            buf.extend_from_slice(&p.b[off..off + k]);
            if let Some(s) = &p.s {
                if s[off..off + k].iter().any(|x| *x != 0) {
                    let v = sym.get_or_insert_with(|| vec![0; n as usize]);
                    v[i as usize..i as usize + k].copy_from_slice(&s[off..off + k]);
                }
            }
            i += k as u64;
        }
        let mut i = 0u64;
        while i < n {
            let a = dst + i;
            let off = a as usize & 0xfff;
            let k = ((PAGE - off) as u64).min(n - i) as usize;
            let p = self.page_mut(a)?;
            p.b[off..off + k].copy_from_slice(&buf[i as usize..i as usize + k]);
            match (&mut p.s, &sym) {
                (Some(s), Some(v)) => s[off..off + k].copy_from_slice(&v[i as usize..i as usize + k]),
                (Some(s), None) => s[off..off + k].iter_mut().for_each(|x| *x = 0),
                (None, Some(v)) => if v[i as usize..i as usize + k].iter().any(|x| *x != 0) {
                    let mut s: Box<[Ex; PAGE]> = Box::new([0; PAGE]);
                    s[off..off + k].copy_from_slice(&v[i as usize..i as usize + k]);
                    p.s = Some(s);
                },
                (None, None) => {}
            }
            i += k as u64;
        }
        Ok(())
    }
    pub fn fill(&mut self, dst: u64, b: u8, n: u64) -> Result<(), Fault> {
        let mut i = 0u64;
        while i < n {
            let a = dst + i;
            let off = a as usize & 0xfff;
            let k = ((PAGE - off) as u64).min(n - i) as usize;
            let p = self.page_mut(a)?;
            p.b[off..off + k].iter_mut().for_each(|x| *x = b);
            if let Some(s) = &mut p.s { s[off..off + k].iter_mut().for_each(|x| *x = 0); }
            i += k as u64;
        }
        Ok(())
    }
}
