//! Copy-on-write byte-addressed memory with per-byte symbolic contents.
use std::rc::Rc;

pub const PG: usize = 4096;
const DIRPG: usize = 1024;

#[derive(Clone)]
pub struct Page {
    pub d: [u8; PG],
    /// symbolic byte expressions; 0 = concrete
    pub s: Option<Box<[u32; PG]>>,
}
type Dir = Vec<Option<Rc<Page>>>;

#[derive(Clone)]
pub struct Mem {
    dirs: Vec<Option<Rc<Dir>>>,
    pub heap_lo: u64,
    pub heap_hi: u64,
    pub stack_lo: u64,
    pub stack_hi: u64,
}

pub struct BadMem(pub u64);

impl Mem {
    pub fn new() -> Mem {
        Mem { dirs: vec![None; 512], heap_lo: 0x1000_0000, heap_hi: 0x1000_0000, stack_lo: 0x7000_0000, stack_hi: 0x7800_0000 }
    }
    #[inline(always)]
    fn page(&self, addr: u64) -> Option<&Page> {
        let pn = addr as usize / PG;
        let d = self.dirs.get(pn / DIRPG)?.as_ref()?;
        d[pn % DIRPG].as_deref()
    }
    fn zero_ok(&self, addr: u64) -> bool {
        (addr >= self.heap_lo && addr < self.heap_hi) || (addr >= self.stack_lo && addr < self.stack_hi)
    }
    #[inline(always)]
    fn page_mut(&mut self, addr: u64) -> Result<&mut Page, BadMem> {
        let pn = addr as usize / PG;
        if pn / DIRPG >= self.dirs.len() {
            return Err(BadMem(addr));
        }
        let ok = self.zero_ok(addr);
        let dir = &mut self.dirs[pn / DIRPG];
        if dir.is_none() {
            if !ok {
                return Err(BadMem(addr));
            }
            *dir = Some(Rc::new(vec![None; DIRPG]));
        }
        let dir = Rc::make_mut(dir.as_mut().unwrap());
        let p = &mut dir[pn % DIRPG];
        if p.is_none() {
            if !ok {
                return Err(BadMem(addr));
            }
            *p = Some(Rc::new(Page { d: [0; PG], s: None }));
        }
        Ok(Rc::make_mut(p.as_mut().unwrap()))
    }
    /// make the page exist (global initialisation)
    pub fn init(&mut self, addr: u64, data: &[u8]) {
        let (hl, hh) = (self.heap_lo, self.heap_hi);
        self.heap_lo = 0;
        self.heap_hi = u64::MAX;
        for (i, b) in data.iter().enumerate() {
            let a = addr + i as u64;
            if let Ok(p) = self.page_mut(a) {
                p.d[a as usize % PG] = *b;
            }
        }
        self.heap_lo = hl;
        self.heap_hi = hh;
    }
    /// concrete fast path: Some if all n (<=8) bytes are concrete
    #[inline(always)]
    pub fn read(&self, addr: u64, n: usize) -> Result<Option<u64>, BadMem> {
        let off = addr as usize % PG;
        if off + n <= PG {
            match self.page(addr) {
                Some(p) => {
                    if let Some(s) = &p.s {
                        for i in 0..n {
                            if s[off + i] != 0 {
                                return Ok(None);
                            }
                        }
                    }
                    let r = match n {
                        8 => u64::from_le_bytes(p.d[off..off + 8].try_into().unwrap()),
                        4 => u32::from_le_bytes(p.d[off..off + 4].try_into().unwrap()) as u64,
                        1 => p.d[off] as u64,
                        _ => {
                            let mut x = 0u64;
                            for i in 0..n {
                                x |= (p.d[off + i] as u64) << (8 * i);
                            }
                            x
                        }
                    };
                    Ok(Some(r))
                }
                None => {
                    if self.zero_ok(addr) {
                        Ok(Some(0))
                    } else {
                        Err(BadMem(addr))
                    }
                }
            }
        } else {
            let mut x = 0u64;
            for i in 0..n {
                match self.read(addr + i as u64, 1)? {
                    Some(b) => x |= b << (8 * i),
                    None => return Ok(None),
                }
            }
            Ok(Some(x))
        }
    }
    /// (concrete byte, symbolic expr or 0)
    pub fn byte(&self, addr: u64) -> Result<(u8, u32), BadMem> {
        match self.page(addr) {
            Some(p) => {
                let o = addr as usize % PG;
                Ok((p.d[o], p.s.as_ref().map(|s| s[o]).unwrap_or(0)))
            }
            None => {
                if self.zero_ok(addr) {
                    Ok((0, 0))
                } else {
                    Err(BadMem(addr))
                }
            }
        }
    }
    #[inline(always)]
    pub fn write(&mut self, addr: u64, n: usize, v: u64) -> Result<(), BadMem> {
        let off = addr as usize % PG;
        if off + n <= PG {
            let p = self.page_mut(addr)?;
            if let Some(s) = &mut p.s {
                for i in 0..n {
                    s[off + i] = 0;
                }
            }
            match n {
                8 => p.d[off..off + 8].copy_from_slice(&v.to_le_bytes()),
                4 => p.d[off..off + 4].copy_from_slice(&(v as u32).to_le_bytes()),
                1 => p.d[off] = v as u8,
                _ => {
                    for i in 0..n {
                        p.d[off + i] = (v >> (8 * i)) as u8;
                    }
                }
            }
            Ok(())
        } else {
            for i in 0..n {
                self.write(addr + i as u64, 1, v >> (8 * i) & 255)?;
            }
            Ok(())
        }
    }
    pub fn write_sym(&mut self, addr: u64, e: u32) -> Result<(), BadMem> {
        let p = self.page_mut(addr)?;
        if p.s.is_none() {
            p.s = Some(Box::new([0; PG]));
        }
        p.s.as_mut().unwrap()[addr as usize % PG] = e;
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), BadMem> {
        if n == 0 || dst == src {
            return Ok(());
        }
        // read everything first (memmove semantics)
        let mut buf = Vec::with_capacity(n as usize);
        let mut sy: Option<Vec<u32>> = None;
        let mut a = src;
        let end = src + n;
        while a < end {
            let off = a as usize % PG;
            let l = ((end - a) as usize).min(PG - off);
            match self.page(a) {
                Some(p) => {
                    buf.extend_from_slice(&p.d[off..off + l]);
                    if let Some(s) = &p.s {
                        if s[off..off + l].iter().any(|x| *x != 0) {
                            let v = sy.get_or_insert_with(Vec::new);
                            v.resize(buf.len() - l, 0);
                            v.extend_from_slice(&s[off..off + l]);
                        }
                    }
                }
                None => {
                    if !self.zero_ok(a) {
                        return Err(BadMem(a));
                    }
                    buf.resize(buf.len() + l, 0);
                }
            }
            a += l as u64;
        }
        if let Some(v) = &mut sy {
            v.resize(buf.len(), 0);
        }
        let mut i = 0;
        while i < buf.len() {
            let a = dst + i as u64;
            let off = a as usize % PG;
            let l = (buf.len() - i).min(PG - off);
            let p = self.page_mut(a)?;
            p.d[off..off + l].copy_from_slice(&buf[i..i + l]);
            match &sy {
                Some(v) => {
                    let part = &v[i..i + l];
                    if p.s.is_some() || part.iter().any(|x| *x != 0) {
                        if p.s.is_none() {
                            p.s = Some(Box::new([0; PG]));
                        }
                        p.s.as_mut().unwrap()[off..off + l].copy_from_slice(part);
                    }
                }
                None => {
                    if let Some(s) = &mut p.s {
                        s[off..off + l].fill(0);
                    }
                }
            }
            i += l;
        }
        Ok(())
    }
    pub fn fill(&mut self, dst: u64, b: u8, n: u64) -> Result<(), BadMem> {
        let mut i = 0;
        while i < n {
            let a = dst + i;
            let off = a as usize % PG;
            let l = ((n - i) as usize).min(PG - off);
            let p = self.page_mut(a)?;
            p.d[off..off + l].fill(b);
            if let Some(s) = &mut p.s {
                s[off..off + l].fill(0);
            }
            i += l as u64;
        }
        Ok(())
    }
}
