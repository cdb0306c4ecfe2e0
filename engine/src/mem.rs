//! Byte-addressed memory with validity flags and symbolic shadow.

use crate::compile::*;
use crate::expr::*;

#[derive(Clone, Copy, Debug, Default)]
pub struct Val {
    pub c: u128,
    pub e: E,
}

impl Val {
    #[inline]
    pub fn k(c: u128) -> Val {
        Val { c, e: 0 }
    }
}

/// What a path may allocate, freed or not; there's no more than that.
const MOST_HEAP: u64 = 1 << 31;

pub const R: u8 = 1;
pub const W: u8 = 2;
pub const S: u8 = 4;

#[derive(Default)]
pub struct Region {
    pub base: u64,
    pub data: Vec<u8>,
    pub flag: Vec<u8>,
    pub sym: Vec<E>,
}

impl Region {
    fn new(base: u64) -> Region {
        Region { base, ..Default::default() }
    }
    pub fn clear(&mut self) {
        self.data.clear();
        self.flag.clear();
        self.sym.clear();
    }
    pub fn grow(&mut self, n: usize) {
        if self.data.len() < n {
            let n = n.next_power_of_two().max(1 << 16);
            self.data = grown(&self.data, n);
            self.flag = grown(&self.flag, n);
            self.sym = grown(&self.sym, n);
        }
    }
}

/// A longer copy that leaves alone, and thereby takes no memory for, what is zero.
fn grown<T: Copy + Default + PartialEq>(old: &[T], n: usize) -> Vec<T>
{
    let zero = T::default();
    let mut new = zeroed(n);
    for (a, b) in old.chunks(1024).zip(new.chunks_mut(1024)) {
        if a.iter().any(|x| *x != zero) {
            b[..a.len()].copy_from_slice(a);
        }
    }
    new
}

fn zeroed<T: Copy + Default>(n: usize) -> Vec<T> {
    let layout = std::alloc::Layout::array::<T>(n).unwrap();
    // Only used for integers, for which all zeroes is a value, their default.
    unsafe {
        let p = std::alloc::alloc_zeroed(layout) as *mut T;
        if p.is_null() {
            std::alloc::handle_alloc_error(layout);
        }
        Vec::from_raw_parts(p, n, n)
    }
}

pub struct Mem<'p> {
    pub p: &'p Prog,
    pub rw: Region,
    pub heap: Region,
    pub stack: Region,
    pub heap_top: u64, // offset
    pub sp: u64,       // offset
    pub sp_max: u64,
    pub sizes: std::collections::HashMap<u64, u64, BuildFx>,
    pub freed: std::collections::HashSet<u64, BuildFx>,
}

#[derive(Debug)]
pub struct MemErr {
    pub addr: u64,
    pub n: usize,
    pub what: &'static str,
}

enum Where {
    Ro(usize),
    Rw(usize),
    Heap(usize),
    Stack(usize),
    Bad,
}

impl<'p> Mem<'p> {
    pub fn new(p: &'p Prog) -> Mem<'p> {
        let mut m = Mem {
            p,
            rw: Region::new(RW_BASE),
            heap: Region::new(HEAP_BASE),
            stack: Region::new(STACK_BASE),
            heap_top: 64,
            sp: 64,
            sp_max: 64,
            sizes: Default::default(),
            freed: Default::default(),
        };
        m.reset();
        m
    }

    pub fn reset(&mut self) {
        self.rw.data.clear();
        self.rw.data.extend_from_slice(&self.p.rw);
        self.rw.flag.clear();
        self.rw.flag.extend_from_slice(&self.p.rw_valid);
        self.rw.sym.clear();
        self.rw.sym.resize(self.p.rw.len(), 0);
        let ht = (self.heap_top as usize + 64).min(self.heap.data.len());
        self.heap.data[..ht].fill(0);
        self.heap.flag[..ht].fill(0);
        // What the flags don't call symbolic isn't looked at.
        let st = (self.sp_max as usize + 64).min(self.stack.data.len());
        self.stack.data[..st].fill(0);
        self.stack.flag[..st].fill(0);
        self.heap.grow(1 << 16);
        self.stack.grow(1 << 16);
        self.heap_top = 64;
        self.sp = 64;
        self.sp_max = 64;
        self.sizes.clear();
        self.freed.clear();
    }

    #[inline]
    fn find(&self, a: u64, n: usize) -> Where {
        if a >= STACK_BASE {
            let o = (a - STACK_BASE) as usize;
            if o.checked_add(n).map_or(false, |e| e <= self.stack.data.len()) {
                return Where::Stack(o);
            }
        } else if a >= HEAP_BASE {
            let o = (a - HEAP_BASE) as usize;
            if o.checked_add(n).map_or(false, |e| e <= self.heap.data.len()) {
                return Where::Heap(o);
            }
        } else if a >= RW_BASE {
            let o = (a - RW_BASE) as usize;
            if o + n <= self.rw.data.len() {
                return Where::Rw(o);
            }
        } else if a >= RO_BASE {
            let o = (a - RO_BASE) as usize;
            if o + n <= self.p.ro.len() {
                return Where::Ro(o);
            }
        }
        Where::Bad
    }

    pub fn is_ro(&self, a: u64) -> bool {
        matches!(self.find(a, 1), Where::Ro(_))
    }

    #[inline]
    fn view(&self, a: u64, n: usize) -> Option<(&[u8], &[u8], &[E])> {
        match self.find(a, n) {
            Where::Stack(o) => Some((&self.stack.data[o..o + n], &self.stack.flag[o..o + n], &self.stack.sym[o..o + n])),
            Where::Heap(o) => Some((&self.heap.data[o..o + n], &self.heap.flag[o..o + n], &self.heap.sym[o..o + n])),
            Where::Rw(o) => Some((&self.rw.data[o..o + n], &self.rw.flag[o..o + n], &self.rw.sym[o..o + n])),
            Where::Ro(o) => Some((&self.p.ro[o..o + n], &self.p.ro_valid[o..o + n], &[])),
            Where::Bad => None,
        }
    }

    #[inline]
    fn view_mut(&mut self, a: u64, n: usize) -> Option<(&mut [u8], &mut [u8], &mut [E])> {
        match self.find(a, n) {
            Where::Stack(o) => Some((&mut self.stack.data[o..o + n], &mut self.stack.flag[o..o + n], &mut self.stack.sym[o..o + n])),
            Where::Heap(o) => Some((&mut self.heap.data[o..o + n], &mut self.heap.flag[o..o + n], &mut self.heap.sym[o..o + n])),
            Where::Rw(o) => Some((&mut self.rw.data[o..o + n], &mut self.rw.flag[o..o + n], &mut self.rw.sym[o..o + n])),
            _ => None,
        }
    }

    #[inline]
    pub fn load(&self, st: &mut Store, a: u64, w: u32) -> Result<Val, MemErr> {
        let n = ((w + 7) / 8) as usize;
        let (d, f, s) = match self.view(a, n) {
            Some(v) => v,
            None => return Err(MemErr { addr: a, n, what: "read" }),
        };
        let mut and = 0xffu8;
        let mut or = 0u8;
        let mut c = 0u128;
        if n == 8 {
            let fl = u64::from_le_bytes(f.try_into().unwrap());
            if fl & 0x0101010101010101 != 0x0101010101010101 {
                and = 0;
            }
            if fl & 0x0404040404040404 != 0 {
                or = S;
            }
            c = u64::from_le_bytes(d.try_into().unwrap()) as u128;
        } else {
            for i in 0..n {
                and &= f[i];
                or |= f[i];
                c |= (d[i] as u128) << (8 * i);
            }
        }
        if and & R == 0 {
            return Err(MemErr { addr: a, n, what: "read" });
        }
        let c = c & mask(w);
        if or & S == 0 {
            return Ok(Val { c, e: 0 });
        }
        let mut e = 0;
        for i in 0..n {
            let b = if f[i] & S != 0 { s[i] } else { st.konst(d[i] as u128, 8) };
            e = if i == 0 { b } else { st.concat(b, e) };
        }
        if w % 8 != 0 {
            e = st.extract(e, 0, w);
        }
        if st.as_const(e).is_some() {
            e = 0;
        }
        Ok(Val { c, e })
    }

    #[inline]
    pub fn store(&mut self, st: &mut Store, a: u64, w: u32, v: Val) -> Result<(), MemErr> {
        let n = ((w + 7) / 8) as usize;
        let (d, f, s) = match self.view_mut(a, n) {
            Some(v) => v,
            None => return Err(MemErr { addr: a, n, what: "write" }),
        };
        for i in 0..n {
            if f[i] & W == 0 {
                return Err(MemErr { addr: a, n, what: "write" });
            }
        }
        for i in 0..n {
            d[i] = (v.c >> (8 * i)) as u8;
        }
        if v.e == 0 {
            f.fill(R | W);
        } else {
            let e = if w % 8 != 0 { st.zext(v.e, n as u32 * 8) } else { v.e };
            for i in 0..n {
                let b = st.extract(e, 8 * i as u32, 8);
                if st.as_const(b).is_some() {
                    f[i] = R | W;
                } else {
                    f[i] = R | W | S;
                    s[i] = b;
                }
            }
        }
        Ok(())
    }

    pub fn byte(&self, st: &mut Store, a: u64) -> Result<Val, MemErr> {
        self.load(st, a, 8)
    }

    pub fn memset(&mut self, a: u64, v: Val, n: usize) -> Result<(), MemErr> {
        if n == 0 {
            return Ok(());
        }
        let (d, f, s) = match self.view_mut(a, n) {
            Some(v) => v,
            None => return Err(MemErr { addr: a, n, what: "write" }),
        };
        if f.iter().any(|x| x & W == 0) {
            return Err(MemErr { addr: a, n, what: "write" });
        }
        d.fill(v.c as u8);
        if v.e == 0 {
            f.fill(R | W);
        } else {
            f.fill(R | W | S);
            s.fill(v.e);
        }
        Ok(())
    }

    pub fn memcpy(&mut self, d: u64, s: u64, n: usize) -> Result<(), MemErr> {
        if n == 0 {
            return Ok(());
        }
        let (data, flag, sym) = {
            let (sd, sf, ss) = match self.view(s, n) {
                Some(v) => v,
                None => return Err(MemErr { addr: s, n, what: "read" }),
            };
            if sf.iter().any(|x| x & R == 0) {
                return Err(MemErr { addr: s, n, what: "read" });
            }
            let any = sf.iter().any(|x| x & S != 0);
            (sd.to_vec(), sf.to_vec(), if any { ss.to_vec() } else { vec![] })
        };
        let (dd, df, ds) = match self.view_mut(d, n) {
            Some(v) => v,
            None => return Err(MemErr { addr: d, n, what: "write" }),
        };
        if df.iter().any(|x| x & W == 0) {
            return Err(MemErr { addr: d, n, what: "write" });
        }
        dd.copy_from_slice(&data);
        if sym.is_empty() {
            df.fill(R | W);
        } else {
            for i in 0..n {
                df[i] = R | W | (flag[i] & S);
            }
            ds.copy_from_slice(&sym);
        }
        Ok(())
    }

    pub fn malloc(&mut self, size: u64, align: u64) -> u64 {
        let al = align.max(16);
        let o = (self.heap_top + 16 + al - 1) / al * al;
        let end = o.saturating_add(size);
        if end > MOST_HEAP {
            return 0;
        }
        self.heap.grow(end as usize + 64);
        self.heap.flag[o as usize..end as usize].fill(R | W);
        self.heap_top = end;
        let a = HEAP_BASE + o;
        self.sizes.insert(a, size);
        a
    }

    pub fn free(&mut self, a: u64) -> Result<(), MemErr> {
        if a == 0 {
            return Ok(());
        }
        match self.sizes.remove(&a) {
            Some(n) => {
                let o = (a - HEAP_BASE) as usize;
                self.heap.flag[o..o + n as usize].fill(0);
                self.freed.insert(a);
                Ok(())
            }
            None => Err(MemErr { addr: a, n: 0, what: "free" }),
        }
    }

    pub fn alloca(&mut self, size: u64, align: u64) -> u64 {
        let al = align.max(8);
        let o = (self.sp + 8 + al - 1) / al * al;
        let end = o + size;
        self.stack.grow(end as usize + 64);
        self.stack.flag[o as usize..end as usize].fill(R | W);
        self.sp = end;
        self.sp_max = self.sp_max.max(end);
        STACK_BASE + o
    }

    #[inline]
    pub fn pop_to(&mut self, sp: u64) {
        if self.sp != sp {
            self.stack.flag[sp as usize..self.sp as usize].fill(0);
            self.sp = sp;
        }
    }

    pub fn bytes(&self, a: u64, n: usize) -> Result<Vec<u8>, MemErr> {
        match self.view(a, n) {
            Some((d, f, _)) if f.iter().all(|x| x & R != 0) => Ok(d.to_vec()),
            _ => Err(MemErr { addr: a, n, what: "read" }),
        }
    }

    pub fn has_sym(&self, a: u64, n: usize) -> bool {
        match self.view(a, n) {
            Some((_, f, _)) => f.iter().any(|x| x & S != 0),
            None => false,
        }
    }
}
