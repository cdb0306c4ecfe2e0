//! Hash-consed bit-vector expression DAG (one store per worker thread).

use std::collections::HashMap;

pub type E = u32; // expression id; 0 means "no symbolic part"

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Var,
    Const,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Zext,
    Sext,
    Extract, // imm = lo
    Concat,  // a = high part, b = low part
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub imm: u128,
}

pub struct Store {
    pub nodes: Vec<Node>,
    pub hashes: Vec<u128>,
    pub vars: Vec<u128>, // mask of the input variables occurring
    map: HashMap<Node, E, BuildFx>,
}

#[derive(Clone, Default)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for &b in bytes {
            self.write_u64(b as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}
pub type BuildFx = std::hash::BuildHasherDefault<Fx>;

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}

#[inline]
pub fn sext_to(c: u128, w: u32) -> i128 {
    if w >= 128 {
        c as i128
    } else {
        let sh = 128 - w;
        ((c << sh) as i128) >> sh
    }
}

fn mix(h: u128, v: u128) -> u128 {
    let x = (h ^ v).wrapping_mul(0x2360ED051FC65DA44385DF649FCCF645);
    let x = x ^ (x >> 67);
    x.wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835).rotate_left(29)
}

/// Concrete evaluation of a binary operator at width `w`; both arguments already masked.
pub fn fold(op: Op, w: u32, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                return None;
            }
            a / b
        }
        Op::URem => {
            if b == 0 {
                return None;
            }
            a % b
        }
        Op::SDiv => {
            if b == 0 {
                return None;
            }
            (sext_to(a, w).wrapping_div(sext_to(b, w)) as u128) & m
        }
        Op::SRem => {
            if b == 0 {
                return None;
            }
            (sext_to(a, w).wrapping_rem(sext_to(b, w)) as u128) & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = sext_to(a, w);
            let sh = if b >= w as u128 { w - 1 } else { b as u32 };
            ((s >> sh) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext_to(a, w) < sext_to(b, w)) as u128,
        Op::Sle => (sext_to(a, w) <= sext_to(b, w)) as u128,
        _ => return None,
    })
}

pub fn is_cmp(op: Op) -> bool {
    matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
}

impl Store {
    pub fn new() -> Store {
        let mut s = Store {
            nodes: Vec::new(),
            hashes: Vec::new(),
            vars: Vec::new(),
            map: HashMap::default(),
        };
        // id 0 is reserved
        s.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, imm: 0 });
        s.hashes.push(0);
        s.vars.push(0);
        s
    }

    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let id = self.nodes.len() as E;
        let mut h = mix(0x1234567, (n.op as u128) << 8 | n.w as u128);
        h = mix(h, n.imm);
        let mut v = 0u128;
        if n.op == Op::Var {
            v = 1u128 << n.imm;
        }
        for (i, x) in [n.a, n.b, n.c].into_iter().enumerate() {
            if x != 0 {
                h = mix(h, self.hashes[x as usize].wrapping_add(i as u128 * 7919));
                v |= self.vars[x as usize];
            }
        }
        self.nodes.push(n);
        self.hashes.push(h);
        self.vars.push(v);
        self.map.insert(n, id);
        id
    }

    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }

    pub fn var(&mut self, idx: u32, w: u32) -> E {
        self.mk(Node { op: Op::Var, w: w as u8, a: 0, b: 0, c: 0, imm: idx as u128 })
    }

    pub fn konst(&mut self, v: u128, w: u32) -> E {
        self.mk(Node { op: Op::Const, w: w as u8, a: 0, b: 0, c: 0, imm: v & mask(w) })
    }

    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.imm)
        } else {
            None
        }
    }

    pub fn not(&mut self, e: E) -> E {
        // boolean negation (width 1)
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return self.konst(1 - n.imm, 1),
            Op::Xor if self.as_const(n.b) == Some(1) => return n.a,
            Op::Ult => return self.bin(Op::Ule, n.b, n.a),
            Op::Ule => return self.bin(Op::Ult, n.b, n.a),
            Op::Slt => return self.bin(Op::Sle, n.b, n.a),
            Op::Sle => return self.bin(Op::Slt, n.b, n.a),
            _ => {}
        }
        let one = self.konst(1, 1);
        self.mk(Node { op: Op::Xor, w: 1, a: e, b: one, c: 0, imm: 0 })
    }

    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = if is_cmp(op) { 1 } else { w };
        let ca = self.as_const(a);
        let cb = self.as_const(b);
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = fold(op, w, x, y) {
                return self.konst(r, rw);
            }
        }
        let m = mask(w);
        // canonicalise commutative: constant to the right
        match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
                if ca.is_some() || (cb.is_none() && self.hashes[a as usize] > self.hashes[b as usize]) {
                    std::mem::swap(&mut a, &mut b);
                }
            }
            _ => {}
        }
        let ca = self.as_const(a);
        let cb = self.as_const(b);
        let na = self.nodes[a as usize];
        if a == b {
            match op {
                Op::Sub | Op::Xor => return self.konst(0, w),
                Op::And | Op::Or => return a,
                Op::Eq | Op::Ule | Op::Sle => return self.konst(1, 1),
                Op::Ult | Op::Slt => return self.konst(0, 1),
                _ => {}
            }
        }
        if let Some(k) = cb {
            match op {
                Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if k == 0 => return a,
                Op::And if k == 0 => return b,
                Op::And if k == m => return a,
                Op::Or if k == m => return b,
                Op::Mul if k == 0 => return b,
                Op::Mul if k == 1 => return a,
                Op::UDiv | Op::SDiv if k == 1 => return a,
                Op::Ult if k == 0 => return self.konst(0, 1),
                Op::Ule if k == m => return self.konst(1, 1),
                Op::Sub => {
                    let nk = self.konst(0u128.wrapping_sub(k) & m, w);
                    return self.bin(Op::Add, a, nk);
                }
                Op::Add => {
                    if na.op == Op::Add {
                        if let Some(k2) = self.as_const(na.b) {
                            let nk = self.konst(k.wrapping_add(k2) & m, w);
                            return self.bin(Op::Add, na.a, nk);
                        }
                    }
                }
                Op::And => {
                    // low mask on zext that fits
                    if na.op == Op::Zext {
                        let iw = self.w(na.a);
                        let im = mask(iw);
                        if k & im == im {
                            return a;
                        }
                        let kk = self.konst(k & im, iw);
                        let r = self.bin(Op::And, na.a, kk);
                        return self.zext(r, w);
                    }
                    if na.op == Op::And {
                        if let Some(k2) = self.as_const(na.b) {
                            let nk = self.konst(k & k2, w);
                            return self.bin(Op::And, na.a, nk);
                        }
                    }
                    // contiguous low mask: turn into zext(extract)
                    if k != 0 && (k & (k + 1)) == 0 {
                        let bits = 128 - k.leading_zeros();
                        let x = self.extract(a, 0, bits);
                        return self.zext(x, w);
                    }
                }
                Op::Xor if w == 1 => return self.not(a),
                Op::Shl if k >= w as u128 => return self.konst(0, w),
                Op::LShr if k >= w as u128 => return self.konst(0, w),
                Op::Shl => {
                    let lo = self.extract(a, 0, w - k as u32);
                    let z = self.konst(0, k as u32);
                    return self.concat(lo, z);
                }
                Op::LShr => {
                    let hi = self.extract(a, k as u32, w - k as u32);
                    return self.zext(hi, w);
                }
                Op::UDiv if k != 0 && k & (k - 1) == 0 => {
                    let s = self.konst(k.trailing_zeros() as u128, w);
                    return self.bin(Op::LShr, a, s);
                }
                Op::URem if k != 0 && k & (k - 1) == 0 => {
                    let s = self.konst(k - 1, w);
                    return self.bin(Op::And, a, s);
                }
                _ => {}
            }
            // comparisons of narrower values against constants
            if is_cmp(op) {
                match na.op {
                    Op::Zext => {
                        let iw = self.w(na.a);
                        let im = mask(iw);
                        let top = k > im;
                        match op {
                            Op::Eq => {
                                if top {
                                    return self.konst(0, 1);
                                }
                                let kk = self.konst(k, iw);
                                return self.bin(Op::Eq, na.a, kk);
                            }
                            Op::Ult | Op::Ule => {
                                if top {
                                    return self.konst(1, 1);
                                }
                                let kk = self.konst(k, iw);
                                return self.bin(op, na.a, kk);
                            }
                            Op::Slt | Op::Sle => {
                                // zext value is non-negative
                                if sext_to(k, w) < 0 {
                                    return self.konst(0, 1);
                                }
                                if top {
                                    return self.konst(1, 1);
                                }
                                let kk = self.konst(k, iw);
                                let o2 = if op == Op::Slt { Op::Ult } else { Op::Ule };
                                return self.bin(o2, na.a, kk);
                            }
                            _ => {}
                        }
                    }
                    Op::Ite => {
                        let (x, y) = (self.as_const(na.b), self.as_const(na.c));
                        if let (Some(x), Some(y)) = (x, y) {
                            let rx = fold(op, w, x, k).unwrap();
                            let ry = fold(op, w, y, k).unwrap();
                            return match (rx, ry) {
                                (1, 1) => self.konst(1, 1),
                                (0, 0) => self.konst(0, 1),
                                (1, _) => na.a,
                                _ => self.not(na.a),
                            };
                        }
                        if x.is_some() || y.is_some() {
                            let rx = self.bin(op, na.b, b);
                            let ry = self.bin(op, na.c, b);
                            return self.ite(na.a, rx, ry);
                        }
                    }
                    Op::Add if op == Op::Eq => {
                        if let Some(k2) = self.as_const(na.b) {
                            let nk = self.konst(k.wrapping_sub(k2) & m, w);
                            return self.bin(Op::Eq, na.a, nk);
                        }
                    }
                    Op::Concat if op == Op::Eq => {
                        let lw = self.w(na.b);
                        let hk = self.konst(k >> lw, w - lw);
                        let lk = self.konst(k & mask(lw), lw);
                        let x = self.bin(Op::Eq, na.a, hk);
                        let y = self.bin(Op::Eq, na.b, lk);
                        return self.bin(Op::And, x, y);
                    }
                    Op::Sext if op == Op::Eq => {
                        let iw = self.w(na.a);
                        if (sext_to(k & mask(iw), iw) as u128) & m != k {
                            return self.konst(0, 1);
                        }
                        let kk = self.konst(k & mask(iw), iw);
                        return self.bin(Op::Eq, na.a, kk);
                    }
                    _ => {}
                }
                if w == 1 && op == Op::Eq {
                    return if k == 1 { a } else { self.not(a) };
                }
                if op == Op::Ult && k == 1 {
                    let z = self.konst(0, w);
                    return self.bin(Op::Eq, a, z);
                }
                if op == Op::Ule && k == 0 {
                    return self.bin(Op::Eq, a, b);
                }
            }
        }
        if let Some(k) = ca {
            let nb = self.nodes[b as usize];
            match op {
                Op::Ult if k == m => return self.konst(0, 1),
                Op::Ule if k == 0 => return self.konst(1, 1),
                Op::Sub if k == m => {} // ~b
                Op::Shl | Op::LShr | Op::UDiv | Op::URem if k == 0 => return a,
                _ => {}
            }
            if is_cmp(op) {
                match nb.op {
                    Op::Zext => {
                        let iw = self.w(nb.a);
                        let im = mask(iw);
                        match op {
                            Op::Ult | Op::Ule => {
                                if k > im {
                                    return self.konst(0, 1);
                                }
                                let kk = self.konst(k, iw);
                                return self.bin(op, kk, nb.a);
                            }
                            Op::Slt | Op::Sle => {
                                if sext_to(k, w) < 0 {
                                    return self.konst(1, 1);
                                }
                                if k > im {
                                    return self.konst(0, 1);
                                }
                                let kk = self.konst(k, iw);
                                let o2 = if op == Op::Slt { Op::Ult } else { Op::Ule };
                                return self.bin(o2, kk, nb.a);
                            }
                            _ => {}
                        }
                    }
                    Op::Ite => {
                        let (x, y) = (self.as_const(nb.b), self.as_const(nb.c));
                        if let (Some(x), Some(y)) = (x, y) {
                            let rx = fold(op, w, k, x).unwrap();
                            let ry = fold(op, w, k, y).unwrap();
                            return match (rx, ry) {
                                (1, 1) => self.konst(1, 1),
                                (0, 0) => self.konst(0, 1),
                                (1, _) => nb.a,
                                _ => self.not(nb.a),
                            };
                        }
                    }
                    _ => {}
                }
            }
        }
        if is_cmp(op) {
            let nb = self.nodes[b as usize];
            if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) {
                let o2 = match op {
                    Op::Slt => Op::Ult,
                    Op::Sle => Op::Ule,
                    o => o,
                };
                return self.bin(o2, na.a, nb.a);
            }
        }
        if w == 1 {
            // x & !x, x | !x
            let nota = self.not(a);
            if nota == b {
                match op {
                    Op::And => return self.konst(0, 1),
                    Op::Or | Op::Xor => return self.konst(1, 1),
                    Op::Eq => return self.konst(0, 1),
                    _ => {}
                }
            }
        }
        // or/add of disjoint zext and shifted value: concat
        if op == Op::Or || op == Op::Add || op == Op::Xor {
            let nb = self.nodes[b as usize];
            for (x, y, ny) in [(a, b, nb), (b, a, na)] {
                let nx = self.nodes[x as usize];
                // x = concat(h, 0_k), y = zext(l) with width(l) <= k
                if nx.op == Op::Concat && self.as_const(nx.b) == Some(0) && ny.op == Op::Zext {
                    let k = self.w(nx.b);
                    if self.w(ny.a) <= k {
                        let low = self.extract(y, 0, k);
                        return self.concat(nx.a, low);
                    }
                }
            }
        }
        self.mk(Node { op, w: rw as u8, a, b, c: 0, imm: 0 })
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, a);
                }
                _ => {}
            }
        }
        let n = self.nodes[c as usize];
        if n.op == Op::Xor && n.w == 1 && self.as_const(n.b) == Some(1) {
            return self.mk(Node { op: Op::Ite, w: w as u8, a: n.a, b, c: a, imm: 0 });
        }
        self.mk(Node { op: Op::Ite, w: w as u8, a: c, b: a, c: b, imm: 0 })
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.nodes[a as usize];
        if n.w as u32 == w {
            return a;
        }
        match n.op {
            Op::Const => return self.konst(n.imm, w),
            Op::Zext => return self.zext(n.a, w),
            _ => {}
        }
        self.mk(Node { op: Op::Zext, w: w as u8, a, b: 0, c: 0, imm: 0 })
    }

    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.nodes[a as usize];
        if n.w as u32 == w {
            return a;
        }
        match n.op {
            Op::Const => return self.konst(sext_to(n.imm, n.w as u32) as u128, w),
            Op::Zext => return self.zext(n.a, w),
            Op::Sext => return self.sext(n.a, w),
            _ => {}
        }
        self.mk(Node { op: Op::Sext, w: w as u8, a, b: 0, c: 0, imm: 0 })
    }

    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.nodes[a as usize];
        let aw = n.w as u32;
        if lo == 0 && w == aw {
            return a;
        }
        debug_assert!(lo + w <= aw);
        match n.op {
            Op::Const => return self.konst(n.imm >> lo, w),
            Op::Extract => return self.extract(n.a, lo + n.imm as u32, w),
            Op::Zext => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::Sext => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let hi = self.extract(n.a, 0, lo + w - lw);
                let l = self.extract(n.b, lo, lw - lo);
                return self.concat(hi, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w: w as u8, a, b: 0, c: 0, imm: lo as u128 })
    }

    /// a is the high part, b the low part
    pub fn concat(&mut self, a: E, b: E) -> E {
        let na = self.nodes[a as usize];
        let nb = self.nodes[b as usize];
        let w = na.w as u32 + nb.w as u32;
        if na.op == Op::Const && nb.op == Op::Const {
            return self.konst(na.imm << nb.w | nb.imm, w);
        }
        if na.op == Op::Const && na.imm == 0 {
            return self.zext(b, w);
        }
        // zext high part: zext of concat
        if na.op == Op::Zext {
            let x = self.concat(na.a, b);
            return self.zext(x, w);
        }
        // adjacent extracts
        let (ba, la) = if na.op == Op::Extract { (na.a, na.imm as u32) } else { (a, 0) };
        let (bb, lb) = if nb.op == Op::Extract { (nb.a, nb.imm as u32) } else { (b, 0) };
        if ba == bb && la == lb + nb.w as u32 && (na.op == Op::Extract) {
            return self.extract(ba, lb, w);
        }
        // high extract adjoining the high end of a concat's high part: right-assoc normal form
        if na.op == Op::Concat {
            let r = self.concat(na.b, b);
            return self.concat(na.a, r);
        }
        if nb.op == Op::Concat {
            let nh = self.nodes[nb.a as usize];
            let (bh, lh) = if nh.op == Op::Extract { (nh.a, nh.imm as u32) } else { (nb.a, 0) };
            if na.op == Op::Extract && ba == bh && la == lh + nh.w as u32 {
                let m = self.extract(ba, lh, na.w as u32 + nh.w as u32);
                return self.concat(m, nb.b);
            }
            if na.op == Op::Const && nh.op == Op::Const {
                let k = self.konst(na.imm << nh.w | nh.imm, na.w as u32 + nh.w as u32);
                return self.concat(k, nb.b);
            }
        }
        self.mk(Node { op: Op::Concat, w: w as u8, a, b, c: 0, imm: 0 })
    }

    /// Evaluate under an assignment of the input variables.
    pub fn eval(&self, e: E, model: &dyn Fn(u32) -> u128, memo: &mut HashMap<E, u128>) -> u128 {
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let n = self.nodes[e as usize];
        let w = n.w as u32;
        let v = match n.op {
            Op::Const => n.imm,
            Op::Var => model(n.imm as u32) & mask(w),
            Op::Ite => {
                if self.eval(n.a, model, memo) == 1 {
                    self.eval(n.b, model, memo)
                } else {
                    self.eval(n.c, model, memo)
                }
            }
            Op::Zext => self.eval(n.a, model, memo),
            Op::Sext => {
                let x = self.eval(n.a, model, memo);
                sext_to(x, self.w(n.a)) as u128 & mask(w)
            }
            Op::Extract => (self.eval(n.a, model, memo) >> n.imm) & mask(w),
            Op::Concat => {
                let h = self.eval(n.a, model, memo);
                let l = self.eval(n.b, model, memo);
                h << self.w(n.b) | l
            }
            op => {
                let x = self.eval(n.a, model, memo);
                let y = self.eval(n.b, model, memo);
                let aw = self.w(n.a);
                match fold(op, aw, x, y) {
                    Some(r) => r,
                    // SMT-LIB semantics of division by zero
                    None => match op {
                        Op::UDiv => mask(w),
                        Op::SDiv => {
                            if sext_to(x, w) < 0 {
                                1
                            } else {
                                mask(w)
                            }
                        }
                        _ => x,
                    },
                }
            }
        };
        memo.insert(e, v);
        v
    }

    /// All constants an expression built from ite/constants can take, if it has that shape.
    pub fn leaves(&self, e: E, out: &mut Vec<u128>, limit: usize) -> bool {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => {
                if !out.contains(&n.imm) {
                    out.push(n.imm);
                }
                out.len() <= limit
            }
            Op::Ite => self.leaves(n.b, out, limit) && self.leaves(n.c, out, limit),
            _ => false,
        }
    }

    pub fn show(&self, e: E) -> String {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => format!("{:#x}:{}", n.imm, n.w),
            Op::Var => format!("v{}:{}", n.imm, n.w),
            Op::Ite => format!("ite({},{},{})", self.show(n.a), self.show(n.b), self.show(n.c)),
            Op::Zext | Op::Sext => format!("{:?}{}({})", n.op, n.w, self.show(n.a)),
            Op::Extract => format!("ext[{}+{}]({})", n.imm, n.w, self.show(n.a)),
            _ => format!("{:?}({},{})", n.op, self.show(n.a), self.show(n.b)),
        }
    }
}
