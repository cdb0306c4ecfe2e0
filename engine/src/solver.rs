//! z3 through its C API; one context per worker thread, one query cache for all of them.

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
}

extern "C" fn on_error(c: P, e: c_int) {
    let s = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("ENGINE: z3 error: {}", s.to_string_lossy());
    std::process::exit(2);
}

#[derive(Clone, Debug)]
pub enum Ans {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

#[derive(Default)]
pub struct Stats {
    pub queries: AtomicU64,
    pub cached: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub unknown: AtomicU64,
    pub solver_ns: AtomicU64,
    pub max_ns: AtomicU64,
}

pub struct Shared {
    pub cache: Vec<Mutex<HashMap<u128, Ans>>>,
    pub enums: Mutex<HashMap<u128, Option<Vec<u64>>>>,
    pub stats: Stats,
    pub timeout_ms: u32,
    /// sample of discharged queries for cross-checking with other solvers
    pub dump: Mutex<Vec<(String, bool)>>,
    pub dump_max: usize,
    pub dump_every: u64,
}

impl Shared {
    pub fn new(timeout_ms: u32, dump_max: usize) -> Shared {
        Shared {
            cache: (0..64).map(|_| Mutex::new(HashMap::new())).collect(),
            enums: Mutex::new(HashMap::new()),
            stats: Stats::default(),
            timeout_ms,
            dump: Mutex::new(vec![]),
            dump_max,
            dump_every: 1,
        }
    }
}

pub struct Solver<'s> {
    pub shared: &'s Shared,
    ctx: P,
    solver: P,
    asts: Vec<P>, // by expression id, bit-vector form; null = not built
    bools: HashMap<E, P>,
    sorts: HashMap<u32, P>,
}

impl<'s> Solver<'s> {
    pub fn new(shared: &'s Shared) -> Solver<'s> {
        let mut s = Solver { shared, ctx: std::ptr::null_mut(), solver: std::ptr::null_mut(), asts: vec![], bools: HashMap::new(), sorts: HashMap::new() };
        s.init();
        s
    }

    fn init(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.ctx, Some(on_error));
            self.solver = Z3_mk_simple_solver(self.ctx);
            Z3_solver_inc_ref(self.ctx, self.solver);
            self.set_timeout(self.solver, self.shared.timeout_ms);
        }
        self.asts.clear();
        self.bools.clear();
        self.sorts.clear();
    }

    unsafe fn set_timeout(&self, s: P, ms: u32) {
        let p = Z3_mk_params(self.ctx);
        Z3_params_inc_ref(self.ctx, p);
        let k = CString::new("timeout").unwrap();
        Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, k.as_ptr()), ms);
        Z3_solver_set_params(self.ctx, s, p);
    }

    /// forget everything (called when the expression store is reset)
    pub fn reset(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.ctx, self.solver);
            Z3_del_context(self.ctx);
        }
        self.init();
    }

    unsafe fn sort(&mut self, w: u32) -> P {
        let ctx = self.ctx;
        *self.sorts.entry(w).or_insert_with(|| Z3_mk_bv_sort(ctx, w))
    }

    unsafe fn num(&mut self, v: u128, w: u32) -> P {
        let s = self.sort(w);
        if v <= u64::MAX as u128 {
            Z3_mk_unsigned_int64(self.ctx, v as u64, s)
        } else {
            let t = CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.ctx, t.as_ptr(), s)
        }
    }

    /// boolean form of a width-1 expression
    unsafe fn boolean(&mut self, st: &Store, e: E) -> P {
        if let Some(&a) = self.bools.get(&e) {
            return a;
        }
        let n = st.nodes[e as usize];
        let c = self.ctx;
        let r = match n.op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let a = self.bv(st, n.a);
                let b = self.bv(st, n.b);
                match n.op {
                    Op::Eq => Z3_mk_eq(c, a, b),
                    Op::Ult => Z3_mk_bvult(c, a, b),
                    Op::Ule => Z3_mk_bvule(c, a, b),
                    Op::Slt => Z3_mk_bvslt(c, a, b),
                    _ => Z3_mk_bvsle(c, a, b),
                }
            }
            Op::Xor if st.as_const(n.b) == Some(1) => {
                let a = self.boolean(st, n.a);
                Z3_mk_not(c, a)
            }
            Op::And => {
                let a = self.boolean(st, n.a);
                let b = self.boolean(st, n.b);
                let f = Z3_mk_not(c, a);
                // a and b == ite(not a, false, b); built with ite to need fewer entry points
                let ff = {
                    let one = self.num(1, 1);
                    let zero = self.num(0, 1);
                    Z3_mk_eq(c, one, zero)
                };
                Z3_mk_ite(c, f, ff, b)
            }
            Op::Or => {
                let a = self.boolean(st, n.a);
                let b = self.boolean(st, n.b);
                let tt = {
                    let zero = self.num(0, 1);
                    Z3_mk_eq(c, zero, zero)
                };
                Z3_mk_ite(c, a, tt, b)
            }
            Op::Ite => {
                let k = self.boolean(st, n.a);
                let a = self.boolean(st, n.b);
                let b = self.boolean(st, n.c);
                Z3_mk_ite(c, k, a, b)
            }
            _ => {
                let a = self.bv(st, e);
                let one = self.num(1, 1);
                Z3_mk_eq(c, a, one)
            }
        };
        self.bools.insert(e, r);
        r
    }

    unsafe fn bv(&mut self, st: &Store, e: E) -> P {
        let i = e as usize;
        if self.asts.len() <= i {
            self.asts.resize(st.nodes.len().max(i + 1), std::ptr::null_mut());
        }
        if !self.asts[i].is_null() {
            return self.asts[i];
        }
        let n = st.nodes[i];
        let c = self.ctx;
        let w = n.w as u32;
        let r = match n.op {
            Op::Const => self.num(n.imm, w),
            Op::Var => {
                let s = self.sort(w);
                // same index with different widths are different constants
                Z3_mk_const(c, Z3_mk_int_symbol(c, (n.imm as i32) * 256 + w as i32), s)
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let b = self.boolean(st, e);
                let one = self.num(1, 1);
                let zero = self.num(0, 1);
                Z3_mk_ite(c, b, one, zero)
            }
            Op::Ite => {
                let k = self.boolean(st, n.a);
                let a = self.bv(st, n.b);
                let b = self.bv(st, n.c);
                Z3_mk_ite(c, k, a, b)
            }
            Op::Zext => {
                let a = self.bv(st, n.a);
                Z3_mk_zero_ext(c, w - st.w(n.a), a)
            }
            Op::Sext => {
                let a = self.bv(st, n.a);
                Z3_mk_sign_ext(c, w - st.w(n.a), a)
            }
            Op::Extract => {
                let a = self.bv(st, n.a);
                let lo = n.imm as u32;
                Z3_mk_extract(c, lo + w - 1, lo, a)
            }
            op => {
                let a = self.bv(st, n.a);
                let b = self.bv(st, n.b);
                match op {
                    Op::Add => Z3_mk_bvadd(c, a, b),
                    Op::Sub => Z3_mk_bvsub(c, a, b),
                    Op::Mul => Z3_mk_bvmul(c, a, b),
                    Op::UDiv => Z3_mk_bvudiv(c, a, b),
                    Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                    Op::URem => Z3_mk_bvurem(c, a, b),
                    Op::SRem => Z3_mk_bvsrem(c, a, b),
                    Op::And => Z3_mk_bvand(c, a, b),
                    Op::Or => Z3_mk_bvor(c, a, b),
                    Op::Xor => Z3_mk_bvxor(c, a, b),
                    Op::Shl => Z3_mk_bvshl(c, a, b),
                    Op::LShr => Z3_mk_bvlshr(c, a, b),
                    Op::AShr => Z3_mk_bvashr(c, a, b),
                    Op::Concat => Z3_mk_concat(c, a, b),
                    o => panic!("bv {:?}", o),
                }
            }
        };
        self.asts[i] = r;
        r
    }

    /// Constraints of `pc` connected to `lits` through shared inputs, plus the structural key.
    pub fn slice(st: &Store, pc: &[E], lits: &[E]) -> (Vec<E>, u128) {
        let mut m = 0u128;
        for &l in lits {
            m |= st.vars[l as usize];
        }
        let mut taken = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, &c) in pc.iter().enumerate() {
                let v = st.vars[c as usize];
                if !taken[i] && v & m != 0 {
                    taken[i] = true;
                    if v & !m != 0 {
                        m |= v;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut out = vec![];
        let mut key = 0u128;
        for (i, &c) in pc.iter().enumerate() {
            if taken[i] {
                out.push(c);
                let h = st.hashes[c as usize];
                key = key.wrapping_add(h.wrapping_mul(h | 1).rotate_left(37) ^ h);
            }
        }
        for (k, &l) in lits.iter().enumerate() {
            let h = st.hashes[l as usize];
            key ^= (h ^ (h >> 61)).wrapping_mul(0xC2B2AE3D27D4EB4F165667B19E3779F9 + 2 * k as u128).rotate_left(53 + k as u32);
        }
        (out, key)
    }

    /// Is pc && lit satisfiable?
    pub fn query(&mut self, st: &Store, pc: &[E], lit: E) -> Ans {
        if let Some(k) = st.as_const(lit) {
            if k == 0 {
                return Ans::Unsat;
            }
        }
        let (sl, key) = Self::slice(st, pc, &[lit]);
        let shard = (key >> 7) as usize % 64;
        if let Some(a) = self.shared.cache[shard].lock().unwrap().get(&key) {
            self.shared.stats.cached.fetch_add(1, Ordering::Relaxed);
            return a.clone();
        }
        let mut all = sl;
        all.push(lit);
        let a = self.solve(st, &all);
        self.shared.cache[shard].lock().unwrap().insert(key, a.clone());
        a
    }

    fn solve(&mut self, st: &Store, cons: &[E]) -> Ans {
        let t0 = std::time::Instant::now();
        let s = &self.shared.stats;
        let qn = s.queries.fetch_add(1, Ordering::Relaxed);
        let mut mask = 0u128;
        for &c in cons {
            mask |= st.vars[c as usize];
        }
        let ans = unsafe {
            Z3_solver_push(self.ctx, self.solver);
            for &c in cons {
                let b = self.boolean(st, c);
                Z3_solver_assert(self.ctx, self.solver, b);
            }
            if self.shared.dump_max > 0 && (qn % self.shared.dump_every == 0) {
                let mut d = self.shared.dump.lock().unwrap();
                if d.len() < self.shared.dump_max {
                    let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, self.solver)).to_string_lossy().into_owned();
                    let r = Z3_solver_check(self.ctx, self.solver);
                    if r != 0 {
                        d.push((t, r == 1));
                    }
                }
            }
            let mut r = Z3_solver_check(self.ctx, self.solver);
            let mut which = self.solver;
            let mut alt: P = std::ptr::null_mut();
            if r == 0 {
                // retry with the bit-blasting tactic
                let l = CString::new("QF_BV").unwrap();
                alt = Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, l.as_ptr()));
                Z3_solver_inc_ref(self.ctx, alt);
                self.set_timeout(alt, self.shared.timeout_ms);
                for &c in cons {
                    let b = self.boolean(st, c);
                    Z3_solver_assert(self.ctx, alt, b);
                }
                r = Z3_solver_check(self.ctx, alt);
                which = alt;
            }
            let ans = match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, which);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![];
                    // find the variables of the slice in the store
                    let mut seen = std::collections::HashSet::new();
                    let mut stack: Vec<E> = cons.to_vec();
                    let mut visited = std::collections::HashSet::new();
                    while let Some(e) = stack.pop() {
                        if e == 0 || !visited.insert(e) {
                            continue;
                        }
                        let n = st.nodes[e as usize];
                        if n.op == Op::Var {
                            if seen.insert(n.imm) {
                                let v = self.bv(st, e);
                                let mut o: P = std::ptr::null_mut();
                                Z3_model_eval(self.ctx, m, v, true, &mut o);
                                let mut u = 0u64;
                                if !Z3_get_numeral_uint64(self.ctx, o, &mut u) {
                                    eprintln!("ENGINE: model value");
                                    std::process::exit(2);
                                }
                                out.push((n.imm as u32, u as u128));
                            }
                            continue;
                        }
                        stack.push(n.a);
                        stack.push(n.b);
                        stack.push(n.c);
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Ans::Sat(out)
                }
                -1 => Ans::Unsat,
                _ => Ans::Unknown,
            };
            if !alt.is_null() {
                Z3_solver_dec_ref(self.ctx, alt);
            }
            Z3_solver_pop(self.ctx, self.solver, 1);
            ans
        };
        let _ = mask;
        let ns = t0.elapsed().as_nanos() as u64;
        s.solver_ns.fetch_add(ns, Ordering::Relaxed);
        s.max_ns.fetch_max(ns, Ordering::Relaxed);
        match &ans {
            Ans::Sat(v) => {
                s.sat.fetch_add(1, Ordering::Relaxed);
                // every model is evaluated against the constraints it is supposed to satisfy
                let mut memo = HashMap::new();
                let f = |i: u32| v.iter().find(|x| x.0 == i).map(|x| x.1).unwrap_or(0);
                for &c in cons {
                    if st.eval(c, &f, &mut memo) != 1 {
                        eprintln!("ENGINE: solver model does not satisfy {}", st.show(c));
                        std::process::exit(2);
                    }
                }
            }
            Ans::Unsat => {
                s.unsat.fetch_add(1, Ordering::Relaxed);
            }
            Ans::Unknown => {
                s.unknown.fetch_add(1, Ordering::Relaxed);
            }
        }
        ans
    }
}

impl Drop for Solver<'_> {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.ctx, self.solver);
            Z3_del_context(self.ctx);
        }
    }
}
