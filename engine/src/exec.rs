//! Concolic execution of one path.

use crate::compile::*;
use crate::expr::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::HashMap;
use std::sync::atomic::Ordering;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dec {
    Taken(bool),
    Case(u32),
    NotCase(u32),
    Implied,
    Is(u64),
    Not(u64),
}

#[derive(Clone, Debug)]
pub struct Job {
    pub prefix: Vec<Dec>,
    pub model: Vec<u128>,
}

#[derive(Debug, Clone)]
pub enum Stop {
    Done,
    Dead,
    Requeued,
    Violation { msg: String, model: Vec<u128>, trace: Vec<String>, kind: &'static str },
    Engine(String),
    Limit(String),
}

impl From<MemErr> for Stop {
    fn from(e: MemErr) -> Stop {
        Stop::Violation { msg: format!("invalid memory {} of {} bytes at {:#x}", e.what, e.n, e.addr), model: vec![], trace: vec![], kind: "memory" }
    }
}

pub struct Frame {
    pub f: usize,
    pub pc: usize,
    pub base: usize,
    pub ret: u32,
    pub nret: u32,
    pub edge: Option<u32>,
    pub sp: u64,
}

pub struct Limits {
    pub max_steps: u64,
    pub table_max: usize,
}

pub struct Machine<'p> {
    pub p: &'p Prog,
    pub st: Store,
    pub solver: Solver<'p>,
    pub mem: Mem<'p>,
    pub regs: Vec<Val>,
    pub frames: Vec<Frame>,
    pub widths: Vec<u32>,
    pub model: Vec<u128>,
    pub pc: Vec<E>,
    pub known: HashMap<E, bool, BuildFx>,
    pub fixed: u128,
    /// bounds the path puts on each input
    pub ranges: Vec<(u128, u128)>,
    pub generation: u64,
    pub bounds: HashMap<E, (u64, u128, u128), BuildFx>,
    pub prefix: Vec<Dec>,
    pub dpos: usize,
    pub trace: Vec<Dec>,
    pub new_jobs: Vec<Job>,
    pub steps: u64,
    pub obs: Vec<u64>,
    pub covers: std::collections::BTreeSet<u32>,
    pub checks: u64,
    pub checks_symbolic: u64,
    pub unknowns: Vec<String>,
    pub lim: Limits,
    pub kinds: &'p [FnKind],
    pub fs: crate::libc::Fs,
    pub forks: HashMap<(u32, u32), u64, BuildFx>,
    pub collect_forks: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FnKind {
    Normal,
    Panic,
    Ext(crate::libc::Ext),
    Unsupported,
}

pub fn classify(p: &Prog) -> Vec<FnKind> {
    p.m.fns
        .iter()
        .map(|f| {
            let n = f.name.as_str();
            if let Some(x) = crate::libc::Ext::by_name(n) {
                if f.decl {
                    return FnKind::Ext(x);
                }
            }
            if f.decl {
                return FnKind::Unsupported;
            }
            let panics = [
                "9panicking9panic_fmt",
                "9panicking18panic_nounwind_fmt",
                "17rust_begin_unwind",
                "9panicking11begin_panic",
                "15rust_panic",
                "18handle_alloc_error",
                "9panicking14panic_nounwind",
                "9panicking19panic_cannot_unwind",
                "9panicking16panic_in_cleanup",
                "7process5abort",
                "12rust_panic",
                "18panic_bounds_check",
                "13assert_failed",
                "16slice_error_fail",
                "13unwrap_failed",
                "13expect_failed",
                "20panic_const_add_overflow",
                "9panicking5panic",
                "15panic_const",
            ];
            if panics.iter().any(|x| n.contains(x)) {
                return FnKind::Panic;
            }
            FnKind::Normal
        })
        .collect()
}

impl<'p> Machine<'p> {
    pub fn new(p: &'p Prog, shared: &'p Shared, kinds: &'p [FnKind], lim: Limits) -> Machine<'p> {
        Machine {
            p,
            st: Store::new(),
            solver: Solver::new(shared),
            mem: Mem::new(p),
            regs: vec![],
            frames: vec![],
            widths: vec![],
            model: vec![],
            pc: vec![],
            known: Default::default(),
            fixed: 0,
            ranges: vec![],
            generation: 0,
            bounds: Default::default(),
            prefix: vec![],
            dpos: 0,
            trace: vec![],
            new_jobs: vec![],
            steps: 0,
            obs: vec![],
            covers: Default::default(),
            checks: 0,
            checks_symbolic: 0,
            unknowns: vec![],
            lim,
            kinds,
            fs: crate::libc::Fs::new(),
            forks: Default::default(),
            collect_forks: false,
        }
    }

    pub fn run(&mut self, entry: usize, job: Job) -> Stop {
        if self.st.nodes.len() > 1_500_000 {
            self.st = Store::new();
            self.solver.reset();
        }
        self.mem.reset();
        self.fs = crate::libc::Fs::new();
        self.frames.clear();
        self.regs.clear();
        self.widths.clear();
        self.model = job.model;
        self.pc.clear();
        self.known.clear();
        self.fixed = 0;
        self.ranges.clear();
        self.generation = 0;
        self.bounds.clear();
        self.prefix = job.prefix;
        self.dpos = 0;
        self.trace.clear();
        self.new_jobs.clear();
        self.steps = 0;
        self.obs.clear();
        self.covers.clear();
        let r = match self.push_frame(entry, &[], 0, 0, None) {
            Ok(()) => self.exec(),
            Err(e) => Err(e),
        };
        match r {
            Ok(()) => Stop::Done,
            Err(Stop::Violation { msg, model, trace, kind }) => {
                let model = if model.is_empty() { self.model_now() } else { model };
                let trace = if trace.is_empty() { self.backtrace() } else { trace };
                Stop::Violation { msg, model, trace, kind }
            }
            Err(s) => s,
        }
    }

    pub fn model_now(&self) -> Vec<u128> {
        (0..self.widths.len()).map(|i| self.model.get(i).copied().unwrap_or(0) & mask(self.widths[i])).collect()
    }

    fn merged(&self, m: &[(u32, u128)]) -> Vec<u128> {
        let mut v = self.model_now();
        for &(i, x) in m {
            v[i as usize] = x;
        }
        v
    }

    pub fn backtrace(&self) -> Vec<String> {
        let mut out = vec![];
        for fr in self.frames.iter().rev().take(40) {
            let cf = self.p.get(fr.f);
            let pc = fr.pc.saturating_sub(1).min(cf.dbg.len().saturating_sub(1));
            for l in crate::dbg::chain(&self.p.m.meta, cf.dbg.get(pc).copied().unwrap_or(0)) {
                out.push(l);
            }
            if cf.dbg.get(pc).copied().unwrap_or(0) == 0 {
                out.push(format!("in {}", cf.name));
            }
        }
        out
    }

    pub fn new_input(&mut self, w: u32) -> Result<Val, Stop> {
        let i = self.widths.len();
        if i >= 128 {
            return Err(Stop::Engine("more than 128 symbolic inputs".into()));
        }
        self.widths.push(w);
        self.ranges.push((0, mask(w)));
        let c = self.model.get(i).copied().unwrap_or(0) & mask(w);
        let e = self.st.var(i as u32, w);
        Ok(Val { c, e })
    }

    fn add_pc(&mut self, lit: E) {
        let n = self.st.nodes[lit as usize];
        self.known.insert(lit, true);
        let nl = self.st.not(lit);
        self.known.insert(nl, false);
        match n.op {
            Op::Const => return,
            Op::And if n.w == 1 => {
                self.add_pc(n.a);
                self.add_pc(n.b);
                return;
            }
            Op::Xor if n.w == 1 && self.st.as_const(n.b) == Some(1) => {
                // not (a or b)
                let m = self.st.nodes[n.a as usize];
                if m.op == Op::Or {
                    let x = self.st.not(m.a);
                    let y = self.st.not(m.b);
                    self.add_pc(x);
                    self.add_pc(y);
                    return;
                }
            }
            Op::Eq => {
                let v = self.st.nodes[n.a as usize];
                if v.op == Op::Var && self.st.as_const(n.b).is_some() {
                    self.fixed |= 1 << v.imm;
                }
            }
            Op::Var if n.w == 1 => self.fixed |= 1 << n.imm,
            _ => {}
        }
        self.pc.push(lit);
        self.narrow(lit);
    }

    fn in_prefix(&self) -> bool {
        self.dpos < self.prefix.len()
    }

    fn diverged<T>(&self, d: Dec) -> Result<T, Stop> {
        Err(Stop::Engine(format!("replay diverged at decision {}: {:?}", self.dpos, d)))
    }

    fn count_fork(&mut self) {
        if self.collect_forks {
            if let Some(f) = self.frames.last() {
                *self.forks.entry((f.f as u32, f.pc as u32)).or_insert(0) += 1;
            }
        }
    }

    /// A branch on symbolic condition `e` whose concrete value is `c`.
    pub fn branch(&mut self, e: E, c: bool) -> Result<(), Stop> {
        if self.st.as_const(e).is_some() {
            return Ok(());
        }
        if self.decided(e) {
            return Ok(());
        }
        if self.st.vars[e as usize] & !self.fixed == 0 {
            return Ok(());
        }
        if let Some(&k) = self.known.get(&e) {
            if k != c {
                return Err(Stop::Engine("concrete value contradicts path condition".into()));
            }
            return Ok(());
        }
        let lit = if c { e } else { self.st.not(e) };
        if self.in_prefix() {
            let d = self.prefix[self.dpos];
            self.dpos += 1;
            self.trace.push(d);
            match d {
                Dec::Implied => {
                    self.known.insert(e, c);
                    let ne = self.st.not(e);
                    self.known.insert(ne, !c);
                }
                Dec::Taken(b) if b == c => self.add_pc(lit),
                _ => return self.diverged(d),
            }
            return Ok(());
        }
        let nl = self.st.not(lit);
        match self.solver.query(&self.st, &self.pc, nl) {
            Ans::Unsat => {
                self.trace.push(Dec::Implied);
                self.dpos += 1;
                self.known.insert(e, c);
                let ne = self.st.not(e);
                self.known.insert(ne, !c);
            }
            a => {
                self.count_fork();
                match a {
                    Ans::Sat(m) => {
                        let mut prefix = self.trace.clone();
                        prefix.push(Dec::Taken(!c));
                        let model = self.merged(&m);
                        self.new_jobs.push(Job { prefix, model });
                    }
                    _ => self.unknowns.push("branch".into()),
                }
                self.trace.push(Dec::Taken(c));
                self.dpos += 1;
                self.add_pc(lit);
            }
        }
        // keep prefix and trace aligned
        self.prefix.truncate(0);
        self.prefix_done();
        Ok(())
    }

    fn prefix_done(&mut self) {
        self.dpos = 0;
    }

    /// Fix a symbolic value to its concrete value, exploring the others on other paths.
    pub fn pin(&mut self, v: Val) -> Result<u128, Stop> {
        if v.e == 0 || self.st.as_const(v.e).is_some() || self.st.vars[v.e as usize] & !self.fixed == 0 || self.decided(v.e) {
            return Ok(v.c);
        }
        let w = self.st.w(v.e);
        loop {
            let k = self.st.konst(v.c, w);
            let l = self.st.bin(Op::Eq, v.e, k);
            if self.known.get(&l) == Some(&true) {
                return Ok(v.c);
            }
            if self.in_prefix() {
                let d = self.prefix[self.dpos];
                self.dpos += 1;
                self.trace.push(d);
                match d {
                    Dec::Implied => return Ok(v.c),
                    Dec::Is(x) if x == v.c as u64 => {
                        self.add_pc(l);
                        return Ok(v.c);
                    }
                    Dec::Not(x) if x != v.c as u64 => {
                        let k = self.st.konst(x as u128, w);
                        let l = self.st.bin(Op::Eq, v.e, k);
                        let l = self.st.not(l);
                        self.add_pc(l);
                        continue;
                    }
                    _ => return self.diverged(d),
                }
            }
            let nl = self.st.not(l);
            match self.solver.query(&self.st, &self.pc, nl) {
                Ans::Unsat => {
                    self.trace.push(Dec::Implied);
                }
                a => {
                    self.count_fork();
                    match a {
                        Ans::Sat(m) => {
                            let mut prefix = self.trace.clone();
                            prefix.push(Dec::Not(v.c as u64));
                            let model = self.merged(&m);
                            self.new_jobs.push(Job { prefix, model });
                        }
                        _ => self.unknowns.push("pin".into()),
                    }
                    self.trace.push(Dec::Is(v.c as u64));
                    self.add_pc(l);
                }
            }
            self.prefix.truncate(0);
            self.dpos = 0;
            return Ok(v.c);
        }
    }

    pub fn assume(&mut self, v: Val) -> Result<(), Stop> {
        if v.e == 0 || self.st.as_const(v.e).is_some() || self.st.vars[v.e as usize] & !self.fixed == 0 {
            return if v.c == 1 { Ok(()) } else { Err(Stop::Dead) };
        }
        if let Some(&k) = self.known.get(&v.e) {
            return if k { Ok(()) } else { Err(Stop::Dead) };
        }
        if v.c == 1 {
            self.add_pc(v.e);
            return Ok(());
        }
        if self.in_prefix() {
            return Err(Stop::Engine("assumption false inside a replayed prefix".into()));
        }
        match self.solver.query(&self.st, &self.pc, v.e) {
            Ans::Unsat => Err(Stop::Dead),
            Ans::Sat(m) => {
                let model = self.merged(&m);
                // same decisions, other values
                self.new_jobs.push(Job { prefix: self.trace.clone(), model });
                Err(Stop::Requeued)
            }
            Ans::Unknown => {
                self.unknowns.push("assume".into());
                Err(Stop::Dead)
            }
        }
    }

    pub fn check(&mut self, v: Val, msg: &str) -> Result<(), Stop> {
        let pre = self.in_prefix();
        if !pre {
            self.checks += 1;
        }
        if v.c == 0 {
            return Err(Stop::Violation { msg: msg.to_string(), model: vec![], trace: vec![], kind: "check" });
        }
        if v.e == 0 || self.st.as_const(v.e).is_some() || self.st.vars[v.e as usize] & !self.fixed == 0 {
            return Ok(());
        }
        if self.known.get(&v.e) == Some(&true) {
            return Ok(());
        }
        if !pre {
            self.checks_symbolic += 1;
            let nl = self.st.not(v.e);
            match self.solver.query(&self.st, &self.pc, nl) {
                Ans::Unsat => {}
                Ans::Sat(m) => {
                    let model = self.merged(&m);
                    return Err(Stop::Violation { msg: msg.to_string(), model, trace: vec![], kind: "check" });
                }
                Ans::Unknown => self.unknowns.push(format!("check {}", msg)),
            }
        }
        self.known.insert(v.e, true);
        let ne = self.st.not(v.e);
        self.known.insert(ne, false);
        Ok(())
    }

    /// Concrete address for a memory access.
    pub fn addr(&mut self, v: Val) -> Result<u64, Stop> {
        if v.e == 0 {
            Ok(v.c as u64)
        } else {
            Ok(self.pin(v)? as u64)
        }
    }

    fn sym_load(&mut self, p: Val, off: i32, w: u32) -> Result<Val, Stop> {
        let a0 = (p.c as u64).wrapping_add(off as i64 as u64);
        if self.st.vars[p.e as usize] & !self.fixed == 0 {
            return Ok(self.mem.load(&mut self.st, a0, w)?);
        }
        if self.mem.is_ro(a0) {
            // table lookup: enumerate the feasible addresses
            let (_, key) = Solver::slice(&self.st, &self.pc, &[p.e]);
            let cached = self.solver.shared.enums.lock().unwrap().get(&key).cloned();
            let vals = match cached {
                Some(v) => v,
                None => {
                    let mut vals: Vec<u64> = vec![p.c as u64];
                    let mut cons = self.pc.clone();
                    let mut ok = true;
                    loop {
                        let k = self.st.konst(*vals.last().unwrap() as u128, 64);
                        let q = self.st.bin(Op::Eq, p.e, k);
                        let nq = self.st.not(q);
                        match self.solver.query(&self.st, &cons, nq) {
                            Ans::Unsat => break,
                            Ans::Unknown => {
                                ok = false;
                                break;
                            }
                            Ans::Sat(m) => {
                                let mv = self.merged(&m);
                                let mut memo = HashMap::new();
                                let x = self.st.eval(p.e, &|i| mv[i as usize], &mut memo) as u64;
                                vals.push(x);
                                cons.push(nq);
                                if vals.len() > self.lim.table_max {
                                    ok = false;
                                    break;
                                }
                            }
                        }
                    }
                    let r = if ok {
                        vals.sort_unstable();
                        vals.dedup();
                        Some(vals)
                    } else {
                        None
                    };
                    self.solver.shared.enums.lock().unwrap().insert(key, r.clone());
                    r
                }
            };
            if let Some(vals) = vals {
                if vals.iter().all(|a| self.mem.is_ro(a.wrapping_add(off as i64 as u64))) {
                    let mut tab = vec![];
                    for a in &vals {
                        let v = self.mem.load(&mut self.st, a.wrapping_add(off as i64 as u64), w)?;
                        tab.push((*a, v.c));
                    }
                    let e = self.table(p.e, &tab, w);
                    let c = self.mem.load(&mut self.st, a0, w)?.c;
                    let e = if self.st.as_const(e).is_some() { 0 } else { e };
                    return Ok(Val { c, e });
                }
            }
        }
        let a = self.pin(p)? as u64;
        Ok(self.mem.load(&mut self.st, a.wrapping_add(off as i64 as u64), w)?)
    }

    fn table(&mut self, p: E, tab: &[(u64, u128)], w: u32) -> E {
        if tab.iter().all(|t| t.1 == tab[0].1) {
            return self.st.konst(tab[0].1, w);
        }
        let mid = tab.len() / 2;
        let k = self.st.konst(tab[mid].0 as u128, 64);
        let c = self.st.bin(Op::Ult, p, k);
        let a = self.table(p, &tab[..mid], w);
        let b = self.table(p, &tab[mid..], w);
        self.st.ite(c, a, b)
    }

    pub fn push_frame(&mut self, f: usize, args: &[Val], ret: u32, nret: u32, edge: Option<u32>) -> Result<(), Stop> {
        if self.frames.len() > 3000 {
            return Err(Stop::Violation { msg: "recursion deeper than 3000 frames".into(), model: vec![], trace: vec![], kind: "stack" });
        }
        let cf = self.p.get(f);
        cf.calls_made.fetch_add(1, Ordering::Relaxed);
        cf.cov[0].store(1, Ordering::Relaxed);
        let base = self.regs.len();
        self.regs.resize(base + cf.nregs as usize, Val::default());
        for (i, a) in args.iter().enumerate().take(cf.nargs as usize) {
            self.regs[base + i] = *a;
        }
        self.frames.push(Frame { f, pc: 0, base, ret, nret, edge, sp: self.mem.sp });
        Ok(())
    }

    #[inline]
    pub fn ex(&mut self, v: Val, w: u32) -> E {
        if v.e != 0 {
            v.e
        } else {
            self.st.konst(v.c, w)
        }
    }

    fn symbin(&mut self, op: Op, w: u32, a: Val, b: Val) -> E {
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        self.st.bin(op, x, y)
    }

    fn mkval(&mut self, c: u128, e: E) -> Val {
        if e != 0 {
            let n = self.st.nodes[e as usize];
            if n.op == Op::Const {
                assert_eq!(n.imm, c, "simplifier/concrete mismatch");
                return Val { c: n.imm, e: 0 };
            }
            if self.st.vars[e as usize] & !self.fixed == 0 {
                return Val::k(c);
            }
            let (lo, hi) = self.interval(e, 12);
            assert!(lo <= c && c <= hi, "interval [{}, {}] without {}", lo, hi, c);
            if lo == hi {
                return Val::k(c);
            }
        }
        Val { c, e }
    }

    fn decided(&mut self, e: E) -> bool {
        let (lo, hi) = self.interval(e, 12);
        lo == hi
    }

    /// Unsigned bounds of an expression's value, given the bounds the path puts on single inputs.
    pub fn interval(&mut self, e: E, depth: u32) -> (u128, u128) {
        let n = self.st.nodes[e as usize];
        let w = n.w as u32;
        let m = mask(w);
        match n.op {
            Op::Const => return (n.imm, n.imm),
            Op::Var => {
                let (lo, hi) = self.range(n.imm as usize, w);
                return (lo, hi);
            }
            _ => {}
        }
        if depth == 0 {
            return (0, m);
        }
        if let Some(&(g, lo, hi)) = self.bounds.get(&e) {
            if g == self.generation || lo == hi {
                return (lo, hi);
            }
        }
        let d = depth - 1;
        let r = match n.op {
            Op::Zext => self.interval(n.a, d),
            Op::Sext => {
                let (lo, hi) = self.interval(n.a, d);
                if hi >> (self.st.w(n.a) - 1) == 0 {
                    (lo, hi)
                } else {
                    (0, m)
                }
            }
            Op::Extract => {
                let (lo, hi) = self.interval(n.a, d);
                let k = n.imm as u32;
                let (lo, hi) = (lo >> k, hi >> k);
                if lo & !m == hi & !m {
                    (lo & m, hi & m)
                } else {
                    (0, m)
                }
            }
            Op::Concat => {
                let (a, b) = self.interval(n.a, d);
                let (x, y) = self.interval(n.b, d);
                let k = self.st.w(n.b);
                (a << k | x, b << k | y)
            }
            Op::Add => {
                let (a, b) = self.interval(n.a, d);
                let (x, y) = self.interval(n.b, d);
                match (a.checked_add(x), b.checked_add(y)) {
                    (Some(lo), Some(hi)) if lo & !m == hi & !m => (lo & m, hi & m),
                    _ => (0, m),
                }
            }
            Op::Sub => {
                let (a, b) = self.interval(n.a, d);
                let (x, y) = self.interval(n.b, d);
                if a >= y {
                    (a - y, b - x)
                } else {
                    (0, m)
                }
            }
            Op::Mul => {
                let (a, b) = self.interval(n.a, d);
                let (x, y) = self.interval(n.b, d);
                match (a.checked_mul(x), b.checked_mul(y)) {
                    (Some(lo), Some(hi)) if hi <= m => (lo, hi),
                    _ => (0, m),
                }
            }
            Op::UDiv => {
                let (a, b) = self.interval(n.a, d);
                match self.st.as_const(n.b) {
                    Some(k) if k > 0 => (a / k, b / k),
                    _ => (0, m),
                }
            }
            Op::URem => {
                let (a, b) = self.interval(n.a, d);
                match self.st.as_const(n.b) {
                    Some(k) if k > 0 && a / k == b / k => (a % k, b % k),
                    Some(k) if k > 0 => (0, k - 1),
                    _ => (0, m),
                }
            }
            Op::And => {
                let (a, b) = self.interval(n.a, d);
                match self.st.as_const(n.b) {
                    // clearing the low bits, or keeping only them
                    Some(k) if (k | (k.wrapping_sub(1))) == m && k != 0 => (a & k, b & k),
                    Some(k) if k & (k + 1) == 0 && a & !k == b & !k => (a & k, b & k),
                    Some(k) => (0, b.min(k)),
                    None => (0, b.min(self.interval(n.b, d).1)),
                }
            }
            Op::Or => {
                let (a, b) = self.interval(n.a, d);
                let (x, y) = self.interval(n.b, d);
                let top = b | y;
                let hi = if top == 0 { 0 } else { u128::MAX >> top.leading_zeros() };
                (a.max(x), hi & m)
            }
            Op::LShr => {
                let (a, b) = self.interval(n.a, d);
                match self.st.as_const(n.b) {
                    Some(k) if k < w as u128 => (a >> k, b >> k),
                    _ => (0, b),
                }
            }
            Op::Shl => {
                let (a, b) = self.interval(n.a, d);
                match self.st.as_const(n.b) {
                    Some(k) if k < w as u128 && b << k >> k == b && b << k <= m => (a << k, b << k),
                    _ => (0, m),
                }
            }
            Op::Xor if w == 1 && self.st.as_const(n.b) == Some(1) => {
                let (a, b) = self.interval(n.a, d);
                (1 - b, 1 - a)
            }
            Op::Eq => {
                let (a, b) = self.interval(n.a, d);
                let (x, y) = self.interval(n.b, d);
                if b < x || y < a {
                    (0, 0)
                } else if a == b && x == y {
                    (1, 1)
                } else {
                    (0, 1)
                }
            }
            Op::Ult | Op::Ule => {
                let (a, b) = self.interval(n.a, d);
                let (x, y) = self.interval(n.b, d);
                let strict = n.op == Op::Ult;
                if b < x || (!strict && b == x) {
                    (1, 1)
                } else if a > y || (strict && a == y) {
                    (0, 0)
                } else {
                    (0, 1)
                }
            }
            Op::Slt | Op::Sle => {
                let (a, b) = self.interval(n.a, d);
                let (x, y) = self.interval(n.b, d);
                let h = 1u128 << (self.st.w(n.a) - 1);
                // one sign each
                if a & h == b & h && x & h == y & h {
                    let (a, b, x, y) = (a ^ h, b ^ h, x ^ h, y ^ h);
                    let strict = n.op == Op::Slt;
                    if b < x || (!strict && b == x) {
                        (1, 1)
                    } else if a > y || (strict && a == y) {
                        (0, 0)
                    } else {
                        (0, 1)
                    }
                } else {
                    (0, 1)
                }
            }
            Op::Ite => {
                let c = self.interval(n.a, d);
                if c == (1, 1) {
                    self.interval(n.b, d)
                } else if c == (0, 0) {
                    self.interval(n.c, d)
                } else {
                    let (a, b) = self.interval(n.b, d);
                    let (x, y) = self.interval(n.c, d);
                    (a.min(x), b.max(y))
                }
            }
            _ => (0, m),
        };
        self.bounds.insert(e, (self.generation, r.0, r.1));
        r
    }

    fn range(&self, i: usize, w: u32) -> (u128, u128) {
        self.ranges.get(i).copied().unwrap_or((0, mask(w)))
    }

    /// Takes note of what a literal on the path says about a single input.
    fn narrow(&mut self, lit: E) {
        let n = self.st.nodes[lit as usize];
        let (op, a, b) = match n.op {
            Op::Eq | Op::Ult | Op::Ule => (n.op, n.a, n.b),
            _ => return,
        };
        match op {
            Op::Eq => {
                if let Some(k) = self.st.as_const(b) {
                    self.narrow_to(a, k, k);
                }
            }
            _ => {
                let strict = op == Op::Ult;
                if let Some(k) = self.st.as_const(b) {
                    if !strict || k > 0 {
                        self.narrow_to(a, 0, if strict { k - 1 } else { k });
                    }
                } else if let Some(k) = self.st.as_const(a) {
                    self.narrow_to(b, if strict { k + 1 } else { k }, u128::MAX);
                }
            }
        }
    }

    fn narrow_to(&mut self, e: E, lo: u128, hi: u128) {
        let n = self.st.nodes[e as usize];
        match n.op {
            Op::Var => {
                let i = n.imm as usize;
                let (a, b) = self.range(i, n.w as u32);
                let new = (a.max(lo), b.min(hi));
                if new.0 <= new.1 && new != (a, b) {
                    self.ranges[i] = new;
                    self.generation += 1;
                }
            }
            Op::Zext => self.narrow_to(n.a, lo, hi.min(mask(self.st.w(n.a)))),
            Op::Extract if n.imm == 0 => {
                let (_, b) = self.interval(n.a, 3);
                if b <= mask(n.w as u32) {
                    self.narrow_to(n.a, lo, hi);
                }
            }
            Op::Add => {
                // x + k, where it doesn't wrap or always does
                if let Some(k) = self.st.as_const(n.b) {
                    let m = mask(n.w as u32);
                    let hi = hi.min(m);
                    let (a, b) = self.interval(n.a, 3);
                    if b.checked_add(k).map_or(false, |x| x <= m) {
                        if hi >= k {
                            self.narrow_to(n.a, lo.saturating_sub(k), hi - k);
                        }
                    } else if k != 0 && m < u128::MAX && a.checked_add(k).map_or(false, |x| x > m) {
                        let neg = m - k + 1;
                        self.narrow_to(n.a, lo + neg, hi + neg);
                    } else if k != 0 && m < u128::MAX {
                        // [lo, hi] - k as one interval, if it is one
                        let neg = m - k + 1;
                        if hi + neg <= m {
                            self.narrow_to(n.a, lo + neg, hi + neg);
                        } else if lo + neg > m {
                            self.narrow_to(n.a, lo + neg - m - 1, hi + neg - m - 1);
                        }
                    }
                }
            }
            _ => {}
        }
    }

    pub fn exec(&mut self) -> Result<(), Stop> {
        let p = self.p;
        loop {
            let fi = self.frames.len() - 1;
            let cf = p.get(self.frames[fi].f);
            let base = self.frames[fi].base;
            let mut pc = self.frames[fi].pc;
            macro_rules! get {
                ($o:expr) => {{
                    let o = $o;
                    if o >= 0 {
                        unsafe { *self.regs.get_unchecked(base + o as usize) }
                    } else {
                        Val { c: unsafe { *cf.consts.get_unchecked(!o as usize) }, e: 0 }
                    }
                }};
            }
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    let d = base + $d as usize;
                    unsafe { *self.regs.get_unchecked_mut(d) = v };
                }};
            }
            macro_rules! jump {
                ($e:expr) => {{
                    let e = &cf.edges[$e as usize];
                    cf.cov[e.block as usize].store(1, Ordering::Relaxed);
                    if e.conflict {
                        let tmp: Vec<Val> = e.moves.iter().map(|m| get!(m.1)).collect();
                        for (m, v) in e.moves.iter().zip(tmp) {
                            set!(m.0, v);
                        }
                    } else {
                        for m in &e.moves {
                            let v = get!(m.1);
                            set!(m.0, v);
                        }
                    }
                    pc = e.pc as usize;
                }};
            }
            // run inside this frame until a call or return changes it
            loop {
                self.steps += 1;
                let ins = cf.code[pc];
                pc += 1;
                match ins {
                    I::Bin { op, w, neg, d, a, b } => {
                        let (a, b) = (get!(a), get!(b));
                        let c = match fold(op, w as u32, a.c, b.c) {
                            Some(c) => c,
                            None => {
                                self.frames[fi].pc = pc;
                                return Err(Stop::Violation { msg: "division by zero".into(), model: vec![], trace: vec![], kind: "trap" });
                            }
                        };
                        let mut v = Val { c, e: 0 };
                        if a.e | b.e != 0 {
                            let e = self.symbin(op, w as u32, a, b);
                            v = self.mkval(c, e);
                        }
                        if neg {
                            v.c ^= 1;
                            if v.e != 0 {
                                v.e = self.st.not(v.e);
                            }
                        }
                        set!(d, v);
                    }
                    I::Cast { k, wf, wt, d, a } => {
                        let a = get!(a);
                        let (wf, wt) = (wf as u32, wt as u32);
                        let c = match k {
                            CastK::Zext => a.c,
                            CastK::Trunc => a.c & mask(wt),
                            CastK::Sext => (sext_to(a.c, wf) as u128) & mask(wt),
                        };
                        let mut v = Val { c, e: 0 };
                        if a.e != 0 {
                            let e = match k {
                                CastK::Zext => self.st.zext(a.e, wt),
                                CastK::Trunc => self.st.extract(a.e, 0, wt),
                                CastK::Sext => self.st.sext(a.e, wt),
                            };
                            v = self.mkval(c, e);
                        }
                        set!(d, v);
                    }
                    I::Sel { w, d, c, a, b } => {
                        let c = get!(c);
                        let (a, b) = (get!(a), get!(b));
                        let pick = if c.c == 1 { a } else { b };
                        if c.e == 0 || (a.c == b.c && a.e == b.e) {
                            set!(d, pick);
                        } else if self.st.vars[c.e as usize] & !self.fixed == 0 || self.known.contains_key(&c.e) || self.decided(c.e) {
                            set!(d, pick);
                        } else {
                            let x = self.ex(a, w as u32);
                            let y = self.ex(b, w as u32);
                            let e = self.st.ite(c.e, x, y);
                            set!(d, self.mkval(pick.c, e));
                        }
                    }
                    I::Mov { d, a } => set!(d, get!(a)),
                    I::Load { w, d, p, off } => {
                        let a = get!(p);
                        let v = if a.e == 0 {
                            match self.mem.load(&mut self.st, (a.c as u64).wrapping_add(off as i64 as u64), w as u32) {
                                Ok(v) => v,
                                Err(e) => {
                                    self.frames[fi].pc = pc;
                                    return Err(e.into());
                                }
                            }
                        } else {
                            self.frames[fi].pc = pc;
                            self.sym_load(a, off, w as u32)?
                        };
                        set!(d, v);
                    }
                    I::Store { w, v, p, off } => {
                        let (v, a) = (get!(v), get!(p));
                        let ad = if a.e == 0 {
                            a.c as u64
                        } else {
                            self.frames[fi].pc = pc;
                            self.addr(a)?
                        };
                        if let Err(e) = self.mem.store(&mut self.st, ad.wrapping_add(off as i64 as u64), w as u32, v) {
                            self.frames[fi].pc = pc;
                            return Err(e.into());
                        }
                    }
                    I::Gep0 { d, b, off } => {
                        let b = get!(b);
                        let c = (b.c as u64).wrapping_add(off as u64) as u128;
                        let mut v = Val { c, e: 0 };
                        if b.e != 0 {
                            let k = self.st.konst(off as u64 as u128, 64);
                            let e = self.st.bin(Op::Add, b.e, k);
                            v = self.mkval(c, e);
                        }
                        set!(d, v);
                    }
                    I::Gep1 { d, b, iw, i, scale, off } => {
                        let (b, i) = (get!(b), get!(i));
                        let ix = sext_to(i.c, iw as u32) as i64;
                        let c = (b.c as u64).wrapping_add((ix.wrapping_mul(scale as i64)) as u64).wrapping_add(off as u64) as u128;
                        let mut v = Val { c, e: 0 };
                        if b.e | i.e != 0 {
                            let bx = self.ex(b, 64);
                            let mut ixe = self.ex(i, iw as u32);
                            if (iw as u32) < 64 {
                                ixe = self.st.sext(ixe, 64);
                            }
                            let s = self.st.konst(scale as u128, 64);
                            let m = self.st.bin(Op::Mul, ixe, s);
                            let k = self.st.konst(off as u64 as u128, 64);
                            let s1 = self.st.bin(Op::Add, bx, m);
                            let e = self.st.bin(Op::Add, s1, k);
                            v = self.mkval(c, e);
                        }
                        set!(d, v);
                    }
                    I::Alloca { d, size, align } => {
                        let a = self.mem.alloca(size as u64, align as u64);
                        set!(d, Val::k(a as u128));
                    }
                    I::Br { e } => {
                        if self.steps > self.lim.max_steps {
                            self.frames[fi].pc = pc;
                            return Err(Stop::Limit(format!("more than {} instructions on one path", self.lim.max_steps)));
                        }
                        jump!(e)
                    }
                    I::CBr { c, t, f } => {
                        let c = get!(c);
                        if c.e != 0 {
                            self.frames[fi].pc = pc;
                            self.branch(c.e, c.c == 1)?;
                        }
                        if self.steps > self.lim.max_steps {
                            self.frames[fi].pc = pc;
                            return Err(Stop::Limit(format!("more than {} instructions on one path", self.lim.max_steps)));
                        }
                        let e = if c.c == 1 { t } else { f };
                        jump!(e)
                    }
                    I::Sw { v, w, tab } => {
                        let v = get!(v);
                        let t = &cf.sws[tab as usize];
                        if v.e != 0 {
                            self.frames[fi].pc = pc;
                            self.switch(v, w as u32, t)?;
                        }
                        let e = match t.map.get(&(v.c as u64)) {
                            Some(i) => t.cases[*i as usize].0,
                            None => t.default,
                        };
                        jump!(e)
                    }
                    I::Ret { s, n } => {
                        let vals: [Val; 4] = {
                            let mut a = [Val::default(); 4];
                            for k in 0..(n as usize).min(4) {
                                a[k] = get!(cf.oplist[s as usize + k]);
                            }
                            a
                        };
                        let extra: Vec<Val> = if n > 4 { (4..n as usize).map(|k| get!(cf.oplist[s as usize + k])).collect() } else { vec![] };
                        let fr = self.frames.pop().unwrap();
                        self.mem.pop_to(fr.sp);
                        self.regs.truncate(fr.base);
                        if self.frames.is_empty() {
                            return Ok(());
                        }
                        let cb = self.frames.last().unwrap().base;
                        for k in 0..(fr.nret as usize) {
                            self.regs[cb + fr.ret as usize + k] = if k < 4 { vals[k] } else { extra[k - 4] };
                        }
                        if let Some(e) = fr.edge {
                            self.take_edge(e);
                        }
                        break;
                    }
                    I::Call { cs } => {
                        self.frames[fi].pc = pc;
                        let c = &cf.calls[cs as usize];
                        let target = match c.target {
                            Target::Fn(f) => f as usize,
                            Target::Ind(o) => {
                                let v = get!(o);
                                let a = self.addr(v)?;
                                let i = a.wrapping_sub(CODE_BASE) / 16;
                                if a < CODE_BASE || i as usize >= p.m.fns.len() || (a - CODE_BASE) % 16 != 0 {
                                    return Err(Stop::Violation { msg: format!("call of invalid address {:#x}", a), model: vec![], trace: vec![], kind: "memory" });
                                }
                                i as usize
                            }
                        };
                        match self.kinds[target] {
                            FnKind::Normal => {
                                let args: Vec<Val> = c.args.iter().map(|o| get!(*o)).collect();
                                self.push_frame(target, &args, c.ret, c.nret, c.edge)?;
                                break;
                            }
                            FnKind::Panic => {
                                let name = &p.m.fns[target].name;
                                return Err(Stop::Violation { msg: format!("panic ({})", crate::dbg::short(name)), model: vec![], trace: vec![], kind: "panic" });
                            }
                            FnKind::Unsupported => {
                                return Err(Stop::Engine(format!("call of unmodelled external function {}", p.m.fns[target].name)));
                            }
                            FnKind::Ext(x) => {
                                let args: Vec<Val> = c.args.iter().map(|o| get!(*o)).collect();
                                let r = self.external(x, &args)?;
                                if c.nret > 0 {
                                    set!(c.ret, r);
                                }
                                if let Some(e) = c.edge {
                                    jump!(e);
                                }
                            }
                        }
                    }
                    I::Intr { k, w, wd, d, a, b, c } => {
                        let (a, b, c) = (get!(a), get!(b), get!(c));
                        self.frames[fi].pc = pc;
                        let (r, o) = self.intrinsic(k, w as u32, wd as u32, a, b, c)?;
                        set!(d, r);
                        if let Some(o) = o {
                            set!(d + 1, o);
                        }
                    }
                    I::MemCpy { d, s, n, .. } => {
                        let (d, s, n) = (get!(d), get!(s), get!(n));
                        self.frames[fi].pc = pc;
                        let n = self.addr(n)? as usize;
                        let d = self.addr(d)?;
                        let s = self.addr(s)?;
                        self.mem.memcpy(d, s, n)?;
                    }
                    I::MemSet { d, v, n } => {
                        let (d, v, n) = (get!(d), get!(v), get!(n));
                        self.frames[fi].pc = pc;
                        let n = self.addr(n)? as usize;
                        let d = self.addr(d)?;
                        self.mem.memset(d, v, n)?;
                    }
                    I::Rmw { op, w, d, p, v } => {
                        let (a, v) = (get!(p), get!(v));
                        self.frames[fi].pc = pc;
                        let a = self.addr(a)?;
                        let w = w as u32;
                        let old = self.mem.load(&mut self.st, a, w)?;
                        let o = match op {
                            0 => None,
                            1 => Some(Op::Add),
                            2 => Some(Op::Sub),
                            3 => Some(Op::And),
                            4 => Some(Op::Or),
                            _ => Some(Op::Xor),
                        };
                        let new = match o {
                            None => v,
                            Some(o) => {
                                let c = fold(o, w, old.c, v.c).unwrap();
                                if old.e | v.e != 0 {
                                    let e = self.symbin(o, w, old, v);
                                    self.mkval(c, e)
                                } else {
                                    Val::k(c)
                                }
                            }
                        };
                        self.mem.store(&mut self.st, a, w, new)?;
                        set!(d, old);
                    }
                    I::CmpX { w, d, p, e, n } => {
                        let (a, e, n) = (get!(p), get!(e), get!(n));
                        self.frames[fi].pc = pc;
                        let a = self.addr(a)?;
                        let w = w as u32;
                        let old = self.mem.load(&mut self.st, a, w)?;
                        let oc = self.pin(old)?;
                        let ec = self.pin(e)?;
                        if oc == ec {
                            self.mem.store(&mut self.st, a, w, n)?;
                        }
                        set!(d, Val::k(oc));
                        set!(d + 1, Val::k((oc == ec) as u128));
                    }
                    I::Pack { ew, d, s, n } => {
                        let ew = ew as u32;
                        let mut c = 0u128;
                        let mut anye = false;
                        for k in 0..n {
                            let v = get!(cf.oplist[(s + k) as usize]);
                            c |= v.c << (ew * k);
                            anye |= v.e != 0;
                        }
                        let mut r = Val::k(c);
                        if anye {
                            let mut e = 0;
                            for k in 0..n {
                                let v = get!(cf.oplist[(s + k) as usize]);
                                let x = self.ex(v, ew);
                                e = if k == 0 { x } else { self.st.concat(x, e) };
                            }
                            r = self.mkval(c, e);
                        }
                        set!(d, r);
                    }
                    I::Unpack { ew, d, a, n } => {
                        let v = get!(a);
                        let ew = ew as u32;
                        for k in 0..n {
                            let c = (v.c >> (ew * k)) & mask(ew);
                            let mut r = Val::k(c);
                            if v.e != 0 {
                                let e = self.st.extract(v.e, ew * k, ew);
                                r = self.mkval(c, e);
                            }
                            set!(d + k, r);
                        }
                    }
                    I::Assume { c } => {
                        let v = get!(c);
                        if v.c == 0 {
                            self.frames[fi].pc = pc;
                            return Err(Stop::Violation { msg: "compiler assumption violated (undefined behaviour)".into(), model: vec![], trace: vec![], kind: "memory" });
                        }
                    }
                    I::Trap => {
                        self.frames[fi].pc = pc;
                        return Err(Stop::Violation { msg: "trap".into(), model: vec![], trace: vec![], kind: "panic" });
                    }
                    I::Unreachable => {
                        self.frames[fi].pc = pc;
                        return Err(Stop::Violation { msg: "unreachable code reached (undefined behaviour)".into(), model: vec![], trace: vec![], kind: "memory" });
                    }
                }
            }
        }
    }

    /// follow an edge of the (new) top frame, e.g. the normal destination of an invoke
    fn take_edge(&mut self, e: u32) {
        let p = self.p;
        let fi = self.frames.len() - 1;
        let cf = p.get(self.frames[fi].f);
        let base = self.frames[fi].base;
        let e = &cf.edges[e as usize];
        cf.cov[e.block as usize].store(1, Ordering::Relaxed);
        let vals: Vec<Val> = e
            .moves
            .iter()
            .map(|m| if m.1 >= 0 { self.regs[base + m.1 as usize] } else { Val::k(cf.consts[!m.1 as usize]) })
            .collect();
        for (m, v) in e.moves.iter().zip(vals) {
            self.regs[base + m.0 as usize] = v;
        }
        self.frames[fi].pc = e.pc as usize;
    }

    /// condition "v is one of the values of case i"
    fn case_cond(&mut self, v: E, w: u32, vals: &[u64]) -> E {
        // contiguous ranges
        let mut s = vals.to_vec();
        s.sort_unstable();
        let mut cond = self.st.konst(0, 1);
        let mut i = 0;
        while i < s.len() {
            let mut j = i;
            while j + 1 < s.len() && s[j + 1] == s[j] + 1 {
                j += 1;
            }
            let lo = self.st.konst(s[i] as u128, w);
            let c = if i == j {
                self.st.bin(Op::Eq, v, lo)
            } else {
                let d = self.st.bin(Op::Sub, v, lo);
                let n = self.st.konst((s[j] - s[i]) as u128, w);
                self.st.bin(Op::Ule, d, n)
            };
            cond = self.st.bin(Op::Or, cond, c);
            i = j + 1;
        }
        cond
    }

    fn switch(&mut self, v: Val, w: u32, t: &SwTab) -> Result<(), Stop> {
        if self.st.vars[v.e as usize] & !self.fixed == 0 {
            return Ok(());
        }
        // decide case membership one target at a time, in a fixed order
        let hit = t.map.get(&(v.c as u64)).copied();
        for k in 0..t.cases.len() {
            let c = self.case_cond(v.e, w, &t.cases[k].1);
            let h = hit == Some(k as u32);
            self.branch(c, h)?;
            if h {
                break;
            }
        }
        Ok(())
    }

    fn intrinsic(&mut self, k: Intr, w: u32, wd: u32, a: Val, b: Val, c: Val) -> Result<(Val, Option<Val>), Stop> {
        let m = mask(w);
        let sym = a.e | b.e | c.e != 0;
        let (sa, sb) = (sext_to(a.c, w), sext_to(b.c, w));
        let conc: (u128, Option<u128>) = match k {
            Intr::UMax => (a.c.max(b.c), None),
            Intr::UMin => (a.c.min(b.c), None),
            Intr::SMax => (if sa > sb { a.c } else { b.c }, None),
            Intr::SMin => (if sa < sb { a.c } else { b.c }, None),
            Intr::USubSat => (a.c.saturating_sub(b.c), None),
            Intr::UAddSat => {
                let s = a.c.wrapping_add(b.c);
                (if s > m || s < a.c { m } else { s }, None)
            }
            Intr::Fshl | Intr::Fshr => {
                let s = (c.c % w as u128) as u32;
                let r = if k == Intr::Fshl {
                    if s == 0 {
                        a.c
                    } else {
                        (a.c << s | b.c >> (w - s)) & m
                    }
                } else if s == 0 {
                    b.c
                } else {
                    (a.c << (w - s) | b.c >> s) & m
                };
                (r, None)
            }
            Intr::Ctpop => (a.c.count_ones() as u128, None),
            Intr::Cttz => (if a.c == 0 { w as u128 } else { a.c.trailing_zeros() as u128 }, None),
            Intr::Ctlz => ((a.c.leading_zeros() - (128 - w)) as u128, None),
            Intr::Bswap => {
                let n = w / 8;
                let mut r = 0;
                for i in 0..n {
                    r |= ((a.c >> (8 * i)) & 0xff) << (8 * (n - 1 - i));
                }
                (r, None)
            }
            Intr::Bitrev => (a.c.reverse_bits() >> (128 - w), None),
            Intr::Abs => (if sa < 0 { 0u128.wrapping_sub(a.c) & m } else { a.c }, None),
            Intr::UCmp => ((if a.c < b.c { mask(wd) } else { (a.c > b.c) as u128 }), None),
            Intr::SCmp => ((if sa < sb { mask(wd) } else { (sa > sb) as u128 }), None),
            Intr::UAddO => {
                let s = a.c.wrapping_add(b.c) & m;
                (s, Some((s < a.c) as u128))
            }
            Intr::USubO => (a.c.wrapping_sub(b.c) & m, Some((a.c < b.c) as u128)),
            Intr::UMulO => match a.c.checked_mul(b.c) {
                Some(r) => (r & m, Some((r > m) as u128)),
                None => (a.c.wrapping_mul(b.c) & m, Some(1)),
            },
            Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                let r = match k {
                    Intr::SAddO => sa.checked_add(sb),
                    Intr::SSubO => sa.checked_sub(sb),
                    _ => sa.checked_mul(sb),
                };
                match r {
                    Some(r) => {
                        let t = (r as u128) & m;
                        (t, Some((sext_to(t, w) != r) as u128))
                    }
                    None => return Err(Stop::Engine("128-bit signed overflow intrinsic".into())),
                }
            }
        };
        if !sym {
            return Ok((Val::k(conc.0), conc.1.map(Val::k)));
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let st = &mut self.st;
        let (e, o): (E, Option<E>) = match k {
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => {
                let lt = st.bin(if matches!(k, Intr::UMax | Intr::UMin) { Op::Ult } else { Op::Slt }, x, y);
                let r = if matches!(k, Intr::UMax | Intr::SMax) { st.ite(lt, y, x) } else { st.ite(lt, x, y) };
                (r, None)
            }
            Intr::USubSat => {
                let lt = st.bin(Op::Ult, x, y);
                let z = st.konst(0, w);
                let d = st.bin(Op::Sub, x, y);
                (st.ite(lt, z, d), None)
            }
            Intr::UAddSat => {
                let s = st.bin(Op::Add, x, y);
                let lt = st.bin(Op::Ult, s, x);
                let mx = st.konst(m, w);
                (st.ite(lt, mx, s), None)
            }
            Intr::Fshl | Intr::Fshr => {
                let sc = self.pin(c)?;
                let s = (sc % w as u128) as u32;
                let st = &mut self.st;
                let e = if s == 0 {
                    if k == Intr::Fshl {
                        x
                    } else {
                        y
                    }
                } else {
                    let s = if k == Intr::Fshl { s } else { w - s };
                    // (x << s) | (y >> (w-s))
                    let hi = st.extract(x, 0, w - s);
                    let lo = st.extract(y, w - s, s);
                    st.concat(hi, lo)
                };
                (e, None)
            }
            Intr::Ctpop => {
                let mut r = st.konst(0, w);
                for i in 0..w {
                    let b = st.extract(x, i, 1);
                    let b = st.zext(b, w);
                    r = st.bin(Op::Add, r, b);
                }
                (r, None)
            }
            Intr::Cttz => {
                let mut r = st.konst(w as u128, w);
                for i in (0..w).rev() {
                    let b = st.extract(x, i, 1);
                    let k = st.konst(i as u128, w);
                    r = st.ite(b, k, r);
                }
                (r, None)
            }
            Intr::Ctlz => {
                let mut r = st.konst(w as u128, w);
                for i in 0..w {
                    let b = st.extract(x, i, 1);
                    let k = st.konst((w - 1 - i) as u128, w);
                    r = st.ite(b, k, r);
                }
                (r, None)
            }
            Intr::Bswap => {
                let mut r = st.extract(x, 0, 8);
                for i in 1..w / 8 {
                    let b = st.extract(x, 8 * i, 8);
                    r = st.concat(r, b);
                }
                (r, None)
            }
            Intr::Bitrev => {
                let mut r = st.extract(x, 0, 1);
                for i in 1..w {
                    let b = st.extract(x, i, 1);
                    r = st.concat(r, b);
                }
                (r, None)
            }
            Intr::Abs => {
                let z = st.konst(0, w);
                let lt = st.bin(Op::Slt, x, z);
                let n = st.bin(Op::Sub, z, x);
                (st.ite(lt, n, x), None)
            }
            Intr::UCmp | Intr::SCmp => {
                let op = if k == Intr::UCmp { Op::Ult } else { Op::Slt };
                let lt = st.bin(op, x, y);
                let gt = st.bin(op, y, x);
                let m1 = st.konst(mask(wd), wd);
                let one = st.konst(1, wd);
                let z = st.konst(0, wd);
                let r = st.ite(gt, one, z);
                (st.ite(lt, m1, r), None)
            }
            Intr::UAddO => {
                let s = st.bin(Op::Add, x, y);
                let o = st.bin(Op::Ult, s, x);
                (s, Some(o))
            }
            Intr::USubO => {
                let s = st.bin(Op::Sub, x, y);
                let o = st.bin(Op::Ult, x, y);
                (s, Some(o))
            }
            Intr::UMulO => {
                let r = st.bin(Op::Mul, x, y);
                let o = if let Some(kb) = st.as_const(y).or(st.as_const(x)) {
                    let other = if st.as_const(y).is_some() { x } else { y };
                    if kb == 0 {
                        st.konst(0, 1)
                    } else {
                        let lim = st.konst(m / kb, w);
                        st.bin(Op::Ult, lim, other)
                    }
                } else if w <= 64 {
                    let xx = st.zext(x, 2 * w);
                    let yy = st.zext(y, 2 * w);
                    let p = st.bin(Op::Mul, xx, yy);
                    let h = st.extract(p, w, w);
                    let z = st.konst(0, w);
                    let q = st.bin(Op::Eq, h, z);
                    st.not(q)
                } else {
                    return Err(Stop::Engine("128-bit symbolic multiplication".into()));
                };
                (r, Some(o))
            }
            Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                if w > 64 {
                    return Err(Stop::Engine("128-bit signed overflow intrinsic".into()));
                }
                let op = match k {
                    Intr::SAddO => Op::Add,
                    Intr::SSubO => Op::Sub,
                    _ => Op::Mul,
                };
                let xx = st.sext(x, 2 * w);
                let yy = st.sext(y, 2 * w);
                let p = st.bin(op, xx, yy);
                let r = st.bin(op, x, y);
                let back = st.sext(r, 2 * w);
                let q = st.bin(Op::Eq, back, p);
                (r, Some(st.not(q)))
            }
        };
        let r = self.mkval(conc.0, e);
        let o = match (o, conc.1) {
            (Some(o), Some(c)) => Some(self.mkval(c, o)),
            _ => None,
        };
        Ok((r, o))
    }
}
