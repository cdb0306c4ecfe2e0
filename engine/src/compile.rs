//! Lowering of LLVM IR functions to a flat register bytecode.

use crate::expr::{mask, Op};
use crate::ir::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, AtomicU8};
use std::sync::OnceLock;

pub type Opd = i32; // >= 0: register, < 0: constant pool entry !x

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Zext,
    Sext,
    Trunc,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    UMax,
    UMin,
    SMax,
    SMin,
    USubSat,
    UAddSat,
    Fshl,
    Fshr,
    Ctpop,
    Cttz,
    Ctlz,
    Bswap,
    Bitrev,
    Abs,
    UCmp,
    SCmp,
    UMulO,
    UAddO,
    USubO,
    SAddO,
    SSubO,
    SMulO,
}

#[derive(Clone, Copy, Debug)]
pub enum I {
    Bin { op: Op, w: u8, neg: bool, d: u32, a: Opd, b: Opd },
    Cast { k: CastK, wf: u8, wt: u8, d: u32, a: Opd },
    Sel { w: u8, d: u32, c: Opd, a: Opd, b: Opd },
    Mov { d: u32, a: Opd },
    Load { w: u8, d: u32, p: Opd, off: i32 },
    Store { w: u8, v: Opd, p: Opd, off: i32 },
    Gep0 { d: u32, b: Opd, off: i64 },
    Gep1 { d: u32, b: Opd, iw: u8, i: Opd, scale: u32, off: i64 },
    Alloca { d: u32, size: u32, align: u32 },
    Call { cs: u32 },
    Br { e: u32 },
    CBr { c: Opd, t: u32, f: u32 },
    Sw { v: Opd, w: u8, tab: u32 },
    Ret { s: u32, n: u32 },
    Intr { k: Intr, w: u8, wd: u8, d: u32, a: Opd, b: Opd, c: Opd },
    MemCpy { d: Opd, s: Opd, n: Opd, mv: bool },
    MemSet { d: Opd, v: Opd, n: Opd },
    Rmw { op: u8, w: u8, d: u32, p: Opd, v: Opd },
    CmpX { w: u8, d: u32, p: Opd, e: Opd, n: Opd },
    Pack { ew: u8, d: u32, s: u32, n: u32 }, // args[s..s+n] -> wide integer, element 0 lowest
    Unpack { ew: u8, d: u32, a: Opd, n: u32 },
    Assume { c: Opd },
    Trap,
    Unreachable,
}

#[derive(Clone, Debug)]
pub enum Target {
    Fn(u32),
    Ind(Opd),
}

#[derive(Clone, Debug)]
pub struct CallSite {
    pub target: Target,
    pub args: Vec<Opd>,
    pub ret: u32,
    pub nret: u32,
    /// invoke: continue at this edge
    pub edge: Option<u32>,
}

#[derive(Clone, Debug, Default)]
pub struct Edge {
    pub pc: u32,
    pub block: u32,
    pub moves: Vec<(u32, Opd)>,
    pub conflict: bool,
}

#[derive(Clone, Debug)]
pub struct SwTab {
    /// grouped per target: (edge, values)
    pub cases: Vec<(u32, Vec<u64>)>,
    pub map: HashMap<u64, u32>, // value -> index in cases
    pub default: u32,
}

pub struct CFn {
    pub name: String,
    pub code: Vec<I>,
    pub dbg: Vec<u32>,
    pub consts: Vec<u128>,
    pub calls: Vec<CallSite>,
    pub edges: Vec<Edge>,
    pub sws: Vec<SwTab>,
    pub oplist: Vec<Opd>,
    pub nregs: u32,
    pub nargs: u32, // argument slots
    pub blocks: Vec<(u32, u32)>, // pc range
    pub cov: Vec<AtomicU8>,
    pub calls_made: AtomicU64,
}

pub const CODE_BASE: u64 = 0x0010_0000;
pub const RO_BASE: u64 = 0x1000_0000;
pub const RW_BASE: u64 = 0x2000_0000;
pub const HEAP_BASE: u64 = 0x1_0000_0000;
pub const STACK_BASE: u64 = 0x7000_0000_0000;

pub struct Prog {
    pub m: Module,
    pub gaddr: HashMap<String, u64>,
    pub ro: Vec<u8>,
    pub ro_valid: Vec<u8>,
    pub rw: Vec<u8>,
    pub rw_valid: Vec<u8>,
    pub cfns: Vec<OnceLock<CFn>>,
}

impl Prog {
    pub fn new(m: Module) -> Prog {
        let mut gaddr = HashMap::new();
        let (mut ro_n, mut rw_n) = (16u64, 16u64);
        for g in &m.globals {
            let n = if g.constant { &mut ro_n } else { &mut rw_n };
            let a = g.align.max(1);
            *n = (*n + a - 1) / a * a;
            let base = if g.constant { RO_BASE } else { RW_BASE };
            gaddr.insert(g.name.clone(), base + *n);
            *n += g.ty.size().max(1) + 16;
        }
        let ncf = m.fns.len();
        let mut p = Prog {
            gaddr,
            ro: vec![0; ro_n as usize + 64],
            ro_valid: vec![0; ro_n as usize + 64],
            rw: vec![0; rw_n as usize + 64],
            rw_valid: vec![0; rw_n as usize + 64],
            cfns: (0..ncf).map(|_| OnceLock::new()).collect(),
            m,
        };
        for gi in 0..p.m.globals.len() {
            let g = &p.m.globals[gi];
            let addr = p.gaddr[&g.name];
            let mut bytes = vec![0u8; g.ty.size() as usize];
            if let Some(c) = &g.init {
                p.init_bytes(&g.ty, c, &mut bytes);
            }
            let size = bytes.len().max(1);
            if g.constant {
                let o = (addr - RO_BASE) as usize;
                p.ro[o..o + bytes.len()].copy_from_slice(&bytes);
                p.ro_valid[o..o + size].fill(1);
            } else {
                let o = (addr - RW_BASE) as usize;
                p.rw[o..o + bytes.len()].copy_from_slice(&bytes);
                p.rw_valid[o..o + size].fill(3);
            }
        }
        p
    }

    fn init_bytes(&self, ty: &Ty, c: &Const, out: &mut [u8]) {
        match c {
            Const::Zero => {}
            Const::Bytes(b) => out[..b.len()].copy_from_slice(b),
            Const::Agg(f) => {
                for (i, (t, v)) in f.iter().enumerate() {
                    let o = ty.field_offset(i as u64) as usize;
                    let n = t.size() as usize;
                    self.init_bytes(t, v, &mut out[o..o + n]);
                }
            }
            _ => {
                let v = self.const_val(c);
                let n = ty.size() as usize;
                for i in 0..n.min(16) {
                    out[i] = (v >> (8 * i)) as u8;
                }
            }
        }
    }

    pub fn const_val(&self, c: &Const) -> u128 {
        match c {
            Const::Int(k) => *k,
            Const::Zero => 0,
            Const::Global(n) => {
                if let Some(a) = self.gaddr.get(n) {
                    *a as u128
                } else if let Some(&i) = self.m.fn_index.get(n) {
                    if self.m.weak_externs.contains(n) {
                        0
                    } else {
                        (CODE_BASE + 16 * i as u64) as u128
                    }
                } else {
                    panic!("unknown global {}", n)
                }
            }
            Const::GepC(b, o) => ((self.const_val(b) as u64).wrapping_add(*o as u64)) as u128,
            Const::Cast(b, w) => self.const_val(b) & mask(*w),
            Const::Bin(op, w, a, b) => {
                let (a, b) = (self.const_val(a), self.const_val(b));
                let r = match op.as_str() {
                    "sub" => a.wrapping_sub(b),
                    "add" => a.wrapping_add(b),
                    _ => a ^ b,
                };
                r & mask(*w)
            }
            c => panic!("const_val {:?}", c),
        }
    }

    pub fn get(&self, i: usize) -> &CFn {
        self.cfns[i].get_or_init(|| {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Compiler::compile(self, &self.m.fns[i])));
            match r {
                Ok(c) => c,
                Err(_) => {
                    eprintln!("ENGINE: cannot lower function {}", self.m.fns[i].name);
                    std::process::exit(2);
                }
            }
        })
    }
}

struct Compiler<'a> {
    p: &'a Prog,
    regs: HashMap<String, (u32, Ty)>,
    nregs: u32,
    consts: Vec<u128>,
    cmap: HashMap<u128, i32>,
    code: Vec<I>,
    dbg: Vec<u32>,
    calls: Vec<CallSite>,
    edges: Vec<Edge>,
    edge_src: Vec<(String, String)>, // (from, to)
    sws: Vec<SwTab>,
    oplist: Vec<Opd>,
    cur_block: String,
    cur_dbg: u32,
}

/// header tokens after the callee/func name: "(" params ")"
fn parse_params(t: &mut Toks, skip_names: bool) -> (Vec<(Ty, Option<String>)>, bool) {
    t.expect_p(b'(');
    let mut v = vec![];
    let mut vararg = false;
    if t.eat_p(b')') {
        return (v, false);
    }
    loop {
        if t.is_w("...") {
            t.i += 1;
            vararg = true;
        } else {
            let ty = t.ty();
            let mut name = None;
            loop {
                match t.peek() {
                    Some(Tok::Local(n)) => {
                        name = Some(n.clone());
                        t.i += 1;
                        break;
                    }
                    Some(Tok::P(b',')) | Some(Tok::P(b')')) => break,
                    Some(Tok::Word(w)) => {
                        t.i += 1;
                        if w == "align" && !t.is_p(b'(') {
                            t.i += 1;
                        } else if t.is_p(b'(') {
                            t.skip_parens();
                        }
                    }
                    Some(Tok::Str(_)) => {
                        t.i += 1;
                        if t.eat_p(b'=') {
                            t.i += 1;
                        }
                    }
                    x => panic!("param {:?}", x),
                }
            }
            let _ = skip_names;
            v.push((ty, name));
        }
        if t.eat_p(b',') {
            continue;
        }
        t.expect_p(b')');
        return (v, vararg);
    }
}

fn dbg_of(s: &str) -> u32 {
    if let Some(i) = s.find("!dbg !") {
        let r = &s[i + 6..];
        let e = r.bytes().position(|b| !b.is_ascii_digit()).unwrap_or(r.len());
        return r[..e].parse().unwrap_or(0);
    }
    0
}

/// drop trailing metadata attachments (", !dbg !5, !noalias ...")
fn strip_meta(s: &str) -> &str {
    if s.contains('"') {
        // quoted names could contain anything; find outside quotes
        let b = s.as_bytes();
        let mut q = false;
        for i in 0..b.len() {
            if b[i] == b'"' {
                q = !q;
            }
            if !q && b[i] == b',' && i + 2 < b.len() && b[i + 1] == b' ' && b[i + 2] == b'!' {
                return &s[..i];
            }
        }
        return s;
    }
    match s.find(", !") {
        Some(i) => &s[..i],
        None => s,
    }
}

struct CallParse {
    ret: Ty,
    target: Result<String, Value>,
    args: Vec<(Ty, Value)>,
}

fn parse_call(t: &mut Toks) -> CallParse {
    // after "call"/"invoke": fast-math/cc/ret attrs, type, [fn type], callee, args
    while !t.is_type() {
        match t.next() {
            Tok::Word(w) => {
                if w == "align" && !t.is_p(b'(') {
                    t.i += 1;
                } else if t.is_p(b'(') {
                    t.skip_parens();
                }
            }
            Tok::Str(_) => {
                if t.eat_p(b'=') {
                    t.i += 1;
                }
            }
            x => panic!("call prefix {:?} in {:?}", x, t.t),
        }
    }
    let ret = t.ty();
    if t.is_p(b'(') {
        // full function type (varargs)
        t.skip_parens();
    }
    let target = match t.next() {
        Tok::Global(n) => Ok(n.clone()),
        Tok::Local(n) => Err(Value::Local(n.clone())),
        Tok::Word(w) if w == "asm" => Ok("asm".to_string()),
        x => panic!("callee {:?} in {:?}", x, t.t),
    };
    if let Ok(a) = &target {
        if a == "asm" {
            return CallParse { ret, target, args: vec![] };
        }
    }
    t.expect_p(b'(');
    let mut args = vec![];
    if !t.eat_p(b')') {
        loop {
            let ty = t.ty();
            if let Ty::Other(o) = &ty {
                if o == "metadata" {
                    // skip to ',' or ')'
                    let mut d = 0;
                    loop {
                        match t.peek() {
                            Some(Tok::P(b'(')) => d += 1,
                            Some(Tok::P(b')')) if d > 0 => d -= 1,
                            Some(Tok::P(b')')) | Some(Tok::P(b',')) if d == 0 => break,
                            _ => {}
                        }
                        t.i += 1;
                    }
                    if t.eat_p(b',') {
                        continue;
                    }
                    t.expect_p(b')');
                    break;
                }
            }
            t.skip_attrs();
            let v = t.value(&ty);
            args.push((ty, v));
            if t.eat_p(b',') {
                continue;
            }
            t.expect_p(b')');
            break;
        }
    }
    CallParse { ret, target, args }
}

impl<'a> Compiler<'a> {
    fn compile(p: &'a Prog, f: &FnText) -> CFn {
        let htoks = tokenize(&f.header);
        let mut ht = Toks { t: &htoks, i: 0, named: &p.m.named };
        while !matches!(ht.peek(), Some(Tok::Global(n)) if *n == f.name) {
            ht.i += 1;
        }
        ht.i += 1;
        let (params, _) = parse_params(&mut ht, false);
        let mut c = Compiler {
            p,
            regs: HashMap::new(),
            nregs: 0,
            consts: vec![],
            cmap: HashMap::new(),
            code: vec![],
            dbg: vec![],
            calls: vec![],
            edges: vec![],
            edge_src: vec![],
            sws: vec![],
            oplist: vec![],
            cur_block: String::new(),
            cur_dbg: 0,
        };
        let mut unnamed = 0;
        for (ty, name) in &params {
            let n = match name {
                Some(n) => {
                    if n.parse::<u32>().is_ok() {
                        unnamed = n.parse::<u32>().unwrap() + 1;
                    }
                    n.clone()
                }
                None => {
                    unnamed += 1;
                    format!("{}", unnamed - 1)
                }
            };
            let r = c.nregs;
            c.nregs += ty.nslots() as u32;
            c.regs.insert(n, (r, ty.clone()));
        }
        let nargs = c.nregs;
        // split into blocks
        struct Blk<'b> {
            name: String,
            ins: Vec<(&'b str, Vec<Tok>, u32, Option<String>)>,
        }
        let mut blks: Vec<Blk> = vec![];
        for (l, _) in &f.body {
            let code_part = l.split(';').next().unwrap().trim_end();
            let is_label = code_part.ends_with(':') && !code_part.contains(' ') || (code_part.starts_with('"') && code_part.ends_with("\":"));
            if is_label {
                let mut n = code_part[..code_part.len() - 1].to_string();
                if n.starts_with('"') {
                    n = n[1..n.len() - 1].to_string();
                }
                blks.push(Blk { name: n, ins: vec![] });
                continue;
            }
            if blks.is_empty() {
                blks.push(Blk { name: format!("{}", unnamed), ins: vec![] });
            }
            let d = dbg_of(l);
            let s = strip_meta(l);
            let toks = tokenize(s);
            let (dest, toks) = match (&toks[0], toks.get(1)) {
                (Tok::Local(n), Some(Tok::P(b'='))) => (Some(n.clone()), toks[2..].to_vec()),
                _ => (None, toks),
            };
            blks.last_mut().unwrap().ins.push((s, toks, d, dest));
        }
        // result types
        for b in &blks {
            for (_, toks, _, dest) in &b.ins {
                if let Some(d) = dest {
                    let ty = c.result_type(toks);
                    let r = c.nregs;
                    c.nregs += ty.nslots() as u32;
                    c.regs.insert(d.clone(), (r, ty));
                }
            }
        }
        // phis per block: (dest, ty, [(value, from)])
        let mut phis: HashMap<String, Vec<(String, Ty, Vec<(Value, String)>)>> = HashMap::new();
        for b in &blks {
            let mut v = vec![];
            for (_, toks, _, dest) in &b.ins {
                if let Tok::Word(w) = &toks[0] {
                    if w == "phi" {
                        let mut t = Toks { t: toks, i: 1, named: &p.m.named };
                        while !t.is_type() {
                            t.i += 1;
                        }
                        let ty = t.ty();
                        let mut inc = vec![];
                        loop {
                            t.expect_p(b'[');
                            let val = t.value(&ty);
                            t.expect_p(b',');
                            let from = match t.next() {
                                Tok::Local(n) => n.clone(),
                                x => panic!("phi {:?}", x),
                            };
                            t.expect_p(b']');
                            inc.push((val, from));
                            if !t.eat_p(b',') {
                                break;
                            }
                        }
                        v.push((dest.clone().unwrap(), ty, inc));
                    }
                }
            }
            phis.insert(b.name.clone(), v);
        }
        let mut start: HashMap<String, (u32, u32)> = HashMap::new();
        let mut blocks = vec![];
        for (bi, b) in blks.iter().enumerate() {
            let pc0 = c.code.len() as u32;
            start.insert(b.name.clone(), (pc0, bi as u32));
            c.cur_block = b.name.clone();
            for (_, toks, d, dest) in &b.ins {
                c.cur_dbg = *d;
                let n0 = c.code.len();
                c.ins(toks, dest.as_deref());
                for _ in n0..c.code.len() {
                    c.dbg.push(*d);
                }
            }
            blocks.push((pc0, c.code.len() as u32));
        }
        for i in 0..c.edges.len() {
            let (from, to) = c.edge_src[i].clone();
            let (pc, bi) = *start.get(&to).unwrap_or_else(|| panic!("label {}", to));
            let mut moves = vec![];
            for (d, ty, inc) in &phis[&to] {
                let (r, _) = c.regs[d].clone();
                let (v, _) = inc.iter().find(|(_, f)| *f == from).unwrap_or_else(|| panic!("phi {} from {}", d, from));
                let ops = c.operand(v, ty);
                for (k, o) in ops.into_iter().enumerate() {
                    if o != r as i32 + k as i32 {
                        moves.push((r + k as u32, o));
                    }
                }
            }
            let mut conflict = false;
            for (i, (d, _)) in moves.iter().enumerate() {
                for (_, s) in &moves[i + 1..] {
                    if *s == *d as i32 {
                        conflict = true;
                    }
                }
            }
            c.edges[i] = Edge { pc, block: bi, moves, conflict };
        }
        let cov = (0..blocks.len()).map(|_| AtomicU8::new(0)).collect();
        CFn {
            name: f.name.clone(),
            code: c.code,
            dbg: c.dbg,
            consts: c.consts,
            calls: c.calls,
            edges: c.edges,
            sws: c.sws,
            oplist: c.oplist,
            nregs: c.nregs,
            nargs,
            blocks,
            cov,
            calls_made: AtomicU64::new(0),
        }
    }

    fn toks<'b>(&self, t: &'b [Tok]) -> Toks<'b>
    where
        'a: 'b,
    {
        Toks { t, i: 0, named: &self.p.m.named }
    }

    fn result_type(&self, toks: &[Tok]) -> Ty {
        let mut t = self.toks(toks);
        let mut op = t.word();
        while matches!(op, "tail" | "musttail" | "notail") {
            op = t.word();
        }
        let flagskip = |t: &mut Toks| {
            while !t.is_type() {
                t.i += 1;
            }
        };
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "phi" | "load" | "freeze" | "landingpad" => {
                flagskip(&mut t);
                t.ty()
            }
            "icmp" => {
                flagskip(&mut t);
                match t.ty() {
                    Ty::Vec(n, _) => Ty::Vec(n, Box::new(Ty::Int(1))),
                    _ => Ty::Int(1),
                }
            }
            "getelementptr" | "alloca" => Ty::Ptr,
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" => {
                let k = toks.iter().rposition(|x| matches!(x, Tok::Word(w) if w == "to")).unwrap();
                t.i = k + 1;
                t.ty()
            }
            "select" => {
                // select [flags] ty c, ty a, ty b
                flagskip(&mut t);
                let ct = t.ty();
                t.value(&ct);
                t.expect_p(b',');
                t.ty()
            }
            "call" | "invoke" => parse_call(&mut t).ret,
            "extractvalue" => {
                let ty = t.ty();
                t.value(&ty);
                let mut cur = ty;
                while t.eat_p(b',') {
                    let i: u64 = t.word().parse().unwrap();
                    cur = cur.field(i).clone();
                }
                cur
            }
            "insertvalue" | "insertelement" => t.ty(),
            "extractelement" => match t.ty() {
                Ty::Vec(_, e) => *e,
                x => panic!("extractelement {:?}", x),
            },
            "shufflevector" => {
                let ty = t.ty();
                t.value(&ty);
                t.expect_p(b',');
                let ty2 = t.ty();
                t.value(&ty2);
                t.expect_p(b',');
                let mt = t.ty();
                match (ty, mt) {
                    (Ty::Vec(_, e), Ty::Vec(n, _)) => Ty::Vec(n, e),
                    _ => panic!(),
                }
            }
            "atomicrmw" => {
                // atomicrmw [volatile] op ptr p, ty v
                t.eat_w("volatile");
                t.i += 1;
                let pt = t.ty();
                t.value(&pt);
                t.expect_p(b',');
                t.ty()
            }
            "cmpxchg" => {
                t.eat_w("weak");
                t.eat_w("volatile");
                let pt = t.ty();
                t.value(&pt);
                t.expect_p(b',');
                let ty = t.ty();
                Ty::Struct(false, vec![ty, Ty::Int(1)])
            }
            o => panic!("unsupported instruction {} in {:?}", o, toks),
        }
    }

    fn konst(&mut self, v: u128) -> Opd {
        if let Some(&i) = self.cmap.get(&v) {
            return i;
        }
        let i = !(self.consts.len() as i32);
        self.consts.push(v);
        self.cmap.insert(v, i);
        i
    }

    fn const_ops(&mut self, ty: &Ty, c: &Const) -> Vec<Opd> {
        match (ty, c) {
            (Ty::Int(_) | Ty::Ptr | Ty::Other(_), c) => {
                let v = self.p.const_val(c);
                let v = match ty {
                    Ty::Int(w) => v & mask((*w).min(128)),
                    _ => v,
                };
                vec![self.konst(v)]
            }
            (_, Const::Zero) => {
                let n = ty.nslots();
                let z = self.konst(0);
                vec![z; n]
            }
            (_, Const::Agg(f)) => {
                let mut o = vec![];
                for (t, v) in f {
                    o.extend(self.const_ops(t, v));
                }
                o
            }
            (Ty::Arr(..) | Ty::Vec(..), Const::Bytes(b)) => b.iter().map(|x| self.konst(*x as u128)).collect(),
            _ => panic!("constant {:?} of {:?}", c, ty),
        }
    }

    fn operand(&mut self, v: &Value, ty: &Ty) -> Vec<Opd> {
        match v {
            Value::Local(n) => {
                let (r, t) = self.regs.get(n).unwrap_or_else(|| panic!("undefined %{}", n));
                (0..t.nslots() as i32).map(|k| *r as i32 + k).collect()
            }
            Value::Const(c) => self.const_ops(ty, c),
        }
    }

    fn op1(&mut self, v: &Value, ty: &Ty) -> Opd {
        let o = self.operand(v, ty);
        assert_eq!(o.len(), 1, "{:?} {:?}", v, ty);
        o[0]
    }

    fn edge(&mut self, to: &str) -> u32 {
        let i = self.edges.len() as u32;
        self.edges.push(Edge::default());
        self.edge_src.push((self.cur_block.clone(), to.to_string()));
        i
    }

    fn ins(&mut self, toks: &[Tok], dest: Option<&str>) {
        let p = self.p;
        let mut t = Toks { t: toks, i: 0, named: &p.m.named };
        let mut op = t.word();
        while matches!(op, "tail" | "musttail" | "notail") {
            op = t.word();
        }
        let d = dest.map(|n| self.regs[n].0).unwrap_or(0);
        match op {
            "phi" | "fence" | "landingpad" => {}
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                let o = match op {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "udiv" => Op::UDiv,
                    "sdiv" => Op::SDiv,
                    "urem" => Op::URem,
                    "srem" => Op::SRem,
                    "and" => Op::And,
                    "or" => Op::Or,
                    "xor" => Op::Xor,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    _ => Op::AShr,
                };
                while !t.is_type() {
                    t.i += 1;
                }
                let ty = t.ty();
                let a = t.value(&ty);
                t.expect_p(b',');
                let b = t.value(&ty);
                let (oa, ob) = (self.operand(&a, &ty), self.operand(&b, &ty));
                let w = elem_width(&ty);
                for (k, (a, b)) in oa.into_iter().zip(ob).enumerate() {
                    self.code.push(I::Bin { op: o, w: w as u8, neg: false, d: d + k as u32, a, b });
                }
            }
            "icmp" => {
                t.eat_w("samesign");
                let pred = t.word().to_string();
                let ty = t.ty();
                let a = t.value(&ty);
                t.expect_p(b',');
                let b = t.value(&ty);
                let (oa, ob) = (self.operand(&a, &ty), self.operand(&b, &ty));
                let w = elem_width(&ty);
                for (k, (a, b)) in oa.into_iter().zip(ob).enumerate() {
                    let (o, a, b, neg) = match pred.as_str() {
                        "eq" => (Op::Eq, a, b, false),
                        "ne" => (Op::Eq, a, b, true),
                        "ult" => (Op::Ult, a, b, false),
                        "ule" => (Op::Ule, a, b, false),
                        "ugt" => (Op::Ult, b, a, false),
                        "uge" => (Op::Ule, b, a, false),
                        "slt" => (Op::Slt, a, b, false),
                        "sle" => (Op::Sle, a, b, false),
                        "sgt" => (Op::Slt, b, a, false),
                        "sge" => (Op::Sle, b, a, false),
                        x => panic!("icmp {}", x),
                    };
                    self.code.push(I::Bin { op: o, w: w as u8, neg, d: d + k as u32, a, b });
                }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" => {
                while !t.is_type() {
                    t.i += 1;
                }
                let ft = t.ty();
                let v = t.value(&ft);
                t.expect_w("to");
                let tt = t.ty();
                let o = self.operand(&v, &ft);
                if op == "bitcast" {
                    match (&ft, &tt) {
                        (Ty::Vec(..), Ty::Int(_)) => {
                            let s = self.oplist.len() as u32;
                            let n = o.len() as u32;
                            self.oplist.extend(o);
                            self.code.push(I::Pack { ew: elem_width(&ft) as u8, d, s, n });
                        }
                        (Ty::Int(_), Ty::Vec(n, _)) => {
                            self.code.push(I::Unpack { ew: elem_width(&tt) as u8, d, a: o[0], n: *n as u32 });
                        }
                        (Ty::Vec(n1, _), Ty::Vec(n2, _)) if n1 == n2 => {
                            for (k, a) in o.into_iter().enumerate() {
                                self.code.push(I::Mov { d: d + k as u32, a });
                            }
                        }
                        (Ty::Vec(..), Ty::Vec(n2, _)) => {
                            let s = self.oplist.len() as u32;
                            let n = o.len() as u32;
                            self.oplist.extend(o);
                            let tmp = self.nregs;
                            self.nregs += 1;
                            self.code.push(I::Pack { ew: elem_width(&ft) as u8, d: tmp, s, n });
                            self.code.push(I::Unpack { ew: elem_width(&tt) as u8, d, a: tmp as i32, n: *n2 as u32 });
                        }
                        _ => self.code.push(I::Mov { d, a: o[0] }),
                    }
                    return;
                }
                let (wf, wt) = (elem_width(&ft), elem_width(&tt));
                for (k, a) in o.into_iter().enumerate() {
                    let kind = if wt < wf {
                        CastK::Trunc
                    } else if op == "sext" {
                        CastK::Sext
                    } else {
                        CastK::Zext
                    };
                    if wf == wt {
                        self.code.push(I::Mov { d: d + k as u32, a });
                    } else {
                        self.code.push(I::Cast { k: kind, wf: wf as u8, wt: wt as u8, d: d + k as u32, a });
                    }
                }
            }
            "freeze" => {
                let ty = t.ty();
                let v = t.value(&ty);
                for (k, a) in self.operand(&v, &ty).into_iter().enumerate() {
                    self.code.push(I::Mov { d: d + k as u32, a });
                }
            }
            "select" => {
                while !t.is_type() {
                    t.i += 1;
                }
                let ct = t.ty();
                let cv = t.value(&ct);
                t.expect_p(b',');
                let ty = t.ty();
                let a = t.value(&ty);
                t.expect_p(b',');
                let ty2 = t.ty();
                let b = t.value(&ty2);
                let oc = self.operand(&cv, &ct);
                let (oa, ob) = (self.operand(&a, &ty), self.operand(&b, &ty));
                let mut ws = vec![];
                ty.scalars(0, &mut ws);
                for (k, (a, b)) in oa.into_iter().zip(ob).enumerate() {
                    let c = if oc.len() == 1 { oc[0] } else { oc[k] };
                    self.code.push(I::Sel { w: ws[k].1 as u8, d: d + k as u32, c, a, b });
                }
            }
            "load" => {
                t.eat_w("atomic");
                t.eat_w("volatile");
                let ty = t.ty();
                t.expect_p(b',');
                let pt = t.ty();
                let pv = t.value(&pt);
                let po = self.op1(&pv, &pt);
                let mut s = vec![];
                ty.scalars(0, &mut s);
                if let Ty::Vec(_, e) = &ty {
                    assert!(matches!(**e, Ty::Int(w) if w % 8 == 0) || **e == Ty::Ptr, "load {:?}", ty);
                }
                for (k, (off, w)) in s.into_iter().enumerate() {
                    self.code.push(I::Load { w: w as u8, d: d + k as u32, p: po, off: off as i32 });
                }
            }
            "store" => {
                t.eat_w("atomic");
                t.eat_w("volatile");
                let ty = t.ty();
                let v = t.value(&ty);
                t.expect_p(b',');
                let pt = t.ty();
                let pv = t.value(&pt);
                let po = self.op1(&pv, &pt);
                let ty_wide = matches!(&ty, Ty::Int(w) if *w > 128);
                if ty_wide {
                    // only undef/constant stores of huge integers occur
                    panic!("wide store");
                }
                let o = self.operand(&v, &ty);
                let mut s = vec![];
                ty.scalars(0, &mut s);
                for (k, (off, w)) in s.into_iter().enumerate() {
                    self.code.push(I::Store { w: w as u8, v: o[k], p: po, off: off as i32 });
                }
            }
            "getelementptr" => {
                while !t.is_type() {
                    if let Tok::Word(_) = t.next() {
                        if t.is_p(b'(') {
                            t.skip_parens();
                        }
                    }
                }
                let st = t.ty();
                t.expect_p(b',');
                let pt = t.ty();
                let pv = t.value(&pt);
                let base = self.op1(&pv, &pt);
                let mut off = 0i64;
                let mut terms: Vec<(Opd, u32, u64)> = vec![];
                let mut cur = st.clone();
                let mut first = true;
                while t.eat_p(b',') {
                    let it = t.ty();
                    let iv = t.value(&it);
                    let stride;
                    if first {
                        stride = cur.size();
                    } else {
                        match (&cur, &iv) {
                            (Ty::Struct(..), Value::Const(c)) => {
                                let k = self.p.const_val(c) as u64;
                                off += cur.field_offset(k) as i64;
                                cur = cur.field(k).clone();
                                continue;
                            }
                            _ => {
                                cur = cur.field(0).clone();
                                stride = cur.size();
                            }
                        }
                    }
                    first = false;
                    match &iv {
                        Value::Const(c) => {
                            let k = crate::expr::sext_to(self.p.const_val(c), it.int_width()) as i64;
                            off = off.wrapping_add(k.wrapping_mul(stride as i64));
                        }
                        v => {
                            let o = self.op1(v, &it);
                            terms.push((o, it.int_width(), stride));
                        }
                    }
                }
                if terms.is_empty() {
                    self.code.push(I::Gep0 { d, b: base, off });
                } else {
                    let mut b = base;
                    for (k, (o, iw, s)) in terms.into_iter().enumerate() {
                        let of = if k == 0 { off } else { 0 };
                        self.code.push(I::Gep1 { d, b, iw: iw as u8, i: o, scale: s as u32, off: of });
                        b = d as i32;
                    }
                }
            }
            "alloca" => {
                t.eat_w("inalloca");
                let ty = t.ty();
                let mut n = 1u64;
                let mut align = ty.align();
                while t.eat_p(b',') {
                    if t.eat_w("align") {
                        align = t.word().parse().unwrap();
                    } else {
                        let it = t.ty();
                        if let Value::Const(Const::Int(k)) = t.value(&it) {
                            n = k as u64;
                        } else {
                            panic!("dynamic alloca");
                        }
                    }
                }
                self.code.push(I::Alloca { d, size: (ty.size() * n) as u32, align: align as u32 });
            }
            "br" => {
                let ty = t.ty();
                if let Ty::Other(_) = ty {
                    let l = local(t.next());
                    let e = self.edge(&l);
                    self.code.push(I::Br { e });
                } else {
                    let v = t.value(&ty);
                    let c = self.op1(&v, &ty);
                    t.expect_p(b',');
                    t.ty();
                    let a = local(t.next());
                    t.expect_p(b',');
                    t.ty();
                    let b = local(t.next());
                    let ea = self.edge(&a);
                    let eb = self.edge(&b);
                    self.code.push(I::CBr { c, t: ea, f: eb });
                }
            }
            "switch" => {
                let ty = t.ty();
                let v = t.value(&ty);
                let vo = self.op1(&v, &ty);
                t.expect_p(b',');
                t.ty();
                let dl = local(t.next());
                let default = self.edge(&dl);
                t.expect_p(b'[');
                let mut cases: Vec<(u32, Vec<u64>)> = vec![];
                let mut byl: HashMap<String, usize> = HashMap::new();
                let mut map = HashMap::new();
                while !t.eat_p(b']') {
                    let it = t.ty();
                    let k = t.konst(&it);
                    let k = self.p.const_val(&k) & mask(it.int_width());
                    t.expect_p(b',');
                    t.ty();
                    let l = local(t.next());
                    if l == dl {
                        continue;
                    }
                    let idx = match byl.get(&l) {
                        Some(i) => *i,
                        None => {
                            let e = self.edge(&l);
                            cases.push((e, vec![]));
                            byl.insert(l, cases.len() - 1);
                            cases.len() - 1
                        }
                    };
                    cases[idx].1.push(k as u64);
                    map.insert(k as u64, idx as u32);
                }
                let tab = self.sws.len() as u32;
                self.sws.push(SwTab { cases, map, default });
                self.code.push(I::Sw { v: vo, w: ty.int_width() as u8, tab });
            }
            "ret" => {
                let ty = t.ty();
                if ty == Ty::Void {
                    self.code.push(I::Ret { s: 0, n: 0 });
                } else {
                    let v = t.value(&ty);
                    let o = self.operand(&v, &ty);
                    let s = self.oplist.len() as u32;
                    let n = o.len() as u32;
                    self.oplist.extend(o);
                    self.code.push(I::Ret { s, n });
                }
            }
            "unreachable" => self.code.push(I::Unreachable),
            "resume" => self.code.push(I::Trap),
            "extractvalue" => {
                let ty = t.ty();
                let v = t.value(&ty);
                let o = self.operand(&v, &ty);
                let mut cur = ty;
                let mut slot = 0usize;
                while t.eat_p(b',') {
                    let i: u64 = t.word().parse().unwrap();
                    slot += slot_of(&cur, i);
                    cur = cur.field(i).clone();
                }
                for k in 0..cur.nslots() {
                    self.code.push(I::Mov { d: d + k as u32, a: o[slot + k] });
                }
            }
            "insertvalue" => {
                let ty = t.ty();
                let v = t.value(&ty);
                t.expect_p(b',');
                let et = t.ty();
                let ev = t.value(&et);
                let o = self.operand(&v, &ty);
                let eo = self.operand(&ev, &et);
                let mut cur = ty;
                let mut slot = 0usize;
                while t.eat_p(b',') {
                    let i: u64 = t.word().parse().unwrap();
                    slot += slot_of(&cur, i);
                    cur = cur.field(i).clone();
                }
                let is_agg_zero = matches!(v, Value::Const(Const::Zero));
                for (k, a) in o.iter().enumerate() {
                    if k >= slot && k < slot + eo.len() {
                        self.code.push(I::Mov { d: d + k as u32, a: eo[k - slot] });
                    } else {
                        let _ = is_agg_zero;
                        self.code.push(I::Mov { d: d + k as u32, a: *a });
                    }
                }
            }
            "extractelement" => {
                let ty = t.ty();
                let v = t.value(&ty);
                t.expect_p(b',');
                let it = t.ty();
                let iv = t.value(&it);
                let o = self.operand(&v, &ty);
                match iv {
                    Value::Const(c) => {
                        let k = self.p.const_val(&c) as usize;
                        self.code.push(I::Mov { d, a: o[k] });
                    }
                    _ => panic!("dynamic extractelement"),
                }
            }
            "insertelement" => {
                let ty = t.ty();
                let v = t.value(&ty);
                t.expect_p(b',');
                let et = t.ty();
                let ev = t.value(&et);
                t.expect_p(b',');
                let it = t.ty();
                let iv = t.value(&it);
                let o = self.operand(&v, &ty);
                let eo = self.op1(&ev, &et);
                let k = match iv {
                    Value::Const(c) => self.p.const_val(&c) as usize,
                    _ => panic!("dynamic insertelement"),
                };
                for (j, a) in o.into_iter().enumerate() {
                    let a = if j == k { eo } else { a };
                    self.code.push(I::Mov { d: d + j as u32, a });
                }
            }
            "shufflevector" => {
                let ty = t.ty();
                let v1 = t.value(&ty);
                t.expect_p(b',');
                let ty2 = t.ty();
                let v2 = t.value(&ty2);
                t.expect_p(b',');
                let mt = t.ty();
                let mv = t.konst(&mt);
                let mut all = self.operand(&v1, &ty);
                all.extend(self.operand(&v2, &ty2));
                let n = mt.nslots();
                let idx: Vec<usize> = match mv {
                    Const::Zero => vec![0; n],
                    Const::Agg(f) => f.iter().map(|(_, c)| self.p.const_val(c) as usize).collect(),
                    x => panic!("mask {:?}", x),
                };
                for (j, k) in idx.into_iter().enumerate() {
                    self.code.push(I::Mov { d: d + j as u32, a: all[k.min(all.len() - 1)] });
                }
            }
            "atomicrmw" => {
                t.eat_w("volatile");
                let o = t.word().to_string();
                let pt = t.ty();
                let pv = t.value(&pt);
                t.expect_p(b',');
                let ty = t.ty();
                let v = t.value(&ty);
                let k = match o.as_str() {
                    "xchg" => 0,
                    "add" => 1,
                    "sub" => 2,
                    "and" => 3,
                    "or" => 4,
                    "xor" => 5,
                    x => panic!("atomicrmw {}", x),
                };
                let p = self.op1(&pv, &pt);
                let v = self.op1(&v, &ty);
                self.code.push(I::Rmw { op: k, w: ty.int_width() as u8, d, p, v });
            }
            "cmpxchg" => {
                t.eat_w("weak");
                t.eat_w("volatile");
                let pt = t.ty();
                let pv = t.value(&pt);
                t.expect_p(b',');
                let ty = t.ty();
                let e = t.value(&ty);
                t.expect_p(b',');
                let ty2 = t.ty();
                let n = t.value(&ty2);
                let p = self.op1(&pv, &pt);
                let e = self.op1(&e, &ty);
                let n = self.op1(&n, &ty);
                self.code.push(I::CmpX { w: ty.int_width() as u8, d, p, e, n });
            }
            "call" | "invoke" => {
                let inv = op == "invoke";
                let c = parse_call(&mut t);
                let mut edge = None;
                if inv {
                    while !t.is_w("to") {
                        t.i += 1;
                    }
                    t.i += 1;
                    t.expect_w("label");
                    let l = local(t.next());
                    edge = Some(self.edge(&l));
                }
                if let Ok(n) = &c.target {
                    if n.starts_with("llvm.") {
                        self.intrinsic(n, &c, d);
                        if let Some(e) = edge {
                            self.code.push(I::Br { e });
                        }
                        return;
                    }
                    if n == "asm" {
                        // only empty barriers (black_box, probe) are accepted
                        let emptyasm = toks.iter().any(|t| matches!(t, Tok::Str(s) if s.is_empty()));
                        if !emptyasm {
                            self.code.push(I::Trap);
                        }
                        return;
                    }
                }
                let mut args = vec![];
                for (ty, v) in &c.args {
                    args.extend(self.operand(v, ty));
                }
                let target = match &c.target {
                    Ok(n) => Target::Fn(*self.p.m.fn_index.get(n).unwrap_or_else(|| panic!("callee {}", n)) as u32),
                    Err(v) => {
                        let o = self.op1(v, &Ty::Ptr);
                        Target::Ind(o)
                    }
                };
                let cs = self.calls.len() as u32;
                self.calls.push(CallSite { target, args, ret: d, nret: c.ret.nslots() as u32, edge });
                self.code.push(I::Call { cs });
            }
            o => panic!("unsupported instruction {} in {:?}", o, toks),
        }
    }

    fn intrinsic(&mut self, n: &str, c: &CallParse, d: u32) {
        let base = n.strip_prefix("llvm.").unwrap();
        if base.starts_with("lifetime.")
            || base.starts_with("experimental.noalias")
            || base.starts_with("dbg.")
            || base.starts_with("x86.sse2.pause")
            || base.starts_with("prefetch")
            || base.starts_with("invariant")
            || base.starts_with("donothing")
        {
            return;
        }
        if base.starts_with("assume") {
            let o = self.op1(&c.args[0].1, &c.args[0].0);
            self.code.push(I::Assume { c: o });
            return;
        }
        if base.starts_with("trap") || base.starts_with("debugtrap") || base.starts_with("ubsantrap") {
            self.code.push(I::Trap);
            return;
        }
        if base.starts_with("memcpy") || base.starts_with("memmove") {
            let dd = self.op1(&c.args[0].1, &c.args[0].0);
            let s = self.op1(&c.args[1].1, &c.args[1].0);
            let n = self.op1(&c.args[2].1, &c.args[2].0);
            self.code.push(I::MemCpy { d: dd, s, n, mv: base.starts_with("memmove") });
            return;
        }
        if base.starts_with("memset") {
            let dd = self.op1(&c.args[0].1, &c.args[0].0);
            let v = self.op1(&c.args[1].1, &c.args[1].0);
            let n = self.op1(&c.args[2].1, &c.args[2].0);
            self.code.push(I::MemSet { d: dd, v, n });
            return;
        }
        if base.starts_with("threadlocal.address") {
            let a = self.op1(&c.args[0].1, &c.args[0].0);
            self.code.push(I::Mov { d, a });
            return;
        }
        if base.starts_with("expect") || base.starts_with("launder") || base.starts_with("strip.inv") || base.starts_with("ptr.annotation") {
            let a = self.op1(&c.args[0].1, &c.args[0].0);
            self.code.push(I::Mov { d, a });
            return;
        }
        let k = if base.starts_with("umax") {
            Intr::UMax
        } else if base.starts_with("umin") {
            Intr::UMin
        } else if base.starts_with("smax") {
            Intr::SMax
        } else if base.starts_with("smin") {
            Intr::SMin
        } else if base.starts_with("usub.sat") {
            Intr::USubSat
        } else if base.starts_with("uadd.sat") {
            Intr::UAddSat
        } else if base.starts_with("fshl") {
            Intr::Fshl
        } else if base.starts_with("fshr") {
            Intr::Fshr
        } else if base.starts_with("ctpop") {
            Intr::Ctpop
        } else if base.starts_with("cttz") {
            Intr::Cttz
        } else if base.starts_with("ctlz") {
            Intr::Ctlz
        } else if base.starts_with("bswap") {
            Intr::Bswap
        } else if base.starts_with("bitreverse") {
            Intr::Bitrev
        } else if base.starts_with("abs") {
            Intr::Abs
        } else if base.starts_with("ucmp") {
            Intr::UCmp
        } else if base.starts_with("scmp") {
            Intr::SCmp
        } else if base.starts_with("umul.with") {
            Intr::UMulO
        } else if base.starts_with("uadd.with") {
            Intr::UAddO
        } else if base.starts_with("usub.with") {
            Intr::USubO
        } else if base.starts_with("sadd.with") {
            Intr::SAddO
        } else if base.starts_with("ssub.with") {
            Intr::SSubO
        } else if base.starts_with("smul.with") {
            Intr::SMulO
        } else {
            panic!("unsupported intrinsic {}", n)
        };
        let ops: Vec<Vec<Opd>> = c.args.iter().map(|(t, v)| self.operand(v, t)).collect();
        let w = elem_width(&c.args[0].0);
        let wd = match &c.ret {
            Ty::Struct(..) => w,
            t => elem_width(t),
        };
        let n = ops[0].len();
        let z = self.konst(0);
        for j in 0..n {
            let get = |k: usize| -> Opd {
                ops.get(k).map(|o| if o.len() == 1 { o[0] } else { o[j] }).unwrap_or(z)
            };
            let (a, b, cc) = (get(0), get(1), get(2));
            self.code.push(I::Intr { k, w: w as u8, wd: wd as u8, d: d + j as u32, a, b, c: cc });
        }
    }
}

fn local(t: &Tok) -> String {
    match t {
        Tok::Local(n) => n.clone(),
        x => panic!("label expected, got {:?}", x),
    }
}

fn elem_width(t: &Ty) -> u32 {
    match t {
        Ty::Vec(_, e) => e.int_width(),
        t => t.int_width(),
    }
}

fn slot_of(t: &Ty, i: u64) -> usize {
    match t {
        Ty::Struct(_, f) => f[..i as usize].iter().map(|t| t.nslots()).sum(),
        Ty::Arr(_, t) => i as usize * t.nslots(),
        _ => panic!(),
    }
}
