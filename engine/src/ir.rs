//! Parser for the textual LLVM IR that rustc + opt + llvm-dis emit (opaque pointers).

use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(bool, Vec<Ty>),
    Other(String),
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void => 1,
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(true, _) => 1,
            Ty::Struct(false, f) => f.iter().map(|t| t.align()).max().unwrap_or(1),
            Ty::Other(_) => 8,
        }
    }
    /// allocation size (array stride)
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(packed, f) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            Ty::Other(_) => 8,
        }
    }
    pub fn field_offset(&self, i: u64) -> u64 {
        match self {
            Ty::Arr(_, t) => i * t.size(),
            Ty::Vec(_, t) => i * t.size(),
            Ty::Struct(packed, f) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field_offset {} out of range", i)
            }
            _ => panic!("field_offset on {:?}", self),
        }
    }
    pub fn field(&self, i: u64) -> &Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            Ty::Struct(_, f) => &f[i as usize],
            _ => panic!("field on {:?}", self),
        }
    }
    /// scalars with byte offsets and widths
    pub fn scalars(&self, off: u64, out: &mut Vec<(u64, u32)>) {
        match self {
            Ty::Void => {}
            Ty::Int(w) => out.push((off, *w)),
            Ty::Ptr => out.push((off, 64)),
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                for i in 0..*n {
                    t.scalars(off + i * t.size(), out);
                }
            }
            Ty::Struct(_, f) => {
                for (i, t) in f.iter().enumerate() {
                    t.scalars(off + self.field_offset(i as u64), out);
                }
            }
            Ty::Other(s) => panic!("unsupported type {}", s),
        }
    }
    pub fn nslots(&self) -> usize {
        match self {
            Ty::Void => 0,
            Ty::Int(_) | Ty::Ptr | Ty::Other(_) => 1,
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as usize * t.nslots(),
            Ty::Struct(_, f) => f.iter().map(|t| t.nslots()).sum(),
        }
    }
    pub fn int_width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => panic!("int_width of {:?}", self),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Word(String),
    Local(String),
    Global(String),
    Meta(String),
    Str(Vec<u8>),
    P(u8),
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Zero, // null, zeroinitializer, undef, poison
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, Const)>),
    Global(String),
    /// base + byte offset
    GepC(Box<Const>, i64),
    /// ptrtoint / inttoptr / bitcast (same bits), truncated to the width
    Cast(Box<Const>, u32),
    Bin(String, u32, Box<Const>, Box<Const>),
}

#[derive(Clone, Debug)]
pub enum Value {
    Local(String),
    Const(Const),
}

fn is_word(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_' || b == b'.' || b == b'-' || b == b'$' || b == b'+'
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && s[i + 1].is_ascii_hexdigit() && s[i + 2].is_ascii_hexdigit() {
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

pub fn tokenize(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::with_capacity(b.len() / 4);
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => {
                // comment to the end of line
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let g = c == b'@';
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' {
                    let st = i + 1;
                    i = st;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    name = String::from_utf8_lossy(&unescape(&b[st..i])).into_owned();
                    i += 1;
                } else {
                    let st = i;
                    while i < b.len() && is_word(b[i]) {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                }
                out.push(if g { Tok::Global(name) } else { Tok::Local(name) });
            }
            b'!' => {
                let st = i;
                i += 1;
                while i < b.len() && is_word(b[i]) {
                    i += 1;
                }
                out.push(Tok::Meta(s[st..i].to_string()));
            }
            b'"' => {
                let st = i + 1;
                i = st;
                while b[i] != b'"' {
                    i += 1;
                }
                out.push(Tok::Str(unescape(&b[st..i])));
                i += 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                i = st;
                while b[i] != b'"' {
                    i += 1;
                }
                out.push(Tok::Word("c".into()));
                out.push(Tok::Str(unescape(&b[st..i])));
                i += 1;
            }
            b'#' => {
                i += 1;
                while i < b.len() && is_word(b[i]) {
                    i += 1;
                }
            }
            _ if is_word(c) => {
                let st = i;
                while i < b.len() && is_word(b[i]) {
                    i += 1;
                }
                out.push(Tok::Word(s[st..i].to_string()));
            }
            _ => {
                out.push(Tok::P(c));
                i += 1;
            }
        }
    }
    out
}

pub struct Toks<'a> {
    pub t: &'a [Tok],
    pub i: usize,
    pub named: &'a HashMap<String, Ty>,
}

impl<'a> Toks<'a> {
    pub fn peek(&self) -> Option<&'a Tok> {
        self.t.get(self.i)
    }
    pub fn next(&mut self) -> &'a Tok {
        let r = self.t.get(self.i).unwrap_or_else(|| panic!("unexpected end of tokens: {:?}", self.t));
        self.i += 1;
        r
    }
    pub fn is_p(&self, c: u8) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x == c)
    }
    pub fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::Word(x)) if x == w)
    }
    pub fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn expect_p(&mut self, c: u8) {
        if !self.eat_p(c) {
            panic!("expected '{}' at {} in {:?}", c as char, self.i, self.t);
        }
    }
    pub fn expect_w(&mut self, w: &str) {
        if !self.eat_w(w) {
            panic!("expected '{}' at {} in {:?}", w, self.i, self.t);
        }
    }
    pub fn word(&mut self) -> &'a str {
        match self.next() {
            Tok::Word(w) => w,
            t => panic!("expected word, got {:?} in {:?}", t, self.t),
        }
    }
    pub fn skip_parens(&mut self) {
        self.expect_p(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => d -= 1,
                _ => {}
            }
        }
    }

    pub fn is_type(&self) -> bool {
        match self.peek() {
            Some(Tok::Word(w)) => {
                let b = w.as_bytes();
                (b[0] == b'i' && b.len() > 1 && b[1..].iter().all(|c| c.is_ascii_digit()))
                    || matches!(w.as_str(), "ptr" | "void" | "float" | "double" | "metadata" | "label" | "token" | "half" | "x86_fp80" | "fp128")
            }
            Some(Tok::P(b'[')) | Some(Tok::P(b'{')) | Some(Tok::P(b'<')) => true,
            Some(Tok::Local(_)) => true,
            _ => false,
        }
    }

    pub fn ty(&mut self) -> Ty {
        let t = match self.next() {
            Tok::Word(w) => match w.as_str() {
                "ptr" => {
                    if self.eat_w("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                w if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {} in {:?}", w, self.t))),
                w => Ty::Other(w.to_string()),
            },
            Tok::P(b'[') => {
                let n = self.word().parse().unwrap();
                self.expect_w("x");
                let t = self.ty();
                self.expect_p(b']');
                Ty::Arr(n, Box::new(t))
            }
            Tok::P(b'{') => {
                let f = self.ty_list(b'}');
                Ty::Struct(false, f)
            }
            Tok::P(b'<') => {
                if self.eat_p(b'{') {
                    let f = self.ty_list(b'}');
                    self.expect_p(b'>');
                    Ty::Struct(true, f)
                } else {
                    let n = self.word().parse().unwrap();
                    self.expect_w("x");
                    let t = self.ty();
                    self.expect_p(b'>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            Tok::Local(n) => self.named.get(n).cloned().unwrap_or_else(|| panic!("named type {}", n)),
            t => panic!("type expected, got {:?} at {} in {:?}", t, self.i, self.t),
        };
        t
    }

    fn ty_list(&mut self, end: u8) -> Vec<Ty> {
        let mut f = vec![];
        if self.eat_p(end) {
            return f;
        }
        loop {
            f.push(self.ty());
            if self.eat_p(b',') {
                continue;
            }
            self.expect_p(end);
            return f;
        }
    }

    pub fn is_value(&self) -> bool {
        match self.peek() {
            Some(Tok::Local(_)) | Some(Tok::Global(_)) => true,
            Some(Tok::P(b'{')) | Some(Tok::P(b'[')) | Some(Tok::P(b'<')) => true,
            Some(Tok::Meta(_)) => true,
            Some(Tok::Word(w)) => {
                let b = w.as_bytes();
                b[0].is_ascii_digit()
                    || (b[0] == b'-' && b.len() > 1)
                    || matches!(
                        w.as_str(),
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "c" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "sub" | "add" | "xor" | "trunc" | "splat"
                    )
            }
            _ => false,
        }
    }

    /// parameter / return attributes before a value
    pub fn skip_attrs(&mut self) {
        while !self.is_value() {
            match self.next() {
                Tok::Word(w) => {
                    if w == "align" {
                        if self.is_p(b'(') {
                            self.skip_parens();
                        } else {
                            self.i += 1;
                        }
                    } else if self.is_p(b'(') {
                        self.skip_parens();
                    }
                }
                Tok::Str(_) => {
                    if self.eat_p(b'=') {
                        self.i += 1;
                    }
                }
                t => panic!("attribute expected, got {:?} at {} in {:?}", t, self.i, self.t),
            }
        }
    }

    pub fn value(&mut self, ty: &Ty) -> Value {
        if let Some(Tok::Local(n)) = self.peek() {
            self.i += 1;
            return Value::Local(n.clone());
        }
        Value::Const(self.konst(ty))
    }

    pub fn konst(&mut self, ty: &Ty) -> Const {
        match self.next() {
            Tok::Global(n) => Const::Global(n.clone()),
            Tok::Word(w) => match w.as_str() {
                "true" => Const::Int(1),
                "false" => Const::Int(0),
                "null" | "undef" | "poison" | "zeroinitializer" => Const::Zero,
                "c" => match self.next() {
                    Tok::Str(b) => Const::Bytes(b.clone()),
                    t => panic!("string expected, got {:?}", t),
                },
                "getelementptr" => {
                    while !self.is_p(b'(') {
                        let w = self.next();
                        if let Tok::Word(w) = w {
                            if w == "inrange" {
                                self.skip_parens();
                            }
                        }
                    }
                    self.expect_p(b'(');
                    let t = self.ty();
                    self.expect_p(b',');
                    let bt = self.ty();
                    let base = self.konst(&bt);
                    let mut off = 0i64;
                    let mut cur = t;
                    let mut first = true;
                    while self.eat_p(b',') {
                        let it = self.ty();
                        let ix = match self.konst(&it) {
                            Const::Int(k) => crate::expr::sext_to(k, it.int_width()) as i64,
                            Const::Zero => 0,
                            k => panic!("gep index {:?}", k),
                        };
                        if first {
                            off += ix * cur.size() as i64;
                            first = false;
                        } else {
                            off += cur.field_offset(ix as u64) as i64;
                            cur = cur.field(ix as u64).clone();
                        }
                    }
                    self.expect_p(b')');
                    Const::GepC(Box::new(base), off)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" => {
                    self.expect_p(b'(');
                    let ft = self.ty();
                    let v = self.konst(&ft);
                    self.expect_w("to");
                    let tt = self.ty();
                    self.expect_p(b')');
                    Const::Cast(Box::new(v), tt.int_width())
                }
                "sub" | "add" | "xor" => {
                    let op = w.clone();
                    while !self.is_p(b'(') {
                        self.i += 1;
                    }
                    self.expect_p(b'(');
                    let t1 = self.ty();
                    let a = self.konst(&t1);
                    self.expect_p(b',');
                    let t2 = self.ty();
                    let b = self.konst(&t2);
                    self.expect_p(b')');
                    Const::Bin(op, t1.int_width(), Box::new(a), Box::new(b))
                }
                "splat" => {
                    self.expect_p(b'(');
                    let t = self.ty();
                    let v = self.konst(&t);
                    self.expect_p(b')');
                    let n = match ty {
                        Ty::Vec(n, _) => *n,
                        _ => panic!("splat"),
                    };
                    Const::Agg((0..n).map(|_| (t.clone(), v.clone())).collect())
                }
                w => {
                    let (neg, d) = match w.strip_prefix('-') {
                        Some(d) => (true, d),
                        None => (false, w),
                    };
                    let v: u128 = d.parse().unwrap_or_else(|_| panic!("constant {} in {:?}", w, self.t));
                    let v = if neg { 0u128.wrapping_sub(v) } else { v };
                    let m = match ty {
                        Ty::Int(w) => crate::expr::mask((*w).min(128)),
                        _ => !0,
                    };
                    Const::Int(v & m)
                }
            },
            Tok::P(open @ (b'{' | b'[' | b'<')) => {
                let mut close = match open {
                    b'{' => b'}',
                    b'[' => b']',
                    _ => b'>',
                };
                let packed = *open == b'<' && self.eat_p(b'{');
                if packed {
                    close = b'}';
                }
                let mut f = vec![];
                if !self.eat_p(close) {
                    loop {
                        let t = self.ty();
                        let v = self.konst(&t);
                        f.push((t, v));
                        if self.eat_p(b',') {
                            continue;
                        }
                        self.expect_p(close);
                        break;
                    }
                }
                if packed {
                    self.expect_p(b'>');
                }
                Const::Agg(f)
            }
            t => panic!("constant expected, got {:?} at {} in {:?}", t, self.i, self.t),
        }
    }
}

pub struct GlobalDef {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Const>,
    pub constant: bool,
    pub align: u64,
}

pub struct FnText {
    pub name: String,
    pub header: String,
    /// body lines (joined where an instruction spans lines)
    pub body: Vec<(String, u32)>, // text, line number
    pub decl: bool,
}

pub struct Module {
    pub named: HashMap<String, Ty>,
    pub globals: Vec<GlobalDef>,
    pub fns: Vec<FnText>,
    pub fn_index: HashMap<String, usize>,
    pub weak_externs: Vec<String>,
    /// debug metadata lines: id -> text
    pub meta: HashMap<u32, String>,
}

pub fn parse_module(text: &str) -> Module {
    let mut m = Module {
        named: HashMap::new(),
        globals: vec![],
        fns: vec![],
        fn_index: HashMap::new(),
        weak_externs: vec![],
        meta: HashMap::new(),
    };
    let mut lines = text.lines().enumerate();
    let mut global_lines: Vec<&str> = vec![];
    while let Some((ln, l)) = lines.next() {
        if l.is_empty() {
            continue;
        }
        match l.as_bytes()[0] {
            b'@' => global_lines.push(l),
            b'%' => {
                // named type
                if let Some(eq) = l.find(" = type ") {
                    let toks = tokenize(&l[..eq]);
                    let name = match &toks[0] {
                        Tok::Local(n) => n.clone(),
                        _ => panic!("named type"),
                    };
                    let body = tokenize(&l[eq + 8..]);
                    let e = m.named.clone();
                    let mut t = Toks { t: &body, i: 0, named: &e };
                    if !t.is_w("opaque") {
                        let ty = t.ty();
                        m.named.insert(name, ty);
                    }
                }
            }
            b'!' => {
                if let Some(eq) = l.find(" = ") {
                    if let Ok(id) = l[1..eq].parse::<u32>() {
                        if l[eq + 3..].contains("!DI") {
                            m.meta.insert(id, l[eq + 3..].to_string());
                        }
                    }
                }
            }
            b'd' if l.starts_with("declare ") => {
                let name = fn_name(l);
                m.fn_index.insert(name.clone(), m.fns.len());
                if l.contains("extern_weak") {
                    m.weak_externs.push(name.clone());
                }
                m.fns.push(FnText { name, header: l.to_string(), body: vec![], decl: true });
            }
            b'd' if l.starts_with("define ") => {
                let name = fn_name(l);
                let mut body: Vec<(String, u32)> = vec![];
                let _ = ln;
                while let Some((n2, b)) = lines.next() {
                    if b == "}" {
                        break;
                    }
                    let t = b.trim_start();
                    if t.is_empty() || t.starts_with(';') || t.starts_with('#') {
                        continue;
                    }
                    if t.starts_with("to label ") && b.starts_with("          ") {
                        let last = body.last_mut().unwrap();
                        last.0.push(' ');
                        last.0.push_str(t);
                        continue;
                    }
                    if t == "cleanup" || t.starts_with("cleanup,") || t.starts_with("filter ") || t.starts_with("catch ") {
                        continue;
                    }
                    if t.starts_with("switch ") && t.ends_with('[') {
                        let mut s = t.to_string();
                        for (_, c) in lines.by_ref() {
                            s.push(' ');
                            s.push_str(c.trim_start());
                            if c.trim_start().starts_with(']') {
                                break;
                            }
                        }
                        body.push((s, n2 as u32));
                        continue;
                    }
                    body.push((t.to_string(), n2 as u32));
                }
                m.fn_index.insert(name.clone(), m.fns.len());
                m.fns.push(FnText { name, header: l.to_string(), body, decl: false });
            }
            _ => {}
        }
    }
    for l in global_lines {
        let toks = tokenize(l);
        let mut t = Toks { t: &toks, i: 0, named: &m.named };
        let name = match t.next() {
            Tok::Global(n) => n.clone(),
            _ => panic!(),
        };
        t.expect_p(b'=');
        let mut external = false;
        let mut alias = false;
        let constant;
        loop {
            match t.next() {
                Tok::Word(w) => match w.as_str() {
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "global" => {
                        constant = false;
                        break;
                    }
                    "alias" | "ifunc" => {
                        alias = true;
                        constant = true;
                        break;
                    }
                    "external" | "extern_weak" => external = true,
                    "thread_local" | "addrspace" => {
                        if t.is_p(b'(') {
                            t.skip_parens();
                        }
                    }
                    _ => {}
                },
                x => panic!("global header {:?} in {}", x, l),
            }
        }
        if alias {
            continue;
        }
        let ty = t.ty();
        let init = if external || !t.is_value() || matches!(t.peek(), Some(Tok::Meta(_))) { None } else { Some(t.konst(&ty)) };
        let mut align = ty.align();
        while t.i < toks.len() {
            if let Tok::Word(w) = t.next() {
                if w == "align" {
                    align = t.word().parse().unwrap();
                }
            }
        }
        m.globals.push(GlobalDef { name, ty, init, constant, align });
    }
    m
}

fn fn_name(l: &str) -> String {
    let i = l.find('@').unwrap() + 1;
    let r = &l[i..];
    if let Some(q) = r.strip_prefix('"') {
        q[..q.find('"').unwrap()].to_string()
    } else {
        let e = r.bytes().position(|b| !is_word(b)).unwrap();
        r[..e].to_string()
    }
}
