//! Models of the C library functions the Rust standard library calls, including an
//! in-memory file system, and the interface through which harnesses declare inputs.

use crate::exec::*;
use crate::expr::*;
use crate::mem::*;
use std::collections::BTreeMap;

macro_rules! exts {
    ($($v:ident = $n:expr),* $(,)?) => {
        #[derive(Clone, Copy, Debug, PartialEq)]
        pub enum Ext { $($v),* }
        impl Ext {
            pub fn by_name(n: &str) -> Option<Ext> {
                match n { $($n => Some(Ext::$v),)* _ => None }
            }
        }
    };
}

exts! {
    Malloc = "malloc", Calloc = "calloc", Realloc = "realloc", Free = "free", Memalign = "posix_memalign",
    AlignedAlloc = "aligned_alloc",
    Bcmp = "bcmp", Memcmp = "memcmp", Strlen = "strlen", Memchr = "memchr", Memrchr = "memrchr",
    Open = "open64", Open32 = "open", Read = "read", Write = "write", Close = "close", Lseek = "lseek64",
    Fstat = "fstat64", Stat = "stat64", Lstat = "lstat64", Realpath = "realpath", Readlink = "readlink",
    Getcwd = "getcwd", Getenv = "getenv", Mkdir = "mkdir", Chdir = "chdir", Unlink = "unlink", Rmdir = "rmdir",
    Rename = "rename", Symlink = "symlink", Chmod = "chmod", Fchmod = "fchmod", Fsync = "fsync", Fdatasync = "fdatasync",
    Ftruncate = "ftruncate64", Writev = "writev", Errno = "__errno_location", Strerror = "__xpg_strerror_r",
    Syscall = "syscall", Abort = "abort", Sysconf = "sysconf", PthreadSelf = "pthread_self",
    KeyCreate = "pthread_key_create", SetSpecific = "pthread_setspecific", GetSpecific = "pthread_getspecific",
    KeyDelete = "pthread_key_delete", CxaAtexit = "__cxa_thread_atexit_impl",
    SymU8 = "sym_u8", SymU16 = "sym_u16", SymU32 = "sym_u32", SymU64 = "sym_u64", SymBool = "sym_bool",
    SymPick = "sym_pick", SymAssume = "sym_assume", SymCheck = "sym_check", SymCover = "sym_cover",
    SymObserve = "sym_observe", SymPin = "sym_pin", SymScratch = "sym_scratch", SymFault = "sym_fault",
    Fcntl = "fcntl", Fcntl64 = "fcntl64", ClockGettime = "clock_gettime", Getpid = "getpid", Poll = "poll", Gettid = "gettid",
    Opendir = "opendir", Readdir = "readdir64", Closedir = "closedir", Dirfd = "dirfd", Linkat = "linkat", Link = "link",
    Sendfile = "sendfile64", Futimens = "futimens", Flock = "flock", Pread = "pread64", Pwrite = "pwrite64", Readv = "readv",
    Access = "access", Nanosleep = "nanosleep", ClockNanosleep = "clock_nanosleep", Yield = "sched_yield", Utimensat = "utimensat",
}

#[derive(Clone)]
pub enum Inode {
    Dir(BTreeMap<Vec<u8>, usize>),
    File(Vec<Val>),
    Sym(Vec<u8>),
    Full,
    Null,
}

pub struct OpenFile {
    pub ino: usize,
    pub pos: usize,
    pub flags: u64,
}

pub struct Fs {
    pub inodes: Vec<Inode>,
    pub fds: Vec<Option<OpenFile>>,
    pub cwd: Vec<u8>,
    pub errno_addr: u64,
    pub mtimes: Vec<u64>,
    pub clock: u64,
    /// what's left of directories being read
    pub dirs: BTreeMap<u64, Vec<(Vec<u8>, usize)>>,
    pub specifics: BTreeMap<u64, u128>,
    /// fault schedule: (kind, remaining calls before it strikes, argument)
    pub faults: Vec<(u64, u64, u64)>,
}

const ENOENT: i32 = 2;
const EEXIST: i32 = 17;
const ENOTDIR: i32 = 20;
const EISDIR: i32 = 21;
const EINVAL: i32 = 22;
const ENOSPC: i32 = 28;
const ELOOP: i32 = 40;
const ENOTEMPTY: i32 = 39;
const EBADF: i32 = 9;

impl Fs {
    pub fn new() -> Fs {
        let mut fs = Fs {
            inodes: vec![Inode::Dir(BTreeMap::new())],
            fds: vec![None, None, None],
            cwd: b"/scratch".to_vec(),
            errno_addr: 0,
            mtimes: vec![1],
            clock: 1,
            dirs: BTreeMap::new(),
            specifics: BTreeMap::new(),
            faults: vec![],
        };
        let s = fs.add(Inode::Dir(BTreeMap::new()));
        fs.link(0, b"scratch", s);
        let d = fs.add(Inode::Dir(BTreeMap::new()));
        fs.link(0, b"dev", d);
        let f = fs.add(Inode::Full);
        fs.link(d, b"full", f);
        let f = fs.add(Inode::Null);
        fs.link(d, b"null", f);
        fs
    }
    fn add(&mut self, i: Inode) -> usize {
        self.inodes.push(i);
        self.clock += 1;
        self.mtimes.push(self.clock);
        self.inodes.len() - 1
    }
    fn link(&mut self, dir: usize, name: &[u8], ino: usize) {
        if let Inode::Dir(m) = &mut self.inodes[dir] {
            m.insert(name.to_vec(), ino);
        }
    }

    /// Resolve to (parent inode, last component, inode if it exists, canonical path).
    fn resolve(&self, path: &[u8], follow_last: bool) -> Result<(usize, Vec<u8>, Option<usize>, Vec<u8>), i32> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        let mut comps: Vec<Vec<u8>> = vec![];
        let split = |p: &[u8]| -> Vec<Vec<u8>> { p.split(|c| *c == b'/').filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect() };
        if path[0] != b'/' {
            comps.extend(split(&self.cwd));
        }
        comps.extend(split(path));
        let trailing = path.ends_with(b"/") && path.len() > 1;
        let mut stack: Vec<(usize, Vec<u8>)> = vec![(0, vec![])];
        let mut todo: std::collections::VecDeque<Vec<u8>> = comps.into();
        let mut hops = 0;
        while let Some(c) = todo.pop_front() {
            let cur = stack.last().unwrap().0;
            let dir = match &self.inodes[cur] {
                Inode::Dir(m) => m,
                _ => return Err(ENOTDIR),
            };
            if c == b"." {
                continue;
            }
            if c == b".." {
                if stack.len() > 1 {
                    stack.pop();
                }
                continue;
            }
            if c.len() > 255 {
                return Err(36);
            }
            match dir.get(&c) {
                None => {
                    if todo.is_empty() {
                        let mut canon = vec![];
                        for (_, n) in &stack[1..] {
                            canon.push(b'/');
                            canon.extend_from_slice(n);
                        }
                        canon.push(b'/');
                        canon.extend_from_slice(&c);
                        return Ok((cur, c, None, canon));
                    }
                    return Err(ENOENT);
                }
                Some(&i) => {
                    if let Inode::Sym(t) = &self.inodes[i] {
                        if !todo.is_empty() || follow_last || trailing {
                            hops += 1;
                            if hops > 40 {
                                return Err(ELOOP);
                            }
                            if t.starts_with(b"/") {
                                stack.truncate(1);
                            }
                            for x in split(t).into_iter().rev() {
                                todo.push_front(x);
                            }
                            continue;
                        }
                    }
                    stack.push((i, c));
                }
            }
        }
        let mut canon = vec![];
        for (_, n) in &stack[1..] {
            canon.push(b'/');
            canon.extend_from_slice(n);
        }
        if canon.is_empty() {
            canon.push(b'/');
        }
        let (i, n) = stack.pop().unwrap();
        if trailing && !matches!(self.inodes[i], Inode::Dir(_)) {
            return Err(ENOTDIR);
        }
        let parent = stack.last().map(|x| x.0).unwrap_or(0);
        Ok((parent, n, Some(i), canon))
    }

    fn lookup(&self, path: &[u8]) -> Result<usize, i32> {
        let (_, _, i, _) = self.resolve(path, true)?;
        i.ok_or(ENOENT)
    }
}

impl<'p> Machine<'p> {
    fn cstr(&mut self, a: u64) -> Result<Vec<u8>, Stop> {
        let mut out = vec![];
        loop {
            let v = self.mem.load(&mut self.st, a + out.len() as u64, 8)?;
            let c = self.pin(v)? as u8;
            if c == 0 {
                return Ok(out);
            }
            out.push(c);
            if out.len() > 65536 {
                return Err(Stop::Engine("unterminated C string".into()));
            }
        }
    }

    fn set_errno(&mut self, e: i32) -> Result<(), Stop> {
        let a = self.errno()?;
        self.mem.store(&mut self.st, a, 32, Val::k(e as u128))?;
        Ok(())
    }

    fn allocate(&mut self, size: u64, align: u64) -> Result<u64, Stop> {
        match self.mem.malloc(size, align) {
            0 => Err(Stop::Engine(format!("no memory to allocate {} bytes", size))),
            a => Ok(a),
        }
    }

    fn errno(&mut self) -> Result<u64, Stop> {
        if self.fs.errno_addr == 0 {
            self.fs.errno_addr = self.mem.malloc(4, 4);
        }
        Ok(self.fs.errno_addr)
    }

    fn fail(&mut self, e: i32, w: u32) -> Result<Val, Stop> {
        self.set_errno(e)?;
        Ok(Val::k(mask(w)))
    }

    fn write_bytes(&mut self, a: u64, b: &[u8]) -> Result<(), Stop> {
        for (i, x) in b.iter().enumerate() {
            self.mem.store(&mut self.st, a + i as u64, 8, Val::k(*x as u128))?;
        }
        Ok(())
    }

    fn put_stat(&mut self, ino: usize, a: u64) -> Result<(), Stop> {
        self.mem.memset(a, Val::k(0), 144)?;
        let (mode, size) = match &self.fs.inodes[ino] {
            Inode::Dir(_) => (0o040755u32, 4096),
            Inode::File(d) => (0o100644, d.len()),
            Inode::Sym(t) => (0o120777, t.len()),
            Inode::Full | Inode::Null => (0o020666, 0),
        };
        let mt = self.fs.mtimes[ino];
        self.mem.store(&mut self.st, a, 64, Val::k(1))?;
        self.mem.store(&mut self.st, a + 8, 64, Val::k(ino as u128 + 1))?;
        self.mem.store(&mut self.st, a + 16, 64, Val::k(1))?;
        self.mem.store(&mut self.st, a + 24, 32, Val::k(mode as u128))?;
        self.mem.store(&mut self.st, a + 48, 64, Val::k(size as u128))?;
        self.mem.store(&mut self.st, a + 56, 64, Val::k(4096))?;
        self.mem.store(&mut self.st, a + 88, 64, Val::k(mt as u128))?;
        Ok(())
    }

    /// Does a scheduled fault of this kind strike this call?
    fn fault(&mut self, kind: u64) -> Option<u64> {
        for i in 0..self.fs.faults.len() {
            if self.fs.faults[i].0 == kind {
                if self.fs.faults[i].1 == 0 {
                    let a = self.fs.faults[i].2;
                    self.fs.faults.remove(i);
                    return Some(a);
                }
                self.fs.faults[i].1 -= 1;
                return None;
            }
        }
        None
    }

    fn fd(&self, fd: u64) -> Option<&OpenFile> {
        self.fs.fds.get(fd as usize).and_then(|x| x.as_ref())
    }

    fn iovec(&mut self, a: u64, n: u64) -> Result<Vec<(u64, u64)>, Stop> {
        let mut out = vec![];
        for i in 0..n {
            let p = self.mem.load(&mut self.st, a + i * 16, 64)?;
            let l = self.mem.load(&mut self.st, a + i * 16 + 8, 64)?;
            out.push((self.pin(p)? as u64, self.pin(l)? as u64));
        }
        Ok(out)
    }

    /// Reads up to n bytes; None if that fails.
    fn read(&mut self, fd: u64, mut n: usize, at: Option<usize>) -> Result<Option<Vec<Val>>, Stop> {
        if let Some(e) = self.fault(2) {
            if e >= 1000 {
                // short read of (e - 1000) bytes at most
                n = n.min(e as usize - 1000);
            } else {
                self.set_errno(e as i32)?;
                return Ok(None);
            }
        }
        let (ino, pos) = match self.fd(fd) {
            Some(f) => (f.ino, at.unwrap_or(f.pos)),
            None => {
                self.set_errno(EBADF)?;
                return Ok(None);
            }
        };
        let data: Vec<Val> = match &self.fs.inodes[ino] {
            Inode::Dir(_) => {
                self.set_errno(EISDIR)?;
                return Ok(None);
            }
            Inode::File(d) => d.iter().skip(pos).take(n).copied().collect(),
            Inode::Null => vec![],
            _ => vec![Val::k(0); n],
        };
        if at.is_none() {
            self.fs.fds[fd as usize].as_mut().unwrap().pos += data.len();
        }
        Ok(Some(data))
    }

    fn write(&mut self, fd: u64, mut data: Vec<Val>, at: Option<usize>) -> Result<Val, Stop> {
        if fd == 1 || fd == 2 {
            return Ok(Val::k(data.len() as u128));
        }
        if let Some(e) = self.fault(3) {
            if e >= 1000 {
                data.truncate(e as usize - 1000);
            } else {
                return self.fail(e as i32, 64);
            }
        }
        let n = data.len();
        let (ino, mut pos, fl) = match self.fd(fd) {
            Some(f) => (f.ino, at.unwrap_or(f.pos), f.flags),
            None => return self.fail(EBADF, 64),
        };
        if fl & 3 == 0 {
            return self.fail(EBADF, 64);
        }
        match &mut self.fs.inodes[ino] {
            Inode::File(d) => {
                if fl & 0x400 != 0 {
                    pos = d.len();
                }
                while d.len() < pos {
                    d.push(Val::k(0));
                }
                for (i, v) in data.into_iter().enumerate() {
                    if pos + i < d.len() {
                        d[pos + i] = v;
                    } else {
                        d.push(v);
                    }
                }
            }
            Inode::Full if n > 0 => return self.fail(ENOSPC, 64),
            _ => {}
        }
        self.fs.clock += 1;
        self.fs.mtimes[ino] = self.fs.clock;
        if at.is_none() {
            self.fs.fds[fd as usize].as_mut().unwrap().pos = pos + n;
        }
        Ok(Val::k(n as u128))
    }

    pub fn external(&mut self, x: Ext, a: &[Val]) -> Result<Val, Stop> {
        // all scalar arguments other than data are concrete or get fixed here
        let mut k = [0u64; 6];
        let skip_pin = matches!(x, Ext::SymAssume | Ext::SymCheck | Ext::SymObserve | Ext::SymPin);
        if !skip_pin {
            for (i, v) in a.iter().enumerate().take(6) {
                k[i] = self.pin(*v)? as u64;
            }
        }
        Ok(match x {
            Ext::Malloc => {
                if k[0] > 1 << 32 {
                    return Err(Stop::Engine(format!("allocation of {} bytes", k[0])));
                }
                Val::k(self.allocate(k[0], 16)? as u128)
            }
            Ext::Calloc => {
                let n = k[0].wrapping_mul(k[1]);
                if n > 1 << 32 {
                    return Err(Stop::Engine(format!("allocation of {} bytes", n)));
                }
                Val::k(self.allocate(n, 16)? as u128)
            }
            Ext::AlignedAlloc => Val::k(self.allocate(k[1], k[0])? as u128),
            Ext::Memalign => {
                let p = self.allocate(k[2], k[1])?;
                self.mem.store(&mut self.st, k[0], 64, Val::k(p as u128))?;
                Val::k(0)
            }
            Ext::Realloc => {
                let n = k[1];
                if n > 1 << 32 {
                    return Err(Stop::Engine(format!("allocation of {} bytes", n)));
                }
                let p = self.allocate(n, 16)?;
                if k[0] != 0 {
                    let old = match self.mem.sizes.get(&k[0]) {
                        Some(o) => *o,
                        None => return Err(MemErr { addr: k[0], n: 0, what: "realloc" }.into()),
                    };
                    self.mem.memcpy(p, k[0], old.min(n) as usize)?;
                    self.mem.free(k[0])?;
                }
                Val::k(p as u128)
            }
            Ext::Free => {
                self.mem.free(k[0])?;
                Val::k(0)
            }
            Ext::Bcmp | Ext::Memcmp => {
                let n = k[2] as usize;
                if n == 0 {
                    return Ok(Val::k(0));
                }
                if !self.mem.has_sym(k[0], n) && !self.mem.has_sym(k[1], n) {
                    let p = self.mem.bytes(k[0], n)?;
                    let q = self.mem.bytes(k[1], n)?;
                    let r: i32 = match p.cmp(&q) {
                        std::cmp::Ordering::Less => -1,
                        std::cmp::Ordering::Equal => 0,
                        std::cmp::Ordering::Greater => 1,
                    };
                    return Ok(Val::k(r as u32 as u128));
                }
                let mut e = self.st.konst(0, 32);
                let mut c: u32 = 0;
                for i in (0..n as u64).rev() {
                    let p = self.mem.load(&mut self.st, k[0] + i, 8)?;
                    let q = self.mem.load(&mut self.st, k[1] + i, 8)?;
                    if p.c != q.c {
                        c = if p.c < q.c { u32::MAX } else { 1 };
                    }
                    let pe = self.ex(p, 8);
                    let qe = self.ex(q, 8);
                    let st = &mut self.st;
                    let eq = st.bin(Op::Eq, pe, qe);
                    let diff = if x == Ext::Bcmp {
                        st.konst(1, 32)
                    } else {
                        let lt = st.bin(Op::Ult, pe, qe);
                        let m1 = st.konst(0xffff_ffff, 32);
                        let one = st.konst(1, 32);
                        st.ite(lt, m1, one)
                    };
                    e = st.ite(eq, e, diff);
                }
                if x == Ext::Bcmp && c != 0 {
                    c = 1;
                }
                if self.st.as_const(e).is_some() {
                    e = 0;
                }
                Val { c: c as u128, e }
            }
            Ext::Strlen => Val::k(self.cstr(k[0])?.len() as u128),
            Ext::Memchr | Ext::Memrchr => {
                let n = k[2];
                let target = k[1] as u8;
                let idx: Vec<u64> = if x == Ext::Memchr { (0..n).collect() } else { (0..n).rev().collect() };
                for i in idx {
                    let v = self.mem.load(&mut self.st, k[0] + i, 8)?;
                    if v.e != 0 {
                        let t = self.st.konst(target as u128, 8);
                        let e = self.st.bin(Op::Eq, v.e, t);
                        self.branch(e, v.c as u8 == target)?;
                    }
                    if v.c as u8 == target {
                        return Ok(Val::k((k[0] + i) as u128));
                    }
                }
                Val::k(0)
            }
            Ext::Open | Ext::Open32 => {
                let path = self.cstr(k[0])?;
                let fl = k[1];
                if let Some(e) = self.fault(1) {
                    return self.fail(e as i32, 32);
                }
                let (parent, name, ino, _) = match self.fs.resolve(&path, true) {
                    Ok(r) => r,
                    Err(e) => return self.fail(e, 32),
                };
                let ino = match ino {
                    Some(i) => {
                        if fl & 0xC0 == 0xC0 {
                            return self.fail(EEXIST, 32);
                        }
                        if matches!(self.fs.inodes[i], Inode::Dir(_)) && (fl & 3 != 0 || fl & 0x40 != 0) {
                            return self.fail(EISDIR, 32);
                        }
                        if fl & 0x10000 != 0 && !matches!(self.fs.inodes[i], Inode::Dir(_)) {
                            return self.fail(ENOTDIR, 32);
                        }
                        if fl & 0x200 != 0 {
                            if let Inode::File(d) = &mut self.fs.inodes[i] {
                                d.clear();
                            }
                        }
                        i
                    }
                    None => {
                        if fl & 0x40 == 0 {
                            return self.fail(ENOENT, 32);
                        }
                        if path.ends_with(b"/") {
                            return self.fail(EISDIR, 32);
                        }
                        let i = self.fs.add(Inode::File(vec![]));
                        self.fs.link(parent, &name, i);
                        i
                    }
                };
                self.fs.fds.push(Some(OpenFile { ino, pos: 0, flags: fl }));
                Val::k(self.fs.fds.len() as u128 - 1)
            }
            Ext::Close => {
                if let Some(f) = self.fs.fds.get_mut(k[0] as usize) {
                    *f = None;
                }
                Val::k(0)
            }
            Ext::Read | Ext::Pread => {
                let at = if x == Ext::Pread { Some(k[3] as usize) } else { None };
                let data = match self.read(k[0], k[2] as usize, at)? {
                    Some(data) => data,
                    None => return Ok(Val::k(mask(64))),
                };
                for (i, v) in data.iter().enumerate() {
                    self.mem.store(&mut self.st, k[1] + i as u64, 8, *v)?;
                }
                Val::k(data.len() as u128)
            }
            Ext::Readv => {
                let vecs = self.iovec(k[1], k[2])?;
                let n: u64 = vecs.iter().map(|v| v.1).sum();
                let data = match self.read(k[0], n as usize, None)? {
                    Some(data) => data,
                    None => return Ok(Val::k(mask(64))),
                };
                let mut all = data.iter();
                for (p, n) in vecs {
                    for (i, v) in all.by_ref().take(n as usize).enumerate() {
                        self.mem.store(&mut self.st, p + i as u64, 8, *v)?;
                    }
                }
                Val::k(data.len() as u128)
            }
            Ext::Write | Ext::Pwrite => {
                let n = k[2] as usize;
                let mut data = vec![];
                for i in 0..n as u64 {
                    data.push(self.mem.load(&mut self.st, k[1] + i, 8)?);
                }
                let at = if x == Ext::Pwrite { Some(k[3] as usize) } else { None };
                return self.write(k[0], data, at);
            }
            Ext::Writev => {
                let mut data = vec![];
                for (p, n) in self.iovec(k[1], k[2])? {
                    for i in 0..n {
                        data.push(self.mem.load(&mut self.st, p + i, 8)?);
                    }
                }
                return self.write(k[0], data, None);
            }
            Ext::Lseek => {
                let (ino, pos) = match self.fd(k[0]) {
                    Some(f) => (f.ino, f.pos),
                    None => return self.fail(EBADF, 64),
                };
                let size = match &self.fs.inodes[ino] {
                    Inode::File(d) => d.len(),
                    _ => 0,
                } as i64;
                let np = match k[2] as u32 {
                    0 => k[1] as i64,
                    1 => pos as i64 + k[1] as i64,
                    _ => size + k[1] as i64,
                };
                if np < 0 {
                    return self.fail(EINVAL, 64);
                }
                self.fs.fds[k[0] as usize].as_mut().unwrap().pos = np as usize;
                Val::k(np as u128)
            }
            Ext::Ftruncate => {
                let ino = match self.fd(k[0]) {
                    Some(f) => f.ino,
                    None => return self.fail(EBADF, 32),
                };
                if let Inode::File(d) = &mut self.fs.inodes[ino] {
                    d.resize(k[1] as usize, Val::k(0));
                }
                Val::k(0)
            }
            Ext::Fstat => {
                let ino = match self.fd(k[0]) {
                    Some(f) => f.ino,
                    None => return self.fail(EBADF, 32),
                };
                self.put_stat(ino, k[1])?;
                Val::k(0)
            }
            Ext::Stat | Ext::Lstat => {
                let path = self.cstr(k[0])?;
                match self.fs.resolve(&path, x == Ext::Stat) {
                    Ok((_, _, Some(i), _)) => {
                        self.put_stat(i, k[1])?;
                        Val::k(0)
                    }
                    Ok(_) => return self.fail(ENOENT, 32),
                    Err(e) => return self.fail(e, 32),
                }
            }
            Ext::Realpath => {
                let path = self.cstr(k[0])?;
                match self.fs.resolve(&path, true) {
                    Ok((_, _, Some(_), canon)) => {
                        let p = if k[1] != 0 { k[1] } else { self.mem.malloc(canon.len() as u64 + 1, 16) };
                        self.write_bytes(p, &canon)?;
                        self.write_bytes(p + canon.len() as u64, &[0])?;
                        Val::k(p as u128)
                    }
                    Ok(_) => {
                        self.set_errno(ENOENT)?;
                        Val::k(0)
                    }
                    Err(e) => {
                        self.set_errno(e)?;
                        Val::k(0)
                    }
                }
            }
            Ext::Readlink => {
                let path = self.cstr(k[0])?;
                match self.fs.resolve(&path, false) {
                    Ok((_, _, Some(i), _)) => match self.fs.inodes[i].clone() {
                        Inode::Sym(t) => {
                            let n = t.len().min(k[2] as usize);
                            self.write_bytes(k[1], &t[..n])?;
                            Val::k(n as u128)
                        }
                        _ => return self.fail(EINVAL, 64),
                    },
                    Ok(_) => return self.fail(ENOENT, 64),
                    Err(e) => return self.fail(e, 64),
                }
            }
            Ext::Getcwd => {
                let c = self.fs.cwd.clone();
                if (k[1] as usize) < c.len() + 1 {
                    self.set_errno(34)?;
                    return Ok(Val::k(0));
                }
                self.write_bytes(k[0], &c)?;
                self.write_bytes(k[0] + c.len() as u64, &[0])?;
                Val::k(k[0] as u128)
            }
            Ext::Getenv => Val::k(0),
            Ext::Mkdir => {
                let path = self.cstr(k[0])?;
                match self.fs.resolve(&path, false) {
                    Ok((_, _, Some(_), _)) => return self.fail(EEXIST, 32),
                    Ok((p, n, None, _)) => {
                        let i = self.fs.add(Inode::Dir(BTreeMap::new()));
                        self.fs.link(p, &n, i);
                        Val::k(0)
                    }
                    Err(e) => return self.fail(e, 32),
                }
            }
            Ext::Chdir => {
                let path = self.cstr(k[0])?;
                match self.fs.resolve(&path, true) {
                    Ok((_, _, Some(i), canon)) if matches!(self.fs.inodes[i], Inode::Dir(_)) => {
                        self.fs.cwd = canon;
                        Val::k(0)
                    }
                    Ok((_, _, Some(_), _)) => return self.fail(ENOTDIR, 32),
                    Ok(_) => return self.fail(ENOENT, 32),
                    Err(e) => return self.fail(e, 32),
                }
            }
            Ext::Unlink | Ext::Rmdir => {
                let path = self.cstr(k[0])?;
                match self.fs.resolve(&path, false) {
                    Ok((p, n, Some(i), _)) => {
                        let isdir = match &self.fs.inodes[i] {
                            Inode::Dir(m) => {
                                if x == Ext::Rmdir && !m.is_empty() {
                                    return self.fail(ENOTEMPTY, 32);
                                }
                                true
                            }
                            _ => false,
                        };
                        if isdir != (x == Ext::Rmdir) {
                            return self.fail(if isdir { EISDIR } else { ENOTDIR }, 32);
                        }
                        if let Inode::Dir(m) = &mut self.fs.inodes[p] {
                            m.remove(&n);
                        }
                        Val::k(0)
                    }
                    Ok(_) => return self.fail(ENOENT, 32),
                    Err(e) => return self.fail(e, 32),
                }
            }
            Ext::Rename => {
                let from = self.cstr(k[0])?;
                let to = self.cstr(k[1])?;
                let (p1, n1, i1) = match self.fs.resolve(&from, false) {
                    Ok((p, n, Some(i), _)) => (p, n, i),
                    Ok(_) => return self.fail(ENOENT, 32),
                    Err(e) => return self.fail(e, 32),
                };
                match self.fs.resolve(&to, false) {
                    Ok((p2, n2, i2, _)) => {
                        if let Some(i2) = i2 {
                            let d1 = matches!(self.fs.inodes[i1], Inode::Dir(_));
                            let d2 = matches!(self.fs.inodes[i2], Inode::Dir(_));
                            if d2 && !d1 {
                                return self.fail(EISDIR, 32);
                            }
                            if d1 && !d2 {
                                return self.fail(ENOTDIR, 32);
                            }
                        }
                        if let Inode::Dir(m) = &mut self.fs.inodes[p1] {
                            m.remove(&n1);
                        }
                        self.fs.link(p2, &n2, i1);
                        Val::k(0)
                    }
                    Err(e) => return self.fail(e, 32),
                }
            }
            Ext::Symlink => {
                let target = self.cstr(k[0])?;
                let path = self.cstr(k[1])?;
                match self.fs.resolve(&path, false) {
                    Ok((_, _, Some(_), _)) => return self.fail(EEXIST, 32),
                    Ok((p, n, None, _)) => {
                        let i = self.fs.add(Inode::Sym(target));
                        self.fs.link(p, &n, i);
                        Val::k(0)
                    }
                    Err(e) => return self.fail(e, 32),
                }
            }
            Ext::Link | Ext::Linkat => {
                let (from, to) = if x == Ext::Link { (k[0], k[1]) } else { (k[1], k[3]) };
                let from = self.cstr(from)?;
                let to = self.cstr(to)?;
                let i = match self.fs.resolve(&from, false) {
                    Ok((_, _, Some(i), _)) => i,
                    Ok(_) => return self.fail(ENOENT, 32),
                    Err(e) => return self.fail(e, 32),
                };
                if let Inode::Dir(_) = self.fs.inodes[i] {
                    return self.fail(1, 32);
                }
                match self.fs.resolve(&to, false) {
                    Ok((_, _, Some(_), _)) => return self.fail(EEXIST, 32),
                    Ok((p, n, None, _)) => {
                        self.fs.link(p, &n, i);
                        Val::k(0)
                    }
                    Err(e) => return self.fail(e, 32),
                }
            }
            Ext::Opendir => {
                let path = self.cstr(k[0])?;
                let names: Vec<(Vec<u8>, usize)> = match self.fs.lookup(&path) {
                    Ok(i) => match &self.fs.inodes[i] {
                        Inode::Dir(m) => m.iter().map(|(n, i)| (n.clone(), *i)).collect(),
                        _ => {
                            self.set_errno(ENOTDIR)?;
                            return Ok(Val::k(0));
                        }
                    },
                    Err(e) => {
                        self.set_errno(e)?;
                        return Ok(Val::k(0));
                    }
                };
                let p = self.mem.malloc(288, 16);
                self.fs.dirs.insert(p, names.into_iter().rev().collect());
                Val::k(p as u128)
            }
            Ext::Readdir => match self.fs.dirs.get_mut(&k[0]).and_then(|d| d.pop()) {
                Some((name, ino)) => {
                    let kind = match self.fs.inodes[ino] {
                        Inode::Dir(_) => 4,
                        Inode::File(_) => 8,
                        Inode::Sym(_) => 10,
                        _ => 2,
                    };
                    self.mem.memset(k[0], Val::k(0), 288)?;
                    self.mem.store(&mut self.st, k[0], 64, Val::k(ino as u128 + 1))?;
                    self.mem.store(&mut self.st, k[0] + 16, 16, Val::k(280))?;
                    self.mem.store(&mut self.st, k[0] + 18, 8, Val::k(kind))?;
                    self.write_bytes(k[0] + 19, &name)?;
                    Val::k(k[0] as u128)
                }
                None => Val::k(0),
            },
            Ext::Closedir => {
                self.fs.dirs.remove(&k[0]);
                self.mem.free(k[0])?;
                Val::k(0)
            }
            Ext::Dirfd => {
                self.fs.fds.push(Some(OpenFile { ino: 0, pos: 0, flags: 0 }));
                Val::k(self.fs.fds.len() as u128 - 1)
            }
            Ext::Sendfile => return self.fail(EINVAL, 64),
            Ext::Futimens => {
                let ino = match self.fd(k[0]) {
                    Some(f) => f.ino,
                    None => return self.fail(EBADF, 32),
                };
                let nsec = self.mem.load(&mut self.st, k[1] + 24, 64)?;
                if self.pin(nsec)? as u64 != 0x3fff_fffe {
                    let sec = self.mem.load(&mut self.st, k[1] + 16, 64)?;
                    self.fs.mtimes[ino] = self.pin(sec)? as u64;
                }
                Val::k(0)
            }
            Ext::Utimensat => return Err(Stop::Engine("utimensat".into())),
            Ext::Access => match {
                let path = self.cstr(k[0])?;
                self.fs.lookup(&path)
            } {
                Ok(_) => Val::k(0),
                Err(e) => return self.fail(e, 32),
            },
            Ext::Flock | Ext::Nanosleep | Ext::ClockNanosleep | Ext::Yield => Val::k(0),
            Ext::Chmod | Ext::Fchmod | Ext::Fsync | Ext::Fdatasync => {
                if x == Ext::Chmod {
                    let path = self.cstr(k[0])?;
                    if let Err(e) = self.fs.lookup(&path) {
                        return self.fail(e, 32);
                    }
                }
                Val::k(0)
            }
            Ext::Errno => Val::k(self.errno()? as u128),
            Ext::Strerror => {
                let m = format!("os error {}", k[0] as u32);
                let n = m.len().min(k[2] as usize - 1);
                self.write_bytes(k[1], &m.as_bytes()[..n])?;
                self.write_bytes(k[1] + n as u64, &[0])?;
                Val::k(0)
            }
            Ext::Syscall => {
                match k[0] {
                    318 => {
                        // getrandom
                        for i in 0..k[2] {
                            self.mem.store(&mut self.st, k[1] + i, 8, Val::k((i as u128 * 37 + 11) & 0xff))?;
                        }
                        Val::k(k[2] as u128)
                    }
                    186 => Val::k(1), // gettid
                    202 => Val::k(0), // futex
                    326 => return self.fail(38, 64), // copy_file_range: read and write instead
                    332 => return self.fail(38, 64), // statx: the library falls back to stat
                    n => return Err(Stop::Engine(format!("system call {}", n))),
                }
            }
            Ext::Abort => {
                return Err(Stop::Violation { msg: "abort".into(), model: vec![], trace: vec![], kind: "panic" });
            }
            Ext::Fcntl | Ext::Fcntl64 => match k[1] {
                1 if k[0] <= 2 || self.fd(k[0]).is_some() => Val::k(1),
                1 => return self.fail(EBADF, 32),
                2 => Val::k(0),
                0 | 1030 => match self.fd(k[0]) {
                    Some(f) => {
                        let f = OpenFile { ino: f.ino, pos: f.pos, flags: f.flags };
                        self.fs.fds.push(Some(f));
                        Val::k(self.fs.fds.len() as u128 - 1)
                    }
                    None => return self.fail(EBADF, 32),
                },
                3 => match self.fd(k[0]) {
                    Some(f) => Val::k(f.flags as u128),
                    None => return self.fail(EBADF, 32),
                },
                n => return Err(Stop::Engine(format!("fcntl {}", n))),
            },
            Ext::ClockGettime => {
                self.fs.clock += 1;
                self.mem.store(&mut self.st, k[1], 64, Val::k(1_700_000_000 + self.fs.clock as u128))?;
                self.mem.store(&mut self.st, k[1] + 8, 64, Val::k(0))?;
                Val::k(0)
            }
            Ext::Getpid | Ext::Gettid => Val::k(4242),
            Ext::Poll => Val::k(0),
            Ext::Sysconf => Val::k(4096),
            Ext::PthreadSelf => Val::k(1),
            Ext::KeyCreate => {
                let n = self.fs.specifics.len() as u64 + 1;
                self.fs.specifics.insert(n, 0);
                self.mem.store(&mut self.st, k[0], 32, Val::k(n as u128))?;
                Val::k(0)
            }
            Ext::SetSpecific => {
                self.fs.specifics.insert(k[0], k[1] as u128);
                Val::k(0)
            }
            Ext::GetSpecific => Val::k(self.fs.specifics.get(&k[0]).copied().unwrap_or(0)),
            Ext::KeyDelete | Ext::CxaAtexit => Val::k(0),
            Ext::SymU8 => self.new_input(8)?,
            Ext::SymU16 => self.new_input(16)?,
            Ext::SymU32 => self.new_input(32)?,
            Ext::SymU64 => self.new_input(64)?,
            Ext::SymBool => self.new_input(1)?,
            Ext::SymPick => {
                let n = k[0];
                let v = self.new_input(16)?;
                let nk = self.st.konst(n as u128, 16);
                let lt = self.st.bin(Op::Ult, v.e, nk);
                let c = Val { c: (v.c < n as u128) as u128, e: lt };
                let c = if self.st.as_const(lt).is_some() { Val::k(c.c) } else { c };
                self.assume(c)?;
                Val::k(self.pin(v)?)
            }
            Ext::SymPin => Val::k(self.pin(a[0])?),
            Ext::SymAssume => {
                self.assume(a[0])?;
                Val::k(0)
            }
            Ext::SymCheck => {
                let p = self.pin(a[1])? as u64;
                let n = self.pin(a[2])? as usize;
                let m = String::from_utf8_lossy(&self.mem.bytes(p, n)?).into_owned();
                self.check(a[0], &m)?;
                Val::k(0)
            }
            Ext::SymCover => {
                self.covers.insert(k[0] as u32);
                Val::k(0)
            }
            Ext::SymObserve => {
                self.obs.push(a[0].c as u64);
                Val::k(0)
            }
            Ext::SymScratch => {
                let s = b"/scratch";
                self.write_bytes(k[0], s)?;
                Val::k(s.len() as u128)
            }
            Ext::SymFault => {
                self.fs.faults.push((k[0], k[1], k[2]));
                Val::k(0)
            }
        })
    }
}
