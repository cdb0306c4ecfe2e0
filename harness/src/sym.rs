//! What a harness may ask of its executor: the symbolic engine, or the native
//! replayer which answers from a list of values.

pub mod ffi {
    extern "C" {
        pub fn sym_u8() -> u8;
        pub fn sym_u16() -> u16;
        pub fn sym_u32() -> u32;
        pub fn sym_u64() -> u64;
        pub fn sym_bool() -> bool;
        pub fn sym_pick(n: u64) -> u64;
        pub fn sym_pin(x: u64) -> u64;
        pub fn sym_assume(b: bool);
        pub fn sym_check(b: bool, p: *const u8, n: usize);
        pub fn sym_cover(id: u32);
        pub fn sym_observe(x: u64);
        pub fn sym_scratch(p: *mut u8) -> u64;
        pub fn sym_fault(kind: u32, calls_before: u32, how: u32);
    }
}

pub fn u8() -> u8 {
    unsafe { ffi::sym_u8() }
}
pub fn u16() -> u16 {
    unsafe { ffi::sym_u16() }
}
pub fn u32() -> u32 {
    unsafe { ffi::sym_u32() }
}
pub fn u64() -> u64 {
    unsafe { ffi::sym_u64() }
}
pub fn usize() -> usize {
    unsafe { ffi::sym_u64() as usize }
}
pub fn flag() -> bool {
    unsafe { ffi::sym_bool() }
}
/// One of 0..n, each explored separately.
pub fn pick(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    unsafe { ffi::sym_pick(n as u64) as usize }
}
/// lo..=hi, each explored separately.
pub fn between(lo: usize, hi: usize) -> usize {
    lo + pick(hi - lo + 1)
}
pub fn assume(b: bool) {
    unsafe { ffi::sym_assume(b) }
}
pub fn check(b: bool, msg: &str) {
    unsafe { ffi::sym_check(b, msg.as_ptr(), msg.len()) }
}
pub fn cover(id: u32) {
    unsafe { ffi::sym_cover(id) }
}
pub fn observe(x: u64) {
    unsafe { ffi::sym_observe(x) }
}
pub fn observe_str(s: &str) {
    let mut h: u64 = s.len() as u64;
    for b in s.bytes() {
        h = h.rotate_left(7) ^ b as u64;
    }
    observe(h);
}
/// An empty directory of the harness's own, canonical and the current one.
pub fn scratch() -> String {
    let mut buf = [0u8; 512];
    let n = unsafe { ffi::sym_scratch(buf.as_mut_ptr()) } as usize;
    String::from_utf8(buf[..n].to_vec()).unwrap()
}
pub const OPEN: u32 = 1;
pub const READ: u32 = 2;
pub const WRITE: u32 = 3;
/// After `calls_before` further calls of that kind, one fails with the errno,
/// or is cut short to `how - 1000` bytes.
pub fn fault(kind: u32, calls_before: u32, how: u32) {
    unsafe { ffi::sym_fault(kind, calls_before, how) }
}
