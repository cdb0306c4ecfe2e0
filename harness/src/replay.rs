//! Runs an entry natively on given input values, as a violation found
//! symbolically has to be confirmed by the real code, files and all.
//!
//! replay ENTRY VALUES, where VALUES are comma-separated; missing ones are 0.
//! Prints what was observed. Exit status: 0 done, 10 a check failed, 3 an
//! assumption is false, anything else a crash.

use std::ffi::CStr;
use std::sync::Mutex;

static VALUES: Mutex<Vec<u64>> = Mutex::new(Vec::new());
static SCRATCH: Mutex<Option<String>> = Mutex::new(None);
static FAULTS: Mutex<Vec<(u32, u32, u32)>> = Mutex::new(Vec::new());

fn next() -> u64 {
    let mut values = VALUES.lock().unwrap();
    values.pop().unwrap_or(0)
}

fn leave(status: i32) -> ! {
    if let Some(dir) = SCRATCH.lock().unwrap().take() {
        FAULTS.lock().unwrap().clear();
        let _ = std::fs::remove_dir_all(dir);
    }
    std::process::exit(status)
}

#[no_mangle]
pub extern "C" fn sym_u8() -> u8 {
    next() as u8
}
#[no_mangle]
pub extern "C" fn sym_u16() -> u16 {
    next() as u16
}
#[no_mangle]
pub extern "C" fn sym_u32() -> u32 {
    next() as u32
}
#[no_mangle]
pub extern "C" fn sym_u64() -> u64 {
    next()
}
#[no_mangle]
pub extern "C" fn sym_bool() -> bool {
    next() & 1 == 1
}
#[no_mangle]
pub extern "C" fn sym_pick(n: u64) -> u64 {
    let v = next();
    if v >= n {
        leave(3);
    }
    v
}
#[no_mangle]
pub extern "C" fn sym_pin(x: u64) -> u64 {
    x
}
#[no_mangle]
pub extern "C" fn sym_assume(b: bool) {
    if !b {
        println!("ASSUMPTION FALSE");
        leave(3);
    }
}
#[no_mangle]
pub unsafe extern "C" fn sym_check(b: bool, p: *const u8, n: usize) {
    if !b {
        let msg = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned();
        println!("CHECK FAILED: {}", msg);
        leave(10);
    }
}
#[no_mangle]
pub extern "C" fn sym_cover(id: u32) {
    println!("COVER {}", id);
}
#[no_mangle]
pub extern "C" fn sym_observe(x: u64) {
    println!("OBS {}", x);
}
#[no_mangle]
pub unsafe extern "C" fn sym_scratch(p: *mut u8) -> u64 {
    let dir = std::env::temp_dir().join(format!("replay-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let dir = dir.canonicalize().unwrap();
    std::env::set_current_dir(&dir).unwrap();
    let s = dir.to_str().unwrap().to_string();
    assert!(s.len() <= 512);
    std::ptr::copy_nonoverlapping(s.as_ptr(), p, s.len());
    let n = s.len() as u64;
    *SCRATCH.lock().unwrap() = Some(s);
    n
}
#[no_mangle]
pub extern "C" fn sym_fault(kind: u32, calls_before: u32, how: u32) {
    FAULTS.lock().unwrap().push((kind, calls_before, how));
}

fn strikes(kind: u32) -> Option<u32> {
    let mut faults = match FAULTS.try_lock() {
        Ok(f) => f,
        Err(_) => return None,
    };
    let i = faults.iter().position(|f| f.0 == kind)?;
    if faults[i].1 == 0 {
        return Some(faults.remove(i).2);
    }
    faults[i].1 -= 1;
    None
}

extern "C" {
    fn syscall(number: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}

// The calls that may be told to fail. Being defined in the executable, these
// are the ones the standard library calls.
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const std::ffi::c_char, flags: i32, mode: u32) -> i32 {
    let _ = CStr::from_ptr(path);
    if let Some(e) = strikes(1) {
        *__errno_location() = e as i32;
        return -1;
    }
    syscall(257, -100i64, path, flags as i64, mode as i64) as i32
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, mut n: usize) -> isize {
    if fd > 2 {
        if let Some(e) = strikes(2) {
            if e < 1000 {
                *__errno_location() = e as i32;
                return -1;
            }
            n = n.min(e as usize - 1000);
        }
    }
    syscall(0, fd as i64, buf, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, mut n: usize) -> isize {
    if fd > 2 {
        if let Some(e) = strikes(3) {
            if e < 1000 {
                *__errno_location() = e as i32;
                return -1;
            }
            n = n.min(e as usize - 1000);
        }
    }
    syscall(1, fd as i64, buf, n) as isize
}

fn main() {
    let mut args = std::env::args().skip(1);
    let entry = args.next().unwrap_or_default();
    let values = args.next().unwrap_or_default();
    {
        let mut v = VALUES.lock().unwrap();
        *v = values.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        v.reverse();
    }
    match harness::ENTRIES.iter().find(|e| e.0 == entry) {
        Some(e) => {
            let run = e.1;
            if std::panic::catch_unwind(move || run()).is_err() {
                leave(101);
            }
            println!("DONE");
            leave(0)
        }
        None => {
            println!("no entry {}", entry);
            leave(4)
        }
    }
}
