//! Run-time interface of the scenarios.
//!
//! The `sym_*` functions are recognised by the symbolic executor, which replaces them.  The
//! bodies below are used when a scenario is compiled to a normal program and run natively to
//! replay a counterexample: values come from the file named by SYM_VALUES (lines `name hex`).
use rand_core::{CryptoRng, Error, RngCore};
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Default)]
struct St {
    vals: HashMap<String, Vec<u8>>,
    loaded: bool,
    seed: u64,
    panic_ok: bool,
    expect_panic: bool,
}
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
static OS_STREAM: AtomicU64 = AtomicU64::new(0);
static OS_CTR: AtomicU64 = AtomicU64::new(0);
static OS_USED: AtomicBool = AtomicBool::new(false);
static OS_ON: AtomicBool = AtomicBool::new(false);
thread_local!(static ST: RefCell<St> = RefCell::new(St::default()));

fn with<T>(f: impl FnOnce(&mut St) -> T) -> T {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        if !s.loaded {
            s.loaded = true;
            s.seed = std::env::var("SYM_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            if let Ok(p) = std::env::var("SYM_VALUES") {
                for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
                    // names may contain blanks
                    if let Some((k, v)) = l.rsplit_once(' ') {
                        let b = (0..v.len() / 2).map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).unwrap()).collect();
                        s.vals.insert(k.to_string(), b);
                    }
                }
            }
        }
        f(&mut s)
    })
}

unsafe fn st<'a>(p: *const u8, n: usize) -> &'a str {
    core::str::from_utf8_unchecked(core::slice::from_raw_parts(p, n))
}

#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn sym_bytes(name: *const u8, nlen: usize, p: *mut u8, n: usize) {
    let k = st(name, nlen).to_string();
    let v = with(|s| s.vals.get(&k).cloned()).unwrap_or_default();
    for i in 0..n {
        *p.add(i) = v.get(i).copied().unwrap_or(0);
    }
}

#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn sym_choice(name: *const u8, nlen: usize, n: u32) -> u32 {
    let k = st(name, nlen).to_string();
    let v = with(|s| s.vals.get(&k).cloned()).unwrap_or_default();
    let mut r = 0u32;
    for i in 0..4 {
        r |= (v.get(i).copied().unwrap_or(0) as u32) << (8 * i);
    }
    r % n
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn sym_rng(stream: u64, ctr: u64, p: *mut u8, n: usize) {
    let seed = with(|s| s.seed);
    for i in 0..n {
        *p.add(i) = mix(mix(mix(seed) ^ stream) ^ (ctr << 20) ^ i as u64) as u8;
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_assume(c: bool) {
    if !c {
        println!("REPLAY-ASSUME-FAILED");
        std::process::exit(78);
    }
}

#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn sym_check(id: *const u8, nlen: usize, c: bool) {
    if !c {
        println!("REPLAY-VIOLATION {}", st(id, nlen));
        std::process::exit(77);
    }
}

/// non-forking equality of byte strings
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn sym_eq(a: *const u8, b: *const u8, n: usize) -> bool {
    core::slice::from_raw_parts(a, n) == core::slice::from_raw_parts(b, n)
}

/// non-forking substring test
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn sym_contains(h: *const u8, hn: usize, n: *const u8, nn: usize) -> bool {
    let (h, n) = (core::slice::from_raw_parts(h, hn), core::slice::from_raw_parts(n, nn));
    h.windows(nn).any(|w| w == n)
}

#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn sym_reach(_id: *const u8, _nlen: usize) {}

/// from here on a panic is a permitted way of rejecting
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_panic_ok(on: bool) {
    with(|s| s.panic_ok = on)
}

/// from here on a panic is the required outcome
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_expect_panic() {
    with(|s| s.expect_panic = true)
}

/// Selects the stream of operating-system randomness used from here on (by OsRng and
/// thread_rng); natively the calls of the process are answered from the stream
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_os_stream(k: u64) {
    OS_STREAM.store(k, Ordering::SeqCst);
    OS_CTR.store(0, Ordering::SeqCst);
    OS_USED.store(false, Ordering::SeqCst);
    OS_ON.store(true, Ordering::SeqCst);
    // make thread_rng reseed itself from the new stream
    let mut b = [0u8; 4];
    for _ in 0..100000 {
        rand::RngCore::fill_bytes(&mut rand::thread_rng(), &mut b);
        if OS_USED.load(Ordering::SeqCst) {
            break;
        }
    }
}

#[cfg(not(symexec))]
mod os {
    use super::*;
    unsafe fn fill(p: *mut u8, n: usize) {
        OS_USED.store(true, Ordering::SeqCst);
        let c = OS_CTR.fetch_add(1, Ordering::SeqCst);
        let k = OS_STREAM.load(Ordering::SeqCst);
        let seed: u64 = std::env::var("SYM_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
        for i in 0..n {
            *p.add(i) = mix(mix(mix(seed ^ 0x5555) ^ k) ^ (c << 20) ^ i as u64) as u8;
        }
    }
    unsafe fn raw(nr: i64, a: [i64; 6]) -> i64 {
        let r: i64;
        core::arch::asm!("syscall", inlateout("rax") nr => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
            in("r10") a[3], in("r8") a[4], in("r9") a[5], out("rcx") _, out("r11") _);
        r
    }
    #[no_mangle]
    pub unsafe extern "C" fn syscall(nr: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        if nr == 318 && OS_ON.load(Ordering::SeqCst) {
            fill(a as *mut u8, b as usize);
            return b;
        }
        let r = raw(nr, [a, b, c, d, e, f]);
        if r < 0 && r > -4096 {
            *__errno_location() = -r as i32;
            return -1;
        }
        r
    }
    #[no_mangle]
    pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
        if OS_ON.load(Ordering::SeqCst) {
            fill(p, n);
            return n as isize;
        }
        syscall(318, p as i64, n as i64, flags as i64, 0, 0, 0) as isize
    }
    extern "C" {
        fn __errno_location() -> *mut i32;
    }
}

pub fn os_stream(k: u64) {
    sym_os_stream(k)
}

pub fn native_main(run: impl FnOnce()) {
    std::panic::set_hook(Box::new(|i| {
        let (ok, ex) = with(|s| (s.panic_ok, s.expect_panic));
        if ok || ex {
            println!("REPLAY-PANIC-ALLOWED {}", i);
            std::process::exit(0);
        }
        println!("REPLAY-VIOLATION panic {}", i);
        std::process::exit(77);
    }));
    run();
    println!("REPLAY-OK");
}

pub fn bytes(name: &str, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { sym_bytes(name.as_ptr(), name.len(), v.as_mut_ptr(), n) };
    v
}

pub fn arr<const N: usize>(name: &str) -> [u8; N] {
    let mut v = [0u8; N];
    unsafe { sym_bytes(name.as_ptr(), name.len(), v.as_mut_ptr(), N) };
    v
}

pub fn choice(name: &str, n: usize) -> usize {
    unsafe { sym_choice(name.as_ptr(), name.len(), n as u32) as usize }
}

pub fn pick<T: Copy>(name: &str, xs: &[T]) -> T {
    xs[choice(name, xs.len())]
}

pub fn check(id: &str, c: bool) {
    unsafe { sym_check(id.as_ptr(), id.len(), c) }
}

pub fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && unsafe { sym_eq(a.as_ptr(), b.as_ptr(), a.len()) }
}

pub fn contains(h: &[u8], n: &[u8]) -> bool {
    h.len() >= n.len() && unsafe { sym_contains(h.as_ptr(), h.len(), n.as_ptr(), n.len()) }
}

pub fn reach(id: &str) {
    unsafe { sym_reach(id.as_ptr(), id.len()) }
}

pub fn assume(c: bool) {
    sym_assume(c)
}

pub fn panic_ok(on: bool) {
    sym_panic_ok(on)
}

pub fn must_panic<T>(id: &str, f: impl FnOnce() -> T) {
    sym_expect_panic();
    let _ = f();
    check(id, false);
}

/// what the generators gave out, (stream, value), while DRAWS_ON
static mut DRAWS: Vec<(u64, Vec<u8>)> = Vec::new();
static mut DRAWS_ON: bool = false;

pub fn log_draws() {
    unsafe { DRAWS_ON = true }
}

pub fn draws() -> Vec<(u64, Vec<u8>)> {
    unsafe { (*core::ptr::addr_of!(DRAWS)).clone() }
}

/// A random generator whose output is fresh per (stream, position)
pub struct Rng {
    pub stream: u64,
    pub ctr: u64,
}

impl Rng {
    pub fn new(stream: u64) -> Self {
        Rng { stream, ctr: 0 }
    }
}

impl RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        unsafe { sym_rng(self.stream, self.ctr, d.as_mut_ptr(), d.len()) };
        self.ctr += 1;
        unsafe {
            if DRAWS_ON {
                (*core::ptr::addr_of_mut!(DRAWS)).push((self.stream, d.to_vec()));
            }
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Rng {}

/// xors a symbolic mask of the message's length into it
pub fn mask(name: &str, m: &mut [u8]) {
    let k = bytes(name, m.len());
    for (x, y) in m.iter_mut().zip(k.iter()) {
        *x ^= *y;
    }
}
