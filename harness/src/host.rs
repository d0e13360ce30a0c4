//! The surroundings of the process, as the code under test sees them: with --hostile N every environment variable it
//! asks for is set to something, the clocks leap, and the threads carry names. None of it may be seen in a result.
use std::sync::atomic::{AtomicU64, Ordering};
static LEVEL: AtomicU64 = AtomicU64::new(0);
static TICK: AtomicU64 = AtomicU64::new(0);
pub fn set(n: u64) { LEVEL.store(n, Ordering::SeqCst) }
pub fn level() -> u64 { LEVEL.load(Ordering::SeqCst) }

const VALS: [&[u8]; 12] = [b"1\0", b"0\0", b"true\0", b"zh_CN.UTF-8\0", b"en\0", b"\0", b"off\0", b"debug\0", b"42\0", b"test\0", b"/tmp\0", b"\xff\xfe\0"];
const LOCALES: [&[u8]; 4] = [b"zh_CN.UTF-8\0", b"tr_TR.UTF-8\0", b"C\0", b"en_US.UTF-8\0"];
extern "C" { static environ: *const *const u8; }
/// libc's `getenv`
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let n = std::ffi::CStr::from_ptr(name as *const _).to_bytes();
    let lv = LEVEL.load(Ordering::Relaxed);
    if lv > 0 && !n.starts_with(b"RUST") {
        if n.starts_with(b"LC_") || n.starts_with(b"LANG") { return LOCALES[if lv % 2 == 0 { 0 } else { 1 + (lv / 2 % 3) as usize }].as_ptr() }
        let h = n.iter().fold(lv, |h, &b| (h ^ b as u64).wrapping_mul(0x100000001b3));
        return VALS[if lv < VALS.len() as u64 { lv as usize - 1 } else { (h >> 20) as usize % VALS.len() }].as_ptr();
    }
    let mut p = environ;
    if p.is_null() { return core::ptr::null() }
    while !(*p).is_null() {
        let e = *p;
        let mut k = 0;
        while k < n.len() && *e.add(k) == n[k] { k += 1 }
        if k == n.len() && *e.add(k) == b'=' { return e.add(k + 1) }
        p = p.add(1);
    }
    core::ptr::null()
}
/// libc's `clock_gettime`
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32 {
    let r = crate::rng::raw(228, [clk as usize, ts as usize, 0, 0, 0, 0]);
    if r < 0 { return -1 }
    let lv = LEVEL.load(Ordering::Relaxed);
    if lv > 0 {
        let k = TICK.fetch_add(1, Ordering::Relaxed) + 1;
        let x = (k ^ lv << 32).wrapping_mul(0x9e3779b97f4a7c15) >> 33;
        if clk == 0 { (*ts)[0] = (x % 7_000_000_000) as i64; (*ts)[1] = (x.wrapping_mul(k) % 1_000_000_000) as i64 }
        else { (*ts)[0] += (k * 3) as i64; (*ts)[1] = (x % 1_000_000_000) as i64 }
    }
    0
}
const NAMES: [&str; 6] = ["pool-3", "worker-1", "tokio-runtime-worker", "test", "main", ""];
/// what a thread of the driver is called: nothing, or in strange surroundings something
pub fn name(k: usize) -> std::thread::Builder {
    let b = std::thread::Builder::new();
    match level() as usize { 0 => b, lv if lv < 40 => b.name(NAMES[(k + lv) % 6].to_string()), lv => b.name(NAMES[(k + lv) % 4].to_string()) }
}
