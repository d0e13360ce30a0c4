//! The system's source of randomness, as the code under test sees it. While a thread has a source set, its
//! getrandom requests are served from a script, in small portions, or refused; every byte handed out is counted.
use std::cell::RefCell;
#[derive(Default)]
pub struct Source { pub script: Vec<u8>, pub at: usize, pub portion: usize, pub eintr: usize, pub fail_after: Option<usize>, pub drawn: usize, pub asked: usize }
thread_local! { static SRC: RefCell<Option<Source>> = const { RefCell::new(None) }; }
pub fn set(s: Option<Source>) -> Option<Source> { SRC.with(|c| std::mem::replace(&mut *c.borrow_mut(), s)) }

extern "C" { fn __errno_location() -> *mut i32; }
#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
pub unsafe fn raw(n: i64, a: [usize; 6]) -> isize {
    let r: isize;
    core::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _);
    r
}
/// libc's `syscall`, with getrandom(2) (318) answered by the thread's source if there is one
#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let no = |code: i32| { *__errno_location() = code; -1i64 };
    if n == 318 {
        let r = SRC.try_with(|s| s.try_borrow_mut().ok().and_then(|mut s| s.as_mut().map(|s| {
            if b == 0 { return Ok(0) }
            s.asked += 1;
            if s.eintr > 0 && s.asked % 2 == 1 { s.eintr -= 1; return Err(4) }
            if s.asked > 4096 { s.fail_after = None }
            let mut k = if s.portion > 0 { b.min(s.portion) } else { b };
            if let Some(x) = s.fail_after { if s.drawn >= x { return Err(5) } k = k.min(x - s.drawn) }
            let mut put = 0;
            while put < k && s.at < s.script.len() { *(a as *mut u8).add(put) = s.script[s.at]; put += 1; s.at += 1 }
            while put < k {
                let r = raw(318, [a + put, k - put, 0, 0, 0, 0]);
                if r < 0 { return Err(-r as i32) }
                put += r as usize;
            }
            s.drawn += k;
            Ok(k as i64)
        }))).ok().flatten();
        match r { Some(Ok(k)) => return k, Some(Err(c)) => return no(c), None => {} }
    }
    let r = raw(n, [a, b, c, d, e, f]);
    if r < 0 && r > -4096 { no(-r as i32) } else { r as i64 }
}
#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
compile_error!("the source of randomness is only intercepted on x86_64 Linux");
