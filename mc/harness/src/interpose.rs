//! libc symbols replaced in this binary, for executions only:
//! * `clock_gettime`: virtual time;
//! * `getrandom`: fixed seeds for hash maps;
//! * `syscall(SYS_futex)`: a thread blocking on a std lock inside an execution
//!   would block for ever (all tasks share the thread), so the task is switched.

use std::arch::asm;
use std::os::raw::{c_int, c_long, c_void};

const SYS_FUTEX: c_long = 202;
const SYS_CLOCK_GETTIME: c_long = 228;
const SYS_GETRANDOM: c_long = 318;
const EAGAIN: c_int = 11;

/// virtual time 0 as CLOCK_MONOTONIC seconds
const BASE: u64 = 1_000_000;

#[inline]
unsafe fn raw(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
         options(nostack));
    r
}

extern "C" {
    fn __errno_location() -> *mut c_int;
}

unsafe fn ret(r: c_long) -> c_long {
    if r < 0 && r > -4096 {
        *__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut Timespec) -> c_int {
    if mccore::in_world() {
        let n = mccore::now();
        (*ts).sec = (BASE + n / 1_000_000_000) as i64;
        (*ts).nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw(SYS_CLOCK_GETTIME, clk as c_long, ts as c_long, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: u32) -> isize {
    if mccore::in_world() {
        let mut x = mccore::HASH_SEED.with(|s| s.get()) ^ 0x9e37_79b9_7f4a_7c15;
        for i in 0..len {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            *(buf as *mut u8).add(i) = (x >> 32) as u8;
        }
        return len as isize;
    }
    ret(raw(SYS_GETRANDOM, buf as c_long, len as c_long, flags as c_long, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: c_long,
    b: c_long,
    c: c_long,
    d: c_long,
    e: c_long,
    f: c_long,
) -> c_long {
    if n == SYS_FUTEX && mccore::in_world() {
        let op = b & 0x7f;
        let wait = op == 0 || op == 9;
        if wait && mccore::block() {
            *__errno_location() = EAGAIN;
            return -1;
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}
