//! Process-level seams for what the standard library takes from the operating system on its own.
//!
//! `getrandom`: std's `RandomState` seeds hash maps from it once per thread. Every simulation runs
//! on a thread of its own, so a fixed answer makes map iteration order part of the seed.
//!
//! `clock_gettime`: std's `Instant` and `SystemTime`. Simulated tasks see simulated time.
//!
//! `syscall`: std's mutexes park on a futex. A simulated task that finds a std mutex taken must let
//! the holder (another coroutine of the same OS thread) run instead of blocking the thread.

use std::cell::Cell;

thread_local! {
    static ENTROPY: Cell<u64> = const { Cell::new(0x5eed) };
}
/// the answer `getrandom` gives on this thread
pub fn set_entropy(v: u64) {
    ENTROPY.with(|e| e.set(v));
}

/// # Safety
/// called by libc users with a valid buffer
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut z = ENTROPY.try_with(|e| e.get()).unwrap_or(1);
    for i in 0..len {
        z = crate::rng::mix(z);
        *buf.add(i) = z as u8;
    }
    len as isize
}

/// # Safety
/// called by libc users with a valid pointer
#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32 {
    // CLOCK_REALTIME, CLOCK_MONOTONIC
    if clock <= 1 && crate::in_task() {
        let ns = crate::now();
        *t = [1_700_000_000 + (ns / 1_000_000_000) as i64, (ns % 1_000_000_000) as i64];
        return 0;
    }
    if syscall(228, clock as i64, t as i64, 0, 0, 0, 0) < 0 {
        return -1;
    }
    0
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

const SYS_FUTEX: i64 = 202;
const FUTEX_CMD_MASK: i64 = 0x7f;

/// # Safety
/// same contract as libc's `syscall`
#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_FUTEX {
        let op = b & FUTEX_CMD_MASK;
        // FUTEX_WAIT, FUTEX_WAIT_BITSET
        if (op == 0 || op == 9) && crate::in_task() && crate::yield_midpoll(crate::P_FUTEX) {
            *__errno_location() = 11; // EAGAIN: look again
            return -1;
        }
    }
    let r: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
    );
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}
