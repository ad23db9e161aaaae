//! The C library entry points through which std reads clocks, draws random numbers, sleeps and parks.
//! Inside a simulated run they are answered by the simulator; elsewhere they are the plain system calls.
use crate::choice::Stream;
use crate::exec;
use libc::{c_int, c_long, c_uint, c_void, size_t, ssize_t, timespec};
use std::arch::asm;

#[inline]
unsafe fn raw(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
         options(nostack));
    r
}

unsafe fn ret(r: c_long) -> c_long {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}

const MONO_BASE: u64 = 1_000_000_000_000;
const REAL_BASE: u64 = 1_700_000_000_000_000_000;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, tp: *mut timespec) -> c_int {
    if exec::active() {
        let base = match clk {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => Some(REAL_BASE),
            libc::CLOCK_MONOTONIC
            | libc::CLOCK_MONOTONIC_RAW
            | libc::CLOCK_MONOTONIC_COARSE
            | libc::CLOCK_BOOTTIME => Some(MONO_BASE),
            _ => None,
        };
        if let Some(b) = base {
            let t = b + exec::sim_now();
            (*tp).tv_sec = (t / 1_000_000_000) as _;
            (*tp).tv_nsec = (t % 1_000_000_000) as _;
            return 0;
        }
    }
    ret(raw(libc::SYS_clock_gettime, clk as c_long, tp as c_long, 0, 0, 0, 0)) as c_int
}

unsafe fn fill(buf: *mut u8, len: usize) {
    let mut i = 0;
    while i < len {
        let v = exec::try_with_quiet(|s| s.draw(Stream::Sched, u32::MAX)).unwrap_or(0);
        for b in v.to_le_bytes() {
            if i < len {
                *buf.add(i) = b;
                i += 1;
            }
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if exec::active() {
        fill(buf as *mut u8, len);
        return len as ssize_t;
    }
    ret(raw(libc::SYS_getrandom, buf as c_long, len as c_long, flags as c_long, 0, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: libc::clockid_t,
    flags: c_int,
    req: *const timespec,
    rem: *mut timespec,
) -> c_int {
    if exec::active() && exec::in_worker() {
        let mut ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        if flags & libc::TIMER_ABSTIME != 0 {
            ns = ns.saturating_sub(MONO_BASE + exec::sim_now());
        }
        exec::busy(ns.max(1));
        return 0;
    }
    -(raw(
        libc::SYS_clock_nanosleep,
        clk as c_long,
        flags as c_long,
        req as c_long,
        rem as c_long,
        0,
        0,
    )) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if exec::active() && exec::in_worker() {
        exec::busy(((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64).max(1));
        return 0;
    }
    ret(raw(libc::SYS_nanosleep, req as c_long, rem as c_long, 0, 0, 0, 0)) as c_int
}

/// `libc::syscall` is variadic; on x86-64 a caller passes the arguments in the same places
#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: c_long,
    b: c_long,
    c: c_long,
    d: c_long,
    e: c_long,
    f: c_long,
) -> c_long {
    if exec::active() {
        if n == libc::SYS_getrandom {
            fill(a as *mut u8, b as usize);
            return b;
        }
        if n == libc::SYS_futex && exec::in_worker() {
            let op = (b as c_int) & 0x7f;
            if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
                let cur = (*(a as *const std::sync::atomic::AtomicU32))
                    .load(std::sync::atomic::Ordering::SeqCst);
                if cur != c as u32 {
                    *libc::__errno_location() = libc::EAGAIN;
                    return -1;
                }
                exec::futex_yield();
                return 0;
            }
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}
