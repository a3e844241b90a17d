//! Preemption: threads that ask for it give up the processor at random allocations, system calls and wake-ups.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LEVEL: Cell<u32> = const { Cell::new(0) };
    static RNG: Cell<u64> = const { Cell::new(1) };
}

pub fn set(level: u32, seed: u64) {
    RNG.with(|r| r.set(seed.wrapping_mul(0x9e3779b97f4a7c15) | 1));
    LEVEL.with(|l| l.set(level));
}

fn rnd() -> u64 {
    RNG.try_with(|r| {
        let mut s = r.get();
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        r.set(s);
        s >> 11
    })
    .unwrap_or(1)
}

/// `weight`: how likely this point is to be a good one
#[inline]
pub fn point(weight: u64) {
    let l = LEVEL.try_with(|l| l.get()).unwrap_or(0);
    if l == 0 {
        return;
    }
    slow(l as u64 * weight);
}

#[cold]
fn slow(w: u64) {
    let r = rnd() % 20000;
    if r < w {
        let us = 1 + rnd() % if rnd() % 20 == 0 { 4000 } else { 150 };
        let ts = libc::timespec { tv_sec: 0, tv_nsec: us as i64 * 1000 };
        unsafe {
            raw::syscall(libc::SYS_nanosleep, &ts as *const _ as i64, 0, 0, 0, 0, 0);
        }
    } else if r < 6 * w {
        unsafe {
            raw::syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
        }
    }
}

pub mod raw {
    use std::arch::asm;
    /// the system call itself, errno style result
    pub unsafe fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        let r: i64;
        asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e,
             in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
        if (-4095..0).contains(&r) {
            *libc::__errno_location() = -r as i32;
            return -1;
        }
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex {
        point(40);
        let r = raw::syscall(n, a, b, c, d, e, f);
        let err = *libc::__errno_location();
        point(40);
        *libc::__errno_location() = err;
        return r;
    }
    raw::syscall(n, a, b, c, d, e, f)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const libc::c_void, n: usize) -> isize {
    let r = raw::syscall(libc::SYS_write, fd as i64, p as i64, n as i64, 0, 0, 0) as isize;
    let err = *libc::__errno_location();
    point(60);
    *libc::__errno_location() = err;
    r
}

pub struct Alloc;

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point(3);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        point(3);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point(3);
        System.realloc(p, l, n)
    }
}
