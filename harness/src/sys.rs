//! The few C library calls the harness needs (no external crates).
#![allow(non_camel_case_types)]
use std::os::raw::{c_int, c_void};

#[repr(C)]
struct rlimit {
    cur: u64,
    max: u64,
}

extern "C" {
    fn mmap(a: *mut c_void, l: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void;
    fn setrlimit(r: c_int, l: *const rlimit) -> c_int;
    fn prctl(op: c_int, a: u64, b: u64, c: u64, d: u64) -> c_int;
}

/// Maps `len` bytes of `file` shared and writable.
pub fn map_shared(file: &std::fs::File, len: usize) -> *mut u8 {
    use std::os::unix::io::AsRawFd;
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, file.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap failed");
    p as *mut u8
}

/// Limits this process' address space and disables core dumps; dies with its parent.
pub fn child_limits(bytes: u64) {
    unsafe {
        setrlimit(9, &rlimit { cur: bytes, max: bytes });
        setrlimit(4, &rlimit { cur: 0, max: 0 });
        prctl(1, 9, 0, 0, 0);
    }
}

#[inline]
pub fn mxcsr() -> u32 {
    let mut v: u32 = 0;
    unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut v, options(nostack)) };
    v
}

#[inline]
pub fn set_mxcsr(v: u32) {
    unsafe { std::arch::asm!("ldmxcsr [{}]", in(reg) &v, options(nostack)) };
}

/// x87 control word.
pub fn fpcw() -> u16 {
    let mut v: u16 = 0;
    unsafe { std::arch::asm!("fnstcw [{}]", in(reg) &mut v, options(nostack)) };
    v
}

pub mod alloc {
    //! Global allocator that can be told to fail: allocations above `HARD_LIMIT` always fail, and
    //! per thread the n-th allocation of at least `min` bytes from now on can be made to fail.
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;

    pub const HARD_LIMIT: usize = 3 << 30;

    thread_local! {
        static MIN: Cell<usize> = const { Cell::new(usize::MAX) };
        static COUNTDOWN: Cell<u32> = const { Cell::new(0) };
        static SEEN: Cell<u32> = const { Cell::new(0) };
        static FAILED: Cell<u32> = const { Cell::new(0) };
        static LARGEST: Cell<usize> = const { Cell::new(0) };
        static LIVE: Cell<isize> = const { Cell::new(0) };
    }

    pub struct Faulty;

    fn refuse(size: usize) -> bool {
        let _ = LARGEST.try_with(|l| l.set(l.get().max(size)));
        if size >= HARD_LIMIT {
            let _ = FAILED.try_with(|f| f.set(f.get() + 1));
            return true;
        }
        MIN.try_with(|m| {
            if size < m.get() {
                return false;
            }
            SEEN.with(|s| s.set(s.get() + 1));
            COUNTDOWN.with(|c| {
                if c.get() == 0 {
                    return false;
                }
                c.set(c.get() - 1);
                if c.get() == 0 {
                    FAILED.with(|f| f.set(f.get() + 1));
                    return true;
                }
                false
            })
        })
        .unwrap_or(false)
    }

    fn account(p: *mut u8, by: isize) -> *mut u8 {
        if !p.is_null() {
            let _ = LIVE.try_with(|l| l.set(l.get() + by));
        }
        p
    }

    unsafe impl GlobalAlloc for Faulty {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if refuse(l.size()) {
                return std::ptr::null_mut();
            }
            account(System.alloc(l), l.size() as isize)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            if refuse(l.size()) {
                return std::ptr::null_mut();
            }
            account(System.alloc_zeroed(l), l.size() as isize)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            if n > l.size() && refuse(n) {
                return std::ptr::null_mut();
            }
            account(System.realloc(p, l, n), n as isize - l.size() as isize)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            account(p, -(l.size() as isize));
            System.dealloc(p, l)
        }
    }

    /// Bytes that `f` leaves allocated on this thread (negative: frees).
    pub fn growth<T>(f: impl FnOnce() -> T) -> (T, isize) {
        let b = LIVE.with(|l| l.get());
        let r = f();
        (r, LIVE.with(|l| l.get()) - b)
    }

    /// Fail the `nth` (1-based, 0 = none) allocation of at least `min` bytes on this thread while
    /// running `f`. Returns f's result, the number of such allocations and how many were refused
    /// (including those above the hard limit).
    pub fn with_fault<T>(min: usize, nth: u32, f: impl FnOnce() -> T) -> (T, u32, u32) {
        struct Off;
        impl Drop for Off {
            fn drop(&mut self) {
                MIN.with(|m| m.set(usize::MAX));
                COUNTDOWN.with(|m| m.set(0));
            }
        }
        SEEN.with(|s| s.set(0));
        FAILED.with(|s| s.set(0));
        MIN.with(|m| m.set(min));
        COUNTDOWN.with(|m| m.set(nth));
        let off = Off;
        let r = f();
        drop(off);
        (r, SEEN.with(|s| s.get()), FAILED.with(|s| s.get()))
    }

    /// Largest allocation request made by this thread while running `f`.
    pub fn largest<T>(f: impl FnOnce() -> T) -> (T, usize) {
        LARGEST.with(|l| l.set(0));
        let r = f();
        (r, LARGEST.with(|l| l.get()))
    }
}
