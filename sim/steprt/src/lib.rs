//! The callbacks of the "stepped" build. That build compiles yason and the simulator with the
//! compiler's coverage callbacks at every basic block, load and store; inside yason these are the
//! steps between which the simulated scheduler can preempt a client. This crate itself is compiled
//! without them, so a callback never calls itself.

use std::cell::Cell;

thread_local! {
    /// the thread is inside a call into yason
    pub static ARMED: Cell<bool> = const { Cell::new(false) };
    /// steps until this client is preempted; 0: not counting
    pub static QUANTUM: Cell<u64> = const { Cell::new(0) };
    /// what to call then (false), and at an access to static memory (true); returns the next quantum,
    /// 0 to go on with the old one
    pub static HOOK: Cell<Option<fn(bool) -> u64>> = const { Cell::new(None) };
    /// bytes copied or compared by the functions below while the thread was inside yason
    pub static MOVED: Cell<u64> = const { Cell::new(0) };
}

#[inline(always)]
fn step() {
    QUANTUM.with(|q| {
        let n = q.get();
        if n > 0 && ARMED.with(|a| a.get()) {
            if n == 1 {
                call(false);
            } else {
                q.set(n - 1);
            }
        }
    })
}

#[inline(never)]
fn call(statics: bool) {
    // not counting while the hook runs
    let old = QUANTUM.with(|q| q.replace(0));
    let new = match HOOK.with(|h| h.get()) {
        Some(h) => h(statics),
        None => 0,
    };
    QUANTUM.with(|q| q.set(if new == 0 { old } else { new }));
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

#[inline(always)]
fn touch(p: *const u8) {
    let (a, z) = (std::ptr::addr_of!(__data_start), std::ptr::addr_of!(_end));
    if p >= a && p < z && QUANTUM.with(|q| q.get()) > 0 && ARMED.with(|a| a.get()) {
        call(true);
    }
    step();
}

macro_rules! traced {
    ($($n:ident),*) => { $(
        #[no_mangle]
        pub extern "C" fn $n(p: *const u8) {
            touch(p);
        }
    )* };
}
traced!(
    __sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8, __sanitizer_cov_load16,
    __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4, __sanitizer_cov_store8, __sanitizer_cov_store16
);
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    step();
}

/// Copying and comparing of memory are single calls, however much they go through: the stepped build
/// counts their bytes.
#[cfg(feature = "mem")]
mod mem {
    use super::{ARMED, MOVED};
    use std::arch::asm;

    #[inline(always)]
    fn count(n: usize) {
        if ARMED.with(|a| a.get()) {
            MOVED.with(|m| m.set(m.get().wrapping_add(n as u64)));
        }
    }

    #[inline(always)]
    unsafe fn forward(d: *mut u8, s: *const u8, n: usize) {
        asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
    }

    #[no_mangle]
    pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        count(n);
        forward(d, s, n);
        d
    }

    #[no_mangle]
    pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        count(n);
        if (d as usize).wrapping_sub(s as usize) >= n {
            forward(d, s, n);
        } else {
            let mut k = n;
            while k >= 8 {
                k -= 8;
                asm!("mov {t}, [{s}]", "mov [{d}], {t}", t = out(reg) _, s = in(reg) s.add(k), d = in(reg) d.add(k), options(nostack, preserves_flags));
            }
            while k > 0 {
                k -= 1;
                asm!("mov {t}, [{s}]", "mov [{d}], {t}", t = out(reg_byte) _, s = in(reg) s.add(k), d = in(reg) d.add(k), options(nostack, preserves_flags));
            }
        }
        d
    }

    #[no_mangle]
    pub unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
        count(n);
        asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") c as u8, options(nostack, preserves_flags));
        d
    }

    #[no_mangle]
    pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        let mut i = 0;
        while i < n {
            let (x, y) = (std::ptr::read_volatile(a.add(i)), std::ptr::read_volatile(b.add(i)));
            i += 1;
            if x != y {
                count(i);
                return x as i32 - y as i32;
            }
        }
        count(n);
        0
    }

    #[no_mangle]
    pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        memcmp(a, b, n)
    }
}
