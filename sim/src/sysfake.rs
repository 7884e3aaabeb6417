//! Clock and entropy of the simulated process. The symbols below take precedence over libc's, so
//! any clock or randomness that code in this process asks for is a function of the seed. Yason asks
//! for neither today; the seam is there so that a change that starts to is still replayed exactly.

use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

pub static ENTROPY: AtomicU64 = AtomicU64::new(0x5eed);
pub static CLOCK_NS: AtomicU64 = AtomicU64::new(1_000_000_000);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
pub static ENTROPY_READS: AtomicU64 = AtomicU64::new(0);
/// Set in the coordinator, which needs the real clock for its watchdogs and rates.
pub static REAL: AtomicBool = AtomicBool::new(true);

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

unsafe fn raw(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
        in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

/// Takes the place of libc's function, through which Rust's locks, once cells, condition variables and
/// parked threads wait. A simulated client that has to wait lets the others go on instead; if nobody
/// can, that is a deadlock and ends the process.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    const FUTEX: i64 = 202;
    if n == FUTEX {
        match b & 127 {
            // FUTEX_WAIT, FUTEX_WAIT_BITSET
            0 | 9 => {
                // one step, as in the kernel: no client runs between the look at the word and the wait
                let was = crate::alloc::pause();
                let word = &*(a as *const std::sync::atomic::AtomicU32);
                let (others, wait) = (crate::sched::simulated(), word.load(Ordering::SeqCst) == c as u32);
                // a wait with a deadline: time passes while the others go on
                let timed = wait && d != 0;
                if others && timed {
                    crate::sched::yield_point();
                } else if others && wait {
                    crate::sched::wait_for_others();
                }
                if was && wait && !others && !timed {
                    // the only user there is waits inside yason
                    std::process::abort();
                }
                crate::alloc::resume(was);
                if others {
                    if wait && !timed {
                        return 0;
                    }
                    // ETIMEDOUT, EAGAIN
                    *__errno_location() = if timed { 110 } else { 11 };
                    return -1;
                }
            }
            // FUTEX_WAKE and others
            _ => crate::sched::progress(),
        }
    }
    let r = raw(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    if REAL.load(Ordering::Relaxed) {
        return raw(228, id as u64, ts as u64, 0, 0, 0, 0) as i32;
    }
    CLOCK_READS.fetch_add(1, Ordering::Relaxed);
    // advances by a seeded, sometimes large step on every reading
    let e = ENTROPY.load(Ordering::Relaxed);
    let now = CLOCK_NS.fetch_add(1_000 + (e >> 40), Ordering::Relaxed);
    (*ts).sec = (now / 1_000_000_000) as i64;
    (*ts).nsec = (now % 1_000_000_000) as i64;
    0
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    ENTROPY_READS.fetch_add(1, Ordering::Relaxed);
    for i in 0..len {
        let x = ENTROPY.fetch_add(0x9e37_79b9_7f4a_7c15, Ordering::Relaxed);
        *buf.add(i) = (x >> 33) as u8;
    }
    len as isize
}

pub fn seed(s: u64) {
    ENTROPY.store(s, Ordering::Relaxed);
    CLOCK_NS.store(1_000_000_000 + (s % 1_000_000_007) * 1_000_003, Ordering::Relaxed);
}

/// The real monotonic clock, for the harness's own deadlines; never visible to simulated code.
pub fn real_ns() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { raw(228, 1, &mut t as *mut Timespec as u64, 0, 0, 0, 0) };
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(what: i32, l: *const RLimit) -> i32;
}

/// Bounds the address space of this process.
pub fn limit_memory(bytes: u64) {
    let l = RLimit { cur: bytes, max: bytes };
    // 9: RLIMIT_AS, 4: RLIMIT_CORE
    unsafe {
        setrlimit(9, &l);
        setrlimit(4, &RLimit { cur: 0, max: 0 });
    }
}

/// Keeps this process on the `k`-th of the processors it may use: its clients run one at a time
/// anyway, and handing the baton over is much cheaper on one processor. Without effect on failure.
pub fn pin(k: u64) {
    let mut mask = [0u64; 16];
    let size = std::mem::size_of_val(&mask);
    unsafe {
        if raw(204, 0, size as u64, mask.as_mut_ptr() as u64, 0, 0, 0) <= 0 {
            return;
        }
        let all: Vec<usize> = (0..1024).filter(|&i| mask[i / 64] >> (i % 64) & 1 == 1).collect();
        if all.is_empty() {
            return;
        }
        let cpu = all[k as usize % all.len()];
        let mut one = [0u64; 16];
        one[cpu / 64] = 1 << (cpu % 64);
        raw(203, 0, size as u64, one.as_ptr() as u64, 0, 0, 0);
    }
}

/// No address space randomisation in the program this process is about to become. Without effect on
/// failure.
pub fn fixed_addresses() {
    unsafe {
        raw(135, 0x004_0000, 0, 0, 0, 0, 0);
    }
}

/// `pages` usable pages between two that cannot be touched.
pub fn guarded_pages(pages: usize) -> Option<*mut u8> {
    const P: usize = 4096;
    unsafe {
        // PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS
        let all = raw(9, 0, ((pages + 2) * P) as u64, 0, 0x22, u64::MAX, 0);
        if all <= 0 {
            return None;
        }
        let mid = all as usize + P;
        if raw(10, mid as u64, (pages * P) as u64, 3, 0, 0, 0) != 0 {
            return None;
        }
        Some(mid as *mut u8)
    }
}

pub fn unmap_guarded(p: *mut u8, pages: usize) {
    unsafe {
        raw(11, p as u64 - 4096, ((pages + 2) * 4096) as u64, 0, 0, 0, 0);
    }
}
