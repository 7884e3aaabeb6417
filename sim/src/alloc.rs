//! The simulated allocator. It is the process's global allocator; it behaves like the system one
//! except while a thread is "armed", i.e. inside a call into yason. Then it
//!  * fails allocations according to the thread's fault plan,
//!  * fills fresh memory with seeded garbage and scribbles over freed memory, so stale memory shows,
//!  * always moves on realloc,
//!  * places byte buffers (align 1) at seeded odd addresses,
//!  * is a yield point of the simulated scheduler.
//!
//! With the ledger on (C19) it also keeps books: what was taken while armed and is not given back,
//! whether every block comes back once and with the layout it was taken with, whether the bytes
//! around a block are as they were, and whether a block given back is left alone.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};

pub struct SimAlloc;

/// When to fail allocations, counted from the moment the plan is armed.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Plan {
    None,
    /// Fail allocations number `from .. from+len`.
    Window { from: u32, len: u32 },
    /// Fail allocations of at least that many bytes.
    AtLeast(usize),
    /// Fail once this many bytes have been handed out.
    Budget(usize),
}

struct Tls {
    plan: Cell<Plan>,
    seen: Cell<u32>,
    bytes: Cell<usize>,
    fired: Cell<u32>,
    garbage: Cell<u64>,
    skew: Cell<u64>,
    hook: Cell<Option<fn()>>,
    on: Cell<bool>,
    live: Cell<i64>,
    live_bytes: Cell<i64>,
    churn: Cell<u64>,
    wrong: Cell<Option<Wrong>>,
    shelf: Cell<*mut Shelf>,
}

/// What the ledger can find wrong with a block, and the block's size.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Wrong {
    /// bytes before or behind the block were written
    Overrun(usize),
    /// given back more than once
    Twice(usize),
    /// given back with another size or alignment: (as taken, as given back)
    Layout(usize, usize),
    /// written after it was given back
    AfterFree(usize),
}

/// Blocks given back and not yet handed on to the system.
struct Shelf {
    at: usize,
    slots: [(*mut u8, u8); 128],
}

thread_local! {
    static T: Tls = const { Tls {
        plan: Cell::new(Plan::None),
        seen: Cell::new(0),
        bytes: Cell::new(0),
        fired: Cell::new(0),
        garbage: Cell::new(0x1234_5678_9abc_def1),
        skew: Cell::new(1),
        hook: Cell::new(None),
        on: Cell::new(false),
        live: Cell::new(0),
        live_bytes: Cell::new(0),
        churn: Cell::new(0),
        wrong: Cell::new(None),
        shelf: Cell::new(std::ptr::null_mut()),
    } };
}

pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static FAILED: AtomicU64 = AtomicU64::new(0);

/// Requests above this size always fail while armed ("the machine has only so much memory").
const HARD_CAP: usize = 6 << 30;

pub fn set_env(garbage: u64, skew: u64) {
    T.with(|t| {
        t.garbage.set(garbage | 1);
        t.skew.set(skew);
    })
}

pub fn set_hook(h: Option<fn()>) {
    T.with(|t| t.hook.set(h))
}

pub fn arm(plan: Plan) {
    T.with(|t| {
        t.plan.set(plan);
        t.seen.set(0);
        t.bytes.set(0);
        t.fired.set(0);
        set_armed(true);
    })
}

/// Disarms and returns (allocations seen, allocations failed).
pub fn disarm() -> (u32, u32) {
    T.with(|t| {
        set_armed(false);
        (t.seen.get(), t.fired.get())
    })
}

#[inline(always)]
fn set_armed(x: bool) -> bool {
    steprt::ARMED.with(|a| a.replace(x))
}

/// Is this thread inside yason?
#[inline(always)]
pub fn armed() -> bool {
    steprt::ARMED.with(|a| a.get())
}

/// Bytes asked for since it was armed.
pub fn asked() -> usize {
    T.with(|t| t.bytes.get())
}

pub fn fired() -> u32 {
    T.with(|t| t.fired.get())
}

/// Runs harness code that is called back from inside yason (writers, conversions) unarmed.
pub fn unarmed<R>(f: impl FnOnce() -> R) -> R {
    let was = set_armed(false);
    let r = f();
    set_armed(was);
    r
}

pub fn pause() -> bool {
    set_armed(false)
}

pub fn resume(was: bool) {
    set_armed(was);
}

/// Decides whether this allocation succeeds. Some(true): armed and succeeds.
fn decide(size: usize) -> Option<bool> {
    T.try_with(|t| {
        if !armed() {
            return None;
        }
        if let Some(h) = t.hook.get() {
            set_armed(false);
            h();
            set_armed(true);
        }
        ALLOCS.fetch_add(1, Ordering::Relaxed);
        let i = t.seen.get();
        t.seen.set(i.saturating_add(1));
        t.bytes.set(t.bytes.get().saturating_add(size));
        let fail = size > HARD_CAP
            || match t.plan.get() {
                Plan::None => false,
                Plan::Window { from, len } => i >= from && i - from < len,
                Plan::AtLeast(n) => size >= n,
                Plan::Budget(n) => t.bytes.get() > n,
            };
        if fail {
            t.fired.set(t.fired.get().saturating_add(1));
            FAILED.fetch_add(1, Ordering::Relaxed);
        }
        Some(!fail)
    })
    .unwrap_or(None)
}

fn rnd() -> u64 {
    T.try_with(|t| {
        let mut x = t.garbage.get();
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        t.garbage.set(x);
        x
    })
    .unwrap_or(1)
}

unsafe fn garbage(p: *mut u8, n: usize) {
    const EDGE: usize = 64 * 1024;
    if n > 4 * EDGE {
        garbage(p, EDGE);
        garbage(p.add(n - EDGE), EDGE);
        return;
    }
    let mut i = 0;
    while i < n {
        let b = rnd().to_le_bytes();
        let m = (n - i).min(8);
        std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(i), m);
        i += m;
    }
}

unsafe fn scribble(p: *mut u8, n: usize) {
    let v = 0xd0 | (rnd() as u8 & 0xf);
    std::ptr::write_bytes(p, v, n.min(256 * 1024));
}

/// Turns the books of this thread on or off.
pub fn ledger(on: bool) {
    T.with(|t| unsafe {
        t.on.set(on);
        t.wrong.set(None);
        if on && t.shelf.get().is_null() {
            t.shelf.set(System.alloc_zeroed(Layout::new::<Shelf>()).cast());
        }
        let s = t.shelf.get();
        if !on && !s.is_null() {
            for i in 0..(*s).slots.len() {
                leave(t, s, i);
            }
            System.dealloc(s.cast(), Layout::new::<Shelf>());
            t.shelf.set(std::ptr::null_mut());
        }
    })
}

pub fn ledger_on() -> bool {
    T.with(|t| t.on.get())
}

/// Blocks and bytes taken inside yason by this thread and not given back.
pub fn held() -> (i64, i64) {
    T.with(|t| (t.live.get(), t.live_bytes.get()))
}

/// A measure of all the work with memory done with the ledger on, yason's or not.
pub fn churn() -> u64 {
    T.with(|t| t.churn.get())
}

/// The first thing found wrong since the last look. Blocks on the shelf are looked at, too.
pub fn wrong() -> Option<Wrong> {
    T.with(|t| unsafe {
        let s = t.shelf.get();
        if !s.is_null() {
            for (p, v) in (*s).slots {
                untouched(t, p, v);
            }
        }
        t.wrong.take()
    })
}

fn report(w: Wrong) {
    let _ = T.try_with(|t| {
        if t.on.get() && t.wrong.get().is_none() {
            t.wrong.set(Some(w));
        }
    });
}

// Every block up to this alignment lies behind a head: 0..8 its size, 8..10 the room behind it,
// 10 flags, 11 its alignment, 12..15 whether it is in use, and the byte right before it the
// distance from the head's start.
const ALIGN: usize = 16;
const HEAD: usize = 16;
const SKEW: usize = 24;
const ROOM: usize = 8;
const GUARD_ROOM: usize = 1024;
const GUARDED: u8 = 1;
const COUNTED: u8 = 2;
const LIVE: [u8; 3] = [0xa1, 0x5e, 0x0d];
const FREED: [u8; 3] = [0xde, 0xad, 0x0f];
const FENCE: u8 = 0xc5;

#[derive(Clone, Copy)]
struct Head {
    base: *mut u8,
    size: usize,
    room: usize,
    flags: u8,
    align: usize,
    state: [u8; 3],
}

impl Head {
    unsafe fn of(p: *mut u8) -> Option<Head> {
        let off = *p.sub(1) as usize;
        if !(HEAD..=HEAD + SKEW).contains(&off) {
            return None;
        }
        Some(Head::at(p.sub(off)))
    }
    unsafe fn at(base: *mut u8) -> Head {
        Head {
            base,
            size: base.cast::<u64>().read_unaligned() as usize,
            room: base.add(8).cast::<u16>().read_unaligned() as usize,
            flags: *base.add(10),
            align: *base.add(11) as usize,
            state: *base.add(12).cast::<[u8; 3]>(),
        }
    }
    fn layout(&self) -> Layout {
        unsafe { Layout::from_size_align_unchecked(HEAD + SKEW + self.size + self.room, ALIGN) }
    }
    unsafe fn put(&self, p: *mut u8) {
        let b = self.base;
        b.cast::<u64>().write_unaligned(self.size as u64);
        b.add(8).cast::<u16>().write_unaligned(self.room as u16);
        *b.add(10) = self.flags;
        *b.add(11) = self.align as u8;
        *b.add(12).cast::<[u8; 3]>() = self.state;
        *p.sub(1) = p.offset_from(b) as u8;
    }
    /// The bytes around the block that are nobody's.
    unsafe fn fences(&self, p: *mut u8) -> [(*mut u8, usize); 2] {
        let off = p.offset_from(self.base) as usize;
        let front = if off > HEAD { off - 1 - HEAD } else { 0 };
        [(self.base.add(HEAD), front), (p.add(self.size), self.room)]
    }
}

unsafe fn all(p: *const u8, n: usize, v: u8) -> bool {
    let s = std::slice::from_raw_parts(p, n);
    n == 0 || s[0] == v && s[1..] == s[..n - 1]
}

unsafe fn raw_alloc(l: Layout, armed: bool, zero: bool) -> *mut u8 {
    if l.align() > ALIGN {
        return if zero { System.alloc_zeroed(l) } else { System.alloc(l) };
    }
    let on = T.try_with(|t| t.on.get()).unwrap_or(false);
    let room = if on { GUARD_ROOM } else { ROOM };
    let Some(big) = l.size().checked_add(HEAD + SKEW + room) else { return std::ptr::null_mut() };
    let Ok(bl) = Layout::from_size_align(big, ALIGN) else { return std::ptr::null_mut() };
    let base = if zero { System.alloc_zeroed(bl) } else { System.alloc(bl) };
    if base.is_null() {
        return base;
    }
    let skew = match T.try_with(|t| t.skew.get()).unwrap_or(0) {
        // skew 0: aligned like malloc; otherwise cycle through odd placements
        s if armed && l.align() == 1 && s != 0 => 1 + ((rnd() ^ s) % SKEW as u64) as usize,
        _ => 0,
    };
    let p = base.add(HEAD + skew);
    let mut flags = 0;
    if on {
        let _ = T.try_with(|t| t.churn.set(t.churn.get() + 1 + l.size() as u64 / 256));
        flags |= GUARDED;
    }
    if on && armed {
        flags |= COUNTED;
        let _ = T.try_with(|t| {
            t.live.set(t.live.get() + 1);
            t.live_bytes.set(t.live_bytes.get() + l.size() as i64);
        });
    }
    let h = Head { base, size: l.size(), room, flags, align: l.align(), state: LIVE };
    h.put(p);
    if on {
        for (q, n) in h.fences(p) {
            std::ptr::write_bytes(q, FENCE, n);
        }
    }
    p
}

unsafe fn raw_free(p: *mut u8, l: Layout) {
    if l.align() > ALIGN {
        return System.dealloc(p, l);
    }
    let on = T.try_with(|t| t.on.get()).unwrap_or(false);
    let h = match Head::of(p) {
        Some(h) if h.state == LIVE => h,
        // no telling what it is: it stays where it is
        Some(h) if on => return report(if h.state == FREED { Wrong::Twice(l.size()) } else { Wrong::Overrun(l.size()) }),
        None if on => return report(Wrong::Overrun(l.size())),
        Some(h) => h,
        None => std::process::abort(),
    };
    if h.size != l.size() || h.align != l.align() {
        report(Wrong::Layout(h.size, l.size()));
    }
    if h.flags & GUARDED != 0 && h.fences(p).iter().any(|(q, n)| !all(*q, *n, FENCE)) {
        report(Wrong::Overrun(h.size));
    }
    if h.flags & COUNTED != 0 {
        let _ = T.try_with(|t| {
            t.live.set(t.live.get() - 1);
            t.live_bytes.set(t.live_bytes.get() - h.size as i64);
        });
    }
    if on && h.size <= 64 * 1024 {
        let v = 0xd0 | (rnd() as u8 & 0xf);
        std::ptr::write_bytes(p, v, h.size);
        *h.base.add(12).cast::<[u8; 3]>() = FREED;
        let kept = T.try_with(|t| {
            let s = t.shelf.get();
            if s.is_null() {
                return false;
            }
            let i = (*s).at;
            (*s).at = (i + 1) % (*s).slots.len();
            leave(t, s, i);
            (*s).slots[i] = (p, v);
            true
        });
        if kept == Ok(true) {
            return;
        }
    }
    // a later look at it finds that it is gone
    *h.base.add(12).cast::<[u8; 3]>() = FREED;
    System.dealloc(h.base, h.layout());
}

unsafe fn untouched(t: &Tls, p: *mut u8, v: u8) {
    if p.is_null() {
        return;
    }
    match Head::of(p) {
        Some(h) if h.state == FREED => {
            if (!all(p, h.size, v) || h.fences(p).iter().any(|(q, n)| !all(*q, *n, FENCE))) && t.wrong.get().is_none() {
                t.wrong.set(Some(Wrong::AfterFree(h.size)));
            }
        }
        _ => t.wrong.set(t.wrong.get().or(Some(Wrong::AfterFree(0)))),
    }
}

/// Hands the block in slot `i` on to the system.
unsafe fn leave(t: &Tls, s: *mut Shelf, i: usize) {
    let (p, v) = (*s).slots[i];
    if p.is_null() {
        return;
    }
    (*s).slots[i] = (std::ptr::null_mut(), 0);
    untouched(t, p, v);
    if let Some(h) = Head::of(p) {
        if h.state == FREED {
            System.dealloc(h.base, h.layout());
        }
    }
}

/// The allocator's own work is none of yason's.
struct Uncounted(u64, u64);
impl Uncounted {
    #[inline(always)]
    fn start() -> Self {
        Uncounted(steprt::QUANTUM.with(|q| q.replace(0)), steprt::MOVED.with(|m| m.get()))
    }
}
impl Drop for Uncounted {
    #[inline(always)]
    fn drop(&mut self) {
        steprt::MOVED.with(|m| m.set(self.1));
        steprt::QUANTUM.with(|q| q.set(self.0));
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _u = Uncounted::start();
        match decide(l.size()) {
            Some(false) => std::ptr::null_mut(),
            d => {
                let p = raw_alloc(l, d.is_some(), false);
                if d.is_some() && !p.is_null() {
                    garbage(p, l.size());
                }
                p
            }
        }
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _u = Uncounted::start();
        match decide(l.size()) {
            Some(false) => std::ptr::null_mut(),
            d => raw_alloc(l, d.is_some(), true),
        }
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _u = Uncounted::start();
        let armed = armed();
        if armed {
            scribble(p, l.size());
        }
        raw_free(p, l)
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let _u = Uncounted::start();
        match decide(new) {
            Some(false) => std::ptr::null_mut(),
            d => {
                let Ok(nl) = Layout::from_size_align(new, l.align()) else { return std::ptr::null_mut() };
                if d.is_none() && l.align() > ALIGN {
                    return System.realloc(p, l, new);
                }
                if d.is_none() {
                    if let Some(h) = Head::of(p) {
                        if h.state == LIVE && h.flags == 0 && h.size == l.size() && !T.try_with(|t| t.on.get()).unwrap_or(false) {
                            let off = p.offset_from(h.base) as usize;
                            let Some(big) = new.checked_add(HEAD + SKEW + h.room) else { return std::ptr::null_mut() };
                            let base = System.realloc(h.base, h.layout(), big);
                            if base.is_null() {
                                return base;
                            }
                            let q = base.add(off);
                            Head { base, size: new, ..h }.put(q);
                            return q;
                        }
                    }
                }
                let q = raw_alloc(nl, d.is_some(), false);
                if !q.is_null() {
                    let keep = l.size().min(new);
                    std::ptr::copy_nonoverlapping(p, q, keep);
                    if d.is_some() {
                        garbage(q.add(keep), new - keep);
                        scribble(p, l.size());
                    }
                    raw_free(p, l);
                }
                q
            }
        }
    }
}
