//! The simulated outside world: writers that fail, a disk that crashes, a link that loses frames.

use crate::alloc::unarmed;
use crate::ctx::{Ctx, INJECTED};
use crate::sched;
use std::collections::BinaryHeap;
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum WFault {
    None,
    /// accepts this many bytes in total, then fails for good; `partial`: the failing call still
    /// takes what fits
    AtByte { at: usize, partial: bool },
    /// fails from call number `at` on
    AtCall { at: usize },
    /// fails call number `at` only
    OnceAtCall { at: usize },
    /// unwinds at call number `at`
    PanicAtCall { at: usize },
}

/// A writer under the simulator's control.
pub struct SimWriter {
    pub out: String,
    pub fault: WFault,
    pub calls: usize,
    /// how often it failed a call
    pub failed: usize,
    /// calls it got after it had failed one
    pub after: usize,
    /// what to run (unarmed) before each call: re-entrant use of yason by the caller
    pub reenter: Option<Box<dyn FnMut()>>,
    pub yields: bool,
    /// it was handed something that is not a string
    pub torn: bool,
}

impl SimWriter {
    pub fn new(fault: WFault, capacity: usize) -> Self {
        SimWriter {
            out: String::with_capacity(capacity),
            fault,
            calls: 0,
            failed: 0,
            after: 0,
            reenter: None,
            yields: false,
            torn: false,
        }
    }
}

impl fmt::Write for SimWriter {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        unarmed(|| {
            if self.yields {
                sched::yield_point();
            }
            if let Some(f) = &mut self.reenter {
                f();
            }
            let call = self.calls;
            self.calls += 1;
            if std::str::from_utf8(s.as_bytes()).is_err() {
                // a &str that is none: a real writer may do anything with it
                self.torn = true;
                return Err(fmt::Error);
            }
            if self.failed > 0 {
                self.after += 1;
            }
            let fail = match self.fault {
                WFault::None => false,
                WFault::AtByte { at, partial } => {
                    if self.out.len() + s.len() > at {
                        if partial && self.failed == 0 {
                            let mut n = at - self.out.len();
                            while !s.is_char_boundary(n) {
                                n -= 1;
                            }
                            self.out.push_str(&s[..n]);
                        }
                        true
                    } else {
                        self.failed > 0
                    }
                }
                WFault::AtCall { at } => call >= at,
                WFault::OnceAtCall { at } => call == at,
                WFault::PanicAtCall { at } => {
                    if call == at {
                        self.failed += 1;
                        panic!("{}", INJECTED);
                    }
                    false
                }
            };
            if fail {
                self.failed += 1;
                return Err(fmt::Error);
            }
            self.out.push_str(s);
            Ok(())
        })
    }
}

pub fn draw_wfault(ctx: &mut Ctx, text_len: usize) -> WFault {
    let n = text_len as u64;
    match ctx.f(6) {
        0 => WFault::AtByte { at: ctx.f(n + 1) as usize, partial: false },
        1 => WFault::AtByte { at: ctx.f(n + 1) as usize, partial: true },
        // near the end
        2 => WFault::AtByte { at: text_len.saturating_sub(1 + ctx.f(4) as usize), partial: ctx.f(2) == 1 },
        3 => WFault::AtCall { at: ctx.f(n.min(200) + 1) as usize },
        4 => WFault::OnceAtCall { at: ctx.f(n.min(200) + 1) as usize },
        _ => WFault::OnceAtCall { at: ctx.f(6) as usize },
    }
}

// ------------------------------------------------------------------------------------------------

pub fn checksum(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// A simulated append-only file. Only what was synced is sure to survive a crash; of the rest the
/// disk keeps a prefix of its choice.
#[derive(Default)]
pub struct SimDisk {
    data: Vec<u8>,
    synced: usize,
    pub crashes: u64,
    pub torn: u64,
}

impl SimDisk {
    /// Appends one record: length, checksum, payload. Returns false when the disk is full.
    pub fn append(&mut self, payload: &[u8], limit: usize) -> bool {
        if self.data.len() + 12 + payload.len() > limit {
            // short write: as much as fits is there
            let mut rec = (payload.len() as u32).to_le_bytes().to_vec();
            rec.extend_from_slice(&checksum(payload).to_le_bytes());
            rec.extend_from_slice(payload);
            let room = limit.saturating_sub(self.data.len());
            self.data.extend_from_slice(&rec[..room.min(rec.len())]);
            return false;
        }
        self.data.extend_from_slice(&(payload.len() as u32).to_le_bytes());
        self.data.extend_from_slice(&checksum(payload).to_le_bytes());
        self.data.extend_from_slice(payload);
        true
    }
    pub fn sync(&mut self) {
        self.synced = self.data.len();
    }
    pub fn len(&self) -> usize {
        self.data.len()
    }
    pub fn synced_len(&self) -> usize {
        self.synced
    }
    /// Truncates a torn tail, as recovery does before appending again.
    pub fn truncate(&mut self, n: usize) {
        self.data.truncate(n);
        self.synced = self.synced.min(n);
    }
    pub fn crash(&mut self, ctx: &mut Ctx) {
        let lost = self.data.len() - self.synced;
        let keep = if lost == 0 { 0 } else { ctx.f(lost as u64 + 1) as usize };
        self.data.truncate(self.synced + keep);
        self.crashes += 1;
        ctx.fault("crash");
        if keep < lost && keep > 0 {
            self.torn += 1;
            ctx.fault("torn-write");
        } else if keep < lost {
            ctx.fault("lost-write");
        }
    }
    /// The records that are whole, with their payload ranges, and where the first bad one starts.
    pub fn scan(&self) -> (Vec<std::ops::Range<usize>>, usize) {
        let mut v = Vec::new();
        let mut p = 0;
        while p + 12 <= self.data.len() {
            let n = u32::from_le_bytes(self.data[p..p + 4].try_into().unwrap()) as usize;
            let c = u64::from_le_bytes(self.data[p + 4..p + 12].try_into().unwrap());
            let s = p + 12;
            if s + n > self.data.len() || checksum(&self.data[s..s + n]) != c {
                break;
            }
            v.push(s..s + n);
            p = s + n;
        }
        (v, p)
    }
    pub fn bytes(&self) -> &[u8] {
        &self.data
    }
}

/// Memory at a chosen distance from a 64-byte boundary, filled with garbage around the payload.
pub struct Placed {
    mem: Vec<u64>,
    at: usize,
    len: usize,
}

impl Placed {
    pub fn new(payload: &[u8], skew: usize, garbage: u64) -> Self {
        let words = (payload.len() + skew + 256) / 8 + 1;
        let mut r = crate::tape::Rng::new(garbage);
        let mut mem: Vec<u64> = (0..words).map(|_| r.next()).collect();
        let base = mem.as_ptr() as usize;
        let at = (64 - base % 64) % 64 + skew;
        let bytes = unsafe { std::slice::from_raw_parts_mut(mem.as_mut_ptr() as *mut u8, words * 8) };
        bytes[at..at + payload.len()].copy_from_slice(payload);
        Placed { mem, at, len: payload.len() }
    }
    pub fn bytes(&self) -> &[u8] {
        let all = unsafe { std::slice::from_raw_parts(self.mem.as_ptr() as *const u8, self.mem.len() * 8) };
        &all[self.at..self.at + self.len]
    }
    /// Puts something else in the same place, as a buffer pool does; false if it does not fit.
    pub fn reload(&mut self, payload: &[u8]) -> bool {
        let words = self.mem.len();
        if self.at + payload.len() > words * 8 {
            return false;
        }
        let all = unsafe { std::slice::from_raw_parts_mut(self.mem.as_mut_ptr() as *mut u8, words * 8) };
        all[self.at..self.at + payload.len()].copy_from_slice(payload);
        self.len = payload.len();
        true
    }
}

/// Memory whose first or last byte is next to a page that cannot be touched: reading outside the
/// payload on that side ends the process.
pub struct Guarded {
    base: *mut u8,
    pages: usize,
    at: usize,
    len: usize,
}

impl Guarded {
    pub fn new(payload: &[u8], at_end: bool) -> Option<Self> {
        let pages = payload.len() / 4096 + 1;
        let base = crate::sysfake::guarded_pages(pages)?;
        let at = if at_end { pages * 4096 - payload.len() } else { 0 };
        let all = unsafe { std::slice::from_raw_parts_mut(base, pages * 4096) };
        all.fill(0xd7);
        all[at..at + payload.len()].copy_from_slice(payload);
        Some(Guarded { base, pages, at, len: payload.len() })
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.base.add(self.at), self.len) }
    }
}

impl Drop for Guarded {
    fn drop(&mut self) {
        crate::sysfake::unmap_guarded(self.base, self.pages);
    }
}

/// Somewhere to load a document at.
pub enum Place {
    Among(Placed),
    Edge(Guarded),
}

impl Place {
    /// Between garbage at a seeded address, or at the edge of accessible memory.
    pub fn draw(ctx: &mut Ctx, payload: &[u8]) -> Self {
        let at = ctx.f(64 + 12);
        let junk = ctx.f(1 << 32);
        if at >= 64 {
            if let Some(g) = Guarded::new(payload, at % 3 != 0) {
                ctx.fault("edge-of-memory");
                return Place::Edge(g);
            }
        }
        ctx.fault("odd-placement");
        Place::Among(Placed::new(payload, at as usize, junk))
    }
    pub fn bytes(&self) -> &[u8] {
        match self {
            Place::Among(p) => p.bytes(),
            Place::Edge(g) => g.bytes(),
        }
    }
}

// ------------------------------------------------------------------------------------------------

/// One frame on the wire.
#[derive(Clone, PartialEq, Eq)]
pub struct Frame {
    pub at: u64,
    pub order: u64,
    pub seq: u64,
    pub body: Vec<u8>,
    pub damaged: bool,
}
impl Ord for Frame {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.at, o.order).cmp(&(self.at, self.order))
    }
}
impl PartialOrd for Frame {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}

/// A simulated link: drops, duplicates, delays, reorders and truncates frames on a discrete-event
/// clock.
pub struct SimLink {
    q: BinaryHeap<Frame>,
    pub now: u64,
    order: u64,
    pub healthy: bool,
    pub truncates: bool,
}

impl SimLink {
    pub fn new(truncates: bool) -> Self {
        SimLink { q: BinaryHeap::new(), now: 0, order: 0, healthy: false, truncates }
    }
    pub fn send(&mut self, ctx: &mut Ctx, seq: u64, body: &[u8]) {
        let mut copies = 1;
        if !self.healthy {
            match ctx.f(8) {
                6 => {
                    ctx.fault("frame-lost");
                    ctx.ev(format!("frame {seq} lost"));
                    return;
                }
                7 => {
                    ctx.fault("frame-duplicated");
                    copies = 2;
                }
                _ => {}
            }
        }
        for _ in 0..copies {
            let mut f = Frame { at: self.now + 1, order: self.order, seq, body: body.to_vec(), damaged: false };
            self.order += 1;
            if !self.healthy {
                let d = [0u64, 1, 2, 5, 20, 100][ctx.f(6) as usize];
                if d > 1 {
                    ctx.fault("frame-delayed");
                }
                f.at += d;
                if self.truncates && ctx.fchance(5) {
                    let n = ctx.f(f.body.len() as u64) as usize;
                    f.body.truncate(n);
                    f.damaged = true;
                    ctx.fault("frame-truncated");
                }
            }
            self.q.push(f);
        }
    }
    /// The next frame to arrive; the clock jumps to its time.
    pub fn recv(&mut self) -> Option<Frame> {
        let f = self.q.pop()?;
        self.now = self.now.max(f.at);
        Some(f)
    }
    pub fn drop_all(&mut self) {
        self.q.clear();
    }
}
