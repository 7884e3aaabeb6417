//! One simulated run: its tapes, its event log, its counters, and guarded calls into yason.

use crate::alloc::{self, Plan};
use crate::tape::{mix, Stream};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug, Clone)]
pub struct Viol {
    /// Short class: shrinking keeps the class.
    pub class: String,
    pub msg: String,
}

pub type R<T = ()> = Result<T, Viol>;

pub fn viol<T>(class: &str, msg: impl Into<String>) -> R<T> {
    Err(Viol { class: class.to_string(), msg: msg.into() })
}

/// A step the scenario needs but does not judge failed: the run is not counted.
pub fn skip<E: std::fmt::Debug>(e: E) -> Viol {
    Viol { class: "skip".to_string(), msg: format!("{e:?}") }
}

pub struct Log {
    pub hash: u64,
    pub count: u64,
    pub text: Option<Vec<String>>,
}

impl Log {
    pub fn new(verbose: bool) -> Self {
        Log { hash: 0xcbf2_9ce4_8422_2325, count: 0, text: if verbose { Some(Vec::new()) } else { None } }
    }
    pub fn push(&mut self, s: &str) {
        for b in s.bytes() {
            self.hash = (self.hash ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        self.hash = (self.hash ^ 0xa).wrapping_mul(0x100_0000_01b3);
        self.count += 1;
        if let Some(t) = &mut self.text {
            t.push(s.to_string());
        }
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    /// fault kind -> how often it actually fired
    pub faults: BTreeMap<&'static str, u64>,
    /// rare condition -> how often it was reached
    pub probes: BTreeMap<&'static str, u64>,
    pub sut_calls: u64,
}

pub struct Ctx {
    pub ops: Stream,
    pub flt: Stream,
    pub sched: Option<Stream>,
    /// streams of simulated clients, (ops, flt) pairs; filled by scenarios that run clients
    pub sub: Vec<(Stream, Stream)>,
    /// client tapes given to a replayed run
    pub sub_in: Vec<Vec<u64>>,
    pub gen_seed: Option<u64>,
    pub log: Log,
    pub stats: Stats,
    pub env: u64,
    pub quick: bool,
    pub idx: u64,
}

pub const CHECKED: bool = cfg!(debug_assertions);

impl Ctx {
    pub fn generate(seed: u64, verbose: bool, idx: u64, quick: bool) -> Self {
        Ctx {
            ops: Stream::gen(mix(seed, 1), 0),
            flt: Stream::gen(mix(seed, 2), 1),
            sched: Some(Stream::gen(mix(seed, 3), 2)),
            sub: Vec::new(),
            sub_in: Vec::new(),
            gen_seed: Some(seed),
            log: Log::new(verbose),
            stats: Stats::default(),
            env: mix(seed, 4),
            quick,
            idx,
        }
    }

    pub fn replay(tapes: Vec<Vec<u64>>, env: u64, verbose: bool, idx: u64, quick: bool) -> Self {
        let mut it = tapes.into_iter();
        let mut nxt = || it.next().unwrap_or_default();
        let (a, b, c) = (nxt(), nxt(), nxt());
        Ctx {
            ops: Stream::replay(a, 0),
            flt: Stream::replay(b, 1),
            sched: Some(Stream::replay(c, 2)),
            sub: Vec::new(),
            sub_in: it.collect(),
            gen_seed: None,
            log: Log::new(verbose),
            stats: Stats::default(),
            env,
            quick,
            idx,
        }
    }

    pub fn tapes(&self) -> Vec<Vec<u64>> {
        let mut v = vec![
            self.ops.recorded().to_vec(),
            self.flt.recorded().to_vec(),
            self.sched.as_ref().map(|s| s.recorded().to_vec()).unwrap_or_default(),
        ];
        for (a, b) in &self.sub {
            v.push(a.recorded().to_vec());
            v.push(b.recorded().to_vec());
        }
        v
    }

    /// Makes the same choices again from the start.
    pub fn rewind(&mut self) {
        self.ops.rewind();
        self.flt.rewind();
    }

    /// Streams of simulated client `i`.
    pub fn client_streams(&self, i: usize) -> (Stream, Stream) {
        let (a, b) = (3 + 2 * i as u64, 4 + 2 * i as u64);
        match self.gen_seed {
            Some(s) => (Stream::gen(mix(s, 100 + 2 * i as u64), a), Stream::gen(mix(s, 101 + 2 * i as u64), b)),
            None => (
                Stream::replay(self.sub_in.get(2 * i).cloned().unwrap_or_default(), a),
                Stream::replay(self.sub_in.get(2 * i + 1).cloned().unwrap_or_default(), b),
            ),
        }
    }

    pub fn child(&self, ops: Stream, flt: Stream, env: u64) -> Ctx {
        Ctx {
            ops,
            flt,
            sched: None,
            sub: Vec::new(),
            sub_in: Vec::new(),
            gen_seed: None,
            log: Log::new(true),
            stats: Stats::default(),
            env,
            quick: self.quick,
            idx: self.idx,
        }
    }

    pub fn ev(&mut self, s: impl AsRef<str>) {
        self.log.push(s.as_ref());
    }

    pub fn fault(&mut self, kind: &'static str) {
        *self.stats.faults.entry(kind).or_insert(0) += 1;
    }
    pub fn fault_n(&mut self, kind: &'static str, n: u64) {
        if n > 0 {
            *self.stats.faults.entry(kind).or_insert(0) += n;
        }
    }
    pub fn probe(&mut self, kind: &'static str) {
        *self.stats.probes.entry(kind).or_insert(0) += 1;
    }

    /// draws from the operation stream
    pub fn n(&mut self, n: u64) -> u64 {
        self.ops.draw(n)
    }
    /// true with probability 1/den; 0 on the tape means false
    pub fn chance(&mut self, den: u64) -> bool {
        self.ops.draw(den) == den - 1 && den > 1
    }
    /// draws from the fault stream
    pub fn f(&mut self, n: u64) -> u64 {
        self.flt.draw(n)
    }
    pub fn fchance(&mut self, den: u64) -> bool {
        self.flt.draw(den) == den - 1 && den > 1
    }

    /// Calls into yason without allocation faults. A panic is a violation.
    pub fn sut<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> R<T> {
        Ok(self.sut_plan(what, Plan::None, f)?.0)
    }

    /// Calls into yason under an allocation fault plan; returns how many allocations failed and
    /// how many were asked for.
    pub fn sut_plan<T>(&mut self, what: &str, plan: Plan, f: impl FnOnce() -> T) -> R<(T, u32, u32)> {
        self.stats.sut_calls += 1;
        alloc::arm(plan);
        let r = catch_unwind(AssertUnwindSafe(f));
        let (seen, fired) = alloc::disarm();
        match r {
            Ok(v) => {
                self.fault_n("alloc-failure", fired as u64);
                Ok((v, fired, seen))
            }
            Err(_) => {
                let m = take_panic();
                viol("panic", format!("{what}: panicked: {m}"))
            }
        }
    }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn take_panic() -> String {
    PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

/// Marker for panics the simulator itself injects (a caller's conversion or writer that unwinds).
pub const INJECTED: &str = "yason-sim injected unwind";

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        alloc::disarm();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
    }));
}
