//! The simulated scheduler. Clients are real threads, but only the one holding the baton runs;
//! at every yield point (inside yason: each allocation and each writer call; outside: between
//! operations) the sched stream of the tape decides who holds it next.

use crate::alloc;
use crate::tape::Stream;
use std::cell::Cell;
use steprt::{HOOK, QUANTUM};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

/// Is this the build with steps?
pub const STEPPED: bool = cfg!(feature = "stepped");

struct State {
    turn: usize,
    /// handovers in a row by clients that wait for a lock
    stalled: usize,
    preempted: u64,
    alive: Vec<bool>,
    sched: Stream,
    switches: u64,
    yields: u64,
    trace: u64,
    switch_den: u64,
}

pub struct Sched {
    st: Mutex<State>,
    /// one per client: only the one whose turn it is gets woken
    cv: Vec<Condvar>,
}

thread_local! {
    static CUR: Cell<*const Sched> = const { Cell::new(std::ptr::null()) };
    static ME: Cell<usize> = const { Cell::new(0) };
    /// the thread is in the scheduler's own code
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}

fn scheduler(f: impl FnOnce(&Sched, usize) -> u64) -> u64 {
    let q = QUANTUM.with(|q| q.replace(0));
    let p = CUR.with(|c| c.get());
    let mut n = 0;
    if !p.is_null() && !INSIDE.with(|i| i.replace(true)) {
        let was = alloc::pause();
        n = unsafe { f(&*p, ME.with(|m| m.get())) };
        INSIDE.with(|i| i.set(false));
        alloc::resume(was);
    }
    QUANTUM.with(|c| c.set(q));
    n
}

/// Offers the baton. A no-op on threads the scheduler does not own.
pub fn yield_point() {
    scheduler(|s, me| {
        s.offer(me);
        0
    });
}

/// Is this thread a simulated client, outside the scheduler's own code?
pub fn simulated() -> bool {
    !CUR.with(|c| c.get()).is_null() && !INSIDE.with(|i| i.get())
}

/// Called instead of waiting in the kernel for a lock or another event (see `sysfake::syscall`).
pub fn wait_for_others() {
    scheduler(|s, me| {
        s.blocked(me);
        0
    });
}

/// A waiter was woken: not a deadlock.
pub fn progress() {
    scheduler(|s, _| {
        s.st.lock().unwrap().stalled = 0;
        0
    });
}

/// Called by the instrumentation of the stepped build (see `steprt`): the client's time is up, or it
/// touches memory that all clients share because it is static.
fn stepped(statics: bool) -> u64 {
    scheduler(|s, me| {
        if statics {
            s.offer(me);
            0
        } else {
            s.preempt(me)
        }
    })
}

impl Sched {
    fn pick(st: &mut State, me: Option<usize>) {
        let alive: Vec<usize> = (0..st.alive.len()).filter(|&i| st.alive[i]).collect();
        if alive.is_empty() {
            st.turn = usize::MAX;
            return;
        }
        st.yields += 1;
        if let Some(m) = me {
            // 0 = keep running; otherwise hand over
            let den = st.switch_den;
            // long runs of tiny steps (a writer fed byte by byte): hand over less often
            let rare = match st.yields {
                0..=4_999 => 1,
                5_000..=49_999 => 16,
                _ => 256,
            };
            if st.yields % rare != 0 {
                st.turn = m;
                return;
            }
            if alive.len() == 1 || st.sched.draw(den) == 0 {
                st.turn = m;
                return;
            }
        }
        let others: Vec<usize> = alive.iter().copied().filter(|&i| Some(i) != me).collect();
        let pool = if others.is_empty() { alive } else { others };
        let k = st.sched.draw(pool.len() as u64) as usize;
        st.turn = pool[k];
        st.switches += 1;
        st.trace = crate::tape::mix(st.trace, (st.yields << 8) | st.turn as u64);
    }

    fn offer(&self, me: usize) {
        let mut st = self.st.lock().unwrap();
        st.stalled = 0;
        Self::pick(&mut st, Some(me));
        self.hand_over(st, me);
    }

    fn hand_over(&self, mut st: MutexGuard<State>, me: usize) {
        if st.turn != me {
            self.cv[st.turn].notify_one();
            while st.turn != me {
                st = self.cv[me].wait(st).unwrap();
            }
        }
    }

    /// This client cannot go on before another one has done something.
    fn blocked(&self, me: usize) {
        let mut st = self.st.lock().unwrap();
        st.stalled += 1;
        let n = st.alive.len();
        let next = (1..=n).map(|d| (me + d) % n).find(|&i| st.alive[i]).unwrap_or(me);
        if next == me || st.stalled > 8 * n {
            // every client waits for another one: a deadlock
            drop(st);
            std::process::abort();
        }
        st.switches += 1;
        st.turn = next;
        st.trace = crate::tape::mix(st.trace, (0xb10c << 8) | next as u64);
        self.hand_over(st, me);
    }

    /// The client's time is up; returns how many steps it has once it gets the baton back.
    fn preempt(&self, me: usize) -> u64 {
        let mut st = self.st.lock().unwrap();
        st.stalled = 0;
        let others: Vec<usize> = (0..st.alive.len()).filter(|&i| st.alive[i] && i != me).collect();
        if others.is_empty() {
            return 1 << 40;
        }
        let k = st.sched.draw(others.len() as u64) as usize;
        st.turn = others[k];
        st.switches += 1;
        st.preempted += 1;
        st.trace = crate::tape::mix(st.trace, (0x9e << 40) | (st.preempted << 8) | st.turn as u64);
        let q = Self::quantum(&mut st);
        self.hand_over(st, me);
        q
    }

    fn quantum(st: &mut State) -> u64 {
        // 0, the simplest choice: hardly ever
        match st.sched.draw(48) {
            0 => 1 << 20,
            k if st.preempted < 600 => 1 + st.sched.draw(1 << (k % 12)),
            k => 1 + st.sched.draw(1 << (k % 24)),
        }
    }

    fn enter(&self, me: usize) {
        let mut st = self.st.lock().unwrap();
        while st.turn != me {
            st = self.cv[me].wait(st).unwrap();
        }
    }

    fn leave(&self, me: usize) {
        let mut st = self.st.lock().unwrap();
        st.stalled = 0;
        st.alive[me] = false;
        Self::pick(&mut st, None);
        if let Some(c) = self.cv.get(st.turn) {
            c.notify_one();
        }
    }
}

pub struct Outcome<T> {
    pub results: Vec<T>,
    pub sched: Stream,
    pub switches: u64,
    pub yields: u64,
    pub preempted: u64,
    pub trace: u64,
}

/// Runs the clients to completion under the tape's schedule.
pub fn run<T: Send + 'static>(
    sched: Stream,
    switch_den: u64,
    clients: Vec<Box<dyn FnOnce() -> T + Send>>,
) -> Outcome<T> {
    let n = clients.len();
    let s = Arc::new(Sched {
        st: Mutex::new(State {
            turn: usize::MAX,
            stalled: 0,
            preempted: 0,
            alive: vec![true; n],
            sched,
            switches: 0,
            yields: 0,
            trace: 0,
            switch_den,
        }),
        cv: (0..n).map(|_| Condvar::new()).collect(),
    });
    let mut handles = Vec::new();
    for (i, c) in clients.into_iter().enumerate() {
        let s2 = s.clone();
        handles.push(
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    CUR.with(|p| p.set(Arc::as_ptr(&s2)));
                    ME.with(|m| m.set(i));
                    INSIDE.with(|x| x.set(true));
                    s2.enter(i);
                    if STEPPED && n > 1 {
                        let q = Sched::quantum(&mut s2.st.lock().unwrap());
                        HOOK.with(|h| h.set(Some(stepped)));
                        QUANTUM.with(|x| x.set(q));
                    }
                    INSIDE.with(|x| x.set(false));
                    alloc::set_hook(Some(yield_point));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(c));
                    alloc::disarm();
                    alloc::set_hook(None);
                    QUANTUM.with(|x| x.set(0));
                    CUR.with(|p| p.set(std::ptr::null()));
                    s2.leave(i);
                    r
                })
                .unwrap(),
        );
    }
    {
        let mut st = s.st.lock().unwrap();
        Sched::pick(&mut st, None);
        if let Some(c) = s.cv.get(st.turn) {
            c.notify_one();
        }
    }
    let results = handles
        .into_iter()
        .map(|h| match h.join() {
            Ok(Ok(v)) => v,
            Ok(Err(e)) | Err(e) => std::panic::resume_unwind(e),
        })
        .collect();
    let mut st = s.st.lock().unwrap();
    let sched = std::mem::replace(&mut st.sched, Stream::replay(Vec::new(), 1000));
    Outcome { results, sched, switches: st.switches, yields: st.yields, preempted: st.preempted, trace: st.trace }
}
