//! Choice tapes. Every decision a simulated run makes - which operation, which argument, which
//! fault, who runs next - is one draw from a stream. A stream either generates (from a PRNG seeded
//! by VERIF_SEED, scenario and run index) and records, or replays a recorded tape. Value 0 always
//! means "the simplest choice", and a tape that is too short yields zeroes, so shrinking is: delete
//! values, or make them smaller.

use std::sync::atomic::{AtomicI32, Ordering};

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xd6e8_feb8_6659_fd93));
    r.next();
    r.next()
}

enum Source {
    Gen(Rng),
    Replay(Vec<u64>),
}

/// File descriptor that every draw is also written to, so that the tapes of a run that ends its
/// process are not lost; -1: none.
pub static SPILL: AtomicI32 = AtomicI32::new(-1);

extern "C" {
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
}

/// Stream id under which the run's environment seed is spilled.
pub const SPILL_ENV: u64 = 1 << 40;

pub fn spill(id: u64, at: u64, v: u64) {
    let fd = SPILL.load(Ordering::Relaxed);
    if fd >= 0 {
        let mut b = [0u8; 24];
        for (i, w) in [id, at, v].iter().enumerate() {
            b[i * 8..i * 8 + 8].copy_from_slice(&w.to_le_bytes());
        }
        unsafe { write(fd, b.as_ptr().cast(), 24) };
    }
}

pub struct Stream {
    src: Source,
    rec: Vec<u64>,
    /// Draws before this place in the record are made again as they were.
    pos: usize,
    id: u64,
}

impl Stream {
    pub fn gen(seed: u64, id: u64) -> Self {
        Stream { src: Source::Gen(Rng::new(seed)), rec: Vec::new(), pos: 0, id }
    }
    pub fn replay(v: Vec<u64>, id: u64) -> Self {
        Stream { src: Source::Replay(v), rec: Vec::new(), pos: 0, id }
    }
    /// Draws a value in `0..n` (n == 0 is treated as 1).
    pub fn draw(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        self.pos += 1;
        if let Some(&v) = self.rec.get(self.pos - 1) {
            return v.min(n - 1);
        }
        let v = match &mut self.src {
            Source::Gen(r) => r.next() % n,
            Source::Replay(t) => match t.get(self.rec.len()) {
                Some(&v) => v.min(n - 1),
                None => 0,
            },
        };
        spill(self.id, self.rec.len() as u64, v);
        self.rec.push(v);
        v
    }
    /// Goes back to the start: what was drawn so far is drawn once more, before anything new.
    pub fn rewind(&mut self) {
        self.pos = 0;
    }
    pub fn recorded(&self) -> &[u64] {
        &self.rec
    }
}
