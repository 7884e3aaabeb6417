//! Memory taken is given back, once, and nothing is written outside of it.
//!
//! The worlds of the other scenarios, with their faults, run here as episodes with the allocator's
//! books open. At the end of an episode everything obtained from yason is gone, so nothing yason
//! took may be left, however often the episode is repeated.

use crate::alloc::{self, Plan, Wrong};
use crate::ctx::{viol, Ctx, Log, Stats, CHECKED, R};
use crate::io::{SimWriter, WFault};
use crate::model::fill_str;
use crate::scen::*;
use crate::serdes::{BytesDe, BytesSer, How};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::sync::atomic::{AtomicU32, Ordering};
use yason::{ArrayBuilder, Number, ObjectRefBuilder, PathExpression, Value, Yason, YasonBuf};

type Sub = (&'static str, fn(&mut Ctx) -> R);

/// What an episode is made of.
const SUBS: [Sub; 15] = [
    ("in-C02", c02::run),
    ("in-C10", c10::run),
    ("in-C03", c03::run),
    ("in-C01", c01::run),
    ("in-C08", c08::run),
    ("in-C04", c04::run),
    ("in-C11", c11::run),
    ("in-C09", c09::run),
    ("in-C05", c05::run),
    ("in-C14", c14::run),
    ("in-C16", c16::run),
    ("in-C06", c06::run),
    ("in-C17", c17::run),
    ("in-C12", c12::run),
    ("in-C07", c07::run),
];

fn again(ctx: &mut Ctx) {
    ctx.rewind();
    kind(ctx);
    quietly(ctx, episode);
}

fn episode(ctx: &mut Ctx) {
    let n = 1 + ctx.n(3);
    for _ in 0..n {
        let mut i = ctx.n(40) as usize;
        if i >= SUBS.len() {
            i %= 8;
        }
        if CHECKED && SUBS[i].0 == "in-C07" {
            i = 0;
        }
        ctx.ev(format!("-- {}", SUBS[i].0));
        ctx.probe(SUBS[i].0);
        // what else goes wrong is for the other scenarios to judge
        let _ = catch_unwind(AssertUnwindSafe(|| (SUBS[i].1)(ctx)));
        alloc::disarm();
        ctx.ev(format!("-- end of {}", SUBS[i].0));
    }
}

/// Without a trace in log and statistics.
fn quietly<T>(ctx: &mut Ctx, f: impl FnOnce(&mut Ctx) -> T) -> T {
    let log = std::mem::replace(&mut ctx.log, Log::new(false));
    let stats = std::mem::replace(&mut ctx.stats, Stats::default());
    let r = f(ctx);
    ctx.log = log;
    ctx.stats = stats;
    r
}

fn books(ctx: &mut Ctx, what: &str) -> R {
    let (class, t) = match alloc::wrong() {
        None => return Ok(()),
        Some(Wrong::Overrun(n)) => ("overrun", format!("bytes next to a block of {n} were written")),
        Some(Wrong::Twice(n)) => ("given-back-twice", format!("a block of {n} bytes was given back more than once")),
        Some(Wrong::Layout(a, b)) => ("given-back-wrong", format!("a block taken with {a} bytes was given back with {b}, or with another alignment")),
        Some(Wrong::AfterFree(n)) => ("used-after-free", format!("a block of {n} bytes was written after it had been given back")),
    };
    ctx.ev(format!("{what}: {t}"));
    viol(class, format!("{what}: {t}"))
}

/// Judges how what is held grew over `n` repetitions and over `n` more.
fn grew(what: &str, n: u64, at: [(i64, i64); 3]) -> R {
    let g = |f: fn(&(i64, i64)) -> i64| (f(&at[1]) - f(&at[0]), f(&at[2]) - f(&at[1]));
    let (c, b) = (g(|x| x.0), g(|x| x.1));
    let n = n as i64;
    // caches and spare room that fill up once stay below both
    if (c.1 >= n / 2 && c.1 * 10 >= c.0 * 9) || (b.1 >= n && b.1 * 10 >= b.0 * 4) {
        return viol(
            "not-given-back",
            format!("{what}: with everything dropped, {} blocks and {} bytes more are held after {n} repetitions and {} and {} more after {n} others", c.0, b.0, c.1, b.1),
        );
    }
    Ok(())
}

/// How often something was left and did not add up.
static CLEARED: AtomicU32 = AtomicU32::new(0);

fn same(ctx: &mut Ctx) -> R {
    let start = alloc::churn();
    episode(ctx);
    let work = (alloc::churn() - start).max(1);
    books(ctx, "first time")?;
    let a = alloc::held();
    again(ctx);
    books(ctx, "second time")?;
    let b = alloc::held();
    ctx.ev(format!("held: {:+} blocks, {:+} bytes", b.0 - a.0, b.1 - a.1));
    if b.0 <= a.0 && b.1 <= a.1 {
        return Ok(());
    }
    // something is left: does it add up? (what is left by long episodes is left by short ones, too)
    if work > 2000 {
        ctx.probe("too-long-to-repeat");
        return Ok(());
    }
    // code that keeps a bounded something would be suspected all the time
    if CLEARED.load(Ordering::Relaxed) >= 6 {
        ctx.probe("suspected-too-often");
        return Ok(());
    }
    let n = (600_000 / work).clamp(1500, 4000);
    let mut at = [b; 3];
    for half in 1..3 {
        for _ in 0..n {
            again(ctx);
        }
        at[half] = alloc::held();
    }
    books(ctx, "repeated")?;
    grew("the same calls again and again", n, at)?;
    CLEARED.fetch_add(1, Ordering::Relaxed);
    Ok(())
}

struct Nothing;
impl std::fmt::Write for Nothing {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}

/// One round of calls with keys, strings, numbers and paths that were never there before.
fn fresh(ctx: &mut Ctx, i: u64, what: u64, pad: usize) -> R {
    let key = format!("k{i}x{}", fill_str(i, pad, b"abcdefgh"));
    let text = format!("{{\"{key}\":[{i},\"{key}\",{{\"in{i}\":null,\"d\":{i}.25}}],\"z\":\"{key}\"}}");
    let plan = match i % 5 {
        3 => Plan::Window { from: (i / 5 % 12) as u32, len: 1 },
        4 => Plan::Window { from: (i / 5 % 12) as u32, len: u32::MAX },
        _ => Plan::None,
    };
    // the JSON reader itself takes memory for granted
    let doc = ctx.sut("parse", || YasonBuf::parse(&text))?.map_err(crate::ctx::skip)?;
    let bad = &text[..text.len() - 1 - (i % 7) as usize];
    ctx.sut("parse a torn text", || drop(YasonBuf::parse(bad)))?;
    let mut buf = Vec::new();
    ctx.sut("parse into a buffer", || drop(Yason::parse_to(&mut buf, &text).map(|_| ())))?;
    let dom: serde_json::Value = serde_json::from_str(&text).map_err(crate::ctx::skip)?;
    ctx.sut_plan("convert", plan, || drop(YasonBuf::try_from(&dom)))?;
    let y: &Yason = &doc;
    if what & 1 == 0 {
        let paths = [
            format!("$.{key}[*]"),
            format!("$.\"{key}\"[0 to last].in{i}"),
            format!("$..in{i}"),
            format!("$.{key}[{i},1,last]"),
            format!("$.z.no{i}"),
            format!("$.{key}["),
            format!("$.{key}[*].size({i})"),
        ];
        for p in &paths {
            let r = ctx.sut_plan("compile", plan, || PathExpression::from_str(p))?.0;
            let Ok(pe) = r else { continue };
            for w in [false, true] {
                ctx.sut_plan("query", plan, || drop(pe.query(y, w, None, None)))?;
                let mut qb: Vec<Value> = Vec::new();
                ctx.sut_plan("query", plan, || drop(pe.query(y, w, Some(&mut qb), None)))?;
                let mut rb: Vec<u8> = Vec::new();
                ctx.sut_plan("query", plan, || drop(pe.query(y, w, None, Some(&mut rb))))?;
            }
            ctx.sut_plan("exists", plan, || drop(pe.exists(y)))?;
            ctx.sut("drop", move || drop(pe))?;
        }
    }
    if what & 2 == 0 {
        for f in [WFault::None, WFault::AtByte { at: (i % 60) as usize, partial: false }] {
            let mut w = SimWriter::new(f, 0);
            ctx.sut_plan("format", plan, || {
                let _ = y.format_to(i % 2 == 0, &mut w);
            })?;
        }
        let mut w = Nothing;
        ctx.sut_plan("display", plan, || drop(std::fmt::Write::write_fmt(&mut w, format_args!("{}", y.format(i % 2 == 1)))))?;
        for how in [How::Bytes, How::Borrowed, How::Owned] {
            ctx.sut_plan("serde", plan, || {
                use serde::{Deserialize, Serialize};
                let r = YasonBuf::deserialize(BytesDe { bytes: y.as_bytes(), how });
                if let Ok(r) = &r {
                    let _ = r.serialize(BytesSer);
                }
                drop(r);
            })?;
        }
        ctx.sut_plan("copy", plan, || drop(y.to_yason_buf()))?;
    }
    if what & 4 == 0 {
        let n = Number::from(i);
        let (kn, ka) = (format!("n{i}"), format!("a{i}"));
        ctx.sut_plan("build", plan, || {
            let mut buf = Vec::new();
            if let Ok(mut b) = ObjectRefBuilder::try_new(&mut buf, 3, false) {
                let _ = b.push_string(&key, &key);
                let _ = b.push_number(&kn, &n);
                if let Ok(mut c) = b.push_array(&ka, 2) {
                    let _ = c.push_string(&key);
                    if i % 3 > 0 {
                        let _ = c.push_number(&n);
                        let _ = c.finish();
                    }
                }
                let _ = b.finish().map(|_| ());
            }
            if let Ok(mut b) = ArrayBuilder::try_new(2) {
                let _ = b.push_string(&key);
                if let Ok(mut c) = b.push_object(1, true) {
                    let _ = c.push_string(&key, &key);
                    if i % 3 > 1 {
                        let _ = c.finish();
                    }
                }
                drop(b.finish());
            }
        })?;
    }
    Ok(())
}

fn history(ctx: &mut Ctx) -> R {
    let what = ctx.n(8);
    let what = if what == 7 { 0 } else { what };
    let pad = ctx.n(40) as usize;
    let n = if what == 6 { 1500 } else { 3000 };
    ctx.ev(format!("a history of {} rounds of kind {what}, never the same", 2 * n));
    ctx.probe("never-the-same");
    ctx.fault("alloc-failure");
    let mut at = [(0, 0); 3];
    for k in 0..=2 * n {
        let r = quietly(ctx, |c| fresh(c, k, what, pad));
        if let Err(v) = r {
            ctx.ev(format!("round {k}: {}", v.class));
            if v.class != "skip" {
                return Ok(());
            }
        }
        if k % n == 0 {
            at[(k / n) as usize] = alloc::held();
            books(ctx, "in the history")?;
        }
    }
    ctx.ev(format!("held: {:+} blocks, {:+} bytes", at[2].0 - at[0].0, at[2].1 - at[0].1));
    grew("calls that are never the same", n, at)
}

struct Off;
impl Drop for Off {
    fn drop(&mut self) {
        alloc::ledger(false);
    }
}

/// Is this run a history?
fn kind(ctx: &mut Ctx) -> bool {
    ctx.n(400) == 399
}

pub fn run(ctx: &mut Ctx) -> R {
    alloc::ledger(true);
    let _off = Off;
    if kind(ctx) {
        history(ctx)
    } else {
        same(ctx)
    }
}
