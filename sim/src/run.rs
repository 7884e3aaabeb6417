//! Executing simulated runs: in a worker process, many; or one, from a case file.

use crate::alloc;
use crate::ctx::{install_panic_hook, take_panic, Ctx, Viol, CHECKED};
use crate::scen::{Scen, ALL};
use crate::sysfake;
use crate::tape::mix;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::io::{Seek, SeekFrom, Write};
use std::os::fd::AsRawFd;
use std::sync::atomic::Ordering;

pub fn find(id: &str) -> Option<&'static Scen> {
    ALL.iter().find(|s| s.id == id)
}

pub fn profile() -> &'static str {
    if CHECKED {
        "checked"
    } else if crate::sched::STEPPED {
        "stepped"
    } else {
        "shipped"
    }
}

/// One integer decides everything: this one, made of VERIF_SEED, scenario, profile and run index.
pub fn run_seed(base: u64, s: &Scen, idx: u64) -> u64 {
    let mut h = mix(base, CHECKED as u64 + 2 * crate::sched::STEPPED as u64 + 10);
    for b in s.id.bytes() {
        h = mix(h, b as u64);
    }
    mix(h, idx)
}

/// Now and then one thread goes through many runs, so that what is left behind in it adds up.
/// Some of them do the same over and over at first, then other things.
fn laps(s: &Scen, idx: u64) -> (u64, u64) {
    if !matches!(s.id, "C13" | "C15" | "C19") && idx % 2500 == 1301 {
        match idx / 2500 % 2 {
            0 => (0, 200),
            _ => (300, 100),
        }
    } else {
        (0, 1)
    }
}

/// The runs of one thread, one after the other, on the same tapes.
fn go(s: &'static Scen, ctx: &mut Ctx) -> Result<(), Viol> {
    let mut r = (s.run)(ctx);
    let (same, more) = laps(s, ctx.idx);
    for i in 1..same + more {
        if i == 1 {
            ctx.probe("long-history");
        }
        if i < same {
            ctx.rewind();
        }
        match &r {
            Err(v) if v.class != "skip" => break,
            _ => {}
        }
        ctx.ev(format!("-- lap {i}"));
        r = (s.run)(ctx);
    }
    r
}

pub struct Done {
    pub ctx: Ctx,
    pub result: Result<(), Viol>,
}

/// Executes one run on a fresh thread, so that nothing thread-local is left from an earlier one.
pub fn execute(s: &'static Scen, mut ctx: Ctx) -> Done {
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            alloc::set_env(mix(ctx.env, 1), ctx.env % 25);
            sysfake::seed(mix(ctx.env, 2));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| go(s, &mut ctx)));
            alloc::disarm();
            let result = match r {
                Ok(r) => r,
                Err(_) => {
                    let m = take_panic();
                    // a panic in the harness itself is an error of the check, not a violation
                    let class = if m.contains("/sim/src/") || m.contains(" at src/") { "harness" } else { "panic" };
                    Err(Viol { class: class.into(), msg: m })
                }
            };
            if let Err(v) = &result {
                let l = format!("=> {}: {}", v.class, v.msg);
                ctx.ev(l);
            }
            Done { ctx, result }
        })
        .expect("thread");
    h.join().unwrap_or_else(|_| std::process::exit(70))
}

pub struct Opts(BTreeMap<String, String>);
impl Opts {
    pub fn parse(args: &[String]) -> Self {
        let mut m = BTreeMap::new();
        let mut i = 0;
        while i < args.len() {
            if let Some(k) = args[i].strip_prefix("--") {
                m.insert(k.to_string(), args.get(i + 1).cloned().unwrap_or_default());
                i += 2;
            } else {
                m.insert(format!("arg{}", m.len()), args[i].clone());
                i += 1;
            }
        }
        Opts(m)
    }
    pub fn get(&self, k: &str) -> &str {
        self.0.get(k).map(|s| s.as_str()).unwrap_or("")
    }
    pub fn num(&self, k: &str) -> u64 {
        self.get(k).parse().unwrap_or(0)
    }
}

pub fn case_json(s: &Scen, base: u64, quick: bool, ctx: &Ctx, v: &Viol) -> J {
    json!({
        "property": s.id,
        "profile": profile(),
        "verif_seed": base,
        "tier": if quick { "quick" } else { "thorough" },
        "run": ctx.idx,
        "env": ctx.env,
        "tapes": ctx.tapes(),
        "class": v.class,
        "message": v.msg,
        "log_hash": format!("{:016x}", ctx.log.hash),
        "events": ctx.log.count,
    })
}

fn limit(s: &Scen) {
    sysfake::limit_memory(if s.id == "C15" { 12 << 30 } else { 6 << 30 });
}

/// Runs a stride of run indexes; stops at the first violation, or at the deadline.
pub fn worker(args: &[String]) -> i32 {
    let o = Opts::parse(args);
    let Some(s) = find(o.get("scen")) else { return 2 };
    install_panic_hook();
    limit(s);
    sysfake::REAL.store(false, Ordering::Relaxed);
    let base = o.num("seed");
    let quick = o.get("tier") != "thorough";
    let (from, step, until) = (o.num("from"), o.num("step").max(1), o.num("until"));
    let deadline = o.num("deadline");
    if s.id == "C13" {
        sysfake::pin(from);
    }
    let mut progress = std::fs::OpenOptions::new().create(true).write(true).open(o.get("progress")).expect("progress file");
    let mut mark = |idx: u64| {
        let _ = progress.seek(SeekFrom::Start(0));
        let _ = progress.write_all(&idx.to_le_bytes());
    };
    let mut hashes: Vec<u8> = Vec::new();
    let (mut runs, mut nontrivial, mut skipped, mut events, mut sut_calls) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut stats = crate::ctx::Stats::default();
    let mut samples: Vec<J> = Vec::new();
    let mut violation = J::Null;
    let mut last = J::Null;
    let mut idx = from;
    while idx < until {
        if deadline > 0 && sysfake::real_ns() > deadline {
            break;
        }
        mark(idx);
        let verbose = samples.len() < 2 && idx < 16;
        let d = execute(s, Ctx::generate(run_seed(base, s, idx), verbose, idx, quick));
        let c = d.ctx;
        runs += 1;
        last = json!(idx);
        events += c.log.count;
        sut_calls += c.stats.sut_calls;
        let fired: u64 = c.stats.faults.values().sum();
        for (k, v) in &c.stats.faults {
            *stats.faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in &c.stats.probes {
            *stats.probes.entry(k).or_insert(0) += v;
        }
        if let Err(v) = &d.result {
            if v.class == "skip" {
                skipped += 1;
                *stats.probes.entry("skipped").or_insert(0) += 1;
                if skipped == 1 {
                    samples.push(json!({"run": idx, "skipped": v.msg}));
                }
                idx += step;
                continue;
            }
            violation = case_json(s, base, quick, &c, v);
            violation["stride"] = json!([from, step]);
            break;
        }
        if fired > 0 {
            nontrivial += 1;
            hashes.extend_from_slice(&c.log.hash.to_le_bytes());
            if let Some(t) = &c.log.text {
                let lines: Vec<String> = t.iter().take(12).map(|l| l.chars().take(200).collect()).collect();
                samples.push(json!({"run": idx, "profile": profile(), "events": lines, "faults": c.stats.faults}));
            }
        }
        idx += step;
    }
    std::fs::write(format!("{}.hashes", o.get("out")), &hashes).expect("hashes");
    let out = json!({
        "runs": runs, "nontrivial": nontrivial, "skipped": skipped, "events": events, "sut_calls": sut_calls,
        "faults": stats.faults, "probes": stats.probes, "samples": samples, "violation": violation, "last": last,
        "allocations": alloc::ALLOCS.load(Ordering::Relaxed),
        "clock_reads": sysfake::CLOCK_READS.load(Ordering::Relaxed),
        "entropy_reads": sysfake::ENTROPY_READS.load(Ordering::Relaxed),
    });
    std::fs::write(o.get("out"), serde_json::to_vec(&out).unwrap()).expect("out");
    0
}

pub fn tapes_of(case: &J) -> Vec<Vec<u64>> {
    case["tapes"]
        .as_array()
        .map(|a| a.iter().map(|t| t.as_array().map(|t| t.iter().map(|x| x.as_u64().unwrap_or(0)).collect()).unwrap_or_default()).collect())
        .unwrap_or_default()
}

pub fn ctx_of(case: &J, verbose: bool) -> Ctx {
    Ctx::replay(
        tapes_of(case),
        case["env"].as_u64().unwrap_or(0),
        verbose,
        case["run"].as_u64().unwrap_or(0),
        case["tier"] != "thorough",
    )
}

/// Runs what a case file describes (after its prefix of earlier runs, if it has one) and writes the
/// outcome. A case without tapes is generated from its run index.
pub fn one(args: &[String]) -> i32 {
    let o = Opts::parse(args);
    let case: J = serde_json::from_slice(&std::fs::read(o.get("case")).expect("case file")).expect("case json");
    let Some(s) = find(case["property"].as_str().unwrap_or("")) else { return 2 };
    install_panic_hook();
    limit(s);
    sysfake::REAL.store(false, Ordering::Relaxed);
    let base = case["verif_seed"].as_u64().unwrap_or(0);
    let quick = case["tier"] != "thorough";
    let spill = if o.get("spill").is_empty() { None } else { std::fs::File::create(o.get("spill")).ok() };
    if let Some(p) = case["prefix"].as_array() {
        for i in p {
            let i = i.as_u64().unwrap_or(0);
            execute(s, Ctx::generate(run_seed(base, s, i), false, i, quick));
        }
    }
    let ctx = if case["tapes"].is_array() {
        ctx_of(&case, true)
    } else {
        let i = case["run"].as_u64().unwrap_or(0);
        Ctx::generate(run_seed(base, s, i), true, i, quick)
    };
    if let Some(f) = &spill {
        crate::tape::SPILL.store(f.as_raw_fd(), Ordering::Relaxed);
        crate::tape::spill(crate::tape::SPILL_ENV, 0, ctx.env);
    }
    let d = execute(s, ctx);
    crate::tape::SPILL.store(-1, Ordering::Relaxed);
    let trace: Vec<String> = d.ctx.log.text.clone().unwrap_or_default();
    let v = match &d.result {
        Err(v) if v.class != "skip" => v.clone(),
        _ => Viol { class: String::new(), msg: String::new() },
    };
    let mut j = case_json(s, base, quick, &d.ctx, &v);
    j["trace"] = json!(trace);
    j["faults"] = json!(d.ctx.stats.faults);
    std::fs::write(o.get("out"), serde_json::to_vec(&j).unwrap()).expect("out");
    0
}

/// Prints run index and event-log hash of many runs; used to prove determinism.
pub fn hashes(args: &[String]) -> i32 {
    let o = Opts::parse(args);
    let Some(s) = find(o.get("scen")) else { return 2 };
    install_panic_hook();
    sysfake::REAL.store(false, Ordering::Relaxed);
    let mut idx = o.num("from");
    let mut out = String::new();
    while idx < o.num("until") {
        let d = execute(s, Ctx::generate(run_seed(o.num("seed"), s, idx), false, idx, true));
        out.push_str(&format!("{} {} {:016x} {}\n", s.id, idx, d.ctx.log.hash, d.ctx.log.count));
        if o.get("slow") == "1" {
            // for watching the run times from outside
            eprintln!("{} {}", s.id, idx);
        }
        if o.get("twice") == "1" {
            // replaying the tapes is the same run
            let e = execute(s, Ctx::replay(d.ctx.tapes(), d.ctx.env, false, idx, true));
            if e.ctx.log.hash != d.ctx.log.hash {
                out.push_str(&format!("{} {} REPLAY DIFFERS\n", s.id, idx));
            }
        }
        idx += o.num("step").max(1);
    }
    print!("{out}");
    0
}
