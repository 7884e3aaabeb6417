//! The coordinator: spreads runs over worker processes, attributes aborts and hangs to a run,
//! confirms and minimises what fails, writes the replay file and the evidence.

use crate::run::{find, tapes_of, Opts};
use crate::scen::Scen;
use crate::shrink::{minimise, Judge};
use crate::sysfake::real_ns;
use crate::tape::SPILL_ENV;
use serde_json::{json, Map, Value as J};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::time::Duration;

const MS: u64 = 1_000_000;

struct Env {
    root: PathBuf,
    checked_bin: PathBuf,
    shipped_bin: PathBuf,
    stepped_bin: PathBuf,
    scratch: PathBuf,
    serial: std::cell::Cell<u64>,
}

impl Env {
    fn bin(&self, profile: &str) -> &Path {
        match profile {
            "checked" => &self.checked_bin,
            "stepped" => &self.stepped_bin,
            _ => &self.shipped_bin,
        }
    }
    fn file(&self, what: &str) -> PathBuf {
        let n = self.serial.get();
        self.serial.set(n + 1);
        self.scratch.join(format!("{n}-{what}"))
    }
}

impl Drop for Env {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.scratch);
    }
}

fn spawn(bin: &Path, args: &[String]) -> Option<Child> {
    let mut c = Command::new(bin);
    c.args(args).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    // the same addresses every time
    unsafe {
        c.pre_exec(|| {
            crate::sysfake::fixed_addresses();
            Ok(())
        });
    }
    c.spawn().ok()
}

enum End {
    Exit(ExitStatus),
    Timeout,
}

fn wait(mut c: Child, ms: u64) -> End {
    let t0 = real_ns();
    let mut nap = 200;
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return End::Exit(s);
        }
        if real_ns() - t0 > ms * MS {
            let _ = c.kill();
            let _ = c.wait();
            return End::Timeout;
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 2).min(20_000);
    }
}

fn a(s: &str) -> String {
    s.to_string()
}

fn write_json(p: &Path, j: &J) -> bool {
    fs::write(p, serde_json::to_vec(j).unwrap_or_default()).is_ok()
}

fn read_json(p: &Path) -> Option<J> {
    serde_json::from_slice(&fs::read(p).ok()?).ok()
}

/// Tapes of a run that ended its process, and its environment seed, from what it spilled.
fn from_spill(p: &Path, case: &mut J) {
    let b = fs::read(p).unwrap_or_default();
    let mut m: BTreeMap<u64, BTreeMap<u64, u64>> = BTreeMap::new();
    for c in b.chunks_exact(24) {
        let w = |i: usize| u64::from_le_bytes(c[i * 8..i * 8 + 8].try_into().unwrap());
        if w(0) == SPILL_ENV {
            case["env"] = json!(w(2));
        } else if w(0) < 1000 {
            m.entry(w(0)).or_default().insert(w(1), w(2));
        }
    }
    let n = m.keys().next_back().map(|x| x + 1).unwrap_or(0);
    let tapes: Vec<Vec<u64>> = (0..n)
        .map(|i| {
            let t = m.get(&i);
            let len = t.and_then(|t| t.keys().next_back().copied()).map(|x| x + 1).unwrap_or(0);
            (0..len).map(|k| t.and_then(|t| t.get(&k)).copied().unwrap_or(0)).collect()
        })
        .collect();
    case["tapes"] = json!(tapes);
}

/// Runs one case in a fresh process. Some(outcome), or None if the process could not be judged.
fn run_one(env: &Env, case: &J, ms: u64, spill: bool) -> Option<J> {
    let (cf, of, sf) = (env.file("case"), env.file("outcome"), env.file("spill"));
    if !write_json(&cf, case) {
        return None;
    }
    let mut args = vec![a("one"), a("--case"), cf.display().to_string(), a("--out"), of.display().to_string()];
    if spill {
        args.extend([a("--spill"), sf.display().to_string()]);
    }
    let child = spawn(env.bin(case["profile"].as_str().unwrap_or("shipped")), &args)?;
    let end = wait(child, ms);
    let r = match end {
        End::Exit(s) if s.success() => read_json(&of),
        End::Exit(s) if s.signal().is_some() => {
            let mut c = case.clone();
            c["class"] = json!("abort");
            c["message"] = json!(format!("the process was ended by signal {} inside yason", s.signal().unwrap_or(0)));
            c["log_hash"] = json!("");
            if spill {
                from_spill(&sf, &mut c);
            }
            Some(c)
        }
        End::Exit(s) => {
            eprintln!("harness: run process exited with {s}");
            None
        }
        End::Timeout => {
            let mut c = case.clone();
            c["class"] = json!("hang");
            c["message"] = json!(format!("no answer within {} s", ms / 1000));
            c["log_hash"] = json!("");
            if spill {
                from_spill(&sf, &mut c);
            }
            Some(c)
        }
    };
    for f in [cf, of, sf] {
        let _ = fs::remove_file(f);
    }
    r
}

struct Outside<'a> {
    env: &'a Env,
    case: J,
    ms: u64,
    deadline: u64,
}

impl Judge for Outside<'_> {
    fn fails(&mut self, tapes: &[Vec<u64>]) -> Option<Vec<Vec<u64>>> {
        let mut c = self.case.clone();
        c["tapes"] = json!(tapes);
        let r = run_one(self.env, &c, self.ms, true)?;
        if r["class"] == self.case["class"] {
            Some(tapes_of(&r))
        } else {
            None
        }
    }
    fn out_of_time(&self) -> bool {
        real_ns() > self.deadline
    }
}

struct Running {
    child: Child,
    progress: PathBuf,
    out: PathBuf,
    from: u64,
    step: u64,
    seen: u64,
    since: u64,
}

#[derive(Default)]
struct Totals {
    runs: u64,
    nontrivial: u64,
    skipped: u64,
    events: u64,
    sut_calls: u64,
    allocations: u64,
    clock_reads: u64,
    entropy_reads: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    samples: Vec<J>,
    hashes: HashSet<u64>,
    per_profile: Map<String, J>,
}

fn add(m: &mut BTreeMap<String, u64>, j: &J) {
    if let Some(o) = j.as_object() {
        for (k, v) in o {
            *m.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
        }
    }
}

fn progress_of(p: &Path) -> Option<u64> {
    let b = fs::read(p).ok()?;
    Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?))
}

enum Found {
    Clean,
    Case(J),
    Broken(String),
}

#[allow(clippy::too_many_arguments)]
fn explore(env: &Env, s: &Scen, profile: &str, seed: u64, tier: &str, until: u64, cap_ms: u64, t: &mut Totals) -> Found {
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let n = if s.workers > 0 { s.workers.min(cores) } else { cores } as u64;
    let start = real_ns();
    let deadline = start + cap_ms * MS;
    let mut live: Vec<Running> = Vec::new();
    for w in 0..n {
        let (progress, out) = (env.file("progress"), env.file("out"));
        let args: Vec<String> = [
            "worker", "--scen", s.id, "--seed", &seed.to_string(), "--tier", tier, "--from", &w.to_string(), "--step",
            &n.to_string(), "--until", &until.to_string(), "--deadline", &deadline.to_string(), "--progress",
            &progress.display().to_string(), "--out", &out.display().to_string(),
        ]
        .iter()
        .map(|x| x.to_string())
        .collect();
        match spawn(env.bin(profile), &args) {
            Some(child) => live.push(Running { child, progress, out, from: w, step: n, seen: u64::MAX, since: real_ns() }),
            None => return Found::Broken("cannot start a worker".into()),
        }
    }
    let hang_ms = if s.id == "C15" { 240_000 } else { 90_000 };
    let base = |idx: u64, r: &Running, class: &str| {
        json!({"property": s.id, "profile": profile, "verif_seed": seed, "tier": tier, "run": idx,
               "class": class, "stride": [r.from, r.step]})
    };
    let mut found = Found::Clean;
    let mut p_runs = 0u64;
    while !live.is_empty() {
        let mut i = 0;
        while i < live.len() {
            let r = &mut live[i];
            match r.child.try_wait() {
                Ok(Some(st)) => {
                    let r = live.swap_remove(i);
                    if st.success() {
                        let Some(o) = read_json(&r.out) else {
                            found = Found::Broken("worker left no report".into());
                            break;
                        };
                        p_runs += o["runs"].as_u64().unwrap_or(0);
                        for (f, k) in [
                            (&mut t.runs, "runs"), (&mut t.nontrivial, "nontrivial"), (&mut t.skipped, "skipped"),
                            (&mut t.events, "events"), (&mut t.sut_calls, "sut_calls"), (&mut t.allocations, "allocations"),
                            (&mut t.clock_reads, "clock_reads"), (&mut t.entropy_reads, "entropy_reads"),
                        ] {
                            *f += o[k].as_u64().unwrap_or(0);
                        }
                        add(&mut t.faults, &o["faults"]);
                        add(&mut t.probes, &o["probes"]);
                        if let Some(x) = o["samples"].as_array() {
                            for x in x {
                                if t.samples.len() < 4 {
                                    t.samples.push(x.clone());
                                }
                            }
                        }
                        let h = fs::read(format!("{}.hashes", r.out.display())).unwrap_or_default();
                        for c in h.chunks_exact(8) {
                            t.hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
                        }
                        if o["violation"].is_object() {
                            found = Found::Case(o["violation"].clone());
                            break;
                        }
                    } else if st.signal().is_some() {
                        let idx = progress_of(&r.progress).unwrap_or(r.from);
                        found = Found::Case(base(idx, &r, "abort"));
                        break;
                    } else {
                        found = Found::Broken(format!("worker exited with {st}"));
                        break;
                    }
                }
                Ok(None) => {
                    let now = real_ns();
                    let p = progress_of(&r.progress).unwrap_or(u64::MAX - 1);
                    if p != r.seen {
                        r.seen = p;
                        r.since = now;
                    } else if now - r.since > hang_ms * MS {
                        let _ = r.child.kill();
                        let _ = r.child.wait();
                        found = Found::Case(base(p, r, "hang"));
                        live.swap_remove(i);
                        break;
                    }
                    i += 1;
                }
                Err(e) => {
                    found = Found::Broken(format!("wait: {e}"));
                    break;
                }
            }
        }
        if !matches!(found, Found::Clean) {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    for r in &mut live {
        let _ = r.child.kill();
        let _ = r.child.wait();
    }
    let wall = (real_ns() - start) as f64 / 1e9;
    t.per_profile.insert(
        profile.to_string(),
        json!({"runs": p_runs, "planned": until, "wall_s": wall, "runs_per_hour": (p_runs as f64 / wall.max(0.001) * 3600.0) as u64}),
    );
    found
}

/// Confirms a violation in a fresh process and minimises it. None: it does not reproduce.
fn settle(env: &Env, s: &Scen, mut case: J, shrink_ms: u64) -> Option<J> {
    let class = case["class"].as_str().unwrap_or("").to_string();
    let one_ms = if s.id == "C15" { 240_000 } else { 90_000 };
    let outside = class == "abort" || class == "hang";
    // 1. alone, from the run index (or its tapes)
    let mut confirmed = run_one(env, &case, one_ms, outside).filter(|r| r["class"] == case["class"]);
    if confirmed.is_none() {
        // 2. after the runs its worker had made before: state left behind in the process
        let (run, from, step) = (
            case["run"].as_u64().unwrap_or(0),
            case["stride"][0].as_u64().unwrap_or(0),
            case["stride"][1].as_u64().unwrap_or(1).max(1),
        );
        let before: Vec<u64> = (0..).map(|k| from + k * step).take_while(|&x| x < run).collect();
        let mut n = 1;
        let mut c = case.clone();
        c["tapes"] = J::Null;
        while confirmed.is_none() && !before.is_empty() {
            let n2 = n.min(before.len());
            c["prefix"] = json!(before[before.len() - n2..]);
            confirmed = run_one(env, &c, one_ms, outside).filter(|r| r["class"] == case["class"]).map(|mut r| {
                r["prefix"] = c["prefix"].clone();
                r
            });
            if n2 == before.len() {
                break;
            }
            n *= 4;
        }
    }
    let confirmed = confirmed?;
    for k in ["tapes", "env", "prefix", "message", "log_hash", "trace", "faults", "events"] {
        if !confirmed[k].is_null() {
            case[k] = confirmed[k].clone();
        }
    }
    let full = case.clone();
    let mut unreplayed = full.clone();
    unreplayed["tapes"] = J::Null;
    // 3. minimise
    if class == "hang" || case["prefix"].is_array() {
        // a candidate would cost a whole timeout (or the whole prefix): left as found
    } else if class == "abort" {
        if case["tapes"].is_array() {
            let mut j = Outside { env, case: case.clone(), ms: 10_000, deadline: real_ns() + shrink_ms * MS };
            let (best, tried) = minimise(tapes_of(&case), &mut j);
            case["tapes"] = json!(best);
            case["shrink_attempts"] = json!(tried);
        }
    } else {
        let (cf, of) = (env.file("case"), env.file("shrunk"));
        write_json(&cf, &case);
        let args = [
            "shrink", "--case", &cf.display().to_string(), "--out", &of.display().to_string(), "--ms", &shrink_ms.to_string(),
        ]
        .map(|x| x.to_string());
        if let Some(c) = spawn(env.bin(case["profile"].as_str().unwrap_or("")), &args) {
            if let End::Exit(st) = wait(c, shrink_ms * 3 + 60_000) {
                if st.success() {
                    if let Some(j) = read_json(&of) {
                        case["tapes"] = j["tapes"].clone();
                        case["shrink_attempts"] = j["shrink_attempts"].clone();
                    }
                }
            }
        }
    }
    // 4. the minimised case, twice, in fresh processes: must be the same run; else the one found; else
    // what the run index alone says
    let mut generated = full.clone();
    generated["tapes"] = J::Null;
    for mut c in [case, full, generated] {
        let x = run_one(env, &c, one_ms, false);
        // another timeout would tell nothing new
        let y = if class == "hang" { x.clone() } else { run_one(env, &c, one_ms, false) };
        if let (Some(x), Some(y)) = (x, y) {
            if x["class"] == class && x["log_hash"] == y["log_hash"] {
                for k in ["message", "log_hash", "trace", "faults", "events"] {
                    c[k] = x[k].clone();
                }
                return Some(c);
            }
        }
        if class == "hang" {
            break;
        }
    }
    Some(unreplayed)
}

fn known_findings(root: &Path, id: &str) -> Vec<String> {
    fs::read_to_string(root.join("known-findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter(|l| l.split_whitespace().any(|w| w == format!("property={id}")))
        .map(|l| l.to_string())
        .collect()
}

pub fn check(args: &[String]) -> i32 {
    let o = Opts::parse(args);
    let Some(s) = find(o.get("prop")) else {
        eprintln!("unknown property {}", o.get("prop"));
        return 2;
    };
    let t0 = real_ns();
    let tier = if o.get("tier") == "thorough" { "thorough" } else { "quick" };
    let quick = tier == "quick";
    let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.trim().parse::<u64>().ok()).unwrap_or(1);
    let root = PathBuf::from(o.get("root"));
    let shipped_bin = std::env::current_exe().expect("own path");
    let scratch = std::env::temp_dir().join(format!("yason-sim-{}-{}", s.id, std::process::id()));
    fs::create_dir_all(&scratch).expect("scratch directory");
    let env = Env { root: root.clone(), checked_bin: PathBuf::from(o.get("checked")), stepped_bin: PathBuf::from(o.get("stepped")), shipped_bin, scratch, serial: Default::default() };
    let until = if o.num("runs") > 0 { o.num("runs") } else if quick { s.runs.0 } else { s.runs.1 };
    let cap = if o.num("cap-ms") > 0 { o.num("cap-ms") } else if quick { 90_000 } else { 1_200_000 };
    let mut t = Totals::default();
    let mut code = 0;
    let mut violations = 0;
    for profile in ["shipped", "checked", "stepped"] {
        if (profile == "checked" && !s.checked) || (profile == "shipped" && !s.shipped) || (profile == "stepped" && !s.stepped) {
            continue;
        }
        match explore(&env, s, profile, seed, tier, until, cap, &mut t) {
            Found::Clean => {}
            Found::Broken(m) => {
                eprintln!("harness error: {m}");
                code = 2;
            }
            Found::Case(case) if case["class"] == "harness" => {
                eprintln!("harness error: {}", case["message"].as_str().unwrap_or(""));
                code = 2;
            }
            Found::Case(case) => {
                let run = case["run"].as_u64().unwrap_or(0);
                match settle(&env, s, case.clone(), if quick { 20_000 } else { 120_000 }) {
                    Some(c) => {
                        violations += 1;
                        code = 1;
                        let dir = env.root.join("replays");
                        let _ = fs::create_dir_all(&dir);
                        let path = dir.join(format!("{}-{}-{}-{}.json", s.id, profile, seed, run));
                        let _ = fs::write(&path, serde_json::to_vec_pretty(&c).unwrap_or_default());
                        println!("class {}: {}", c["class"].as_str().unwrap_or(""), c["message"].as_str().unwrap_or(""));
                        if let Some(tr) = c["trace"].as_array() {
                            for l in tr.iter().rev().take(12).collect::<Vec<_>>().into_iter().rev() {
                                println!("  | {}", l.as_str().unwrap_or("").chars().take(300).collect::<String>());
                            }
                        }
                        println!("VIOLATION property={} replay={}", s.id, path.display());
                    }
                    None => {
                        eprintln!("harness error: run {run} ({profile}) failed once and does not reproduce: {case}");
                        code = 2;
                    }
                }
            }
        }
        if code != 0 {
            break;
        }
    }
    for k in known_findings(&root, s.id) {
        println!("KNOWN-FINDING: {k}");
    }
    let wall = (real_ns() - t0) as f64 / 1e9;
    let evidence = json!({
        "property": s.id, "tier": tier, "seed": seed, "level": "exploration", "violations": violations, "wall_s": wall,
        "assumptions": [
            "the simulated world is the process: yason runs unmodified; what it can meet is its allocator, the caller's buffers, writers, conversions and threads, the medium that carries documents, the clock and entropy",
 if s.id == "C18" {
                "a step is a basic block, load or store inside yason; precompiled library code is one step"
            } else if s.stepped {
                "clients take turns: every interleaving of basic blocks, loads and stores is possible, weaker memory orders are not simulated"
            } else {
                "code between two seams (allocation, writer call, conversion, operation) runs atomically"
            }
        ],
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.hashes.len(),
            "rule": s.rule,
            "distinctness_measure": "64-bit hash of the whole event log of a run (operations, answers, faults and schedule), counted over runs in which at least one fault or disturbance fired",
            "samples": t.samples,
            "nontrivial_runs": t.nontrivial,
            "skipped_runs": t.skipped,
            "simulated_events": t.events,
            "simulated_time": "yason has no timers; simulated time is counted in events (and link ticks, see probes)",
            "calls_into_yason": t.sut_calls,
            "allocations_seen": t.allocations,
            "clock_reads_by_simulated_code": t.clock_reads,
            "entropy_reads_by_simulated_code": t.entropy_reads,
            "faults_injected": t.faults,
            "conditions_reached": t.probes,
            "per_profile": t.per_profile,
            "runs_per_hour": (t.runs as f64 / wall.max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (t.runs as f64 / wall.max(0.001) * 3600.0) as u64,
            "real_components": "yason, serde, serde_json, bincode, decimal-rs, std collections",
            "simulated_components": s.stub,
        }
    });
    let ed = root.join("evidence");
    let _ = fs::create_dir_all(&ed);
    if fs::write(ed.join(format!("{}.json", s.id)), serde_json::to_vec_pretty(&evidence).unwrap_or_default()).is_err() {
        eprintln!("harness error: cannot write evidence");
        return 2;
    }
    println!(
        "{} {}: {} runs ({} distinct non-trivial, {} skipped), {} calls into yason, {:.1} s",
        s.id, tier, t.runs, t.hashes.len(), t.skipped, t.sut_calls, wall
    );
    code
}

/// Replays a file. 1: the recorded violation happens again, exactly; 0: no violation; 3: another one.
pub fn replay(args: &[String]) -> i32 {
    let o = Opts::parse(args);
    let path = PathBuf::from(o.get("file"));
    let Some(case) = read_json(&path) else {
        eprintln!("cannot read {}", path.display());
        return 2;
    };
    let Some(s) = find(case["property"].as_str().unwrap_or("")) else { return 2 };
    let scratch = std::env::temp_dir().join(format!("yason-sim-replay-{}", std::process::id()));
    fs::create_dir_all(&scratch).expect("scratch directory");
    let env = Env {
        root: PathBuf::from(o.get("root")),
        checked_bin: PathBuf::from(o.get("checked")),
        stepped_bin: PathBuf::from(o.get("stepped")),
        shipped_bin: std::env::current_exe().expect("own path"),
        scratch,
        serial: Default::default(),
    };
    let Some(r) = run_one(&env, &case, if s.id == "C15" { 240_000 } else { 90_000 }, false) else { return 2 };
    for l in r["trace"].as_array().into_iter().flatten() {
        println!("  | {}", l.as_str().unwrap_or(""));
    }
    if r["class"] == "" {
        println!("{}: no violation", s.id);
        return 0;
    }
    println!("class {}: {}", r["class"].as_str().unwrap_or(""), r["message"].as_str().unwrap_or(""));
    if r["class"] == case["class"] && r["log_hash"] == case["log_hash"] {
        println!("VIOLATION property={} replay={}", s.id, path.display());
        1
    } else {
        println!("{}: fails differently from the recording", s.id);
        3
    }
}
