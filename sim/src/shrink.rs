//! Minimising a failing run: delete parts of its tapes and make their values smaller while the same
//! class of violation remains.

use crate::ctx::{install_panic_hook, Ctx};
use crate::run::{execute, find, tapes_of, Opts};
use crate::scen::Scen;
use crate::sysfake;
use serde_json::{json, Value as J};
use std::sync::atomic::Ordering;

pub trait Judge {
    /// Some(tapes as consumed, class) if the candidate still fails the same way.
    fn fails(&mut self, tapes: &[Vec<u64>]) -> Option<Vec<Vec<u64>>>;
    fn out_of_time(&self) -> bool;
}

fn size(t: &[Vec<u64>]) -> (usize, u128) {
    (t.iter().map(|x| x.len()).sum(), t.iter().flatten().map(|&x| x as u128).sum())
}

pub fn minimise(mut best: Vec<Vec<u64>>, j: &mut dyn Judge) -> (Vec<Vec<u64>>, u64) {
    let mut tried = 0u64;
    let trim = |t: &mut Vec<Vec<u64>>| {
        for x in t.iter_mut() {
            while x.last() == Some(&0) {
                x.pop();
            }
        }
    };
    trim(&mut best);
    let mut attempt = |cand: Vec<Vec<u64>>, best: &mut Vec<Vec<u64>>, j: &mut dyn Judge| -> bool {
        if j.out_of_time() {
            return false;
        }
        tried += 1;
        if let Some(mut used) = j.fails(&cand) {
            let mut c = cand;
            trim(&mut used);
            trim(&mut c);
            let mut pick = if size(&used) < size(&c) { used } else { c };
            // a run that ended early may not have come to all of its tapes
            while pick.len() < best.len() {
                pick.push(Vec::new());
            }
            if size(&pick) < size(best) {
                *best = pick;
                return true;
            }
        }
        false
    };
    loop {
        let before = size(&best);
        // whole tapes
        for t in 0..best.len() {
            if !best[t].is_empty() {
                let mut c = best.clone();
                c[t].clear();
                attempt(c, &mut best, j);
            }
        }
        // chunks: delete, then zero
        for t in 0..best.len() {
            let mut n = best[t].len().next_power_of_two().max(1);
            while n >= 1 {
                let mut at = 0;
                while at < best[t].len() {
                    let end = (at + n).min(best[t].len());
                    let mut c = best.clone();
                    c[t].drain(at..end);
                    if !attempt(c, &mut best, j) {
                        if best[t][at..end].iter().any(|&x| x != 0) {
                            let mut c = best.clone();
                            c[t][at..end].iter_mut().for_each(|x| *x = 0);
                            attempt(c, &mut best, j);
                        }
                        at += n;
                    }
                    if j.out_of_time() {
                        return (best, tried);
                    }
                }
                if n == 1 {
                    break;
                }
                n /= 2;
            }
        }
        // values
        for t in 0..best.len() {
            let mut i = 0;
            while i < best[t].len() {
                let v = best[t][i];
                if v > 0 {
                    for w in [0, 1, v / 2, v - 1] {
                        if w < best[t].get(i).copied().unwrap_or(0) {
                            let mut c = best.clone();
                            c[t][i] = w;
                            if attempt(c, &mut best, j) {
                                break;
                            }
                        }
                    }
                }
                i += 1;
                if j.out_of_time() {
                    return (best, tried);
                }
            }
        }
        if size(&best) >= before || j.out_of_time() {
            return (best, tried);
        }
    }
}

struct InProcess {
    s: &'static Scen,
    case: J,
    class: String,
    deadline: u64,
}

impl Judge for InProcess {
    fn fails(&mut self, tapes: &[Vec<u64>]) -> Option<Vec<Vec<u64>>> {
        let ctx = Ctx::replay(
            tapes.to_vec(),
            self.case["env"].as_u64().unwrap_or(0),
            false,
            self.case["run"].as_u64().unwrap_or(0),
            self.case["tier"] != "thorough",
        );
        let d = execute(self.s, ctx);
        match d.result {
            Err(v) if v.class == self.class => Some(d.ctx.tapes()),
            _ => None,
        }
    }
    fn out_of_time(&self) -> bool {
        sysfake::real_ns() > self.deadline
    }
}

pub fn main(args: &[String]) -> i32 {
    let o = Opts::parse(args);
    let mut case: J = serde_json::from_slice(&std::fs::read(o.get("case")).expect("case")).expect("json");
    let Some(s) = find(case["property"].as_str().unwrap_or("")) else { return 2 };
    install_panic_hook();
    sysfake::limit_memory(12 << 30);
    sysfake::REAL.store(false, Ordering::Relaxed);
    let mut j = InProcess {
        s,
        class: case["class"].as_str().unwrap_or("").to_string(),
        case: case.clone(),
        deadline: sysfake::real_ns() + o.num("ms") * 1_000_000,
    };
    let (best, tried) = minimise(tapes_of(&case), &mut j);
    case["tapes"] = json!(best);
    case["shrink_attempts"] = json!(tried);
    std::fs::write(o.get("out"), serde_json::to_vec(&case).unwrap()).expect("out");
    0
}
