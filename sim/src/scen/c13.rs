//! Independent users of yason do not see each other: every client's log in any interleaving is its
//! log when running alone.

use crate::alloc::{self, unarmed, Plan};
use crate::ask::{ask, brief};
use crate::builder::*;
use crate::ctx::{skip, viol, Ctx, Viol, R};
use crate::io::{checksum, draw_wfault, SimWriter, WFault};
use crate::model::{self, gen_container, gen_doc, Knobs, M};
use crate::reader::{value_is, yason_is};
use crate::reffmt;
use crate::refpath::{cost, gen_path, Path};
use crate::sched::{self, yield_point};
use crate::sysfake;
use crate::tape::{mix, Stream};
use std::str::FromStr;
use std::sync::Arc;
use yason::{ArrayBuilder, Number, ObjectBuilder, PathExpression, Value, Yason, YasonBuf};

struct Shared {
    docs: Vec<(M, YasonBuf)>,
    paths: Vec<(Path, String, PathExpression)>,
}

/// What is shared is only ever used through `&`, which documents and expressions allow.
struct Share(Arc<Shared>);
unsafe impl Send for Share {}

impl Share {
    fn get(&self) -> &Shared {
        &self.0
    }
}

/// Whether a type may be shared between threads and sent to others, as the compiler sees it.
struct Probe<T: ?Sized>(std::marker::PhantomData<T>);
trait Not {
    const SHARED: bool = false;
}
impl<T: ?Sized> Not for Probe<T> {}
impl<T: ?Sized + Send + Sync> Probe<T> {
    const SHARED: bool = true;
}

fn client(ctx: &mut Ctx, sh: &Shared) -> Option<Viol> {
    let mut k = Knobs::draw_small(ctx, 14);
    k.big = k.big && ctx.chance(4);
    let steps = 2 + ctx.n(6);
    let mut own: Vec<(M, Vec<u8>)> = Vec::new();
    let mut rb: Vec<u8> = Vec::new();
    for i in 0..steps {
        yield_point();
        let r = step(ctx, sh, &k, &mut own, &mut rb);
        if let Err(v) = r {
            if v.class == "interference" {
                return Some(v);
            }
            // what matters is whether it also happens alone
            ctx.ev(format!("step {i}: {}: {}", v.class, v.msg));
        }
    }
    None
}

fn step(ctx: &mut Ctx, sh: &Shared, k: &Knobs, own: &mut Vec<(M, Vec<u8>)>, rb: &mut Vec<u8>) -> R {
    match ctx.n(9) {
        0 | 1 => {
            let m = gen_container(ctx, k);
            let mut d = Dist::draw(ctx, &[OOM, UNWIND, REENTRANT, BIGKEY, OVER, ABANDON, BADFINISH]);
            let doc = if ctx.n(2) == 0 {
                build_owned(ctx, &m, &mut d)?
            } else {
                let mut buf = vec![1u8; ctx.n(30) as usize];
                build_ref(ctx, &mut buf, &m, &mut d)?
            };
            if let Doc::Done(b, m) = doc {
                ctx.ev(format!("built {} {:x}", b.len(), checksum(&b)));
                expect_doc("document", &b, &m)?;
                own.push((m, b));
            }
        }
        2 => {
            let m = gen_doc(ctx, k);
            let t = reffmt::text(&m, ctx.idx % 2 == 0);
            let way = ctx.n(3);
            let mut buf = vec![2u8; ctx.n(9) as usize];
            // the JSON parser's own allocations do not fail gracefully: only conversion is starved
            let v = model::to_json(&m);
            let plan = if way == 2 { draw_plan(ctx) } else { Plan::None };
            let (mut b, fired, _) = ctx.sut_plan("parse", plan, || match way {
                0 => YasonBuf::parse(&t).map(|y| unarmed(|| y.as_bytes().to_vec())),
                1 => Yason::parse_to(&mut buf, &t).map(|y| unarmed(|| y.as_bytes().to_vec())),
                _ => YasonBuf::try_from(&v).map(|y| unarmed(|| y.as_bytes().to_vec())),
            })?;
            if fired > 0 {
                b = ctx.sut("parse", || YasonBuf::try_from(&v).map(|y| unarmed(|| y.as_bytes().to_vec())))?;
            }
            match b {
                Ok(b) => {
                    ctx.ev(format!("parsed {} {:x}", b.len(), checksum(&b)));
                    own.push((m, b));
                }
                Err(e) => ctx.ev(format!("parse failed {e:?}")),
            }
        }
        3 | 4 => {
            // query a shared document with a shared expression
            let d = ctx.n(sh.docs.len() as u64) as usize;
            let p = ctx.n(sh.paths.len() as u64) as usize;
            let (m, y) = &sh.docs[d];
            let (path, t, pe) = &sh.paths[p];
            if cost(path, m) > 1500 {
                return Ok(());
            }
            let wrapper = ctx.n(3) != 0;
            let ur = ctx.n(2) == 1;
            let mut qb: Vec<Value> = Vec::new();
            let uq = ctx.n(2) == 1;
            let plan = if ctx.fchance(4) { draw_plan(ctx) } else { Plan::None };
            let (r, fired, _) = ctx.sut_plan("query", plan, || {
                ask(pe, y, wrapper, if uq { Some(&mut qb) } else { None }, if ur { Some(&mut *rb) } else { None })
            })?;
            // which allocation was the one that failed may depend on who was there before; what
            // the query answers once there is memory may not
            let r = if fired > 0 {
                ctx.sut("query", || {
                    ask(pe, y, wrapper, if uq { Some(&mut qb) } else { None }, if ur { Some(&mut *rb) } else { None })
                })?
            } else {
                r
            };
            ctx.ev(format!("query {t} on {d}: {} {:x}", brief(&r), if r.is_ok() { checksum(rb) } else { 0 }));
            let x = ctx.sut("exists", || pe.exists(y))?;
            ctx.ev(format!("exists {x:?}"));
        }
        5 => {
            // format into a writer that lets others run, and uses yason itself
            let (m, y): (&M, &Yason) = match own.last() {
                Some((m, b)) if ctx.n(2) == 0 => (m, unsafe { Yason::new_unchecked(b) }),
                _ => {
                    let d = ctx.n(sh.docs.len() as u64) as usize;
                    (&sh.docs[d].0, &sh.docs[d].1)
                }
            };
            let pretty = ctx.n(2) == 1;
            let text = reffmt::text(m, pretty);
            let f = if ctx.fchance(3) { draw_wfault(ctx, text.len()) } else { WFault::None };
            let mut w = SimWriter::new(f, text.len());
            w.yields = true;
            let r = ctx.sut("format", || y.format_to(pretty, &mut w).is_ok())?;
            if w.failed > 0 {
                ctx.fault("write-error");
            }
            ctx.ev(format!("formatted ok={r} {} {:x} of {:x}", w.out.len(), checksum(w.out.as_bytes()), checksum(text.as_bytes())));
            if ctx.n(3) != 0 {
                // the same, with a writer that itself uses yason whenever it is called
                ctx.fault("re-entrant-writer");
                let mut v = SimWriter::new(f, text.len());
                v.yields = true;
                v.reenter = Some(Box::new(reentry(ctx, y)));
                let again = ctx.sut("format", || y.format_to(pretty, &mut v).is_ok()).map_err(interfered)?;
                if (again, &v.out, v.calls) != (r, &w.out, w.calls) {
                    return viol(
                        "interference",
                        format!("formatting into a writer that uses yason itself: ok={again} {:?}, otherwise ok={r} {:?}", v.out, w.out),
                    );
                }
            }
        }
        6 => {
            let d = ctx.n(sh.docs.len() as u64) as usize;
            let p = gen_path(ctx, &sh.docs[d].0, true);
            let t = p.render(ctx, true);
            let t = if ctx.n(4) == 3 { format!("{t}[") } else { t };
            let r = ctx.sut("compile", || PathExpression::from_str(&t).map_err(|e| e.to_string()))?;
            ctx.ev(format!("compile {t}: {r:?}"));
        }
        7 => {
            let d = ctx.n(sh.docs.len() as u64) as usize;
            let (m, y) = &sh.docs[d];
            let r = ctx.sut("read", || {
                yield_point();
                let a = yason_is(y, m);
                yield_point();
                let b = Value::try_from(&**y).map_err(|e| format!("{e:?}")).and_then(|v| value_is(&v, m));
                (a, b)
            })?;
            ctx.ev(format!("read {d}: {r:?}"));
            let e = ctx.n(sh.docs.len() as u64) as usize;
            let r = ctx.sut("equals", || (y.equals(&sh.docs[e].1), **y == *sh.docs[e].1))?;
            ctx.ev(format!("equals {d} {e}: {r:?}"));
        }
        _ => {
            let d = ctx.n(sh.docs.len() as u64) as usize;
            let y = &sh.docs[d].1;
            let way = ctx.n(2);
            let r = ctx.sut("serde", || through_serde(y, way, Vec::new(), None))?;
            ctx.ev(format!("serde {d} way {way}: {:?}", r.as_ref().map(|b| checksum(b))));
            if ctx.n(2) == 1 {
                ctx.fault("re-entrant-medium");
                let (a, b) = (reentry(ctx, y), reentry(ctx, y));
                let again = ctx.sut("serde", || through_serde(y, way, vec![Box::new(a)], Some(Box::new(b)))).map_err(interfered)?;
                if again != r {
                    return viol("interference", format!("serde through a medium that uses yason itself: {again:?}, otherwise {r:?}"));
                }
            }
        }
    }
    Ok(())
}

/// A failure only the re-entrant use has.
fn interfered(v: Viol) -> Viol {
    Viol { class: "interference".into(), msg: format!("while a callback uses yason: {}", v.msg) }
}

/// What a caller's callback may do: any use of yason, on the document at hand and on others.
fn reentry(ctx: &mut Ctx, y: &Yason) -> impl FnMut() + 'static {
    let kinds: Vec<u64> = (0..1 + ctx.n(3)).map(|_| ctx.n(7)).collect();
    let pretty = ctx.n(2) == 1;
    let bytes = y.as_bytes().to_vec();
    let (mut calls, mut n) = (0usize, 0usize);
    let every = 32.max(bytes.len() / 16);
    move || {
        calls += 1;
        if calls > 12 && calls % every != 1 {
            return;
        }
        n += 1;
        let y: &Yason = unsafe { Yason::new_unchecked(&bytes) };
        match kinds[n % kinds.len()] {
            0 => {
                let mut s = String::new();
                Yason::format_to(y, pretty, &mut s).expect("nested format");
            }
            1 => {
                let z = YasonBuf::parse("[-12.5e-7,\"q\\n\",{\"k\":[1,2,3]}]").expect("nested parse");
                let mut s = String::new();
                z.format_to(!pretty, &mut s).expect("nested format");
            }
            2 => {
                let mut b = ObjectBuilder::try_new(2, false).expect("nested builder");
                b.push_number("n", Number::from(7)).expect("nested push");
                b.push_string("a", "z").expect("nested push");
                drop(b.finish().expect("nested finish"));
            }
            3 => {
                let p = PathExpression::from_str("$.*.size()").expect("nested compile");
                let _ = p.exists(y);
            }
            4 => {
                let p = PathExpression::from_str("$.*[0 to last]").expect("nested compile");
                let mut qb: Vec<Value> = Vec::new();
                let mut rb = Vec::new();
                let _ = p.query(y, true, Some(&mut qb), Some(&mut rb)).map(|_| ());
            }
            5 => {
                let _ = y.equals(y);
                let _ = *y == *y;
            }
            _ => {
                let mut b = ArrayBuilder::try_new(3).expect("nested builder");
                let _ = b.push_number(Number::from(1));
                let mut inner = b.push_array(1).expect("nested push");
                inner.push_string("left").expect("nested push");
                drop(inner);
                drop(b);
            }
        }
    }
}

/// A medium that serde formats write to and read from in small pieces, using yason in between.
struct Medium {
    data: Vec<u8>,
    at: usize,
    hooks: Vec<Box<dyn FnMut()>>,
}

impl Medium {
    fn called(&mut self) {
        unarmed(|| {
            yield_point();
            for h in &mut self.hooks {
                h();
            }
        })
    }
}

impl std::io::Write for Medium {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.called();
        let n = b.len().min(13);
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl std::io::Read for Medium {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.called();
        let n = b.len().min(13).min(self.data.len() - self.at);
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

fn through_serde(y: &YasonBuf, way: u64, w: Vec<Box<dyn FnMut()>>, r: Option<Box<dyn FnMut()>>) -> Result<Vec<u8>, String> {
    let mut m = Medium { data: Vec::new(), at: 0, hooks: w };
    match way {
        0 => bincode::serialize_into(&mut m, y).map_err(|e| e.to_string())?,
        _ => serde_json::to_writer(&mut m, y).map_err(|e| e.to_string())?,
    }
    m.hooks = r.into_iter().collect();
    match way {
        0 => bincode::deserialize_from::<_, YasonBuf>(&mut m).map(|z| z.as_bytes().to_vec()).map_err(|e| e.to_string()),
        _ => serde_json::from_reader::<_, YasonBuf>(&mut m).map(|z| z.as_bytes().to_vec()).map_err(|e| e.to_string()),
    }
}

struct Report {
    found: Option<Viol>,
    lines: Vec<String>,
    ops: Stream,
    flt: Stream,
    stats: crate::ctx::Stats,
}

fn start(mut c: Ctx, sh: Share, env: u64) -> Box<dyn FnOnce() -> Report + Send> {
    Box::new(move || {
        alloc::set_env(env, env % 25);
        let found = client(&mut c, sh.get());
        let lines = c.log.text.take().unwrap_or_default();
        Report { found, lines, ops: c.ops, flt: c.flt, stats: c.stats }
    })
}

fn absorb(ctx: &mut Ctx, s: &crate::ctx::Stats) {
    for (k, v) in &s.faults {
        *ctx.stats.faults.entry(k).or_insert(0) += v;
    }
    for (k, v) in &s.probes {
        *ctx.stats.probes.entry(k).or_insert(0) += v;
    }
    ctx.stats.sut_calls += s.sut_calls;
}

pub fn run(ctx: &mut Ctx) -> R {
    for (what, shared) in [
        ("PathExpression", Probe::<PathExpression>::SHARED),
        ("YasonBuf", Probe::<YasonBuf>::SHARED),
        ("Yason", Probe::<Yason>::SHARED),
        ("Number", Probe::<Number>::SHARED),
    ] {
        if !shared {
            return viol("not-shareable", format!("{what} cannot be shared between threads or sent to another one"));
        }
    }
    let mut k = Knobs::draw_small(ctx, 20);
    k.big = k.big && ctx.chance(4);
    let mut sh = Shared { docs: Vec::new(), paths: Vec::new() };
    let nd = 1 + ctx.n(2);
    for _ in 0..nd {
        let m = gen_doc(ctx, &k);
        let y = plain(&m).map_err(skip)?;
        sh.docs.push((m, y));
    }
    let np = 1 + ctx.n(3);
    for _ in 0..np {
        let p = gen_path(ctx, &sh.docs[0].0, true);
        let t = p.render(ctx, false);
        let pe = PathExpression::from_str(&t).map_err(skip)?;
        sh.paths.push((p, t, pe));
    }
    let sh = Arc::new(sh);
    let n = 2 + ctx.n(3) as usize;
    let den = [2u64, 3, 6, 20][ctx.n(4) as usize];
    let env = ctx.env;

    // each client alone
    let mut alone: Vec<Report> = Vec::new();
    let mut early: Option<(usize, Viol)> = None;
    for i in 0..n {
        let (ops, flt) = ctx.client_streams(i);
        let c = ctx.child(ops, flt, mix(env, i as u64));
        sysfake::seed(mix(env, 50 + i as u64));
        let o = sched::run(Stream::replay(Vec::new(), 1000), 2, vec![start(c, Share(sh.clone()), mix(env, i as u64))]);
        let r = o.results.into_iter().next().unwrap();
        absorb(ctx, &r.stats);
        if let Some(v) = &r.found {
            early.get_or_insert((i, v.clone()));
        }
        alone.push(r);
    }

    if let Some((i, v)) = early {
        for l in &alone[i].lines {
            ctx.ev(format!("client {i}: {l}"));
        }
        ctx.sub = alone.into_iter().map(|r| (r.ops, r.flt)).collect();
        return Err(v);
    }

    // all of them at once, in the order the schedule says
    let clients: Vec<Box<dyn FnOnce() -> Report + Send>> = (0..n)
        .map(|i| {
            let c = ctx.child(
                Stream::replay(alone[i].ops.recorded().to_vec(), 3 + 2 * i as u64),
                Stream::replay(alone[i].flt.recorded().to_vec(), 4 + 2 * i as u64),
                mix(env, i as u64),
            );
            start(c, Share(sh.clone()), mix(env, i as u64))
        })
        .collect();
    sysfake::seed(mix(env, 99));
    let tape = ctx.sched.take().unwrap_or_else(|| Stream::replay(Vec::new(), 1000));
    let o = sched::run(tape, den, clients);
    ctx.sched = Some(o.sched);
    ctx.fault_n("client-switch", o.switches);
    ctx.fault_n("preemption-inside-yason", o.preempted);
    ctx.ev(format!("{n} clients, {} switches in {} yield points, schedule {:x}", o.switches, o.yields, o.trace));
    let mut result = Ok(());
    for (i, (a, b)) in alone.iter().zip(&o.results).enumerate() {
        for l in &a.lines {
            ctx.ev(format!("client {i}: {l}"));
        }
        if let (Ok(()), Some(v)) = (&result, &b.found) {
            result = Err(v.clone());
        }
        if result.is_ok() && a.lines != b.lines {
            let at = a.lines.iter().zip(&b.lines).position(|(x, y)| x != y).unwrap_or(a.lines.len().min(b.lines.len()));
            let show = |v: &[String]| v.get(at).cloned().unwrap_or_else(|| "(nothing)".into());
            result = viol(
                "interference",
                format!("client {i} of {n}, event {at}: alone {:?}, together {:?}", show(&a.lines), show(&b.lines)),
            );
        }
    }
    ctx.sub = alone.into_iter().map(|r| (r.ops, r.flt)).collect();
    let _ = model::brief_str;
    result
}
