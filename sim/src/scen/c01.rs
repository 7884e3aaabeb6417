//! Running out of memory is a reported error (or does not matter), never a panic, an abort or a
//! wrong result, and the same call works once there is memory again.

use crate::alloc::{unarmed, Plan};
use crate::builder::{build_owned, build_ref, expect_doc, plain, plain_into, Dist, Doc, OOM};
use crate::ctx::{skip, viol, Ctx, R};
use crate::io::{SimWriter, WFault};
use crate::model::{self, gen_container, gen_doc, Knobs, M};
use crate::reader::digest;
use crate::refpath::{cost, gen_path};
use crate::serdes::{BytesDe, BytesSer, How};
use std::str::FromStr;
use yason::{BuildError, FormatError, PathExpression, QueriedValue, Scalar, Value, Yason, YasonBuf, YasonError};

#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    Done(String),
    Oom,
    Err(String),
}

pub fn build_err(e: &BuildError) -> Out {
    match e {
        BuildError::TryReserveError(_) => Out::Oom,
        e => Out::Err(format!("{e:?}")),
    }
}

pub fn yason_err(e: &YasonError) -> Out {
    match e {
        YasonError::TryReserveError(_) => Out::Oom,
        YasonError::BuildError(BuildError::TryReserveError(_)) => Out::Oom,
        e => Out::Err(format!("{e:?}")),
    }
}

fn bytes_of(b: &[u8]) -> Out {
    Out::Done(format!("{}B#{:x}", b.len(), crate::io::checksum(b)))
}

/// Text errors (path parsing, serde) carry the reservation error as text.
fn text_err(e: &dyn std::fmt::Display, oom_text: &str) -> Out {
    let s = e.to_string();
    if s.contains(oom_text) {
        Out::Oom
    } else {
        Out::Err(s)
    }
}

/// How this standard library words a failed reservation.
fn oom_text() -> String {
    let mut v: Vec<u8> = Vec::new();
    let e = v.try_reserve(usize::MAX / 4).unwrap_err().to_string();
    let cut = e.find(" because").unwrap_or(e.len());
    e[..cut].to_string()
}

fn sweep(ctx: &mut Ctx, what: &str, mut f: impl FnMut() -> Out) -> R {
    let (base, _, seen) = ctx.sut_plan(what, Plan::None, &mut f)?;
    ctx.ev(format!("{what}: {base:?} with {seen} allocations"));
    if base == Out::Oom {
        return viol("oom-without-fault", format!("{what}: out of memory although every allocation succeeded"));
    }
    let mut plans: Vec<Plan> = Vec::new();
    if seen <= 10 {
        for k in 0..=seen {
            plans.push(Plan::Window { from: k, len: 1 });
        }
    } else {
        for _ in 0..10 {
            plans.push(Plan::Window { from: ctx.f(seen as u64) as u32, len: 1 });
        }
        plans.push(Plan::Window { from: seen - 1, len: 1 });
    }
    plans.push(Plan::AtLeast(0));
    plans.push(Plan::Window { from: ctx.f(seen as u64 + 1) as u32, len: 2 + ctx.f(3) as u32 });
    plans.push(Plan::Window { from: ctx.f(seen as u64 + 1) as u32, len: u32::MAX });
    plans.push(Plan::AtLeast([32usize, 129, 300, 2000, 20_000][ctx.f(5) as usize]));
    plans.push(Plan::Budget([100usize, 500, 2000, 10_000][ctx.f(4) as usize]));
    for p in plans {
        let (r, fired, _) = ctx.sut_plan(what, p, &mut f)?;
        ctx.ev(format!("{what} under {p:?}: fired={fired} {r:?}"));
        if r != base && !(fired > 0 && r == Out::Oom) {
            return viol("wrong-under-oom", format!("{what} under {p:?} ({fired} failed): {r:?}, fault-free {base:?}"));
        }
        if fired > 0 {
            let again = ctx.sut(what, &mut f)?;
            if again != base {
                return viol("no-recovery", format!("{what} after {p:?}, with memory back: {again:?}, fault-free {base:?}"));
            }
        }
    }
    Ok(())
}

fn gen_dom(ctx: &mut Ctx, k: &Knobs) -> serde_json::Value {
    let m = gen_doc(ctx, k);
    let v = model::to_json(&m);
    if ctx.n(3) == 2 {
        // a number with more digits than any decimal keeps
        let n = [200usize, 255, 256, 257, 300, 900, 1500, 5000][ctx.n(8) as usize];
        let d = model::fill_str(ctx.n(8), n, b"0123456789");
        let t = match ctx.n(3) {
            0 => format!("0.{d}"),
            1 => format!("1{}", &d[..30]) + "." + &d,
            _ => format!("0.{}1", "0".repeat(n)),
        };
        let num: serde_json::Number = serde_json::from_str(&t).unwrap();
        return match v {
            serde_json::Value::Array(mut a) => {
                a.insert(a.len() / 2, serde_json::Value::Number(num));
                serde_json::Value::Array(a)
            }
            serde_json::Value::Object(mut o) => {
                o.insert("long".into(), serde_json::Value::Number(num));
                serde_json::Value::Object(o)
            }
            _ => serde_json::Value::Number(num),
        };
    }
    v
}

fn queried(q: &QueriedValue) -> Out {
    unarmed(|| {
        let list = |v: &[Value]| {
            let d: Vec<String> = v.iter().map(|x| format!("{:?}", digest(x).map_err(|e| format!("{e:?}")))).collect();
            Out::Done(d.join(","))
        };
        match q {
            QueriedValue::None => Out::Done("none".into()),
            QueriedValue::Value(v) => list(std::slice::from_ref(v)),
            QueriedValue::Values(v) => list(v),
            QueriedValue::ValuesRef(v) => list(v),
            QueriedValue::Yason(y) => bytes_of(y.as_bytes()),
        }
    })
}

/// The failed step of a longer operation is repeated on its own: every push of a document under
/// construction that runs out of memory is made again, and the document comes out undisturbed.
fn retried_steps(ctx: &mut Ctx, k: &Knobs) -> R {
    let m = gen_container(ctx, k);
    let fixed = Some(ctx.n(2) == 1);
    let quiet = Dist { fixed, ..Dist::none() };
    ctx.ev(format!("doc {} sorted={fixed:?}", m.brief()));
    let Doc::Done(base, _) = build_owned(ctx, &m, &mut quiet.clone())? else { return Ok(()) };
    for _ in 0..3 {
        let mut d = Dist { rate: 1 + ctx.f(4), kinds: vec![OOM], left: 1 + ctx.f(12), fixed };
        let n = ctx.f(50) as usize;
        let doc = if ctx.f(2) == 0 {
            build_owned(ctx, &m, &mut d)?
        } else {
            let mut buf = Vec::with_capacity(n);
            build_ref(ctx, &mut buf, &m, &mut d)?
        };
        match doc {
            Doc::Done(b, acked) => {
                expect_doc("document with retried pushes", &b, &acked)?;
                if b != base {
                    return viol("no-recovery", format!("retried pushes gave other bytes than undisturbed ones; document {}", m.brief()));
                }
            }
            Doc::Refused => return viol("no-recovery", format!("could not be finished after retried pushes: {}", m.brief())),
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) -> R {
    let oom = oom_text();
    let k = Knobs::draw(ctx, 40);
    match ctx.n(14) {
        12 | 13 => retried_steps(ctx, &k),
        0 | 1 => {
            let m = gen_doc(ctx, &k);
            ctx.ev(format!("doc {}", m.brief()));
            sweep(ctx, "build", || match plain(&m) {
                Ok(y) => unarmed(|| bytes_of(y.as_bytes())),
                Err(e) => unarmed(|| build_err(&e)),
            })
        }
        2 => {
            let m = gen_doc(ctx, &k);
            let n = ctx.n(40) as usize;
            let room = ctx.n(400) as usize;
            ctx.ev(format!("doc {} behind {n} bytes, room {room}", m.brief()));
            sweep(ctx, "build into buffer", || {
                let mut buf: Vec<u8> = unarmed(|| {
                    let mut b = Vec::with_capacity(n + room);
                    b.resize(n, 7);
                    b
                });
                let r = match plain_into(&m, &mut buf) {
                    Ok(y) => unarmed(|| bytes_of(y.as_bytes())),
                    Err(e) => unarmed(|| build_err(&e)),
                };
                unarmed(|| if buf.len() < n || buf[..n].iter().any(|b| *b != 7) { Out::Err("prefix".into()) } else { r.clone() })
            })
        }
        3 | 4 => {
            let v = gen_dom(ctx, &k);
            ctx.ev(format!("json {}", model::brief_str(&v.to_string())));
            sweep(ctx, "convert json", || match YasonBuf::try_from(&v) {
                Ok(y) => unarmed(|| bytes_of(y.as_bytes())),
                Err(e) => unarmed(|| build_err(&e)),
            })
        }
        5 | 6 | 7 => {
            let m = gen_doc(ctx, &k);
            let y = plain(&m).map_err(skip)?;
            let p = gen_path(ctx, &m, true);
            if cost(&p, &m) > 3000 {
                return Ok(());
            }
            let text = p.render(ctx, false);
            let path = PathExpression::from_str(&text).map_err(skip)?;
            let mode = ctx.n(5);
            let wrapper = ctx.n(4) != 0;
            ctx.ev(format!("query {text} mode {mode} wrapper {wrapper} on {}", m.brief()));
            sweep(ctx, "query", || {
                if mode == 4 {
                    return match path.exists(&y) {
                        Ok(b) => unarmed(|| Out::Done(b.to_string())),
                        Err(e) => unarmed(|| yason_err(&e)),
                    };
                }
                let mut qb: Vec<Value> = Vec::new();
                let mut rb: Vec<u8> = Vec::new();
                let q = path.query(
                    &y,
                    wrapper,
                    if mode & 1 != 0 { Some(&mut qb) } else { None },
                    if mode & 2 != 0 { Some(&mut rb) } else { None },
                );
                match q {
                    Ok(q) => queried(&q),
                    Err(e) => unarmed(|| yason_err(&e)),
                }
            })
        }
        8 => {
            let m = gen_doc(ctx, &k);
            let p = gen_path(ctx, &m, true);
            let mut text = p.render(ctx, true);
            if ctx.n(4) == 3 {
                // also syntax errors
                let cut = ctx.n(text.len() as u64 + 1) as usize;
                let cut = (0..=cut.min(text.len())).rev().find(|i| text.is_char_boundary(*i)).unwrap_or(0);
                text.truncate(cut);
            }
            ctx.ev(format!("path {text}"));
            sweep(ctx, "compile path", || match PathExpression::from_str(&text) {
                Ok(p) => unarmed(|| Out::Done(format!("{p:?}"))),
                Err(e) => unarmed(|| text_err(&e, &oom)),
            })
        }
        9 => {
            let m = gen_doc(ctx, &k);
            let y = plain(&m).map_err(skip)?;
            ctx.ev(format!("copy of {}", m.brief()));
            sweep(ctx, "to_yason_buf", || match y.to_yason_buf() {
                Ok(z) => unarmed(|| bytes_of(z.as_bytes())),
                Err(e) => unarmed(|| yason_err(&e)),
            })?;
            let v = Value::try_from(&*y).map_err(skip)?;
            sweep(ctx, "try_to_yason", || {
                let mut buf = Vec::new();
                match v.try_to_yason(&mut buf) {
                    Ok(z) => unarmed(|| bytes_of(z.as_bytes())),
                    Err(e) => unarmed(|| yason_err(&e)),
                }
            })?;
            let how = [How::Bytes, How::Borrowed, How::Owned][ctx.n(3) as usize];
            sweep(ctx, "deserialize", || {
                match <YasonBuf as serde::Deserialize>::deserialize(BytesDe { bytes: y.as_bytes(), how }) {
                    Ok(z) => unarmed(|| bytes_of(z.as_bytes())),
                    Err(e) => unarmed(|| text_err(&e, &oom)),
                }
            })?;
            sweep(ctx, "serialize", || match serde::Serialize::serialize(&y, BytesSer) {
                Ok(h) => unarmed(|| Out::Done(format!("{h:x}"))),
                Err(e) => unarmed(|| text_err(&e, &oom)),
            })
        }
        10 => {
            let s = model::gen_str(ctx, &k);
            let n = model::gen_num(ctx, &k);
            let kind = ctx.n(8);
            ctx.ev(format!("scalar kind {kind}"));
            sweep(ctx, "scalar", || {
                let mut buf = Vec::new();
                let one = |r: Result<YasonBuf, BuildError>| match r {
                    Ok(y) => unarmed(|| bytes_of(y.as_bytes())),
                    Err(e) => unarmed(|| build_err(&e)),
                };
                let two = |r: Result<&Yason, BuildError>| match r {
                    Ok(y) => unarmed(|| bytes_of(y.as_bytes())),
                    Err(e) => unarmed(|| build_err(&e)),
                };
                match kind {
                    0 => one(Scalar::string(&s)),
                    1 => one(Scalar::number(n)),
                    2 => one(Scalar::bool(true)),
                    3 => one(Scalar::null()),
                    4 => two(Scalar::string_with_vec(&s, &mut buf)),
                    5 => two(Scalar::number_with_vec(n, &mut buf)),
                    6 => two(Scalar::bool_with_vec(false, &mut buf)),
                    _ => two(Scalar::null_with_vec(&mut buf)),
                }
            })
        }
        _ => {
            // reading, comparing and formatting into a caller's writer need no memory of their own
            let m = gen_doc(ctx, &k);
            let y = plain(&m).map_err(skip)?;
            let z = plain(&m).map_err(skip)?;
            ctx.ev(format!("read {}", m.brief()));
            sweep(ctx, "read", || match Value::try_from(&*y).and_then(|v| digest(&v)) {
                Ok(d) => unarmed(|| Out::Done(format!("{d:x}"))),
                Err(e) => unarmed(|| yason_err(&e)),
            })?;
            sweep(ctx, "equals", || match y.equals(&z) {
                Ok(d) => unarmed(|| Out::Done(d.to_string())),
                Err(e) => unarmed(|| yason_err(&e)),
            })?;
            if let M::Obj(v) = &m {
                if let Some((key, _)) = v.first() {
                    sweep(ctx, "get", || match y.object().and_then(|o| o.get(key)).map(|v| v.map(|v| digest(&v))) {
                        Ok(Some(Ok(d))) => unarmed(|| Out::Done(format!("{d:x}"))),
                        Ok(Some(Err(e))) | Err(e) => unarmed(|| yason_err(&e)),
                        Ok(None) => unarmed(|| Out::Done("none".into())),
                    })?;
                }
            }
            let pretty = ctx.n(2) == 1;
            sweep(ctx, "format", || {
                let mut w = unarmed(|| SimWriter::new(WFault::None, 64));
                let r = y.format_to(pretty, &mut w);
                unarmed(|| match &r {
                    Ok(()) => bytes_of(w.out.as_bytes()),
                    Err(FormatError::YasonError(e)) => yason_err(e),
                    Err(e) => Out::Err(format!("{e:?}")),
                })
            })
        }
    }
}
