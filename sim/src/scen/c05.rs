//! The encoded bytes depend on nothing but the content and the build steps.

use crate::alloc::{self, Plan};
use crate::builder::*;
use crate::ctx::{skip, viol, Ctx, R};
use crate::model::{self, gen_doc, Knobs, M};
use crate::reffmt;
use crate::refpath::{cost, gen_path};
use crate::sysfake;
use crate::tape::mix;
use std::str::FromStr;
use yason::{PathExpression, QueriedValue, Value, Yason, YasonBuf};

fn env(ctx: &mut Ctx) {
    let g = ctx.f(1 << 32);
    let skew = ctx.f(25);
    alloc::set_env(mix(g, ctx.env), skew);
    sysfake::seed(mix(g, 77));
    ctx.fault("new-environment");
}

fn dirty(ctx: &mut Ctx, n: usize) -> Vec<u8> {
    // capacity that holds bytes of an earlier life
    let mut v = vec![0x80 | ctx.f(127) as u8; n];
    v.clear();
    v
}

fn same(what: &str, a: &[u8], b: &[u8], m: &M) -> R {
    if a == b {
        return Ok(());
    }
    let at = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    viol("bytes-differ", format!("{what}: {} bytes against {}, first difference at {at}; document {}", b.len(), a.len(), m.brief()))
}

pub fn run(ctx: &mut Ctx) -> R {
    let k = Knobs::draw(ctx, 50);
    let m = gen_doc(ctx, &k);
    let fixed = Some(ctx.n(2) == 1);
    ctx.ev(format!("doc {} sorted={fixed:?}", m.brief()));
    let quiet = Dist { fixed, ..Dist::none() };
    alloc::set_env(1, 0);
    let base = match build_owned(ctx, &m, &mut quiet.clone())? {
        Doc::Done(b, _) => b,
        Doc::Refused => return Ok(()),
    };
    let n = 2 + ctx.n(6);
    for _ in 0..n {
        env(ctx);
        match ctx.n(10) {
            0 => {
                if let Doc::Done(b, _) = build_owned(ctx, &m, &mut quiet.clone())? {
                    same("owned builder, other environment", &base, &b, &m)?;
                }
            }
            1 | 2 => {
                let cap = ctx.f(2000) as usize;
                let pre = ctx.f(70) as usize;
                let mut buf = dirty(ctx, cap.max(pre));
                buf.resize(pre, 1);
                ctx.fault("stale-buffer");
                if let Doc::Done(b, _) = build_ref(ctx, &mut buf, &m, &mut quiet.clone())? {
                    same("by-reference builder over a used buffer", &base, &b, &m)?;
                }
            }
            3 | 4 => {
                // refused, failed and unwound pushes in between
                let mut d = Dist::draw(ctx, &[OOM, UNWIND, BIGKEY, OVER, REENTRANT]);
                d.fixed = fixed;
                let doc = if ctx.n(2) == 0 {
                    build_owned(ctx, &m, &mut d)?
                } else {
                    let cap = ctx.f(500) as usize;
                    let mut buf = dirty(ctx, cap);
                    build_ref(ctx, &mut buf, &m, &mut d)?
                };
                if let Doc::Done(b, _) = doc {
                    same("builder with refused pushes in between", &base, &b, &m)?;
                }
            }
            5 => {
                // nested inside another document, at another offset
                let pad = model::fill_str(ctx.f(9), ctx.f(40) as usize, b"pad");
                let outer = M::Arr(vec![M::Str(pad), m.clone(), M::Null]);
                if let Doc::Done(b, _) = build_owned(ctx, &outer, &mut quiet.clone())? {
                    let y: &Yason = unsafe { Yason::new_unchecked(&b) };
                    let inner = ctx.sut("get nested", || {
                        let v = y.array()?.get(1)?;
                        Ok::<_, yason::YasonError>(match &v {
                            Value::Array(a) => Some(a.yason().as_bytes().to_vec()),
                            Value::Object(o) => Some(o.yason().as_bytes().to_vec()),
                            _ => None,
                        })
                    })?;
                    match inner {
                        Ok(Some(b)) => same("nested in another document", &base, &b, &m)?,
                        Ok(None) => {}
                        Err(e) => return viol("unreadable", format!("nested value: {e:?}")),
                    }
                }
            }
            6 => {
                // json, twice
                let v = model::to_json(&m);
                let a = ctx.sut("convert", || YasonBuf::try_from(&v))?.map_err(skip)?;
                env(ctx);
                let b = ctx.sut("convert", || YasonBuf::try_from(&v))?.map_err(skip)?;
                same("json conversion, other environment", a.as_bytes(), b.as_bytes(), &m)?;
                let t = reffmt::text(&m, false);
                let c = ctx.sut("parse", || YasonBuf::parse(&t))?.map_err(skip)?;
                same("parsing, against conversion", a.as_bytes(), c.as_bytes(), &m)?;
                let cap = ctx.f(300) as usize;
                let mut buf = dirty(ctx, cap);
                let r = ctx.sut("parse_to", || Yason::parse_to(&mut buf, &t).map(|y| y.as_bytes().to_vec()))?.map_err(skip)?;
                same("parsing into a used buffer", a.as_bytes(), &r, &m)?;
            }
            7 => {
                // query results, twice
                let p = gen_path(ctx, &m, true);
                if cost(&p, &m) > 2000 {
                    continue;
                }
                let t = p.render(ctx, false);
                let y: &Yason = unsafe { Yason::new_unchecked(&base) };
                let mut last: Option<Vec<u8>> = None;
                for _ in 0..3 {
                    env(ctx);
                    let pe = PathExpression::from_str(&t).map_err(skip)?;
                    let cap = ctx.f(300) as usize;
                    let mut rb = dirty(ctx, cap);
                    let keep = ctx.f(cap as u64 + 1) as usize;
                    rb.resize(keep, 3);
                    let r = ctx.sut("query", || match pe.query(y, true, None, Some(&mut rb)) {
                        Ok(QueriedValue::Yason(y)) => Ok(y.as_bytes().to_vec()),
                        Ok(_) => Ok(Vec::new()),
                        Err(e) => Err(e),
                    })?;
                    let r = r.map_err(skip)?;
                    if let Some(l) = &last {
                        same(&format!("result of {t}, other environment"), l, &r, &m)?;
                    }
                    last = Some(r);
                }
            }
            8 => {
                let y: &Yason = unsafe { Yason::new_unchecked(&base) };
                let c = ctx.sut("to_yason_buf", || y.to_yason_buf())?.map_err(skip)?;
                same("to_yason_buf", &base, c.as_bytes(), &m)?;
                let c2 = ctx.sut("to_owned", || y.to_owned())?;
                same("to_owned", &base, c2.as_bytes(), &m)?;
                // over something else, and over something that is almost the same
                let mut c3 = plain(&M::Str("old".repeat(ctx.f(200) as usize))).map_err(skip)?;
                for i in 0..3 {
                    if i > 0 {
                        let near = if ctx.f(3) == 0 { model::mutate(ctx, &m) } else { model::mutate_in_place(ctx, &m) };
                        let Ok(b) = plain(&near) else { continue };
                        c3 = b;
                    }
                    if ctx.f(2) == 0 {
                        ctx.sut("clone_from_yason", || c3.clone_from_yason(y))?;
                    } else {
                        ctx.sut("clone_into", || y.clone_into(&mut c3))?;
                    }
                    same("clone_from_yason", &base, c3.as_bytes(), &m)?;
                }
                let mut c4 = ctx.sut("clone", || c3.clone())?;
                same("clone", &base, c4.as_bytes(), &m)?;
                if let Ok(b) = plain(&model::mutate_in_place(ctx, &m)) {
                    c4 = b;
                }
                ctx.sut("clone_from", || c4.clone_from(&c3))?;
                same("clone_from", &base, c4.as_bytes(), &m)?;
            }
            _ => {
                // a scalar next to failed attempts
                let s = model::gen_scalar(ctx, &k);
                let a = ctx.sut("scalar", || plain(&s))?.map_err(skip)?;
                env(ctx);
                let cap = ctx.f(64) as usize;
                let mut buf = dirty(ctx, cap);
                let p = draw_plan(ctx);
                let (_, fired, _) = ctx.sut_plan("scalar", p, || plain_into(&s, &mut buf).is_ok())?;
                if fired > 0 {
                    ctx.fault("failed-append");
                }
                let at = buf.len();
                let (r, _, _) = ctx.sut_plan("scalar", Plan::None, || plain_into(&s, &mut buf).map(|y| y.as_bytes().to_vec()))?;
                same("scalar by reference", a.as_bytes(), &r.map_err(skip)?, &s)?;
                let _ = at;
            }
        }
    }
    Ok(())
}
