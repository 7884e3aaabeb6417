//! The nesting limit: exactly 100 levels, whatever the way in; a refusal leaves the builder usable;
//! documents at the limit are fully usable.

use crate::ask::{ask, judge, want};
use crate::builder::*;
use crate::ctx::{skip, viol, Ctx, R};
use crate::io::{SimWriter, WFault};
use crate::model::{self, gen_deep, M};
use crate::reader::{yason_is, value_is};
use crate::reffmt;
use crate::refpath::{Ix, Path, St, Sub};
use std::str::FromStr;
use yason::{PathExpression, Value, Yason, YasonBuf};

/// Path to the innermost container, following the first container child.
fn innermost(m: &M) -> (Vec<St>, &M) {
    let mut steps = Vec::new();
    let mut cur = m;
    loop {
        let next = match cur {
            M::Arr(v) => v.iter().enumerate().find(|(_, x)| x.is_container()).map(|(i, x)| (St::Subs(vec![Sub::One(Ix::At(i))]), x)),
            M::Obj(v) => v.iter().find(|e| e.1.is_container()).map(|e| (St::Key(e.0.clone()), &e.1)),
            _ => None,
        };
        match next {
            Some((s, x)) => {
                steps.push(s);
                cur = x;
            }
            None => return (steps, cur),
        }
    }
}

fn use_it(ctx: &mut Ctx, bytes: &[u8], m: &M) -> R {
    let y: &Yason = unsafe { Yason::new_unchecked(bytes) };
    let bad = |what: &str, e: String| viol("unusable-at-limit", format!("{what} of a document {} levels deep: {e}", m.depth()));
    if let Err(e) = ctx.sut("read", || yason_is(y, m))? {
        return bad("reading", e);
    }
    for pretty in [false, true] {
        let mut w = SimWriter::new(WFault::None, 1000);
        match ctx.sut("format", || y.format_to(pretty, &mut w))? {
            Ok(()) if w.out == reffmt::text(m, pretty) => {}
            Ok(()) => return bad("formatting", format!("wrong text {}", model::brief_str(&w.out))),
            Err(e) => return bad("formatting", format!("{e:?}")),
        }
    }
    let (steps, inner) = innermost(m);
    let p = Path { steps, fun: None };
    let t = p.render(ctx, false);
    let pe = ctx.sut("compile", || PathExpression::from_str(&t))?.map_err(skip)?;
    let wrapper = ctx.n(2) == 1;
    let mut rb = Vec::new();
    let ur = wrapper && ctx.n(2) == 1 && inner.depth() < LIMIT;
    let r = ctx.sut("query", || ask(&pe, y, wrapper, None, if ur { Some(&mut rb) } else { None }))?;
    judge("unusable-at-limit", &format!("query of the innermost of {} levels", m.depth()), &r, &want(&p, m, wrapper))?;
    // the whole document in a wrapper, which is one level more
    let all = PathExpression::from_str("$").map_err(skip)?;
    let (mut qb, mut rb): (Vec<Value>, Vec<u8>) = (Vec::new(), Vec::new());
    let (uq, ur) = (ctx.n(2) == 1, ctx.n(3) == 2);
    let q = ctx.sut("query", || all.query(y, true, if uq { Some(&mut qb) } else { None }, if ur { Some(&mut rb) } else { None }))?;
    match q {
        Ok(q) => {
            let want = M::Arr(vec![m.clone()]);
            for pretty in [true, false] {
                let mut w = SimWriter::new(WFault::None, 1000);
                match ctx.sut("format", || q.format_to(pretty, &mut w))? {
                    Ok(()) if w.out == reffmt::text(&want, pretty) => {}
                    Ok(()) => return bad("formatting a query result", format!("wrong text {}", model::brief_str(&w.out))),
                    Err(e) => return bad("formatting a query result", format!("{e:?}")),
                }
            }
            ctx.probe("wrapped-at-limit");
        }
        // as an encoded document the wrapped answer would itself be nested too deeply
        Err(_) if ur && m.depth() == LIMIT => {}
        Err(e) => return bad("querying", format!("{e:?}")),
    }
    let copy = plain(m).map_err(skip)?;
    match ctx.sut("equals", || (y.equals(&copy), copy.equals(y)))? {
        (Ok(true), Ok(true)) => {}
        e => return bad("equality", format!("{e:?}")),
    }
    let r = ctx.sut("bincode", || bincode::serialize(&copy).and_then(|b| bincode::deserialize::<YasonBuf>(&b)))?;
    match r {
        Ok(z) if z.as_bytes() == copy.as_bytes() => {}
        r => return bad("bincode", format!("{:?}", r.map(|z| z.as_bytes().len()))),
    }
    let r = ctx.sut("serde text", || serde_json::to_string(&copy).and_then(|b| serde_json::from_str::<YasonBuf>(&b)))?;
    match r {
        Ok(z) => {
            if let Err(e) = ctx.sut("read", || yason_is(&z, m))? {
                return bad("serde as text", e);
            }
        }
        Err(e) => return bad("serde as text", e.to_string()),
    }
    let v = ctx.sut("value", || Value::try_from(y))?.map_err(skip)?;
    if let Err(e) = ctx.sut("read", || value_is(&v, m))? {
        return bad("reading as a value", e);
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) -> R {
    let depth = match ctx.n(8) {
        0 => 1 + ctx.n(20) as usize,
        1 => LIMIT - 2,
        2 => LIMIT - 1,
        3 | 4 => LIMIT,
        5 | 6 => LIMIT + 1,
        _ => LIMIT + 2 + ctx.n(20) as usize,
    };
    let m = gen_deep(ctx, depth);
    let depth = m.depth();
    let inner_wide = ctx.n(3) == 2;
    let m = if inner_wide {
        // siblings at the top, so a refusal has something to go on with
        M::Arr(vec![M::Null, m, M::Str("after".into()), M::Arr(vec![]), M::Obj(vec![("k".into(), M::Bool(true))])])
    } else {
        m
    };
    let depth = if inner_wide { depth + 1 } else { depth };
    ctx.ev(format!("depth {depth}, {} nodes", m.nodes()));
    match ctx.n(5) {
        0 | 1 | 2 => {
            let mut d = if ctx.n(2) == 1 { Dist::draw(ctx, &[OOM, UNWIND, PHANTOM, BIGKEY, DEEP]) } else { Dist::none() };
            let doc = if ctx.n(2) == 0 {
                build_owned(ctx, &m, &mut d)?
            } else {
                let mut buf = vec![0x77; ctx.n(5) as usize];
                build_ref(ctx, &mut buf, &m, &mut d)?
            };
            if let Doc::Done(b, acked) = doc {
                expect_doc("deep document", &b, &acked)?;
                use_it(ctx, &b, &acked)?;
                if acked.depth() == LIMIT {
                    ctx.probe("at-limit");
                }
            }
        }
        3 => {
            let v = model::to_json(&m);
            let r = ctx.sut("convert", || YasonBuf::try_from(&v).map(|y| y.as_bytes().to_vec()))?;
            ctx.ev(format!("converted: {}", r.is_ok()));
            match r {
                Ok(_) if depth > LIMIT => return viol("depth-limit", format!("json {depth} levels deep was accepted")),
                Ok(b) => use_it(ctx, &b, &m)?,
                Err(yason::BuildError::NestedTooDeeply) if depth > LIMIT => ctx.fault("nested-too-deep"),
                Err(e) => return viol("depth-limit", format!("json {depth} levels deep: {e:?}")),
            }
        }
        _ => {
            let pretty = ctx.n(2) == 1;
            let t = reffmt::text(&m, pretty);
            let pre = ctx.n(20) as usize;
            let mut buf = vec![0x33u8; pre];
            let r = ctx.sut("parse_to", || Yason::parse_to(&mut buf, &t).map(|y| y.as_bytes().to_vec()))?;
            ctx.ev(format!("parsed: {}", r.is_ok()));
            match r {
                Ok(_) if depth > LIMIT => return viol("depth-limit", format!("text {depth} levels deep was accepted")),
                Ok(b) => use_it(ctx, &b, &m)?,
                Err(_) if depth > LIMIT => ctx.fault("nested-too-deep"),
                Err(e) => return viol("depth-limit", format!("text {depth} levels deep: {e:?}")),
            }
            if depth > LIMIT {
                // the buffer still takes a document that fits
                if buf.len() < pre || buf[..pre].iter().any(|b| *b != 0x33) {
                    return viol("prefix-damaged", "a refused text damaged what the caller had in the buffer");
                }
                buf.truncate(pre);
                let small = gen_deep(ctx, LIMIT);
                let t = reffmt::text(&small, false);
                let r = ctx.sut("parse_to", || Yason::parse_to(&mut buf, &t).map(|y| y.as_bytes().to_vec()))?;
                match r {
                    Ok(b) => use_it(ctx, &b, &small)?,
                    Err(e) => return viol("depth-limit", format!("text 100 levels deep after a refusal: {e:?}")),
                }
            }
        }
    }
    Ok(())
}
