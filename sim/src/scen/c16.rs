//! The documented binary format is what yason writes and all it needs to read.

use crate::ask::{ask, judge, want};
use crate::builder::*;
use crate::codec::{self, Layout};
use crate::ctx::{skip, viol, Ctx, R};
use crate::io::{Placed, SimLink, SimWriter, WFault};
use crate::model::{self, gen_doc, Knobs, M};
use crate::reader::{m_of_yason, yason_is};
use crate::reffmt;
use crate::refpath::{cost, gen_path};
use std::str::FromStr;
use yason::{PathExpression, Yason, YasonBuf};

fn write(ctx: &mut Ctx, m: &M, peer: bool) -> R<Option<(Vec<u8>, M)>> {
    if peer {
        let l = Layout { shuffle: ctx.n(5000), null_fill: ctx.f(1 << 32) as u32 };
        let mut v = Vec::new();
        codec::encode(m, &l, &mut v);
        return Ok(Some((v, m.clone())));
    }
    match ctx.n(4) {
        0 | 1 => {
            let mut d = if ctx.n(3) == 2 { Dist::draw(ctx, &[OOM, UNWIND, PHANTOM]) } else { Dist::none() };
            match build_owned(ctx, m, &mut d)? {
                Doc::Done(b, m) => Ok(Some((b, m))),
                Doc::Refused => Ok(None),
            }
        }
        2 => {
            let v = model::to_json(m);
            let y = ctx.sut("convert", || YasonBuf::try_from(&v))?.map_err(skip)?;
            Ok(Some((y.as_bytes().to_vec(), m.clone())))
        }
        _ => {
            let t = reffmt::text(m, false);
            let y = ctx.sut("parse", || YasonBuf::parse(&t))?.map_err(skip)?;
            Ok(Some((y.as_bytes().to_vec(), m.clone())))
        }
    }
}

fn read(ctx: &mut Ctx, b: &[u8], m: &M, peer: bool) -> R<M> {
    if peer {
        return match codec::decode(b) {
            Ok(got) if got.same(m) => Ok(got),
            Ok(got) => viol("peer-disagrees", format!("a decoder built from the documentation reads {}, yason wrote {}", got.brief(), m.brief())),
            Err(e) => viol("peer-disagrees", format!("a decoder built from the documentation refuses what yason wrote: {e}; {}", m.brief())),
        };
    }
    let skew = ctx.f(65) as usize;
    let p = Placed::new(b, skew, 3);
    let y: &Yason = unsafe { Yason::new_unchecked(p.bytes()) };
    if let Err(e) = ctx.sut("read", || yason_is(y, m))? {
        return viol("peer-disagrees", format!("reading a document another encoder wrote: {e}; document {}", m.brief()));
    }
    match ctx.n(4) {
        0 => {
            let pretty = ctx.n(2) == 1;
            let mut w = SimWriter::new(WFault::None, 64);
            let r = ctx.sut("format", || y.format_to(pretty, &mut w).is_ok())?;
            if !r || w.out != reffmt::text(m, pretty) {
                return viol("peer-disagrees", format!("formatting a document another encoder wrote: ok={r}, {}", model::brief_str(&w.out)));
            }
        }
        1 => {
            let p = gen_path(ctx, m, true);
            if cost(&p, m) < 2000 {
                let t = p.render(ctx, false);
                let pe = PathExpression::from_str(&t).map_err(skip)?;
                let mut rb = Vec::new();
                let ur = ctx.n(2) == 1;
                let r = ctx.sut("query", || ask(&pe, y, true, None, if ur { Some(&mut rb) } else { None }))?;
                judge("peer-disagrees", &format!("{t} on a document another encoder wrote, {}", m.brief()), &r, &want(&p, m, true))?;
                if let Ok(crate::ask::Ans::Doc(b, _)) = &r {
                    if let Err(e) = codec::decode(b) {
                        return viol("peer-disagrees", format!("the result document of {t} on another encoder's document is malformed: {e}"));
                    }
                }
            }
        }
        2 => {
            // it equals what yason, or a third implementation, makes of the same content
            let other = match ctx.n(3) {
                0 => model::mutate(ctx, m),
                _ => m.clone(),
            };
            let mut v = Vec::new();
            if ctx.n(2) == 0 {
                let l = Layout { shuffle: ctx.n(5000), null_fill: ctx.f(1 << 32) as u32 };
                codec::encode(&other, &l, &mut v);
            } else {
                v = plain(&other).map_err(skip)?.as_bytes().to_vec();
            }
            let z: &Yason = unsafe { Yason::new_unchecked(&v) };
            let exp = other.same(m);
            match ctx.sut("equals", || (y.equals(z), z.equals(y)))? {
                (Ok(a), Ok(b)) if a == exp && b == exp => {}
                r => return viol("peer-disagrees", format!("equals gives {r:?} between {} and {} of another encoder", m.brief(), other.brief())),
            }
        }
        _ => {}
    }
    let r = ctx.sut("read", || m_of_yason(y))?;
    match r {
        Ok(m) => Ok(m),
        Err(e) => viol("peer-disagrees", e),
    }
}

pub fn run(ctx: &mut Ctx) -> R {
    let k = Knobs::draw(ctx, 40);
    let origin = gen_doc(ctx, &k);
    ctx.ev(format!("origin {}", origin.brief()));
    let mut cur = origin.clone();
    let hops = 1 + ctx.n(5);
    let mut link = SimLink::new(false);
    let mut changed = false;
    for h in 0..hops {
        let (wp, rp) = match ctx.n(4) {
            0 => (false, true),
            1 => (true, false),
            2 => (false, false),
            _ => (true, false),
        };
        let Some((b, m)) = write(ctx, &cur, wp)? else { return Ok(()) };
        if !m.same(&cur) {
            // disturbed pushes that were acknowledged after all are part of the document
            changed = true;
        }
        if wp != rp {
            ctx.fault("foreign-peer");
        }
        // deliver at least once; what arrives twice reads the same twice
        let mut seen = None;
        for _ in 0..50 {
            link.send(ctx, h, &b);
            while let Some(f) = link.recv() {
                if f.seq != h {
                    continue;
                }
                let r = read(ctx, &f.body, &m, rp)?;
                seen = Some(r);
            }
            if seen.is_some() {
                break;
            }
            link.healthy = true;
        }
        link.healthy = false;
        ctx.ev(format!("hop {h}: {} to {}, {} bytes", if wp { "peer" } else { "yason" }, if rp { "peer" } else { "yason" }, b.len()));
        match seen {
            Some(m) => cur = m,
            None => return viol("harness", "the link never delivered"),
        }
    }
    if !changed && !cur.same(&origin) {
        return viol("peer-disagrees", format!("after {hops} hops {} became {}", origin.brief(), cur.brief()));
    }
    Ok(())
}
