//! One question, every way of asking it: the answers agree.

use crate::alloc::Plan;
use crate::ask::{ask, brief, show, Ans};
use crate::builder::{draw_plan, plain};
use crate::codec;
use crate::ctx::{skip, viol, Ctx, R};
use crate::io::{SimWriter, WFault};
use crate::model::{gen_container, Knobs, M};
use crate::refpath::{cost, gen_path, Fun, Path};
use std::str::FromStr;
use yason::{Number, PathExpression, Value, Yason, YasonError};

fn list(a: &Result<Ans, YasonError>) -> Option<Vec<M>> {
    match a {
        Ok(Ans::None) => Some(Vec::new()),
        Ok(Ans::Many(v)) => Some(v.clone()),
        Ok(Ans::Doc(_, M::Arr(v))) => Some(v.clone()),
        _ => None,
    }
}

fn eq(a: &[M], b: &[M]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y))
}

pub fn run(ctx: &mut Ctx) -> R {
    let k = Knobs::draw(ctx, 30);
    let m = gen_container(ctx, &k);
    let y = plain(&m).map_err(skip)?;
    let y: &Yason = &y;
    let p = gen_path(ctx, &m, false);
    if cost(&p, &m) > 3000 {
        return Ok(());
    }
    let t = p.render(ctx, false);
    let pe = PathExpression::from_str(&t).map_err(skip)?;
    ctx.ev(format!("{t} on {}", m.brief()));
    let stale_doc = codec::encoded(&M::Arr(vec![M::Str("stale".into()), M::Bool(true)]));
    let stale: &Yason = unsafe { Yason::new_unchecked(&stale_doc) };
    let stale_v = Value::try_from(stale).map_err(skip)?;

    // the plain way
    let base_r = ctx.sut("query", || ask(&pe, y, true, None, None))?;
    let Some(base) = list(&base_r) else {
        return viol("modes-disagree", format!("{t} with wrapper: {}", brief(&base_r)));
    };
    ctx.ev(format!("base {}", show(&base)));
    let say = |what: &str, got: String| {
        viol("modes-disagree", format!("{t} on {}: {what} gives {got}; the plain wrapped query gives {}", m.brief(), show(&base)))
    };
    let mut qb: Vec<Value> = Vec::new();
    let mut rb: Vec<u8> = Vec::new();
    let mut texts: [Option<String>; 2] = [None, None];
    let mut result_doc: Option<Vec<u8>> = None;
    let n = 6 + ctx.n(14);
    for _ in 0..n {
        // leave something stale in the buffers
        match ctx.f(5) {
            0 => {
                qb.clear();
                rb.clear();
            }
            1 => {
                for _ in 0..ctx.f(4) {
                    qb.push(stale_v.clone());
                }
                rb.extend_from_slice(&stale_doc);
                ctx.fault("stale-buffers");
            }
            2 => {
                qb = vec![stale_v.clone(); 1 + ctx.f(9) as usize];
                rb = vec![0xff; ctx.f(300) as usize];
                ctx.fault("stale-buffers");
            }
            3 => {
                qb = Vec::with_capacity([0, 1, 100][ctx.f(3) as usize]);
                rb = Vec::with_capacity([0, 1, 64, 5000, 100_000][ctx.f(5) as usize]);
            }
            _ => ctx.fault("reused-buffers"),
        }
        let (uq, ur) = (ctx.n(2) == 1, ctx.n(2) == 1);
        let plan = if ctx.fchance(5) { draw_plan(ctx) } else { Plan::None };
        match ctx.n(9) {
            0 | 1 | 2 => {
                let (r, fired, _) = ctx.sut_plan("query", plan, || {
                    ask(&pe, y, true, if uq { Some(&mut qb) } else { None }, if ur { Some(&mut rb) } else { None })
                })?;
                if r.is_err() && fired > 0 {
                    continue;
                }
                let what = format!("wrapper, query buffer {uq}, result buffer {ur}");
                // a document if there is a buffer to build it in
                let form = match &r {
                    Ok(Ans::Doc(..)) => ur,
                    Ok(Ans::Many(_)) => !ur,
                    _ => true,
                };
                match list(&r) {
                    Some(v) if form && eq(&v, &base) => {}
                    _ => return say(&what, brief(&r)),
                }
                if let Ok(Ans::Doc(b, _)) = &r {
                    if rb != *b {
                        return say(&what, format!("a document of {} bytes but {} bytes in the result buffer", b.len(), rb.len()));
                    }
                    match &result_doc {
                        Some(d) if d != b => return say(&what, "different bytes than before".into()),
                        _ => result_doc = Some(b.clone()),
                    }
                }
            }
            3 | 4 => {
                let (r, fired, _) = ctx.sut_plan("query", plan, || {
                    ask(&pe, y, false, if uq { Some(&mut qb) } else { None }, if ur { Some(&mut rb) } else { None })
                })?;
                if r.is_err() && fired > 0 {
                    continue;
                }
                let good = match (&r, base.len()) {
                    (Ok(Ans::None), 0) => true,
                    (Ok(Ans::One(v)), 1) => v.same(&base[0]),
                    (Ok(Ans::Doc(_, v)), 1) => v.same(&base[0]),
                    (Err(YasonError::MultiValuesWithoutWrapper), n) => n > 1,
                    _ => false,
                };
                if !good {
                    return say(&format!("no wrapper, query buffer {uq}, result buffer {ur}"), brief(&r));
                }
            }
            5 => {
                let (r, fired, _) = ctx.sut_plan("exists", plan, || pe.exists(y))?;
                match r {
                    Ok(b) if b != base.is_empty() => {}
                    Err(_) if fired > 0 => {}
                    r => return say("exists()", format!("{r:?}")),
                }
            }
            6 | 7 => {
                // the same steps with a function behind them
                let f = [Fun::Count, Fun::Size, Fun::Type][ctx.n(3) as usize];
                let fp = Path { steps: p.steps.clone(), fun: Some(f) };
                let ft = fp.render(ctx, false);
                let fe = ctx.sut("compile", || PathExpression::from_str(&ft))?.map_err(skip)?;
                let wrapper = ctx.n(4) != 3;
                let (r, fired, _) = ctx.sut_plan("query", plan, || {
                    ask(&fe, y, wrapper, if uq { Some(&mut qb) } else { None }, if ur { Some(&mut rb) } else { None })
                })?;
                if r.is_err() && fired > 0 {
                    continue;
                }
                if !wrapper {
                    match r {
                        Err(YasonError::MultiValuesWithoutWrapper) => ctx.fault("refused-query"),
                        r => return say(&format!("{ft} without wrapper"), brief(&r)),
                    }
                    match ctx.sut("exists", || fe.exists(y))? {
                        Err(YasonError::InvalidPathExpression) => {}
                        r => return say(&format!("exists() of {ft}"), format!("{r:?}")),
                    }
                    continue;
                }
                let want: Vec<M> = match f {
                    Fun::Count => vec![M::Num(Number::from(base.len() as u64))],
                    Fun::Size => base
                        .iter()
                        .map(|v| M::Num(Number::from(if let M::Arr(a) = v { a.len() as u64 } else { 1 })))
                        .collect(),
                    Fun::Type => base.iter().map(|v| M::Str(v.type_name().into())).collect(),
                };
                match list(&r) {
                    Some(v) if eq(&v, &want) => {}
                    _ => return say(&format!("{ft}, query buffer {uq}, result buffer {ur}"), brief(&r)),
                }
            }
            _ => {
                // formatted answers
                let pretty = ctx.n(2) == 1;
                let mut w = SimWriter::new(WFault::None, 64);
                let r = ctx.sut("query and format", || {
                    let q = pe.query(y, true, if uq { Some(&mut qb) } else { None }, if ur { Some(&mut rb) } else { None });
                    match q {
                        Ok(q) => q.format_to(pretty, &mut w).map_err(|e| format!("{e:?}")),
                        Err(e) => Err(format!("{e:?}")),
                    }
                })?;
                let what = format!("formatting (pretty={pretty}), query buffer {uq}, result buffer {ur}");
                if let Err(e) = r {
                    return say(&what, e);
                }
                match &texts[pretty as usize] {
                    Some(t) if *t != w.out => return say(&what, format!("{:?}, and before {:?}", w.out, t)),
                    Some(_) => {}
                    None => {
                        // the text stands for the same values
                        let back = if w.out.is_empty() {
                            Some(Vec::new())
                        } else {
                            match serde_json::from_str(&w.out).ok().and_then(|v| crate::model::from_json(&v)) {
                                Some(M::Arr(v)) => Some(v),
                                _ => None,
                            }
                        };
                        match back {
                            Some(v) if eq(&v, &base) => {}
                            _ if base.iter().any(|m| m.depth() > 100) => {}
                            _ => return say(&what, format!("{:?}", w.out)),
                        }
                        texts[pretty as usize] = Some(w.out);
                    }
                }
            }
        }
    }
    // what a result document holds is equal to the same array built directly
    if let Some(b) = result_doc {
        let r: &Yason = unsafe { Yason::new_unchecked(&b) };
        let z = plain(&M::Arr(base.clone())).map_err(skip)?;
        match ctx.sut("equals", || r.equals(&z))? {
            Ok(true) => {}
            e => return say("the result document", format!("something that compares {e:?} with the same array built directly")),
        }
    }
    Ok(())
}
