//! Every answer to a path query is what the path semantics say, whatever was asked before.

use crate::alloc::Plan;
use crate::ask::{ask, judge, want};
use crate::builder::{draw_plan, plain};
use crate::codec::{self, Layout};
use crate::ctx::{skip, viol, Ctx, R};
use crate::io::Placed;
use crate::model::{gen_container, gen_deep, gen_doc, mutate, mutate_in_place, Knobs, M};
use crate::refpath::{cost, gen_path, Fun, Ix, Path, St, Sub};
use std::str::FromStr;
use yason::{PathExpression, Value, Yason};

fn bytes_of(ctx: &mut Ctx, m: &M) -> R<Vec<u8>> {
    Ok(if ctx.n(4) == 3 {
        let mut v = Vec::new();
        let l = Layout { shuffle: ctx.n(1000), null_fill: ctx.n(1 << 32) as u32 };
        codec::encode(m, &l, &mut v);
        v
    } else {
        plain(m).map_err(skip)?.as_bytes().to_vec()
    })
}

fn compile(ctx: &mut Ctx, docs: &[(M, Placed)]) -> R<(Path, String, PathExpression)> {
    let d = ctx.n(docs.len() as u64) as usize;
    let p = gen_path(ctx, &docs[d].0, true);
    let spaces = ctx.n(3) == 2;
    let t = p.render(ctx, spaces);
    match ctx.sut("compile path", || PathExpression::from_str(&t))? {
        Ok(e) => Ok((p, t, e)),
        Err(e) => viol("valid-path-refused", format!("{t}: {e}")),
    }
}

/// Many elements and many results: sizes, counts and subscripts beyond what one or two bytes hold.
fn many(ctx: &mut Ctx) -> R {
    let (last, at) = (Ix::Last(0), |i: usize| Ix::At(i));
    let all = Sub::Range(at(0), Ix::Last(0));
    let n = match ctx.n(4) {
        0 => 250 + ctx.n(12) as usize,
        1 => 32_760 + ctx.n(16) as usize,
        2 => 65_520 + ctx.n(14) as usize,
        _ => 1000 + ctx.n(3000) as usize,
    };
    let el = |i: usize| match i % 4 {
        0 => M::Num(yason::Number::from(i as u64)),
        1 => M::Bool(i % 8 == 1),
        2 => M::Str(format!("{i}")),
        _ => M::Null,
    };
    let obj = ctx.n(4) == 3;
    let big = if obj {
        M::Obj((0..n).map(|i| (format!("k{}", i * 7919 % 1_000_003), el(i))).collect())
    } else {
        M::Arr((0..n).map(el).collect())
    };
    let nested = ctx.n(2) == 1;
    let m = if nested { M::Arr(vec![M::Bool(true), big.clone()]) } else { big.clone() };
    let b = bytes_of(ctx, &m)?;
    let place = Placed::new(&b, ctx.f(64) as usize, 11);
    let y: &Yason = unsafe { Yason::new_unchecked(place.bytes()) };
    ctx.ev(format!("{n} elements, object {obj}, nested {nested}"));
    ctx.fault("many-results");
    let mut rb: Vec<u8> = vec![9; ctx.n(5) as usize];
    let mut qb: Vec<Value> = Vec::new();
    for _ in 0..2 + ctx.n(3) {
        let mut steps = Vec::new();
        if nested {
            steps.push(match ctx.n(3) {
                0 => St::Subs(vec![Sub::One(at(1))]),
                1 => St::Subs(vec![Sub::One(last.clone())]),
                _ => St::AnyIx,
            });
        }
        let (mut count, mut reps) = (false, 1);
        match ctx.n(if obj { 3 } else { 6 }) {
            0 => {}
            1 if obj => steps.push(St::AnyKey),
            1 => steps.push(St::AnyIx),
            2 if obj => steps.push(St::Key(format!("k{}", ctx.n(n as u64) as usize * 7919 % 1_000_003))),
            2 | 3 => {
                // single places near the ends and near the points where widths change
                let e = [0usize, 127, 255, 256, 32_767, 32_768, 65_535, 65_536, n - 1, n, n / 2][ctx.n(11) as usize];
                let x = if ctx.n(2) == 0 { Ix::At(e) } else { Ix::Last(e) };
                let z = if ctx.n(2) == 0 { Sub::One(x) } else { Sub::Range(x.clone(), x) };
                steps.push(St::Subs(vec![z, Sub::One(Ix::Last(ctx.n(3) as usize))]));
            }
            _ => {
                // more results than the array has elements
                reps = 1 + ctx.n(70_000 / n as u64 + 2) as usize;
                steps.push(St::Subs(vec![all.clone(); reps]));
                count = reps * (n + 1) > 65_535;
            }
        }
        let fun = if count { Some(Fun::Count) } else { [Some(Fun::Count), Some(Fun::Size), None, Some(Fun::Type)][ctx.n(4) as usize] };
        let p = Path { steps, fun };
        let t = p.render(ctx, false);
        let e = match ctx.sut("compile path", || PathExpression::from_str(&t))? {
            Ok(e) => e,
            Err(e) => return viol("valid-path-refused", format!("{}: {e}", &t[..t.len().min(200)])),
        };
        let (uq, ur) = (ctx.n(2) == 1, ctx.n(2) == 1);
        let wrapper = ctx.n(4) != 3;
        let r = ctx.sut("query", || ask(&e, y, wrapper, if uq { Some(&mut qb) } else { None }, if ur { Some(&mut rb) } else { None }))?;
        let short: String = t.chars().take(80).collect();
        ctx.ev(format!("{short} x{reps} wrapper={wrapper} buffers {uq} {ur}: {}", crate::ask::brief(&r)));
        judge("wrong-answer", &format!("{short} (x{reps}, wrapper={wrapper}) on {n} elements"), &r, &want(&p, &m, wrapper))?;
        if p.fun.is_none() {
            let r = ctx.sut("exists", || e.exists(y))?;
            if r.as_ref().ok() != Some(&!p.matches(&m).is_empty()) {
                return viol("wrong-answer", format!("exists {short} on {n} elements: {r:?}"));
            }
        }
    }
    Ok(())
}

/// A path of very many steps: the answer must not depend on how much stack there is.
fn far(ctx: &mut Ctx) -> R {
    let k = Knobs::draw_small(ctx, 12);
    let m = gen_container(ctx, &k);
    let b = bytes_of(ctx, &m)?;
    let y: &Yason = unsafe { Yason::new_unchecked(&b) };
    let mut p = gen_path(ctx, &m, true);
    if p.steps.len() > 3 {
        p.steps.truncate(3);
    }
    let (zero, last) = (Ix::At(0), Ix::Last(0));
    let kinds = 1 + ctx.n(3);
    let unit: Vec<St> = (0..kinds)
        .map(|_| match ctx.n(7) {
            0 => St::Subs(vec![Sub::One(zero.clone())]),
            1 => St::AnyIx,
            2 => St::Subs(vec![Sub::One(last.clone())]),
            3 => St::Subs(vec![Sub::Range(zero.clone(), last.clone())]),
            4 => St::Subs(vec![Sub::Range(zero.clone(), Ix::At(3))]),
            5 => St::Subs(vec![Sub::One(Ix::At(70)), Sub::One(last.clone())]),
            _ => St::Subs(vec![Sub::One(zero.clone()), Sub::One(Ix::Last(70))]),
        })
        .collect();
    let n = [300usize, 10_000, 60_000, 120_000][ctx.n(4) as usize];
    for i in 0..n {
        p.steps.push(unit[i % unit.len()].clone());
    }
    if ctx.n(4) == 3 {
        p.steps.push(St::Subs(vec![Sub::One(Ix::At(1))]));
    }
    if ctx.n(2) == 1 {
        // one step of very many subscripts, of which the last selects something
        let mut v = vec![Sub::One(Ix::At(70)); 120_000];
        v.push(Sub::Range(last.clone(), last.clone()));
        p.steps.push(St::Subs(v));
    }
    let t = p.render(ctx, false);
    let short: String = t.chars().take(80).collect();
    ctx.fault("small-stack");
    let e = match ctx.sut("compile path", || PathExpression::from_str(&t))? {
        Ok(e) => e,
        Err(e) => return viol("valid-path-refused", format!("{short}...: {e}")),
    };
    let wrapper = ctx.n(4) != 3;
    let r = ctx.sut("query", || ask(&e, y, wrapper, None, None))?;
    ctx.ev(format!("{short}... {n} steps, wrapper={wrapper}: {}", crate::ask::brief(&r)));
    judge("wrong-answer", &format!("{short}... ({n} steps, wrapper={wrapper}) on {}", m.brief()), &r, &want(&p, &m, wrapper))?;
    if p.fun.is_none() {
        let r = ctx.sut("exists", || e.exists(y))?;
        if r.as_ref().ok() != Some(&!p.matches(&m).is_empty()) {
            return viol("wrong-answer", format!("exists {short}... ({n} steps) on {}: {r:?}", m.brief()));
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) -> R {
    if ctx.idx % 1600 == 57 {
        return far(ctx);
    }
    if ctx.idx % 400 == 123 {
        return many(ctx);
    }
    let k = Knobs::draw(ctx, 40);
    // documents
    let nd = 1 + ctx.n(3) as usize;
    let mut docs: Vec<(M, Placed)> = Vec::new();
    for _ in 0..nd {
        let m = match ctx.n(12) {
            0 => gen_doc(ctx, &k),
            11 => {
                let d = 1 + ctx.n(100) as usize;
                gen_deep(ctx, d)
            }
            _ => gen_container(ctx, &k),
        };
        let b = bytes_of(ctx, &m)?;
        let skew = ctx.f(64) as usize;
        ctx.ev(format!("doc {}: {}", docs.len(), m.brief()));
        docs.push((m, Placed::new(&b, skew, 11)));
    }
    // expressions
    let mut pool: Vec<(Path, String, PathExpression)> = Vec::new();
    let np = 1 + ctx.n(6) as usize;
    for _ in 0..np {
        let c = compile(ctx, &docs)?;
        ctx.ev(format!("path {}: {}", pool.len(), c.1));
        pool.push(c);
    }
    let mut rb: Vec<u8> = Vec::with_capacity([0, 0, 64, 5000, 100_000][ctx.n(5) as usize]);
    // several epochs: in between, documents are replaced by others in the same place, and
    // expressions by new ones
    for epoch in 0..1 + ctx.n(3) {
        if epoch > 0 {
            for (i, (m, place)) in docs.iter_mut().enumerate() {
                let n = match ctx.n(4) {
                    0 | 1 => mutate_in_place(ctx, m),
                    2 => mutate(ctx, m),
                    _ => continue,
                };
                let b = bytes_of(ctx, &n)?;
                if place.reload(&b) {
                    ctx.fault("reused-place");
                    ctx.ev(format!("doc {i} replaced: {}", n.brief()));
                    *m = n;
                }
            }
            if ctx.n(3) == 2 {
                let i = ctx.n(pool.len() as u64) as usize;
                pool.remove(i);
                let c = compile(ctx, &docs)?;
                ctx.ev(format!("path {i} replaced: {}", c.1));
                pool.insert(i, c);
            }
        }
        questions(ctx, &docs, &pool, &mut rb)?;
    }
    Ok(())
}

fn questions(ctx: &mut Ctx, docs: &[(M, Placed)], pool: &[(Path, String, PathExpression)], rb: &mut Vec<u8>) -> R {
    let nd = docs.len();
    let mut qb: Vec<Value> = Vec::new();
    let steps = 3 + ctx.n(12);
    for _ in 0..steps {
        let d = ctx.n(nd as u64) as usize;
        let i = ctx.n(pool.len() as u64) as usize;
        let (p, t, e) = &pool[i];
        let (m, place) = &docs[d];
        if cost(p, m) > 4000 {
            continue;
        }
        let y: &Yason = unsafe { Yason::new_unchecked(place.bytes()) };
        let plan = if ctx.fchance(6) { draw_plan(ctx) } else { Plan::None };
        match ctx.n(8) {
            0 => {
                // exists()
                let (r, fired, _) = ctx.sut_plan("exists", plan, || e.exists(y))?;
                ctx.ev(format!("exists {i} on {d}: {r:?}"));
                match r {
                    Ok(b) if p.fun.is_none() && b != p.matches(m).is_empty() => {}
                    Err(yason::YasonError::InvalidPathExpression) if p.fun.is_some() => ctx.fault("refused-query"),
                    Err(_) if fired > 0 => ctx.fault("failed-query"),
                    r => return viol("wrong-answer", format!("exists {t} on {}: {r:?}", m.brief())),
                }
            }
            1 => {
                // a path that does not compile must not disturb the others
                let cut = 1 + ctx.f(t.len() as u64) as usize;
                let bad: String = t.chars().take(cut).chain("[".chars()).collect();
                let r = ctx.sut("compile a malformed path", || PathExpression::from_str(&bad).is_ok())?;
                ctx.fault("malformed-path");
                ctx.ev(format!("malformed path: accepted={r}"));
            }
            x => {
                let wrapper = x != 2;
                let (uq, ur) = (ctx.n(3) != 0, ctx.n(3) == 2);
                if !qb.is_empty() && uq {
                    ctx.fault("stale-query-buffer");
                }
                if !rb.is_empty() && ur {
                    ctx.fault("stale-result-buffer");
                }
                let (r, fired, _) = ctx.sut_plan("query", plan, || {
                    ask(e, y, wrapper, if uq { Some(&mut qb) } else { None }, if ur { Some(&mut *rb) } else { None })
                })?;
                ctx.ev(format!("query {i} on {d} wrapper={wrapper} buffers {uq} {ur}, fired={fired}: {}", crate::ask::brief(&r)));
                if r.is_err() && fired > 0 {
                    ctx.fault("failed-query");
                    continue;
                }
                let w = want(p, m, wrapper);
                if matches!(w, crate::ask::Want::Refused) {
                    ctx.fault("refused-query");
                }
                judge("wrong-answer", &format!("{t} (wrapper={wrapper}) on {}", m.brief()), &r, &w)?;
                if p.matches(m).len() > 1 {
                    ctx.probe("several-matches");
                }
            }
        }
    }
    Ok(())
}
