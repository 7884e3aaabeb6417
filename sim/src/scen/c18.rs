//! Every call ends within a number of steps in proportion to what it has to look at: a lookup does
//! not go through the document, nothing goes through it more often than needed, also when calls fail.
//!
//! A step is a basic block, load or store inside yason (counted by the stepped build); copying,
//! comparing and asking for memory count by their bytes. The allowance of a call is a constant, some
//! ten times what the call takes, times the size of what it has to look at.

use crate::alloc::{self, Plan};
use crate::builder::{draw_plan, plain, plain_into, plain_obj, ArrB, ObjB};
use crate::codec::{self, Layout};
use crate::ctx::{skip, viol, Ctx, R};
use crate::io::{draw_wfault, SimWriter, WFault};
use crate::model::{fill_str, gen_deep, gen_doc, key_cmp, mutate, one_off, sorted, to_json, Knobs, M};
use crate::reffmt;
use crate::refpath::{gen_path, select, Fun, Ix, Path, St, Sub};
use crate::serdes::{BytesDe, How};
use serde::Deserialize;
use std::fmt::Write;
use std::str::FromStr;
use steprt::{HOOK, MOVED, QUANTUM};
use yason::{DataType, Number, PathExpression, Value, Yason, YasonBuf};

/// No end in sight.
fn runaway(statics: bool) -> u64 {
    if !statics {
        std::process::abort();
    }
    0
}

/// Calls into yason with the allowance `k * units`.
fn within<T>(ctx: &mut Ctx, what: &str, plan: Plan, k: u64, units: u64, f: impl FnOnce() -> T) -> R<(T, u32)> {
    within_and(ctx, what, plan, k, units, 0, f)
}

/// The same, with something on top.
fn within_and<T>(ctx: &mut Ctx, what: &str, plan: Plan, k: u64, units: u64, extra: u64, f: impl FnOnce() -> T) -> R<(T, u32)> {
    let allowed = k * units + extra;
    let limit = allowed * 30 + 20_000_000;
    HOOK.with(|h| h.set(Some(runaway)));
    MOVED.with(|m| m.set(0));
    QUANTUM.with(|q| q.set(limit));
    let r = ctx.sut_plan(what, plan, f);
    let steps = limit - QUANTUM.with(|q| q.replace(0));
    HOOK.with(|h| h.set(None));
    let (moved, asked) = (MOVED.with(|m| m.get()), alloc::asked() as u64);
    let work = steps + moved / 4 + asked / 4;
    if std::option_env!("C18_MEASURE").is_some() {
        eprintln!("M {:.3} {} | {what} steps {steps} moved {moved} asked {asked} units {units} extra {extra}", work.saturating_sub(extra / 64) as f64 / units as f64, what.split(' ').next().unwrap_or(""));
    }
    let (r, fired, _) = r?;
    if work > allowed {
        return viol("too-much-work", format!("{what}: took more than the {allowed} steps it may take (size {units})"));
    }
    Ok((r, fired))
}

fn log2(n: usize) -> u64 {
    64 - (n as u64 + 1).leading_zeros() as u64
}

/// Size of a search for a key among n.
fn search(n: usize, key: usize) -> u64 {
    (log2(n) + 2) * (2 + key as u64 / 8)
}

/// Values and text in a document.
fn nodes(m: &M) -> u64 {
    match m {
        M::Arr(v) => 1 + v.iter().map(nodes).sum::<u64>(),
        M::Obj(v) => 1 + v.iter().map(|e| nodes(&e.1) + 1 + e.0.len() as u64 / 8).sum::<u64>(),
        M::Str(s) => 1 + s.len() as u64 / 8,
        _ => 1,
    }
}

/// Size of building a document: its values and text, and putting the members of objects in order.
fn making(m: &M) -> u64 {
    match m {
        M::Arr(v) => 2 + v.iter().map(making).sum::<u64>(),
        M::Obj(v) => {
            let key = v.iter().map(|e| e.0.len()).max().unwrap_or(0);
            2 + v.iter().map(|e| making(&e.1) + log2(v.len()) * (1 + key as u64 / 16) + e.0.len() as u64 / 8).sum::<u64>()
        }
        M::Str(s) => 2 + s.len() as u64 / 8,
        _ => 2,
    }
}

/// Pairs of keys that are pushed in the wrong order: a key goes to its place in the table of the keys
/// pushed so far, and the entries behind it move on by one.
/// `text`: keys come in the order of their characters, as serde_json keeps them.
fn moves(m: &M, text: bool) -> u64 {
    fn merge(v: &mut Vec<&str>) -> u64 {
        if v.len() < 2 {
            return 0;
        }
        let mut b = v.split_off(v.len() / 2);
        let mut n = merge(v) + merge(&mut b);
        let a = std::mem::take(v);
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            if j == b.len() || (i < a.len() && key_cmp(a[i], b[j]).is_le()) {
                v.push(a[i]);
                i += 1;
            } else {
                v.push(b[j]);
                j += 1;
                n += (a.len() - i) as u64;
            }
        }
        n
    }
    match m {
        M::Arr(v) => v.iter().map(|x| moves(x, text)).sum(),
        M::Obj(v) => {
            let mut keys: Vec<&str> = v.iter().map(|e| e.0.as_str()).collect();
            if text {
                keys.sort_unstable();
            }
            merge(&mut keys) + v.iter().map(|e| moves(&e.1, text)).sum::<u64>()
        }
        _ => 0,
    }
}

/// Size of a query: what its steps have to visit. With `first`, up to the first match.
fn asking(m: &M, mut steps: &[St], first: bool, u: &mut u64) -> bool {
    if *u > 3_000_000 {
        return true;
    }
    *u += 2;
    while let (false, Some(st)) = (matches!(m, M::Arr(_)), steps.first()) {
        match st {
            St::AnyIx => *u += 1,
            St::Subs(s) => {
                *u += s.len() as u64;
                if !s.iter().any(|s| matches!(select(s, 1), Some((0, _)))) {
                    return false;
                }
            }
            _ => break,
        }
        steps = &steps[1..];
    }
    let Some((st, rest)) = steps.split_first() else { return true };
    let mut any = false;
    // true: enough is known
    let mut go = |x: &M, steps: &[St], u: &mut u64| {
        any |= asking(x, steps, first, u);
        any && first
    };
    match (st, m) {
        (St::Key(k), M::Obj(v)) => {
            *u += search(v.len(), k.len());
            if let Some((_, x)) = v.iter().find(|e| e.0 == *k) {
                go(x, rest, u);
            }
        }
        (St::AnyKey, M::Obj(v)) => {
            for e in sorted(v) {
                if go(&e.1, rest, u) {
                    break;
                }
            }
        }
        (St::AnyIx, M::Arr(v)) => {
            v.iter().any(|x| go(x, rest, u));
        }
        (St::Subs(subs), M::Arr(v)) => {
            'subs: for s in subs {
                *u += 1;
                if let Some((b, e)) = select(s, v.len()) {
                    for x in &v[b..=e] {
                        if go(x, rest, u) {
                            break 'subs;
                        }
                    }
                }
            }
        }
        (St::Desc(k), M::Obj(v)) => {
            *u += search(v.len(), k.len());
            if let Some((_, x)) = v.iter().find(|e| e.0 == *k) {
                if go(x, rest, u) {
                    return true;
                }
            }
            for e in sorted(v) {
                if go(&e.1, steps, u) {
                    break;
                }
            }
        }
        (St::Key(_) | St::AnyKey | St::Desc(_), M::Arr(v)) => {
            v.iter().any(|x| go(x, steps, u));
        }
        _ => {}
    }
    any
}

// ------------------------------------------------------------------------------------------------
// Documents

fn key_of(i: usize, style: u64, len: usize) -> String {
    match style {
        // of several lengths
        0 => format!("k{i}"),
        // of one length
        1 => format!("{:06}", i * 7919 % 1_000_003),
        // long ones, different at the end
        2 => format!("{}{i:06}", "y".repeat(len)),
        // long ones, different at the start
        3 => format!("{i:06}{}", "y".repeat(len)),
        // of very many lengths
        _ => format!("{i:x}{}", "z".repeat(i % 251)),
    }
}

fn small(i: usize) -> M {
    match i % 7 {
        0 => M::Num(Number::from(i as u64 * 1_000_003)),
        1 => M::Bool(i % 2 == 0),
        2 => M::Str(format!("value {i}")),
        3 => M::Null,
        4 => M::Arr(vec![M::Null, M::Num(Number::from(i as u64))]),
        5 => M::Obj(vec![("a".into(), M::Bool(true)), ("b".into(), M::Num(Number::from(i as u64)))]),
        _ => M::Str(fill_str(i as u64, i % 90, b"abc \"\n")),
    }
}

/// Something with many values in it.
fn large(ctx: &mut Ctx) -> M {
    let n = match ctx.n(16) {
        0..=3 => 17 + ctx.n(300) as usize,
        4..=11 => 1000 + ctx.n(3000) as usize,
        12 => 4096 + ctx.n(20_000) as usize,
        13 | 14 => 9000,
        _ => [32_767usize, 32_768, 65_534, 65_535][ctx.n(4) as usize],
    };
    let style = ctx.n(5);
    let len = 20 + ctx.n(200) as usize;
    let n = if style >= 2 { n.min(6000) } else { n };
    let el = ctx.n(4);
    let child = |i: usize| match el {
        0 => M::Num(Number::from(i as u64)),
        1 => M::Obj(vec![("a".into(), M::Num(Number::from(i as u64))), ("b".into(), M::Bool(true))]),
        2 => M::Str(format!("{i}")),
        _ => small(i),
    };
    match ctx.n(8) {
        0..=2 => {
            let step = [1usize, 7, n - 1][ctx.n(3) as usize];
            let step = if n % step == 0 && step > 1 { 1 } else { step };
            M::Obj((0..n).map(|i| (key_of(i * step % n, style, len), child(i))).collect())
        }
        3 | 4 => M::Arr((0..n).map(child).collect()),
        5 => {
            // many of medium size
            let w = 2 + ctx.n(60) as usize;
            let c = |i: usize| match i % 2 {
                0 => M::Obj((0..w).map(|j| (key_of(j, style, 20), child(j))).collect()),
                _ => M::Arr((0..w).map(child).collect()),
            };
            M::Arr((0..(n / w).clamp(1, 600)).map(c).collect())
        }
        6 => {
            let l = 1 + ctx.n(200_000) as usize;
            let mut s = String::new();
            for _ in 0..1 + ctx.n(3) {
                let a: &[u8] = [&b"abcdefgh"[..], b"a\"", b"a\x01", b"\n\\", b" ", b"\\"][ctx.n(6) as usize];
                let l = if ctx.n(4) == 3 { ctx.n(20) as usize } else { l };
                s.push_str(&fill_str(ctx.n(9), l, a));
            }
            M::Str(s)
        }
        _ => {
            let d = 1 + ctx.n(99) as usize;
            gen_deep(ctx, d)
        }
    }
}

fn document(ctx: &mut Ctx, k: &Knobs) -> M {
    if ctx.n(3) == 0 || ctx.idx % 2500 == 1301 {
        return gen_doc(ctx, k);
    }
    let hot = large(ctx);
    if hot.depth() > 95 {
        return hot;
    }
    match ctx.n(4) {
        0 => hot,
        1 => M::Arr(vec![small(5), hot, small(4), M::Num(Number::from(3)), M::Str("after".into())]),
        2 => M::Obj(vec![
            ("hot".into(), hot),
            ("a".into(), M::Num(Number::from(1))),
            ("zz".into(), small(5)),
            ("tail".into(), M::Arr(vec![M::Bool(true)])),
        ]),
        _ => M::Arr(vec![M::Obj(vec![("in".into(), M::Arr(vec![M::Null, hot])), ("b".into(), M::Bool(false))])]),
    }
}

// ------------------------------------------------------------------------------------------------
// Reading

/// One thing read from a container.
fn look(ctx: &mut Ctx, v: &Value, m: &M) -> R {
    const K: u64 = 80;
    match (v, m) {
        (Value::Object(o), M::Obj(e)) => {
            let i = ctx.n(e.len().max(1) as u64) as usize;
            let mut key = e.get(i).map(|e| e.0.clone()).unwrap_or_default();
            if ctx.n(3) == 2 {
                key = match ctx.n(4) {
                    0 => one_off(&key, key.len() / 2).unwrap_or_default(),
                    1 => key + "0",
                    2 => String::new(),
                    _ => "q".repeat(1 + ctx.n(100) as usize),
                };
            }
            // comparing keys of one length goes through what they share
            let widest = e.iter().map(|e| e.0.len()).max().unwrap_or(0).min(key.len());
            let u = search(e.len(), widest);
            let kind = ctx.n(12);
            let k = key.as_str();
            let w = format!("lookup {kind} in {} members", e.len());
            let r = within(ctx, &w, Plan::None, K, u, || match kind {
                0 => o.get(k).map(|x| x.is_some()).ok(),
                1 => o.contains_key(k).ok(),
                2 => o.type_of(k).map(|x| x.is_some()).ok(),
                3 => o.is_type(k, DataType::Bool).map(|x| x.is_some()).ok(),
                4 => o.is_null(k).map(|x| x.is_some()).ok(),
                5 => o.object(k).map(|x| x.is_some()).ok(),
                6 => o.array(k).map(|x| x.is_some()).ok(),
                7 => o.string(k).map(|x| x.is_some()).ok(),
                8 => o.number(k).map(|x| x.is_some()).ok(),
                9 => o.bool(k).map(|x| x.is_some()).ok(),
                10 => o.len().map(|x| x > 0).ok(),
                _ => o.is_empty().ok(),
            })?;
            ctx.ev(format!("{w}: {:?}", r.0));
        }
        (Value::Array(a), M::Arr(e)) => {
            let n = e.len();
            let i = match ctx.n(4) {
                0 => 0,
                1 => n.saturating_sub(1),
                2 => n,
                _ => ctx.n(n as u64 + 1) as usize,
            };
            let kind = ctx.n(12);
            let w = format!("element {kind} at {i} of {n}");
            let r = within(ctx, &w, Plan::None, K, 8, || match kind {
                0 => a.get(i).is_ok(),
                1 => a.type_of(i).is_ok(),
                2 => a.is_type(i, DataType::Bool).is_ok(),
                3 => a.is_null(i).is_ok(),
                4 => a.object(i).is_ok(),
                5 => a.array(i).is_ok(),
                6 => a.string(i).is_ok(),
                7 => a.number(i).is_ok(),
                8 => a.bool(i).is_ok(),
                9 => i < n && unsafe { a.get_unchecked(i).is_ok() },
                10 => a.len().is_ok(),
                _ => a.is_empty().is_ok(),
            })?;
            ctx.ev(format!("{w}: {:?}", r.0));
        }
        _ => {}
    }
    Ok(())
}

/// A document or nested value by itself: what kind of thing it is, and to what it belongs.
fn kinds(ctx: &mut Ctx, y: &Yason) -> R {
    let kind = ctx.n(8);
    let w = format!("kind {kind} of {} bytes", y.as_bytes().len());
    let r = within(ctx, &w, Plan::None, 50, 8, || match kind {
        0 => y.data_type().is_ok(),
        1 => y.object().is_ok(),
        2 => y.array().is_ok(),
        3 => y.string().is_ok(),
        4 => y.number().is_ok(),
        5 => y.bool().is_ok(),
        6 => y.is_null().is_ok(),
        _ => Value::try_from(y).is_ok(),
    })?;
    ctx.ev(format!("{w}: {:?}", r.0));
    Ok(())
}

/// From the start of a container to its end, or only a few steps.
fn iterate(ctx: &mut Ctx, v: &Value) -> R {
    let few = ctx.n(3) == 2;
    let most = if few { ctx.n(5) as usize } else { usize::MAX };
    let kind = ctx.n(3);
    let n = match v {
        Value::Object(o) => o.len().unwrap_or(0),
        Value::Array(a) => a.len().unwrap_or(0),
        _ => return Ok(()),
    };
    let u = 4 + n.min(most) as u64;
    let w = format!("iterate {kind} over {} of {n}", n.min(most));
    let r = within(ctx, &w, Plan::None, 300, u, || match v {
        Value::Object(o) => match kind {
            0 => o.iter().map(|i| i.take(most).filter(|x| x.is_ok()).count()).ok(),
            1 => o.key_iter().map(|i| i.take(most).filter(|x| x.is_ok()).count()).ok(),
            _ => o.value_iter().map(|i| i.take(most).filter(|x| x.is_ok()).count()).ok(),
        },
        Value::Array(a) => a.iter().map(|i| i.take(most).filter(|x| x.is_ok()).count()).ok(),
        _ => None,
    })?;
    ctx.ev(format!("{w}: {:?}", r.0));
    Ok(())
}

fn yason_of<'a>(v: &'a Value) -> Option<&'a Yason> {
    match v {
        Value::Object(o) => Some(o.yason()),
        Value::Array(a) => Some(a.yason()),
        _ => None,
    }
}

/// Goes down some levels.
fn descend<'a, 'm>(ctx: &mut Ctx, v: Value<'a>, m: &'m M) -> (Value<'a>, &'m M) {
    let (mut v, mut m) = (v, m);
    for _ in 0..ctx.n(5) {
        let next = match (&v, m) {
            (Value::Array(a), M::Arr(e)) if !e.is_empty() => {
                let i = ctx.n(e.len() as u64) as usize;
                a.get(i).ok().map(|x| (x, &e[i]))
            }
            (Value::Object(o), M::Obj(e)) if !e.is_empty() => {
                let i = ctx.n(e.len() as u64) as usize;
                o.get(&e[i].0).ok().flatten().map(|x| (x, &e[i].1))
            }
            _ => None,
        };
        match next {
            Some((x, y)) if y.is_container() => (v, m) = (x, y),
            _ => break,
        }
    }
    (v, m)
}

// ------------------------------------------------------------------------------------------------
// Going through all of it

fn through(ctx: &mut Ctx, y: &Yason, m: &M) -> R {
    let u = 8 + nodes(m);
    match ctx.n(8) {
        0 | 1 => {
            let pretty = ctx.n(2) == 1;
            let text = reffmt::text(m, pretty);
            let f = if ctx.n(3) == 0 { WFault::None } else { draw_wfault(ctx, text.len()) };
            let mut w = SimWriter::new(f, text.len() + 8);
            let plan = if ctx.fchance(5) { draw_plan(ctx) } else { Plan::None };
            let u = u + text.len() as u64 / 8;
            let lazy = ctx.n(3) == 2;
            let (r, fired) = within(ctx, &format!("format pretty={pretty} into {f:?}"), plan, 600, u, || {
                if lazy {
                    write!(w, "{}", y.format(pretty)).is_ok()
                } else {
                    y.format_to(pretty, &mut w).is_ok()
                }
            })?;
            if w.failed > 0 {
                ctx.fault("write-error");
            }
            ctx.ev(format!("format pretty={pretty} of size {u}: {r}, {fired} refused, {} writes failed", w.failed));
        }
        2 => {
            let other = match ctx.n(3) {
                0 => m.clone(),
                _ => mutate(ctx, m),
            };
            let mut b = Vec::new();
            codec::encode(&other, &Layout { shuffle: 0, null_fill: 0 }, &mut b);
            let z: &Yason = unsafe { Yason::new_unchecked(&b) };
            let (r, _) = within(ctx, "equals", Plan::None, 600, u, || (y == z, z.equals(y).ok()))?;
            ctx.ev(format!("equals of size {u}: {r:?}"));
        }
        3 => {
            let plan = if ctx.fchance(3) { draw_plan(ctx) } else { Plan::None };
            let kind = ctx.n(3);
            let mut old = if kind == 2 { plain(&small(ctx.n(9) as usize)).map_err(skip)? } else { plain(&M::Null).map_err(skip)? };
            let plan = if kind == 0 { plan } else { Plan::None };
            let (r, _) = within(ctx, &format!("copy {kind}"), plan, 80, u, || match kind {
                0 => y.to_yason_buf().is_ok(),
                1 => y.to_owned().as_bytes().len() > 0,
                _ => {
                    old.clone_from_yason(y);
                    true
                }
            })?;
            ctx.ev(format!("copy {kind} of size {u}: {r}"));
        }
        4 => {
            let mut out: Vec<u8> = Vec::new();
            let text = ctx.n(2) == 1;
            let buf = y.to_yason_buf().map_err(skip)?;
            let u = if text { u + reffmt::text(m, false).len() as u64 / 8 } else { u };
            let (r, _) = within(ctx, &format!("serialize text={text}"), Plan::None, 800, u, || {
                if text {
                    serde_json::to_writer(&mut out, &buf).is_ok()
                } else {
                    bincode::serialize_into(&mut out, &buf).is_ok()
                }
            })?;
            ctx.ev(format!("serialize text={text} of size {u}: {r}, {} bytes", out.len()));
        }
        5 => {
            let plan = if ctx.fchance(3) { draw_plan(ctx) } else { Plan::None };
            let how = [How::Bytes, How::Borrowed, How::Owned][ctx.n(3) as usize];
            let b = y.as_bytes();
            let (r, _) = within(ctx, &format!("deserialize {how:?}"), plan, 200, u + 24, || YasonBuf::deserialize(BytesDe { bytes: b, how }).is_ok())?;
            ctx.ev(format!("deserialize {how:?} of size {u}: {r}"));
        }
        _ => {
            // a value on its own
            let v = Value::try_from(y).map_err(skip)?;
            let (v, m) = descend(ctx, v, m);
            let u = 8 + nodes(m);
            let plan = if ctx.fchance(3) { draw_plan(ctx) } else { Plan::None };
            let before = ctx.n(3) as usize * 100_000;
            let mut buf = vec![7u8; before];
            // room, so that the buffer does not have to move
            buf.reserve(y.as_bytes().len() + [64, 1 << 20][ctx.n(2) as usize]);
            let (r, _) = within(ctx, "try_to_yason", plan, 60, u, || v.try_to_yason(&mut buf).is_ok())?;
            ctx.ev(format!("try_to_yason of size {u} after {before} bytes: {r}"));
        }
    }
    Ok(())
}

fn build(ctx: &mut Ctx, m: &M) -> R {
    let u = 8 + making(m);
    let kind = ctx.n(6);
    let moves = moves(m, kind >= 2 && kind < 5);
    if moves > 200_000_000 {
        return Ok(());
    }
    // an entry is four bytes; moving one by one may take some tens of steps
    let x = moves * 64;
    let plan = if ctx.fchance(3) { draw_plan(ctx) } else { Plan::None };
    match kind {
        0 => {
            let (r, f) = within_and(ctx, "build", plan, 300, u, x, || plain(m).is_ok())?;
            ctx.ev(format!("build of size {u}: {r}, {f} refused"));
        }
        1 => {
            let before = ctx.n(4) as usize * 100_000;
            let mut buf = vec![7u8; before];
            let spare = [0, 1 << 20][ctx.n(2) as usize];
            buf.reserve(spare + codec::encoded(m).len() + 64 + m.nodes() * 16);
            let (r, f) = within_and(ctx, "append", plan, 300, u, x, || plain_into(m, &mut buf).is_ok())?;
            ctx.ev(format!("append of size {u} after {before} bytes: {r}, {f} refused"));
        }
        2 => {
            let j = to_json(m);
            let (r, f) = within_and(ctx, "convert", plan, 400, u, x, || YasonBuf::try_from(&j).is_ok())?;
            ctx.ev(format!("convert of size {u}: {r}, {f} refused"));
        }
        3 => {
            let mut t = reffmt::text(m, ctx.n(2) == 1);
            if ctx.n(3) == 2 {
                // cut short
                let mut at = ctx.f(t.len() as u64) as usize;
                while !t.is_char_boundary(at) {
                    at -= 1;
                }
                t.truncate(at);
                ctx.fault("malformed-text");
            }
            let u = u + t.len() as u64 / 8;
            let kind = ctx.n(3);
            let mut buf = Vec::new();
            let (r, _) = within_and(ctx, "parse", Plan::None, 800, u, x, || match kind {
                0 => YasonBuf::parse(&t).is_ok(),
                1 => Yason::parse_to(&mut buf, &t).is_ok(),
                _ => serde_json::from_str::<YasonBuf>(&t).is_ok(),
            })?;
            ctx.ev(format!("parse of size {u}: {r}"));
        }
        4 => refused(ctx)?,
        _ => {
            let M::Obj(v) = m else { return Ok(()) };
            let v: Vec<(String, M)> = sorted(v).into_iter().cloned().collect();
            let (r, f) = within_and(ctx, "build sorted", plan, 300, u, x, || {
                let mut b = yason::ObjectBuilder::try_new(v.len() as u16, true)?;
                plain_obj(&mut b, &v)?;
                b.finish().map(|_| ())
            })?;
            ctx.ev(format!("build of size {u}, sorted: {}, {f} refused", r.is_ok()));
        }
    }
    Ok(())
}

/// Pushes that are refused by a builder that holds a lot, and pushes after them.
fn refused(ctx: &mut Ctx) -> R {
    let n = 10 + ctx.n(if ctx.idx % 2500 == 1301 { 50 } else { 20_000 }) as usize;
    let obj = ctx.n(2) == 1;
    // memory is given in advance: a push that makes room may have to move everything
    let mut buf: Vec<u8> = Vec::with_capacity(n * 40 + 100_000);
    const K: u64 = 80;
    let big = "x".repeat(65_536);
    if obj {
        let mut b = yason::ObjectRefBuilder::try_new(&mut buf, n as u16 + 2, false).map_err(skip)?;
        for i in 0..n {
            b.null(key_of(i * 7 % 1_000_003, 0, 0)).map_err(skip)?;
        }
        for _ in 0..6 {
            let kind = ctx.n(4);
            let plan = if kind == 3 { Plan::Window { from: 0, len: 1000 } } else { Plan::None };
            let (r, _) = within_and(ctx, &format!("push {kind} to an object of {n}"), plan, K, 10 + search(n, 6), 64 * n as u64, || match kind {
                0 => b.null(&big).is_ok(),
                1 => b.obj("nested", 3, false).is_ok(),
                2 => b.arr("nested", 3).is_ok(),
                _ => b.s("", "").is_ok(),
            })?;
            ctx.fault("refused-push");
            ctx.ev(format!("push {kind} to an object of {n}: {r}"));
        }
    } else {
        let mut b = yason::ArrayRefBuilder::try_new(&mut buf, n as u16 + 2).map_err(skip)?;
        for i in 0..n {
            b.b(i % 2 == 0).map_err(skip)?;
        }
        for i in 0..6 {
            let kind = ctx.n(4);
            let (r, _) = within(ctx, &format!("push {kind} to an array of {n}"), Plan::None, K, 10, || match kind {
                0 => b.null().is_ok(),
                1 => b.obj(3, false).is_ok(),
                2 => b.arr(3).is_ok(),
                _ => b.s("x").is_ok(),
            })?;
            if i >= 2 {
                ctx.fault("refused-push");
            }
            ctx.ev(format!("push {kind} to an array of {n}: {r}"));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// Queries

/// A path with several alternatives on every level, all of which lead on.
fn branching(ctx: &mut Ctx, m: &M) -> Path {
    let mut steps = Vec::new();
    let mut m = m;
    for _ in 0..2 + ctx.n(98) {
        m = match m {
            M::Arr(v) if !v.is_empty() => {
                let i = v.iter().position(|x| matches!(x, M::Arr(_) | M::Obj(_))).unwrap_or(v.len() - 1);
                let (at, last) = (Ix::At(i), Ix::Last(v.len() - 1 - i));
                let subs = (0..1 + ctx.n(3))
                    .map(|_| match ctx.n(6) {
                        0 | 1 => Sub::One(at.clone()),
                        2 => Sub::One(last.clone()),
                        3 => Sub::Range(at.clone(), last.clone()),
                        4 => Sub::Range(at.clone(), Ix::At(v.len() + 7)),
                        _ => Sub::One(Ix::At(v.len())),
                    })
                    .collect();
                steps.push(if ctx.n(6) == 5 { St::AnyIx } else { St::Subs(subs) });
                &v[i]
            }
            M::Obj(v) if !v.is_empty() => {
                let (k, x) = v.iter().find(|e| matches!(e.1, M::Arr(_) | M::Obj(_))).unwrap_or(&v[0]);
                if !crate::refpath::writable(k) {
                    break;
                }
                steps.push(match ctx.n(6) {
                    4 => St::AnyKey,
                    5 => St::Desc(k.clone()),
                    _ => St::Key(k.clone()),
                });
                x
            }
            _ => break,
        };
    }
    Path { steps, fun: None }
}

fn draw_path(ctx: &mut Ctx, m: &M) -> Path {
    if ctx.n(8) == 7 {
        return branching(ctx, m);
    }
    if ctx.n(3) == 0 {
        // straight to one place, whatever is around it
        let mut steps = Vec::new();
        let mut m = m;
        for _ in 0..1 + ctx.n(6) {
            m = match m {
                M::Arr(v) if !v.is_empty() => {
                    let i = ctx.n(v.len() as u64) as usize;
                    let ix = if ctx.n(2) == 0 { Ix::At(i) } else { Ix::Last(v.len() - 1 - i) };
                    steps.push(St::Subs(vec![if ctx.n(3) == 2 { Sub::Range(ix.clone(), ix) } else { Sub::One(ix) }]));
                    &v[i]
                }
                M::Obj(v) if !v.is_empty() => {
                    let (k, x) = &v[ctx.n(v.len() as u64) as usize];
                    if !crate::refpath::writable(k) {
                        break;
                    }
                    steps.push(St::Key(k.clone()));
                    x
                }
                _ => break,
            };
        }
        return Path { steps, fun: [None, None, Some(Fun::Size), Some(Fun::Type)][ctx.n(4) as usize] };
    }
    let mut p = gen_path(ctx, m, true);
    if ctx.n(3) == 2 {
        // all there is
        let any = match m {
            M::Obj(_) => St::AnyKey,
            _ => St::AnyIx,
        };
        p.steps.insert(0, any);
    }
    p
}

fn query(ctx: &mut Ctx, y: &Yason, m: &M) -> R {
    if ctx.n(6) == 5 {
        // many levels, several ways on each
        let d = 1 + ctx.n(98) as usize;
        let m = gen_deep(ctx, d);
        let b = codec::encoded(&m);
        let p = branching(ctx, &m);
        return query_for(ctx, unsafe { Yason::new_unchecked(&b) }, &m, p);
    }
    let p = draw_path(ctx, m);
    query_for(ctx, y, m, p)
}

fn query_for(ctx: &mut Ctx, y: &Yason, m: &M, p: Path) -> R {
    let t = p.render(ctx, ctx.idx % 3 == 0);
    let short: String = t.chars().take(60).collect();
    let plan = if ctx.fchance(5) { draw_plan(ctx) } else { Plan::None };
    within(ctx, "compile", plan, 1000, 8 + t.len() as u64, || PathExpression::from_str(&t).is_ok())?;
    let e = PathExpression::from_str(&t).map_err(skip)?;
    let mut all = 8;
    asking(m, &p.steps, false, &mut all);
    // answers may be of any size, tests stop early
    let heavy = all > 400_000;
    let result: u64 = if heavy || p.fun.is_some() { 4 } else { p.matches(m).into_iter().map(nodes).sum() };
    for _ in 0..1 + ctx.n(3) {
        let plan = if ctx.fchance(5) { draw_plan(ctx) } else { Plan::None };
        match ctx.n(3) {
            _ if heavy && p.fun.is_some() => return Ok(()),
            x if x == 0 || heavy => {
                let mut u = 8;
                asking(m, &p.steps, true, &mut u);
                if u > 400_000 {
                    return Ok(());
                }
                let (r, _) = within(ctx, &format!("exists {short}"), plan, 150, u, || e.exists(y).ok())?;
                ctx.ev(format!("exists {short} of size {u}: {r:?}"));
            }
            _ => {
                let wrapper = ctx.n(4) != 0;
                let (uq, ur) = (ctx.n(2) == 1, ctx.n(2) == 1);
                let stale = ctx.n(3) as usize * 50_000;
                let mut qb: Vec<Value> = vec![Value::Null; stale];
                let mut rb: Vec<u8> = vec![7; stale * 10];
                // the result is encoded only for a buffer to put it in
                let u = all + if ur { result } else { 0 } + if stale > 0 { 8 } else { 0 };
                if stale > 0 {
                    ctx.fault("stale-buffer");
                }
                let (r, f) = within(ctx, &format!("query {short}"), plan, 400, u, || {
                    e.query(y, wrapper, if uq { Some(&mut qb) } else { None }, if ur { Some(&mut rb) } else { None })
                })?;
                ctx.ev(format!("query {short} wrapper={wrapper} buffers {uq} {ur} of size {u}: {}, {f} refused", r.is_ok()));
                let Ok(q) = r else { continue };
                if ctx.n(3) == 2 && result < 300_000 {
                    let pretty = ctx.n(2) == 1;
                    let mut text = String::new();
                    let _ = q.format_to(pretty, &mut text);
                    let mut w = SimWriter::new(draw_wfault(ctx, text.len()), text.len());
                    let u = 16 + result + text.len() as u64;
                    let (r, _) = within(ctx, "format answer", Plan::None, 600, u, || q.format_to(pretty, &mut w).is_ok())?;
                    if w.failed > 0 {
                        ctx.fault("write-error");
                    }
                    ctx.ev(format!("formatting the answer: {r}"));
                }
            }
        }
    }
    Ok(())
}

/// Path texts of all sizes, also wrong ones.
fn paths(ctx: &mut Ctx) -> R {
    let n = match ctx.n(3) {
        0 => ctx.n(20) as usize,
        1 => ctx.n(500) as usize,
        _ => ctx.n(20_000) as usize,
    };
    let unit = [".a", "[1]", "[*]", ".*", "..key", "[1,2 to 5, last-3]", ".\"q uoted\"", "[last]", " ", "[ 1 , 2 ]", ".\"", "[", "1"][ctx.n(13) as usize];
    let mut t = String::from("$");
    match ctx.n(5) {
        0 => t.push_str(&format!("[{}1]", "1, ".repeat(n))),
        1 => t.push_str(&format!(".{}", "k".repeat(n))),
        2 => t.push_str(&format!(".\"{}\"", "k ".repeat(n))),
        3 => t.push_str(&" ".repeat(n)),
        _ => t.push_str(&unit.repeat(n)),
    }
    t.push_str(["", "", ".size()", "!", "[", ".count( )"][ctx.n(6) as usize]);
    let plan = if ctx.fchance(4) { draw_plan(ctx) } else { Plan::None };
    let (r, _) = within(ctx, "compile", plan, 1000, 8 + t.len() as u64, || PathExpression::from_str(&t).is_ok())?;
    if !r {
        ctx.fault("malformed-path");
    }
    ctx.ev(format!("compile {} bytes of {unit}: {r}", t.len()));
    Ok(())
}

pub fn run(ctx: &mut Ctx) -> R {
    if ctx.n(12) == 11 {
        return paths(ctx);
    }
    let k = Knobs::draw_small(ctx, 60);
    let m = document(ctx, &k);
    let mut bytes = Vec::new();
    let l = if ctx.n(3) == 2 { Layout { shuffle: ctx.n(1000), null_fill: 0 } } else { Layout { shuffle: 0, null_fill: 0 } };
    codec::encode(&m, &l, &mut bytes);
    let y: &Yason = unsafe { Yason::new_unchecked(&bytes) };
    ctx.ev(format!("{} bytes: {}", bytes.len(), m.brief()));
    if bytes.len() > 20_000 {
        ctx.fault("large-document");
    }
    let v = Value::try_from(y).map_err(skip)?;
    for _ in 0..3 + ctx.n(6) {
        // the document or a value in it, which does not pay for what is around it
        let (v, m) = if ctx.n(2) == 1 { descend(ctx, v.clone(), &m) } else { (v.clone(), &m) };
        let y = yason_of(&v).unwrap_or(y);
        match ctx.n(8) {
            0..=2 => {
                for _ in 0..6 {
                    look(ctx, &v, m)?;
                }
                kinds(ctx, y)?;
            }
            3 => {
                iterate(ctx, &v)?;
                kinds(ctx, y)?;
            }
            4 => through(ctx, y, m)?,
            5 => build(ctx, m)?,
            _ => query(ctx, y, m)?,
        }
    }
    Ok(())
}
