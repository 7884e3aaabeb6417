//! Misused and abandoned builders are refused cleanly.

use crate::builder::*;
use crate::ctx::{take_panic, viol, Ctx, INJECTED, R};
use crate::model::{gen_container, Knobs, M};
use crate::reader::yason_is;
use std::panic::{catch_unwind, AssertUnwindSafe};
use yason::{ArrayBuilder, ArrayRefBuilder, BuildError, Number, ObjectBuilder, ObjectRefBuilder, Yason};

fn judge_doc(ctx: &mut Ctx, doc: Doc) -> R {
    if let Doc::Done(bytes, acked) = doc {
        expect_doc("finished document", &bytes, &acked)?;
        let r = ctx.sut("read", || yason_is(unsafe { Yason::new_unchecked(&bytes) }, &acked))?;
        if let Err(e) = r {
            return viol("wrong-content", format!("{e}; acknowledged {}", acked.brief()));
        }
        ctx.probe("finished");
    } else {
        ctx.probe("refused");
    }
    Ok(())
}

/// Declares `n` elements, pushes `k`, finishes.
fn miscounted(ctx: &mut Ctx, buf: &mut Vec<u8>) -> R {
    let n = match ctx.n(4) {
        0 => ctx.n(4),
        1 => ctx.n(300),
        2 => 255 + ctx.n(3),
        _ => 65_533 + ctx.n(3),
    } as u16;
    let k = if n > 1000 { ctx.f(60) } else { ctx.f(n as u64 + 2) }.min(400) as u16;
    let kind = ctx.n(4);
    ctx.fault("miscounted-builder");
    macro_rules! drive {
        ($b:expr, $push:expr) => {{
            let mut b = $b;
            let mut good = 0u32;
            for i in 0..k {
                let r = ctx.sut("push", || $push(&mut b, i))?;
                match r {
                    Ok(()) => good += 1,
                    Err(_) if i >= n => {}
                    Err(e) => return viol("valid-push-refused", format!("push {i} of {n}: {e:?}")),
                }
                if good > n as u32 {
                    return viol("over-push-accepted", format!("declared {n}, accepted {good}"));
                }
            }
            let done = ctx.sut("finish", move || b.finish().map(|y| y.as_bytes().len()))?;
            ctx.ev(format!("kind {kind} declared {n}, pushed {good}: finish {}", done.is_ok()));
            match done {
                Ok(_) if good < n as u32 => {
                    return viol("incomplete-finish-accepted", format!("declared {n}, pushed {good}, finished"))
                }
                Err(e) if good == n as u32 => {
                    return viol("valid-finish-refused", format!("declared {n}, pushed {good}: {e:?}"))
                }
                _ => {}
            }
        }};
    }
    match kind {
        0 => {
            let b = ctx.sut("new", || ArrayBuilder::try_new(n))?.map_err(crate::ctx::skip)?;
            drive!(b, |b: &mut ArrayBuilder, i: u16| match i % 4 {
                0 => b.push_null().map(|_| ()),
                1 => b.push_bool(true).map(|_| ()),
                2 => b.push_string("é").map(|_| ()),
                _ => b.push_number(Number::from(i)).map(|_| ()),
            })
        }
        1 => {
            let b = ctx.sut("new", || ArrayRefBuilder::try_new(buf, n))?.map_err(crate::ctx::skip)?;
            drive!(b, |b: &mut ArrayRefBuilder, i: u16| match i % 4 {
                0 => b.push_bool(false).map(|_| ()),
                1 => b.push_array(0).and_then(|c| c.finish().map(|_| ())),
                2 => b.push_object(0, false).and_then(|c| c.finish().map(|_| ())),
                _ => b.push_string("x").map(|_| ()),
            })
        }
        2 => {
            let b = ctx.sut("new", || ObjectBuilder::try_new(n, false))?.map_err(crate::ctx::skip)?;
            drive!(b, |b: &mut ObjectBuilder, i: u16| {
                let key = format!("{}", i as u32 * 7919 % 100_003);
                match i % 4 {
                    0 => b.push_null(&key).map(|_| ()),
                    1 => b.push_string(&key, "v").map(|_| ()),
                    2 => b.push_object(&key, 0, true).and_then(|c| c.finish().map(|_| ())),
                    _ => b.push_number(&key, Number::from(i)).map(|_| ()),
                }
            })
        }
        _ => {
            let b = ctx.sut("new", || ObjectRefBuilder::try_new(buf, n, true))?.map_err(crate::ctx::skip)?;
            drive!(b, |b: &mut ObjectRefBuilder, i: u16| {
                let key = format!("k{i:05}");
                match i % 4 {
                    0 => b.push_bool(&key, true).map(|_| ()),
                    1 => b.push_array(&key, 0).and_then(|c| c.finish().map(|_| ())),
                    2 => b.push_string(&key, "v").map(|_| ()),
                    _ => b.push_null(&key).map(|_| ()),
                }
            })
        }
    }
    Ok(())
}

/// Fills a builder of many declared elements completely (or one short), then pushes what is too much.
fn brim(ctx: &mut Ctx) -> R {
    let n = [65_535u64, 65_535, 65_534, 32_768, 256, 255][ctx.n(6) as usize] as u16;
    let short = ctx.n(4) == 3;
    let k = if short { n - 1 } else { n };
    let over = 1 + ctx.f(3);
    let kinds: Vec<u64> = (0..over).map(|_| ctx.f(6)).collect();
    let kind = ctx.n(6);
    ctx.fault("miscounted-builder");
    let el = |i: u16| match i % 5 {
        0 => M::Null,
        1 => M::Bool(true),
        2 => M::Num(Number::from(i)),
        3 => M::Str(format!("{i}")),
        _ => M::Bool(false),
    };
    fn fill_arr<A: ArrB>(b: &mut A, k: u16, el: impl Fn(u16) -> M) -> Result<(), (u16, BuildError)> {
        for i in 0..k {
            plain_arr(b, std::slice::from_ref(&el(i))).map_err(|e| (i, e))?;
        }
        Ok(())
    }
    fn fill_obj<O: ObjB>(b: &mut O, k: u16, el: impl Fn(u16) -> M) -> Result<(), (u16, BuildError)> {
        for i in 0..k {
            plain_obj(b, &[(format!("{i:05}"), el(i))]).map_err(|e| (i, e))?;
        }
        Ok(())
    }
    fn over_arr<A: ArrB>(b: &mut A, kind: u64) -> bool {
        match kind {
            0 => b.null().is_ok(),
            1 => b.b(true).is_ok(),
            2 => b.num(Number::from(1)).is_ok(),
            3 => b.s("over").is_ok(),
            4 => b.arr(0).and_then(|c| c.finish()).is_ok(),
            _ => b.obj(0, true).and_then(|c| c.finish()).is_ok(),
        }
    }
    fn over_obj<O: ObjB>(b: &mut O, kind: u64) -> bool {
        match kind {
            0 => b.null("~").is_ok(),
            1 => b.b("~", true).is_ok(),
            2 => b.num("~", Number::from(1)).is_ok(),
            3 => b.s("~", "over").is_ok(),
            4 => b.arr("~", 0).and_then(|c| c.finish()).is_ok(),
            _ => b.obj("~", 0, true).and_then(|c| c.finish()).is_ok(),
        }
    }
    let mut buf = vec![0xddu8; 5];
    macro_rules! drive {
        ($b:expr, $fill:ident, $over:ident) => {{
            let mut b = $b;
            if let Err((i, e)) = ctx.sut("push", || $fill(&mut b, k, el))? {
                return viol("valid-push-refused", format!("push {i} of {n}: {e:?}"));
            }
            if !short {
                for x in &kinds {
                    if ctx.sut("push", || $over(&mut b, *x))? {
                        return viol("over-push-accepted", format!("declared {n}, accepted {n} and one more of kind {x}"));
                    }
                }
            }
            ctx.sut("finish", move || b.finish().map(|y| crate::alloc::unarmed(|| y.as_bytes().to_vec())))?
        }};
    }
    let arr = M::Arr((0..k).map(el).collect());
    let obj = M::Obj((0..k).map(|i| (format!("{i:05}"), el(i))).collect());
    let (r, m) = match kind {
        0 => {
            let b = ctx.sut("new", || ArrayBuilder::try_new(n))?.map_err(crate::ctx::skip)?;
            (drive!(b, fill_arr, over_arr), arr)
        }
        1 => {
            let b = ctx.sut("new", || ArrayRefBuilder::try_new(&mut buf, n))?.map_err(crate::ctx::skip)?;
            (drive!(b, fill_arr, over_arr), arr)
        }
        2 => {
            let b = ctx.sut("new", || ObjectBuilder::try_new(n, true))?.map_err(crate::ctx::skip)?;
            (drive!(b, fill_obj, over_obj), obj)
        }
        3 => {
            let b = ctx.sut("new", || ObjectRefBuilder::try_new(&mut buf, n, false))?.map_err(crate::ctx::skip)?;
            (drive!(b, fill_obj, over_obj), obj)
        }
        _ => {
            // the same for a nested builder
            let arr_kind = kind == 4;
            let mut o = ctx.sut("new", || ArrayBuilder::try_new(2))?.map_err(crate::ctx::skip)?;
            let r: Result<(), crate::ctx::Viol> = (|| {
                let r = if arr_kind {
                    let b = ctx.sut("push", || o.push_array(n))?.map_err(crate::ctx::skip)?;
                    drive!(b, fill_arr, over_arr)
                } else {
                    let b = ctx.sut("push", || o.push_object(n, true))?.map_err(crate::ctx::skip)?;
                    drive!(b, fill_obj, over_obj)
                };
                match (r, short) {
                    (Ok(_), true) => viol("incomplete-finish-accepted", format!("declared {n}, pushed {k}, finished")),
                    (Err(e), false) => viol("valid-finish-refused", format!("declared {n}, pushed {n}: {e:?}")),
                    _ => Ok(()),
                }
            })();
            r?;
            let x = ctx.sut("push", || o.push_bool(true).is_ok())?;
            let r = ctx.sut("finish", move || o.finish().map(|y| crate::alloc::unarmed(|| y.as_bytes().to_vec())))?;
            if short && (x || r.is_ok()) {
                return viol("accepted-while-uncompleted", format!("nested builder one short of {n}: push {x}, finish {}", r.is_ok()));
            }
            if !short && !x {
                return viol("valid-push-refused", format!("after a nested builder of {n}"));
            }
            (r, M::Arr(vec![if arr_kind { arr } else { obj }, M::Bool(true)]))
        }
    };
    ctx.ev(format!("kind {kind} declared {n}, pushed {k}, too many {kinds:?}: finish {}", r.is_ok()));
    match r {
        Ok(_) if short => viol("incomplete-finish-accepted", format!("declared {n}, pushed {k}, finished")),
        Err(_) if short => Ok(()),
        Ok(b) => judge_doc(ctx, Doc::Done(b, m)),
        Err(e) => viol("valid-finish-refused", format!("declared {n}, pushed {n}: {e:?}")),
    }
}

/// The caller's code unwinds while nested builders are open; then it goes on using the outer one.
fn unwind_open(ctx: &mut Ctx) -> R {
    let pushed = ctx.f(3) as u16;
    let deep = 1 + ctx.f(3);
    let arr = ctx.n(2) == 0;
    ctx.fault("caller-unwind");
    fn open(b: &mut ArrayRefBuilder<'_>, deep: u64) {
        if deep == 0 {
            panic!("{}", INJECTED);
        }
        if deep % 2 == 0 {
            let mut c = b.push_object(2, false).unwrap();
            c.push_bool("x", true).unwrap();
            let mut e = c.push_array("y", 3).unwrap();
            open(&mut e, deep - 1);
        } else {
            let mut c = b.push_array(3).unwrap();
            c.push_null().unwrap();
            open(&mut c, deep - 1);
        }
    }
    if arr {
        let mut b = ctx.sut("new", || ArrayBuilder::try_new(pushed + 2))?.map_err(crate::ctx::skip)?;
        for i in 0..pushed {
            ctx.sut("push", || b.push_number(Number::from(i)).map(|_| ()))?.map_err(crate::ctx::skip)?;
        }
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut c = b.push_array(4).unwrap();
            open(&mut c, deep);
        }));
        let msg = take_panic();
        if r.is_ok() || !msg.contains(INJECTED) {
            return viol("panic", format!("nested builders: {msg}"));
        }
        let (x, y) = ctx.sut("push after unwinding", || (b.push_bool(true).is_ok(), b.push_array(0).is_ok()))?;
        let f = ctx.sut("finish after unwinding", move || b.finish().is_ok())?;
        ctx.ev(format!("array after unwinding: {x} {y} {f}"));
        if x || y || f {
            return viol("accepted-while-uncompleted", format!("after unwinding out of a nested builder: push {x}, push_array {y}, finish {f}"));
        }
    } else {
        let mut b = ctx.sut("new", || ObjectBuilder::try_new(pushed + 2, false))?.map_err(crate::ctx::skip)?;
        for i in 0..pushed {
            let k = format!("k{i}");
            ctx.sut("push", || b.push_number(&k, Number::from(i)).map(|_| ()))?.map_err(crate::ctx::skip)?;
        }
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut c = b.push_array("open", 4).unwrap();
            open(&mut c, deep);
        }));
        let msg = take_panic();
        if r.is_ok() || !msg.contains(INJECTED) {
            return viol("panic", format!("nested builders: {msg}"));
        }
        let (x, y) = ctx.sut("push after unwinding", || (b.push_bool("p", true).is_ok(), b.push_object("q", 0, true).is_ok()))?;
        let f = ctx.sut("finish after unwinding", move || b.finish().is_ok())?;
        ctx.ev(format!("object after unwinding: {x} {y} {f}"));
        if x || y || f {
            return viol("accepted-while-uncompleted", format!("after unwinding out of a nested builder: push {x}, push_object {y}, finish {f}"));
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) -> R {
    if ctx.idx % 500 == 77 {
        return brim(ctx);
    }
    let pre = ctx.n(20) as usize;
    let mut buf: Vec<u8> = Vec::with_capacity(pre + ctx.n(200) as usize);
    buf.resize(pre, 0xee);
    let rounds = 1 + ctx.n(4);
    for _ in 0..rounds {
        match ctx.n(6) {
            0 => miscounted(ctx, &mut buf)?,
            1 => unwind_open(ctx)?,
            2 => {
                let k = Knobs::draw(ctx, 30);
                let m = gen_container(ctx, &k);
                let mut d = Dist::draw(ctx, &[ABANDON, BADFINISH, FORGET, OVER, OOM, UNWIND]);
                ctx.ev(format!("owned {}", m.brief()));
                let doc = build_owned(ctx, &m, &mut d)?;
                judge_doc(ctx, doc)?;
            }
            _ => {
                let k = Knobs::draw(ctx, 30);
                let m = gen_container(ctx, &k);
                let mut d = Dist::draw(ctx, &[ABANDON, BADFINISH, FORGET, OVER, OOM, UNWIND]);
                ctx.ev(format!("by reference {}", m.brief()));
                let at = buf.len();
                let doc = build_ref(ctx, &mut buf, &m, &mut d)?;
                if let Doc::Done(bytes, _) = &doc {
                    if buf.len() < at || buf[at..] != bytes[..] {
                        return viol("wrong-region", "the returned document is not what was appended");
                    }
                }
                judge_doc(ctx, doc)?;
            }
        }
        if buf.len() < pre || buf[..pre].iter().any(|b| *b != 0xee) {
            return viol("prefix-damaged", "bytes in front of a refused document changed");
        }
    }
    // whatever happened before, a well-used builder works, also on the same buffer
    let m = M::Arr(vec![M::Bool(true), M::Obj(vec![("k".into(), M::Arr(vec![M::Null]))]), M::Str("end".into())]);
    let at = buf.len();
    let bytes = {
        let r = ctx.sut("build", || plain_into(&m, &mut buf).map(|y| y.as_bytes().to_vec()))?;
        match r {
            Ok(b) => b,
            Err(e) => return viol("valid-push-refused", format!("well-formed use after misuse: {e:?}")),
        }
    };
    if buf[at..] != bytes[..] {
        return viol("wrong-region", "the returned document is not what was appended");
    }
    expect_doc("document built after misuse", &bytes, &m)
}
