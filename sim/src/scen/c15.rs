//! What the format cannot hold is refused, never written in a damaged form; what it can just hold
//! is written and reads back.

use crate::alloc::unarmed;
use crate::ask::{ask, brief, Ans};
use crate::builder::*;
use crate::codec;
use crate::ctx::{skip, viol, Ctx, CHECKED, R};
use crate::model::M;
use crate::reader::yason_is;
use std::str::FromStr;
use yason::{ArrayBuilder, ArrayRefBuilder, Number, ObjectBuilder, ObjectRefBuilder, PathExpression, Scalar, Value, Yason, YasonBuf};

const MAX_KEY: usize = 65_535;
const MAX_LEN: usize = 65_535;

fn good(ctx: &mut Ctx, what: &str, bytes: &[u8], m: &M) -> R {
    match codec::decode(bytes) {
        Ok(got) if got.same(m) => {}
        Ok(got) => return viol("damaged", format!("{what}: wrote {}, asked for {}", got.brief(), m.brief())),
        Err(e) => return viol("damaged", format!("{what}: wrote a malformed document: {e}; asked for {}", m.brief())),
    }
    let y: &Yason = unsafe { Yason::new_unchecked(bytes) };
    match ctx.sut("read", || yason_is(y, m))? {
        Ok(()) => Ok(()),
        Err(e) => viol("damaged", format!("{what}: {e}")),
    }
}

fn push_kind<O: ObjB>(b: &mut O, k: &str, kind: u64) -> B<M> {
    Ok(match kind {
        0 => {
            b.null(k)?;
            M::Null
        }
        1 => {
            b.b(k, true)?;
            M::Bool(true)
        }
        2 => {
            b.num(k, Number::from(77))?;
            M::Num(Number::from(77))
        }
        3 => {
            b.s(k, "value")?;
            M::Str("value".into())
        }
        4 => {
            let mut c = b.arr(k, 1)?;
            c.null()?;
            c.finish()?;
            M::Arr(vec![M::Null])
        }
        _ => {
            let mut c = b.obj(k, 1, true)?;
            c.b("x", false)?;
            c.finish()?;
            M::Obj(vec![("x".into(), M::Bool(false))])
        }
    })
}

/// A key of `n` bytes, of characters of one to four bytes.
fn key_of<T>(n: usize, wide: u64, f: impl FnOnce(&str) -> T) -> T {
    match wide {
        0..=2 => big_key(n, f),
        w => {
            let c = ["\u{e9}", "\u{20ac}", "\u{1f600}"][w as usize % 3];
            let k = unarmed(|| c.repeat(n / c.len()) + &"a".repeat(n % c.len()));
            f(&k)
        }
    }
}

fn with_key<O: ObjB>(ctx: &mut Ctx, b: &mut O, n: usize, kind: u64, first: bool) -> R<M> {
    let mut v: Vec<(String, M)> = Vec::new();
    if first {
        ctx.sut("push", || b.s("first", "1"))?.map_err(skip)?;
        v.push(("first".into(), M::Str("1".into())));
    }
    let wide = ctx.n(6);
    let r = key_of(n, wide, |k| ctx.sut("push under a long key", || push_kind(b, k, kind)))?;
    ctx.ev(format!("key of {n} bytes, kind {kind}: {}", r.is_ok()));
    match r {
        Ok(_) if n > MAX_KEY => return viol("oversize-accepted", format!("a key of {n} bytes was accepted (kind {kind})")),
        Ok(m) => v.push((key_of(n, wide, |k| k.to_string()), m)),
        Err(e) if n <= MAX_KEY => return viol("valid-refused", format!("a key of {n} bytes was refused: {e:?}")),
        Err(_) => {
            ctx.fault("oversize-key");
            // its place is still free
            ctx.sut("push", || b.b("instead", true))?.map_err(|e| crate::ctx::Viol {
                class: "unusable-after-refusal".into(),
                msg: format!("a push after a refused key: {e:?}"),
            })?;
            v.push(("instead".into(), M::Bool(true)));
        }
    }
    if !first {
        ctx.sut("push", || b.s("first", "1"))?.map_err(skip)?;
        v.push(("first".into(), M::Str("1".into())));
    }
    Ok(M::Obj(v))
}

fn keys_builder(ctx: &mut Ctx) -> R {
    let n = [65_534usize, 65_535, 65_536, 65_537, 70_000, 131_071, 131_072, 131_073][ctx.n(8) as usize];
    let kind = ctx.n(6);
    let first = ctx.n(2) == 1;
    if ctx.n(2) == 0 {
        let mut b = ctx.sut("new object", || ObjectBuilder::try_new(2, false))?.map_err(skip)?;
        let m = with_key(ctx, &mut b, n, kind, first)?;
        match ctx.sut("finish", move || b.finish())? {
            Ok(y) => good(ctx, "object with a long key", y.as_bytes(), &m),
            Err(e) => viol("unusable-after-refusal", format!("finish: {e:?}")),
        }
    } else {
        let mut buf = vec![1u8; 3];
        let mut b = ctx.sut("new object", || ObjectRefBuilder::try_new(&mut buf, 2, false))?.map_err(skip)?;
        let m = with_key(ctx, &mut b, n, kind, first)?;
        let r = ctx.sut("finish", move || b.finish().map(|y| unarmed(|| y.as_bytes().to_vec())))?;
        match r {
            Ok(y) => good(ctx, "object with a long key", &y, &m),
            Err(e) => viol("unusable-after-refusal", format!("finish: {e:?}")),
        }
    }
}

fn convert(ctx: &mut Ctx, v: &serde_json::Value, fits: bool, what: &str) -> R<Option<Vec<u8>>> {
    let text = ctx.n(2) == 1;
    let mut buf = vec![0x55u8; 9];
    let r: B<Vec<u8>> = if text {
        let t = v.to_string();
        ctx.sut("parse_to", || Yason::parse_to(&mut buf, &t).map(|y| unarmed(|| y.as_bytes().to_vec())))?
    } else {
        ctx.sut("convert", || YasonBuf::try_from(v).map(|y| unarmed(|| y.as_bytes().to_vec())))?
    };
    ctx.ev(format!("{what} as {}: {}", if text { "text" } else { "json" }, r.is_ok()));
    if buf.len() < 9 || buf[..9].iter().any(|b| *b != 0x55) {
        return viol("damaged", format!("{what}: what the caller had in the buffer was damaged"));
    }
    match r {
        Ok(_) if !fits => viol("oversize-accepted", format!("{what} was accepted")),
        Ok(b) => Ok(Some(b)),
        Err(e) if fits => viol("valid-refused", format!("{what} was refused: {e:?}")),
        Err(_) => {
            ctx.fault("oversize-content");
            Ok(None)
        }
    }
}

fn keys_json(ctx: &mut Ctx) -> R {
    let n = [65_535usize, 65_536, 65_537, 131_072, 131_075][ctx.n(5) as usize];
    let nested = ctx.n(2) == 1;
    let k = key_of(n, ctx.n(6), |k| k.to_string());
    let inner = M::Obj(vec![("a".into(), M::Null), (k, M::Bool(true)), ("zz".into(), M::Str("s".into()))]);
    let m = if nested { M::Arr(vec![M::Bool(false), inner]) } else { inner };
    let v = crate::model::to_json(&m);
    if let Some(b) = convert(ctx, &v, n <= MAX_KEY, &format!("a key of {n} bytes"))? {
        good(ctx, "long key", &b, &m)?;
    }
    Ok(())
}

fn counts_json(ctx: &mut Ctx) -> R {
    let n = [65_534usize, 65_535, 65_536, 65_537, 65_546, 131_072][ctx.n(6) as usize];
    let nested = ctx.n(5);
    let obj = ctx.n(3) == 2;
    let inner = if obj {
        M::Obj((0..n).map(|i| (format!("{i:05}"), if i % 7 == 0 { M::Str("v".into()) } else { M::Null })).collect())
    } else {
        M::Arr((0..n).map(|i| if i % 9 == 0 { M::Num(Number::from(i as u64)) } else { M::Bool(i % 2 == 0) }).collect())
    };
    let m = match nested {
        0 => inner,
        1 => M::Obj(vec![("k".into(), inner), ("a".into(), M::Null)]),
        2 => M::Arr(vec![inner]),
        3 => M::Arr(vec![M::Null, M::Arr(vec![M::Bool(true), inner]), M::Bool(false)]),
        _ => M::Arr(vec![M::Obj(vec![("k".into(), inner), ("zz".into(), M::Arr(vec![]))]), M::Bool(false)]),
    };
    let v = crate::model::to_json(&m);
    let what = format!("{} of {n} elements, nested {nested}", if obj { "an object" } else { "an array" });
    if let Some(b) = convert(ctx, &v, n <= MAX_LEN, &what)? {
        good(ctx, &what, &b, &m)?;
    }
    Ok(())
}

fn results(ctx: &mut Ctx) -> R {
    // two arrays, together as many elements as asked for
    let n = [65_534usize, 65_535, 65_536, 65_537, 70_000, 131_071][ctx.n(6) as usize];
    let kind = ctx.n(3);
    let el = |i: usize| match kind {
        0 => M::Bool(i % 3 == 0),
        1 => M::Num(Number::from((i % 200) as u64)),
        _ => M::Str(format!("{}", i % 50)),
    };
    let h = n.min(40_000);
    let rest = (n - h).min(60_000);
    let third = n - h - rest;
    let (a, b, c): (Vec<M>, Vec<M>, Vec<M>) =
        ((0..h).map(el).collect(), (0..rest).map(|i| el(i + 1)).collect(), (0..third).map(el).collect());
    let mut all = a.clone();
    all.extend(b.iter().cloned());
    all.extend(c.iter().cloned());
    let m = M::Arr(vec![M::Arr(a), M::Arr(b), M::Arr(c)]);
    let y = plain(&m).map_err(skip)?;
    let fun = ctx.n(3);
    let t = match fun {
        2 => "$[*][*].type()",
        _ => "$[*][*]",
    };
    let pe = PathExpression::from_str(t).map_err(skip)?;
    let want: Vec<M> = match fun {
        2 => all.iter().map(|x| M::Str(x.type_name().into())).collect(),
        _ => all,
    };
    let fits = n <= MAX_LEN;
    let mut qb: Vec<Value> = Vec::new();
    let mut rb: Vec<u8> = vec![3; 10];
    for _ in 0..2 + ctx.n(2) {
        let (uq, ur) = (ctx.n(2) == 1, ctx.n(3) != 0);
        let r = ctx.sut("query", || {
            ask(&pe, &y, true, if uq { Some(&mut qb) } else { None }, if ur { Some(&mut rb) } else { None })
        })?;
        ctx.ev(format!("{t} with {n} results, result buffer {ur}: {}", r.is_ok()));
        let got = match r {
            Ok(Ans::Doc(b, M::Arr(v))) => {
                if !fits {
                    return viol("oversize-accepted", format!("a result document of {n} elements was written ({} read back)", v.len()));
                }
                good(ctx, "result document", &b, &M::Arr(want.clone()))?;
                v
            }
            Ok(Ans::Many(v)) => v,
            Err(_) if ur && !fits => {
                ctx.fault("oversize-result");
                continue;
            }
            r => return viol("valid-refused", format!("{t} with {n} results, result buffer {ur}: {}", brief(&r))),
        };
        if !M::Arr(got.clone()).same(&M::Arr(want.clone())) {
            return viol("damaged", format!("{t} with {n} results gave {} other ones", got.len()));
        }
    }
    // counting needs no room for the results
    let pc = PathExpression::from_str("$[*][*].count()").map_err(skip)?;
    let r = ctx.sut("query", || ask(&pc, &y, true, Some(&mut qb), Some(&mut rb)))?;
    match &r {
        Ok(Ans::Doc(_, M::Arr(v))) | Ok(Ans::Many(v)) if v.len() == 1 && v[0].same(&M::Num(Number::from(n as u64))) => Ok(()),
        _ => viol("damaged", format!("counting {n} results gives {}", brief(&r))),
    }
}

fn over_push(ctx: &mut Ctx) -> R {
    let obj = ctx.n(2) == 1;
    if obj {
        let mut b = ctx.sut("new object", || ObjectBuilder::try_new(65_535, true))?.map_err(skip)?;
        let r = ctx.sut("push", || {
            let mut k = String::with_capacity(8);
            for i in 0..65_535u32 {
                use std::fmt::Write;
                k.clear();
                write!(k, "{i:05}").unwrap();
                b.b(&k, i % 2 == 0)?;
            }
            Ok::<(), yason::BuildError>(())
        })?;
        if let Err(e) = r {
            return viol("valid-refused", format!("65535 members: {e:?}"));
        }
        if ctx.sut("push", || b.null("~").is_ok())? {
            return viol("oversize-accepted", "an object took a 65536th member");
        }
        ctx.fault("oversize-content");
        let m = M::Obj((0..65_535u32).map(|i| (format!("{i:05}"), M::Bool(i % 2 == 0))).collect());
        match ctx.sut("finish", move || b.finish())? {
            Ok(y) => good(ctx, "full object", y.as_bytes(), &m),
            Err(e) => viol("valid-refused", format!("finish of a full object: {e:?}")),
        }
    } else {
        let mut b = ctx.sut("new array", || ArrayBuilder::try_new(65_535))?.map_err(skip)?;
        let r = ctx.sut("push", || {
            for i in 0..65_535u32 {
                b.num(Number::from(i))?;
            }
            Ok::<(), yason::BuildError>(())
        })?;
        if let Err(e) = r {
            return viol("valid-refused", format!("65535 elements: {e:?}"));
        }
        if ctx.sut("push", || b.null().is_ok())? {
            return viol("oversize-accepted", "an array took a 65536th element");
        }
        ctx.fault("oversize-content");
        let m = M::Arr((0..65_535u32).map(|i| M::Num(Number::from(i))).collect());
        match ctx.sut("finish", move || b.finish())? {
            Ok(y) => good(ctx, "full array", y.as_bytes(), &m),
            Err(e) => viol("valid-refused", format!("finish of a full array: {e:?}")),
        }
    }
}

/// A string of `n` bytes (zeroes, or wide characters), by way of each function that takes one.
fn long_string(ctx: &mut Ctx, n: usize, kind: u64, wide: bool) -> R {
    let w = if wide { "\u{20ac}".repeat(n / 3) + &"a".repeat(n % 3) } else { String::new() };
    let r: B<usize> = with_huge(|s| {
        let s = if wide { w.as_str() } else { &s[..n] };
        ctx.sut("string", || {
            // judged by length and by reading back; the contents are all zero
            let check = |b: &[u8]| -> B<usize> {
                let y: &Yason = unsafe { Yason::new_unchecked(b) };
                let got = match kind {
                    0 | 1 => y.string().map(|x| x == s),
                    2 => y.array().and_then(|a| a.string(1)).map(|x| x == s),
                    _ => y.object().and_then(|o| o.string("k")).map(|x| x == Some(s)),
                };
                Ok(if got.unwrap_or(false) { b.len() } else { 0 })
            };
            match kind {
                0 => check(Scalar::string(s)?.as_bytes()),
                1 => {
                    let mut buf = Vec::new();
                    check(Scalar::string_with_vec(s, &mut buf)?.as_bytes())
                }
                2 => {
                    let mut b = ArrayBuilder::try_new(2)?;
                    b.null()?;
                    if b.s(s).is_err() {
                        // Ok(1): refused, but the builder is not usable any more
                        if b.s("instead").is_err() {
                            return Ok(1);
                        }
                        let Ok(y) = b.finish() else { return Ok(1) };
                        let ok = y.array().and_then(|a| a.string(1)).map(|x| x == "instead").unwrap_or(false);
                        return if ok { Err(yason::BuildError::StringTooLong(n)) } else { Ok(1) };
                    }
                    check(b.finish()?.as_bytes())
                }
                _ => {
                    let mut b = ObjectBuilder::try_new(1, false)?;
                    if b.s("k", s).is_err() {
                        // Ok(1): refused, but the builder is not usable any more
                        if b.s("k", "instead").is_err() {
                            return Ok(1);
                        }
                        let Ok(y) = b.finish() else { return Ok(1) };
                        let ok = y.object().and_then(|o| o.string("k")).map(|x| x == Some("instead")).unwrap_or(false);
                        return if ok { Err(yason::BuildError::StringTooLong(n)) } else { Ok(1) };
                    }
                    check(b.finish()?.as_bytes())
                }
            }
        })
    })?;
    ctx.ev(format!("string of {n} bytes, kind {kind}: {}", r.is_ok()));
    match r {
        Ok(1) if n > MAX_STR => viol("unusable-after-refusal", format!("after a string of {n} bytes was refused (kind {kind})")),
        Ok(l) if n > MAX_STR => viol("oversize-accepted", format!("a string of {n} bytes was accepted (kind {kind}, {l} bytes)")),
        Ok(l) if l <= n => viol("damaged", format!("a string of {n} bytes does not read back (kind {kind})")),
        Ok(_) => Ok(()),
        Err(e) if n <= MAX_STR => viol("valid-refused", format!("a string of {n} bytes was refused: {e:?}")),
        Err(_) => {
            ctx.fault("oversize-string");
            Ok(())
        }
    }
}

/// Containers around 2^31-1 bytes, the most the 4-byte size describes: what is on the safe side is
/// stored, what is not is refused.
fn huge_container(ctx: &mut Ctx, obj: bool) -> R {
    ctx.probe("container-beyond-2GiB");
    const KEYS: [&str; 8] = ["a", "b", "c", "d", "e", "f", "g", "h"];
    const LIMIT: usize = i32::MAX as usize;
    // behind the size: the count, a table, keys with their lengths, types and the lengths of the strings
    let head = 2 + if obj { 8 * (4 + 3 + 1 + 4) } else { 8 * (5 + 4) };
    let over = [1, 2 + ctx.n(60) as usize][ctx.n(2) as usize];
    let mut buf: Vec<u8> = Vec::with_capacity((8usize << 28) + 4096);
    for total in [LIMIT + over, LIMIT] {
        let last = total - head - 7 * MAX_STR;
        buf.clear();
        let r: B<(bool, bool)> = with_huge(|s| {
            ctx.sut("huge container", || {
                let part = |i: usize| &s[..if i == 7 { last } else { MAX_STR }];
                let y = if obj {
                    let mut b = ObjectRefBuilder::try_new(&mut buf, 8, true)?;
                    for i in 0..8 {
                        b.s(KEYS[i], part(i))?;
                    }
                    b.finish()
                } else {
                    let mut b = ArrayRefBuilder::try_new(&mut buf, 8)?;
                    for i in 0..8 {
                        b.s(part(i))?;
                    }
                    b.finish()
                };
                let Ok(y) = y else { return Ok((false, false)) };
                let whole = if obj {
                    y.object().and_then(|o| Ok((0..8).all(|i| matches!(o.string(KEYS[i]), Ok(Some(t)) if t.len() == part(i).len()))))
                } else {
                    y.array().and_then(|o| Ok((0..8).all(|i| matches!(o.string(i), Ok(t) if t.len() == part(i).len()))))
                };
                Ok((true, whole.unwrap_or(false)))
            })
        })?;
        ctx.ev(format!("container of {total} bytes: {r:?}"));
        match r {
            Ok((true, _)) if total > LIMIT => {
                return viol("oversize-accepted", format!("a container of {total} bytes was finished"));
            }
            Ok((true, false)) => return viol("damaged", format!("a container of {total} bytes does not read back")),
            Ok((false, _)) | Err(_) if total <= LIMIT => {
                return viol("valid-refused", format!("a container of {total} bytes was refused: {r:?}"));
            }
            _ => {}
        }
    }
    ctx.fault("oversize-container");
    Ok(())
}

/// Everything below the limits is stored: sizes around the points where the encoding of a length,
/// count or offset takes another byte.
fn mid_sizes(ctx: &mut Ctx) -> R {
    const EDGE: [usize; 8] = [1 << 7, 1 << 8, 1 << 14, 1 << 15, 1 << 16, 1 << 21, 1 << 24, 1000];
    let big = ctx.idx % 16 == 3;
    let near = |ctx: &mut Ctx, most: u64| {
        let e = EDGE[ctx.n(most) as usize];
        e - 2 + ctx.n(5) as usize
    };
    let ascii: &[u8] = b"abcdefgh \"\\";
    let small = |ctx: &mut Ctx, i: usize| match ctx.n(5) {
        0 => M::Null,
        1 => M::Bool(i % 2 == 0),
        2 => M::Num(Number::from(i as u64)),
        3 => M::Str(format!("s{i}")),
        _ => M::Arr(vec![M::Bool(true)]),
    };
    let m = match ctx.n(4) {
        0 => {
            // a long string among others
            let n = near(ctx, if big { 7 } else { 5 });
            let s = M::Str(crate::model::fill_str(ctx.n(1 << 20), n, ascii));
            match ctx.n(3) {
                0 => s,
                1 => {
                    let mut v = vec![small(ctx, 0), s, small(ctx, 1), small(ctx, 2)];
                    let i = ctx.n(4) as usize;
                    v.swap(1, i);
                    M::Arr(v)
                }
                _ => M::Obj(vec![("b".into(), small(ctx, 0)), ("a".into(), s), ("cc".into(), small(ctx, 3)), ("0".into(), small(ctx, 4))]),
            }
        }
        1 => {
            // many elements
            let n = near(ctx, 4);
            if ctx.n(2) == 0 {
                M::Arr((0..n).map(|i| if i % 50 == 7 { small(ctx, i) } else { M::Bool(i % 3 == 0) }).collect())
            } else {
                M::Obj((0..n).map(|i| (format!("{:x}", i * 7919 % 1_000_003), if i % 50 == 7 { small(ctx, i) } else { M::Num(Number::from(i as u64)) })).collect())
            }
        }
        2 => {
            // long keys
            let n = near(ctx, 4);
            let k = crate::model::fill_str(ctx.n(1 << 20), n, b"xy");
            let mut v = vec![(k.clone(), small(ctx, 1)), ("k".into(), small(ctx, 2)), (format!("{k}z"), small(ctx, 3))];
            if ctx.n(2) == 0 {
                v.push((format!("{}q", &k[..n - 1]), small(ctx, 4)));
                v.push((k[..n - 1].to_string(), M::Num(Number::from(5))));
            }
            M::Obj(v)
        }
        _ => {
            // offsets beyond an edge: the container is as long as the edge before the last values
            let n = near(ctx, if big { 7 } else { 5 });
            let pad = M::Str(crate::model::fill_str(3, n.saturating_sub(ctx.n(40) as usize), ascii));
            if ctx.n(2) == 0 {
                let inner = M::Obj(vec![("z".into(), M::Str("last".into())), ("y".into(), M::Num(Number::from(1)))]);
                M::Arr(vec![pad, M::Null, inner, M::Str("tail".into()), M::Bool(false), M::Num(Number::from(7))])
            } else {
                let mut v: Vec<(String, M)> = (0..12).map(|i| (format!("k{i:02}"), small(ctx, i))).collect();
                let at = ctx.n(12) as usize;
                v.insert(at, ("a".into(), pad));
                M::Obj(v)
            }
        }
    };
    ctx.fault("edge-size");
    let (b, way): (Vec<u8>, &str) = match ctx.n(5) {
        0 => match build_owned(ctx, &m, &mut Dist { fixed: Some(true), ..Dist::none() })? {
            Doc::Done(b, _) => (b, "owned builder, sorted"),
            Doc::Refused => return viol("valid-refused", m.brief()),
        },
        1 => match build_owned(ctx, &m, &mut Dist { fixed: Some(false), ..Dist::none() })? {
            Doc::Done(b, _) => (b, "owned builder"),
            Doc::Refused => return viol("valid-refused", m.brief()),
        },
        2 => {
            let mut buf = vec![1u8; ctx.n(9) as usize];
            match build_ref(ctx, &mut buf, &m, &mut Dist { fixed: Some(false), ..Dist::none() })? {
                Doc::Done(b, _) => (b, "reference builder"),
                Doc::Refused => return viol("valid-refused", m.brief()),
            }
        }
        _ => {
            let v = crate::model::to_json(&m);
            match convert(ctx, &v, true, &m.brief())? {
                Some(b) => (b, "conversion"),
                None => return Ok(()),
            }
        }
    };
    ctx.ev(format!("{way}: {} bytes: {}", b.len(), m.brief()));
    good(ctx, way, &b, &m)?;
    // read back as text too
    let y: &Yason = unsafe { Yason::new_unchecked(&b) };
    let pretty = ctx.n(2) == 1;
    let text = crate::reffmt::text(&m, pretty);
    let mut w = crate::io::SimWriter::new(crate::io::WFault::None, text.len());
    let r = ctx.sut("format", || y.format_to(pretty, &mut w).is_ok())?;
    if !r || w.out != text {
        return viol("damaged", format!("{way}: the text differs (ok={r}); {}", m.brief()));
    }
    // and as the result of a query, whole and in parts
    let mut rb = vec![7u8; ctx.n(9) as usize];
    for t in ["$", "$.*", "$[*]"] {
        let pe = PathExpression::from_str(t).map_err(skip)?;
        let want: Vec<M> = match (&m, t) {
            (_, "$") => vec![m.clone()],
            (M::Obj(v), "$.*") => crate::model::sorted(v).into_iter().map(|e| e.1.clone()).collect(),
            (M::Arr(v), "$[*]") => v.clone(),
            (_, "$[*]") => vec![m.clone()],
            (M::Arr(v), _) => v
                .iter()
                .flat_map(|e| match e {
                    M::Obj(w) => crate::model::sorted(w).into_iter().map(|e| e.1.clone()).collect(),
                    _ => Vec::new(),
                })
                .collect(),
            _ => Vec::new(),
        };
        let r = ctx.sut("query", || ask(&pe, y, true, None, Some(&mut rb)))?;
        match &r {
            Ok(Ans::None) if want.is_empty() => {}
            Ok(Ans::Doc(b, M::Arr(v))) if M::Arr(v.clone()).same(&M::Arr(want.clone())) => {
                good(ctx, &format!("result of {t}"), b, &M::Arr(want))?;
            }
            _ => return viol("damaged", format!("{t} on {}: {}", m.brief(), brief(&r))),
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) -> R {
    if !CHECKED && (ctx.idx == 5 || ctx.idx == 11 || ctx.idx % 400 == 105 && !ctx.quick) {
        let obj = if ctx.idx > 11 { ctx.n(2) == 1 } else { ctx.idx == 11 };
        return huge_container(ctx, obj);
    }
    if ctx.idx % 80 == 19 {
        let kind = ctx.n(4);
        return long_string(ctx, MAX_STR, kind, false);
    }
    if ctx.idx % 20 == 13 {
        let kind = ctx.n(4);
        let n = MAX_STR + 1;
        return long_string(ctx, n, kind, ctx.idx % 60 == 33);
    }
    match ctx.n(16) {
        0..=3 => keys_builder(ctx),
        4 | 5 => keys_json(ctx),
        6..=8 => counts_json(ctx),
        9 => results(ctx),
        10 => over_push(ctx),
        _ => mid_sizes(ctx),
    }
}
