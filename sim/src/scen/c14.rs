//! Equality is equality of content, whatever the history of the two documents.

use crate::builder::*;
use crate::codec::{self, Layout};
use crate::ctx::{skip, viol, Ctx, R};
use crate::io::Placed;
use crate::model::{self, gen_doc, mutate, mutate_in_place, Knobs, M};
use crate::reffmt;
use yason::{Value, Yason, YasonBuf};

fn shuffle(ctx: &mut Ctx, m: &M) -> M {
    match m {
        M::Arr(v) => M::Arr(v.iter().map(|x| shuffle(ctx, x)).collect()),
        M::Obj(v) => {
            let mut w: Vec<(String, M)> = v.iter().map(|(k, x)| (k.clone(), shuffle(ctx, x))).collect();
            for i in (1..w.len()).rev() {
                let j = ctx.n(i as u64 + 1) as usize;
                w.swap(i, j);
            }
            M::Obj(w)
        }
        x => x.clone(),
    }
}

/// Numbers written differently but of the same value.
fn respell(ctx: &mut Ctx, m: &M) -> M {
    match m {
        M::Arr(v) => M::Arr(v.iter().map(|x| respell(ctx, x)).collect()),
        M::Obj(v) => M::Obj(v.iter().map(|(k, x)| (k.clone(), respell(ctx, x))).collect()),
        M::Num(n) => {
            let t = n.to_string();
            let zeros = t.len() - t.trim_end_matches('0').len();
            let r = match ctx.n(5) {
                // these differ in the encoded form, too
                3 | 4 if zeros > 0 && t.trim_matches(['-', '0']) != "" && !t.contains(['.', 'e', 'E']) => {
                    let z = 1 + ctx.n(zeros as u64) as usize;
                    format!("{}e{z}", &t[..t.len() - z])
                }
                0 if t.contains('.') && !t.contains(['e', 'E']) && t.len() < 30 => format!("{t}00"),
                1 if !t.contains(['.', 'e', 'E']) && t.len() < 30 => format!("{t}.000"),
                2 => format!("{t}{}", if t.contains(['e', 'E']) { "" } else { "e0" }),
                _ => t.clone(),
            };
            match r.parse::<yason::Number>() {
                Ok(x) if x == *n => M::Num(x),
                _ => m.clone(),
            }
        }
        x => x.clone(),
    }
}

/// One history for a document; None if it was refused.
fn make(ctx: &mut Ctx, m: &M) -> R<Option<(Vec<u8>, M)>> {
    let m = shuffle(ctx, m);
    let how = ctx.n(7);
    ctx.ev(format!("history {how}"));
    let ok = |b: Vec<u8>| Ok(Some((b, m.clone())));
    match how {
        0 | 1 => {
            let mut d = Dist::draw(ctx, &[OOM, UNWIND, PHANTOM, BIGKEY, OVER]);
            let doc = if how == 0 {
                build_owned(ctx, &m, &mut d)?
            } else {
                let mut buf = vec![0x42; ctx.n(7) as usize];
                build_ref(ctx, &mut buf, &m, &mut d)?
            };
            match doc {
                Doc::Done(b, m) => Ok(Some((b, m))),
                Doc::Refused => Ok(None),
            }
        }
        2 | 3 => {
            // another encoder's layout
            let m2 = respell(ctx, &m);
            let l = Layout { shuffle: ctx.n(1000), null_fill: ctx.f(1 << 32) as u32 };
            let mut v = Vec::new();
            codec::encode(&m2, &l, &mut v);
            ctx.fault("foreign-layout");
            Ok(Some((v, m2)))
        }
        4 => {
            let t = reffmt::text(&m, false);
            let y = ctx.sut("parse", || YasonBuf::parse(&t))?.map_err(skip)?;
            ok(y.as_bytes().to_vec())
        }
        5 => {
            let v = model::to_json(&m);
            let y = ctx.sut("convert", || YasonBuf::try_from(&v))?.map_err(skip)?;
            ok(y.as_bytes().to_vec())
        }
        _ => {
            // extracted from another document
            let outer = M::Obj(vec![("pad".into(), M::Str("x".repeat(ctx.n(9) as usize))), ("doc".into(), m.clone())]);
            let y = plain(&outer).map_err(skip)?;
            let r = ctx.sut("extract", || {
                let v = y.object()?.get("doc")?.unwrap();
                Ok::<_, yason::YasonError>(match &v {
                    Value::Array(a) => a.yason().as_bytes().to_vec(),
                    Value::Object(o) => o.yason().as_bytes().to_vec(),
                    v => {
                        let mut buf = Vec::new();
                        v.try_to_yason(&mut buf)?.as_bytes().to_vec()
                    }
                })
            })?;
            ok(r.map_err(skip)?)
        }
    }
}

fn compare(ctx: &mut Ctx, (pa, ma): (&Placed, &M), (pb, mb): (&Placed, &M)) -> R {
    let same = ma.same(mb);
    let (ya, yb): (&Yason, &Yason) = unsafe { (Yason::new_unchecked(pa.bytes()), Yason::new_unchecked(pb.bytes())) };
    let bad = |what: String| viol("wrong-equality", format!("{what}; content equal: {same}; {} and {}", ma.brief(), mb.brief()));
    let (r1, r2) = ctx.sut("equals", || (ya.equals(yb), yb.equals(ya)))?;
    match (&r1, &r2) {
        (Ok(x), Ok(y)) if *x == same && *y == same => {}
        e => return bad(format!("equals gives {e:?}")),
    }
    match ctx.sut("equals", || (ya.equals(ya), yb.equals(yb)))? {
        (Ok(true), Ok(true)) => {}
        e => return bad(format!("equals with itself gives {e:?}")),
    }
    let oa = ctx.sut("copy", || ya.to_yason_buf())?.map_err(skip)?;
    let ob = ctx.sut("copy", || yb.to_yason_buf())?.map_err(skip)?;
    let r = ctx.sut("==", || (*ya == *yb, oa == ob, *oa == *yb, ob == oa))?;
    if r != (same, same, same, same) {
        return bad(format!("== gives {r:?}"));
    }
    Ok(())
}

/// Thousands of small elements, most of them numbers that can be spelt in several ways.
fn long(ctx: &mut Ctx) -> M {
    let n = [255usize, 256, 1000, 1024, 2000, 4096, 10_000][ctx.n(7) as usize] + ctx.n(3) as usize;
    let obj = ctx.n(2) == 1;
    let mut r = crate::tape::Rng::new(ctx.n(1000));
    let kinds = 1 + ctx.n(4);
    let value = |r: &mut crate::tape::Rng, i: usize| match r.next() % kinds {
        0 => M::Num(yason::Number::from(i * 10)),
        1 => M::Num(format!("{}.5", i).parse().unwrap()),
        2 => M::Str(i.to_string()),
        _ => M::Arr(vec![M::Num(yason::Number::from(i))]),
    };
    if obj {
        M::Obj((0..n).map(|i| (format!("{:x}", i * 7919), value(&mut r, i))).collect())
    } else {
        M::Arr((0..n).map(|i| value(&mut r, i)).collect())
    }
}

/// A long string or key, alone or among others.
fn long_text(ctx: &mut Ctx) -> M {
    let l = match ctx.n(3) {
        0 => 20 + ctx.n(300) as usize,
        1 => 1000 + ctx.n(20_000) as usize,
        _ => 30_000 + ctx.n(100_000) as usize,
    };
    let seed = ctx.n(16);
    let text = |l| model::fill_str(seed, l, b"abcdefgh");
    match ctx.n(4) {
        0 => M::Str(text(l)),
        1 => M::Arr(vec![M::Null, M::Str(text(l)), M::Bool(true)]),
        2 => M::Obj(vec![(text(l.min(65_535)), M::Null)]),
        _ => M::Obj(vec![(text(l.min(65_535)), M::Str(text(l))), ("b".into(), M::Null), (text(l.min(300)) + "z", M::Null)]),
    }
}

pub fn run(ctx: &mut Ctx) -> R {
    let k = Knobs::draw(ctx, 30);
    let ma = match ctx.n(40) {
        39 => long(ctx),
        37 | 38 => long_text(ctx),
        _ => gen_doc(ctx, &k),
    };
    let mb = match ctx.n(3) {
        0 | 1 => ma.clone(),
        _ => mutate(ctx, &ma),
    };
    let Some((a, ma)) = make(ctx, &ma)? else { return Ok(()) };
    let Some((b, mb)) = make(ctx, &mb)? else { return Ok(()) };
    let same = ma.same(&mb);
    ctx.ev(format!("same={same}: {} and {}", ma.brief(), mb.brief()));
    if a != b {
        ctx.fault("different-bytes");
    }
    let (sa, sb) = (ctx.f(65) as usize, ctx.f(65) as usize);
    let (mut pa, pb) = (Placed::new(&a, sa, 1), Placed::new(&b, sb, 2));
    compare(ctx, (&pa, &ma), (&pb, &mb))?;
    // the same places may hold other documents later
    for _ in 0..ctx.n(3) {
        let mc = if ctx.n(3) == 2 { mb.clone() } else { mutate_in_place(ctx, &ma) };
        let l = Layout { shuffle: ctx.n(1000), null_fill: ctx.f(1 << 32) as u32 };
        let mut c = Vec::new();
        codec::encode(&mc, &l, &mut c);
        if pa.reload(&c) {
            ctx.fault("reused-place");
            ctx.ev(format!("replaced by {}", mc.brief()));
            compare(ctx, (&pa, &mc), (&pb, &mb))?;
        }
    }
    let bad = |what: String| viol("wrong-equality", format!("{what}; content equal: {same}; {} and {}", ma.brief(), mb.brief()));
    // as parts of larger documents
    let wrap = |ctx: &mut Ctx, m: &M, i: u64| -> M {
        match ctx.n(3) {
            0 => M::Arr(vec![M::Null, m.clone(), M::Num(i.into())]),
            1 => M::Arr(vec![m.clone(), m.clone()]),
            _ => M::Obj(vec![("a".into(), M::Null), ("doc".into(), m.clone()), ("b".into(), M::Bool(false))]),
        }
    };
    let save = ctx.n(3);
    let _ = save;
    let wa = wrap(ctx, &ma, 1);
    let wb = match &wa {
        M::Arr(v) if v.len() == 3 => M::Arr(vec![v[0].clone(), mb.clone(), v[2].clone()]),
        M::Arr(_) => M::Arr(vec![mb.clone(), mb.clone()]),
        _ => M::Obj(vec![("b".into(), M::Bool(false)), ("doc".into(), mb.clone()), ("a".into(), M::Null)]),
    };
    let mut va = Vec::new();
    let l = Layout { shuffle: ctx.n(1000), null_fill: ctx.f(1 << 32) as u32 };
    codec::encode(&wa, &l, &mut va);
    let xb = plain(&wb).map_err(skip)?;
    let xa: &Yason = unsafe { Yason::new_unchecked(&va) };
    match ctx.sut("equals", || (xa.equals(&xb), xb.equals(xa)))? {
        (Ok(x), Ok(y)) if x == same && y == same => {}
        e => return bad(format!("inside larger documents, equals gives {e:?}")),
    }
    Ok(())
}
