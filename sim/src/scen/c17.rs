//! Object keys are kept in order and every key is found, whatever the order and the failures of
//! the pushes.

use crate::builder::*;
use crate::codec;
use crate::ctx::{skip, viol, Ctx, R};
use crate::io::Placed;
use crate::model::{self, key_cmp, Knobs, M};
use crate::reader::object_is;
use yason::{Number, Yason, YasonBuf};

fn keys(ctx: &mut Ctx, k: &Knobs) -> Vec<String> {
    let n = match ctx.n(8) {
        0..=3 => ctx.n(12) as usize,
        4 | 5 => ctx.n(70) as usize,
        6 => [127usize, 128, 129, 255, 256, 257][ctx.n(6) as usize],
        _ => ctx.n(400) as usize,
    };
    let style = ctx.n(7);
    let long = 8 + ctx.n(if ctx.idx % 50 == 3 { 65_500 } else { 400 }) as usize;
    let mut used = std::collections::BTreeSet::new();
    let mut v = Vec::new();
    let seed = ctx.n(1000);
    for i in 0..n {
        let key = match style {
            0 => format!("k{i}"),
            1 => format!("{i:04}"),
            2 => "a".repeat(i % 300),
            3 => {
                let l = 1 + i % 5;
                model::fill_str(seed + i as u64, l, b"ab\x01~")
            }
            4 => format!("{}é{}", "x".repeat(i % 7), i),
            5 => {
                // one character tells them apart
                let t = model::fill_str(seed, long, b"ab");
                let at = (i * 7919) % long;
                if n > 40 && long > 1000 { format!("{at:x}") } else { model::one_off(&t, at).unwrap_or(t) }
            }
            _ => model::gen_key(ctx, k),
        };
        if used.insert(key.clone()) {
            v.push(key);
        }
    }
    v
}

pub fn run(ctx: &mut Ctx) -> R {
    let k = Knobs::draw(ctx, 8);
    let ks = if ctx.idx % 400 == 399 {
        ctx.probe("full-object");
        (0..65_535u32).map(|i| format!("{:x}", i.wrapping_mul(40_503))).collect::<std::collections::BTreeSet<_>>().into_iter().collect()
    } else {
        keys(ctx, &k)
    };
    let full = ks.len() > 5000;
    let mut v: Vec<(String, M)> = Vec::new();
    for (i, key) in ks.into_iter().enumerate() {
        let m = if full || ctx.n(6) != 5 { M::Num(Number::from(i as u64)) } else { model::gen_scalar(ctx, &k) };
        v.push((key, m));
    }
    // push order
    let order = ctx.n(5);
    match order {
        0 => {}
        1 => v.sort_by(|a, b| key_cmp(&a.0, &b.0)),
        2 => v.sort_by(|a, b| key_cmp(&b.0, &a.0)),
        3 => {
            let s = ctx.n(1 << 20);
            let mut r = crate::tape::Rng::new(s);
            for i in (1..v.len()).rev() {
                v.swap(i, (r.next() % (i as u64 + 1)) as usize);
            }
        }
        _ => {
            // sorted but for a few
            v.sort_by(|a, b| key_cmp(&a.0, &b.0));
            let n = v.len() as u64;
            for _ in 0..1 + ctx.n(3) {
                if n > 1 {
                    let (i, j) = (ctx.n(n) as usize, ctx.n(n) as usize);
                    v.swap(i, j);
                }
            }
        }
    }
    if v.windows(2).any(|w| key_cmp(&w[0].0, &w[1].0).is_gt()) {
        ctx.fault("out-of-order-push");
    }
    let m = M::Obj(v);
    ctx.ev(format!("order {order}: {}", m.brief()));
    let (bytes, acked) = match ctx.n(6) {
        5 if !full => {
            let j = model::to_json(&m);
            let y = ctx.sut("convert", || YasonBuf::try_from(&j))?.map_err(skip)?;
            (y.as_bytes().to_vec(), m.clone())
        }
        x => {
            let mut d = if full { Dist::none() } else { Dist::draw(ctx, &[OOM, UNWIND, PHANTOM, BIGKEY, REENTRANT]) };
            let doc = if x % 2 == 0 {
                build_owned(ctx, &m, &mut d)?
            } else {
                let mut buf = vec![5u8; ctx.n(9) as usize];
                build_ref(ctx, &mut buf, &m, &mut d)?
            };
            match doc {
                Doc::Done(b, a) => (b, a),
                Doc::Refused => return Ok(()),
            }
        }
    };
    // the strict decoder checks that the offsets are in key order
    match codec::decode(&bytes) {
        Ok(got) if got.same(&acked) => {}
        Ok(got) => return viol("wrong-keys", format!("object is {}, acknowledged {}", got.brief(), acked.brief())),
        Err(e) => return viol("wrong-keys", format!("{e}; acknowledged {}", acked.brief())),
    }
    let skew = ctx.f(65) as usize;
    let p = Placed::new(&bytes, skew, 7);
    let y: &Yason = unsafe { Yason::new_unchecked(p.bytes()) };
    let M::Obj(av) = &acked else { return viol("harness", "not an object") };
    let r = ctx.sut("read", || {
        let o = y.object().map_err(|e| format!("{e:?}"))?;
        object_is(&o, av)
    })?;
    if let Err(e) = r {
        return viol("wrong-keys", format!("{e}; {} keys, {}", av.len(), acked.brief()));
    }
    Ok(())
}
