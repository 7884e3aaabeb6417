//! Stored documents, and nested values stored as documents of their own, read back completely
//! wherever they are loaded, also after a crash.

use crate::builder::*;
use crate::ctx::{skip, viol, Ctx, R};
use crate::io::{Place, SimDisk};
use crate::model::{self, gen_doc, Knobs, M};
use crate::reader::yason_is;
use crate::reffmt;
use yason::{Value, Yason, YasonBuf};

/// Encodes the document in one of the ways the crate offers; also gives back what it contains.
fn encode(ctx: &mut Ctx, m: &M) -> R<Option<(Vec<u8>, M)>> {
    let mut d = if ctx.n(3) == 2 { Dist::draw(ctx, &[OOM, UNWIND, PHANTOM, BIGKEY]) } else { Dist::none() };
    let doc = match ctx.n(6) {
        0 | 1 => build_owned(ctx, m, &mut d)?,
        2 | 3 => {
            let pre = ctx.n(9) as usize;
            let mut buf = vec![0xa5; pre];
            build_ref(ctx, &mut buf, m, &mut d)?
        }
        4 => {
            let v = model::to_json(m);
            let y = ctx.sut("convert", || YasonBuf::try_from(&v))?.map_err(skip)?;
            Doc::Done(y.as_bytes().to_vec(), m.clone())
        }
        _ => {
            let t = reffmt::text(m, ctx.idx % 2 == 0);
            let mut buf = vec![1u8; ctx.n(5) as usize];
            let r = ctx.sut("parse_to", || Yason::parse_to(&mut buf, &t).map(|y| y.as_bytes().to_vec()))?;
            Doc::Done(r.map_err(skip)?, m.clone())
        }
    };
    Ok(match doc {
        Doc::Done(b, acked) => Some((b, acked)),
        Doc::Refused => None,
    })
}

/// The bytes of values found inside a document, taken through the API.
fn parts(y: &Yason, m: &M, ctx: &mut Ctx, out: &mut Vec<(Vec<u8>, M)>) -> R {
    fn bytes(v: &Value) -> Result<Vec<u8>, yason::YasonError> {
        Ok(match v {
            Value::Array(a) => a.yason().as_bytes().to_vec(),
            Value::Object(o) => o.yason().as_bytes().to_vec(),
            v => {
                let mut buf = Vec::new();
                v.try_to_yason(&mut buf)?.as_bytes().to_vec()
            }
        })
    }
    fn at<'a>(y: &'a Yason, m: &M, i: usize) -> Result<Option<Value<'a>>, yason::YasonError> {
        Ok(match m {
            M::Arr(_) => Some(y.array()?.get(i)?),
            M::Obj(v) => y.object()?.get(&v[i].0)?,
            _ => None,
        })
    }
    let n = match m {
        M::Arr(v) => v.len(),
        M::Obj(v) => v.len(),
        _ => 0,
    };
    if n == 0 {
        return Ok(());
    }
    let i = ctx.n(n as u64) as usize;
    let child = match m {
        M::Arr(v) => v[i].clone(),
        M::Obj(v) => v[i].1.clone(),
        _ => return Ok(()),
    };
    let r = ctx.sut("extract a nested value", || match at(y, m, i) {
        Ok(Some(v)) => bytes(&v).map(Some),
        Ok(None) => Ok(None),
        Err(e) => Err(e),
    })?;
    match r {
        Ok(Some(b)) => {
            if child.is_container() && u32::from_le_bytes(b[1..5].try_into().unwrap()) as usize + 5 != b.len() {
                return viol("wrong-extent", format!("nested value {i} of {} comes with bytes that are not its own", m.brief()));
            }
            if child.is_container() && ctx.n(2) == 1 {
                let z: &Yason = unsafe { Yason::new_unchecked(&b) };
                parts(z, &child, ctx, out)?;
            }
            out.push((b, child));
            Ok(())
        }
        Ok(None) => viol("unreadable", format!("nested value {i} of {} is missing", m.brief())),
        Err(e) => viol("unreadable", format!("nested value {i} of {}: {e:?}", m.brief())),
    }
}

pub fn run(ctx: &mut Ctx) -> R {
    let k = Knobs::draw(ctx, 30);
    let mut disk = SimDisk::default();
    let limit = if ctx.fchance(5) { 200 + ctx.f(4000) as usize } else { 1 << 28 };
    let mut stored: Vec<M> = Vec::new();
    let mut synced = 0;
    let gens = 1 + ctx.n(3);
    for g in 0..gens {
        let n = 1 + ctx.n(4);
        'writing: for _ in 0..n {
            let m = gen_doc(ctx, &k);
            let Some((b, m)) = encode(ctx, &m)? else { continue };
            let mut recs = Vec::new();
            {
                let y: &Yason = unsafe { Yason::new_unchecked(&b) };
                if ctx.n(2) == 1 {
                    parts(y, &m, ctx, &mut recs)?;
                }
            }
            recs.push((b, m));
            for (b, m) in recs {
                ctx.ev(format!("gen {g}: store {} bytes: {}", b.len(), m.brief()));
                if !disk.append(&b, limit) {
                    ctx.fault("disk-full");
                    break 'writing;
                }
                stored.push(m);
                if ctx.n(3) == 0 {
                    disk.sync();
                    synced = stored.len();
                }
            }
        }
        disk.crash(ctx);
        let (recs, end) = disk.scan();
        ctx.ev(format!("gen {g}: crashed; {} of {} records left, {synced} were synced", recs.len(), stored.len()));
        if recs.len() < synced || recs.len() > stored.len() {
            return viol("harness", "the simulated disk lost synced records");
        }
        stored.truncate(recs.len());
        for (r, m) in recs.iter().zip(&stored) {
            let p = Place::draw(ctx, &disk.bytes()[r.clone()]);
            let skew = p.bytes().as_ptr() as usize % 64;
            let y: &Yason = unsafe { Yason::new_unchecked(p.bytes()) };
            let r = ctx.sut("read a recovered document", || yason_is(y, m))?;
            if let Err(e) = r {
                return viol("unreadable", format!("recovered document loaded at 64k+{skew}: {e}; stored {}", m.brief()));
            }
        }
        disk.truncate(end);
        disk.sync();
        synced = stored.len();
    }
    Ok(())
}
