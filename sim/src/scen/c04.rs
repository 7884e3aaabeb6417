//! Caller buffers: appends keep what was there, and the returned document is what was appended;
//! query buffers are replaced.

use crate::alloc::{unarmed, Plan};
use crate::builder::*;
use crate::codec;
use crate::ctx::{viol, Ctx, R};
use crate::model::{self, gen_container, gen_doc, gen_scalar, Knobs, M};
use crate::reader::{m_of, m_of_yason};
use crate::reffmt;
use crate::refpath::{cost, gen_path};
use std::str::FromStr;
use yason::{PathExpression, QueriedValue, Value, Yason, YasonBuf};

struct Shared {
    buf: Vec<u8>,
    /// finished documents in the buffer
    live: Vec<(std::ops::Range<usize>, M)>,
    /// what the buffer must start with
    keep: Vec<u8>,
}

impl Shared {
    fn check(&mut self, ctx: &mut Ctx, what: &str, failed: bool) -> R {
        let n = self.keep.len();
        if self.buf.len() < n {
            return viol("prefix-damaged", format!("{what} left {} of {n} bytes the caller had", self.buf.len()));
        }
        if self.buf[..n] != self.keep[..] {
            let at = (0..n).find(|&i| self.buf[i] != self.keep[i]).unwrap();
            return viol("prefix-damaged", format!("{what} changed byte {at} of {n} the caller had"));
        }
        if failed {
            ctx.fault("failed-append");
            // the caller either cuts the buffer back or goes on behind what is there
            if ctx.n(2) == 0 {
                self.buf.truncate(n);
            }
        }
        self.keep = self.buf.clone();
        Ok(())
    }
    /// `doc` was returned by an append that started at `at`.
    fn appended(&mut self, what: &str, at: usize, doc: &[u8], m: &M) -> R {
        if self.buf.len() < at || &self.buf[at..] != doc {
            return viol("wrong-region", format!("{what}: the returned document ({} bytes) is not what was appended ({} bytes)", doc.len(), self.buf.len().saturating_sub(at)));
        }
        expect_doc(what, doc, m)?;
        self.live.push((at..self.buf.len(), m.clone()));
        Ok(())
    }
}

fn plan(ctx: &mut Ctx) -> Plan {
    if ctx.fchance(3) {
        draw_plan(ctx)
    } else {
        Plan::None
    }
}

pub fn run(ctx: &mut Ctx) -> R {
    let k = Knobs::draw(ctx, 24);
    let pre = [0usize, 0, 1, 3, 17, 200][ctx.n(6) as usize];
    let mut s = Shared { buf: Vec::with_capacity(pre + ctx.n(400) as usize), live: Vec::new(), keep: Vec::new() };
    for i in 0..pre {
        s.buf.push(i as u8 ^ 0x5a);
    }
    s.keep = s.buf.clone();
    let mut results: Vec<u8> = Vec::new();
    let steps = 2 + ctx.n(8);
    for _ in 0..steps {
        let at = s.buf.len();
        match ctx.n(8) {
            0 | 1 => {
                let m = gen_container(ctx, &k);
                let mut d = if ctx.n(2) == 0 {
                    Dist::none()
                } else {
                    Dist::draw(ctx, &[OOM, PHANTOM, UNWIND, ABANDON, BADFINISH, OVER, BIGKEY, DEEP])
                };
                ctx.ev(format!("append at {at}: {}", m.brief()));
                match build_ref(ctx, &mut s.buf, &m, &mut d)? {
                    Doc::Done(b, acked) => {
                        s.appended("builder", at, &b, &acked)?;
                        s.check(ctx, "builder", false)?;
                    }
                    Doc::Refused => s.check(ctx, "refused builder", true)?,
                }
            }
            2 => {
                let m = gen_scalar(ctx, &k);
                let p = plan(ctx);
                ctx.ev(format!("append scalar at {at}: {} under {p:?}", m.brief()));
                let (r, fired, _) =
                    ctx.sut_plan("scalar", p, || plain_into(&m, &mut s.buf).map(|y| unarmed(|| y.as_bytes().to_vec())))?;
                match r {
                    Ok(b) => {
                        s.appended("scalar", at, &b, &m)?;
                        s.check(ctx, "scalar", false)?;
                    }
                    Err(_) if fired > 0 => s.check(ctx, "failed scalar", true)?,
                    Err(e) => return viol("valid-push-refused", format!("scalar: {e:?}")),
                }
            }
            3 => {
                let m = gen_doc(ctx, &k);
                let text = reffmt::text(&m, false);
                ctx.ev(format!("parse at {at}: {}", model::brief_str(&text)));
                let r = ctx.sut("parse_to", || Yason::parse_to(&mut s.buf, &text).map(|y| y.as_bytes().to_vec()))?;
                match r {
                    Ok(b) => {
                        s.appended("parse_to", at, &b, &m)?;
                        s.check(ctx, "parse_to", false)?;
                    }
                    Err(e) => return viol("valid-push-refused", format!("parse_to of {text}: {e:?}")),
                }
            }
            4 => {
                // text that fails half way: syntax error, or a number no decimal can hold
                let m = gen_container(ctx, &k);
                let t = reffmt::text(&m, false);
                let text = match ctx.f(3) {
                    0 => {
                        let mut n = 1 + ctx.f(t.len() as u64 - 1) as usize;
                        while !t.is_char_boundary(n) {
                            n -= 1;
                        }
                        t[..n].to_string()
                    }
                    1 => format!("[{t},[1,{t},1e999]]"),
                    _ => format!("{{\"a\":{t},\"zz\":[{t},{{\"b\":-9e9999}}]}}"),
                };
                ctx.ev(format!("parse bad text at {at}: {}", model::brief_str(&text)));
                let r = ctx.sut("parse_to", || Yason::parse_to(&mut s.buf, &text).is_ok())?;
                if r {
                    return viol("bad-text-accepted", format!("parse_to accepted {text}"));
                }
                s.check(ctx, "failed parse_to", true)?;
            }
            5 => {
                let m = gen_doc(ctx, &k);
                let y = plain(&m).map_err(crate::ctx::skip)?;
                let v = Value::try_from(&*y).map_err(crate::ctx::skip)?;
                let p = plan(ctx);
                ctx.ev(format!("try_to_yason at {at}: {} under {p:?}", m.brief()));
                let (r, fired, _) =
                    ctx.sut_plan("try_to_yason", p, || v.try_to_yason(&mut s.buf).map(|y| unarmed(|| y.as_bytes().to_vec())))?;
                match r {
                    Ok(b) => {
                        if m.is_container() && s.buf.len() == at {
                            // a container has its bytes already
                            expect_doc("try_to_yason", &b, &m)?;
                        } else {
                            s.appended("try_to_yason", at, &b, &m)?;
                        }
                        s.check(ctx, "try_to_yason", false)?;
                    }
                    Err(_) if fired > 0 => s.check(ctx, "failed try_to_yason", true)?,
                    Err(e) => return viol("valid-push-refused", format!("try_to_yason: {e:?}")),
                }
            }
            _ => {
                // queries: over a document in the shared buffer when there is one
                let (bytes, m) = match s.live.last() {
                    Some((r, m)) if ctx.n(2) == 0 => (s.buf[r.clone()].to_vec(), m.clone()),
                    _ => {
                        let m = gen_doc(ctx, &k);
                        (codec::encoded(&m), m)
                    }
                };
                let y: &Yason = unsafe { Yason::new_unchecked(&bytes) };
                let other = codec::encoded(&M::Arr(vec![M::Str("stale".into()), M::Null]));
                let path = gen_path(ctx, &m, true);
                if cost(&path, &m) > 2000 {
                    continue;
                }
                let text = path.render(ctx, false);
                let pe = PathExpression::from_str(&text).map_err(crate::ctx::skip)?;
                let want = path.eval(&m);
                let mut qb: Vec<Value> = Vec::new();
                if ctx.n(2) == 0 {
                    // stale values of another document
                    let o: &Yason = unsafe { Yason::new_unchecked(&other) };
                    for _ in 0..1 + ctx.f(5) {
                        qb.push(Value::try_from(o).map_err(crate::ctx::skip)?);
                    }
                    ctx.fault("stale-query-buffer");
                }
                if ctx.n(2) == 0 {
                    results.extend_from_slice(b"stale result bytes");
                    ctx.fault("stale-result-buffer");
                }
                let use_rb = ctx.n(3) != 0;
                let p = plan(ctx);
                ctx.ev(format!("query {text} on {} under {p:?}, result buffer {use_rb}", m.brief()));
                let (r, fired, _) = ctx.sut_plan("query", p, || {
                    let q = pe.query(y, true, Some(&mut qb), if use_rb { Some(&mut results) } else { None });
                    unarmed(|| match q {
                        Ok(QueriedValue::None) => Ok((Vec::new(), None)),
                        Ok(QueriedValue::Value(v)) => Ok((vec![m_of(&v)], None)),
                        Ok(QueriedValue::Values(v)) => Ok((v.iter().map(m_of).collect(), None)),
                        Ok(QueriedValue::ValuesRef(v)) => Ok((v.iter().map(m_of).collect(), None)),
                        Ok(QueriedValue::Yason(d)) => Ok((Vec::new(), Some((d.as_bytes().to_vec(), m_of_yason(d))))),
                        Err(e) => Err(format!("{e:?}")),
                    })
                })?;
                match r {
                    Err(_) if fired > 0 => ctx.fault("failed-query"),
                    Err(e) => return viol("query-failed", format!("{text} on {}: {e}", m.brief())),
                    Ok((vals, doc)) => {
                        let got = match &doc {
                            None => vals.into_iter().collect::<Result<Vec<M>, String>>(),
                            Some((b, d)) => {
                                if b[..] != results[..] {
                                    return viol("wrong-region", format!("query result is {} bytes, the result buffer holds {}", b.len(), results.len()));
                                }
                                match d {
                                    Ok(M::Arr(v)) => Ok(v.clone()),
                                    o => return viol("wrong-content", format!("query result document is {o:?}")),
                                }
                            }
                        };
                        match got {
                            Err(e) => return viol("wrong-content", e),
                            Ok(v) if !M::Arr(v.clone()).same(&M::Arr(want.clone())) => {
                                return viol("stale-results", format!("{text} on {} gave {}, not {}", m.brief(), M::Arr(v).brief(), M::Arr(want).brief()))
                            }
                            Ok(_) => {}
                        }
                    }
                }
            }
        }
    }
    // everything that was ever finished in the buffer is still there
    for (r, m) in s.live {
        if r.end > s.buf.len() {
            return viol("prefix-damaged", "a finished document is gone from the buffer");
        }
        expect_doc("document in a shared buffer", &s.buf[r], &m)?;
    }
    // and a buffer that ends in an owned document can be recycled
    let m = gen_doc(ctx, &k);
    let y = plain(&m).map_err(crate::ctx::skip)?;
    let old = match ctx.n(3) {
        0 => M::Str("recycled".repeat(9)),
        1 => crate::model::mutate(ctx, &m),
        _ => crate::model::mutate_in_place(ctx, &m),
    };
    let mut z: YasonBuf = plain(&old).map_err(crate::ctx::skip)?;
    ctx.sut("clone_from_yason", || z.clone_from_yason(&y))?;
    if z.as_bytes() != y.as_bytes() {
        return viol("stale-results", "clone_from_yason left something else in the buffer");
    }
    Ok(())
}
