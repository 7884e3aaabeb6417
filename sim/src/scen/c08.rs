//! Formatting into a writer that fails: the error is reported, what was written is an exact prefix,
//! and a retry into a healthy writer gives the exact text.

use crate::builder::plain;
use crate::codec::{self, Layout};
use crate::ctx::{skip, take_panic, viol, Ctx, INJECTED, R};
use crate::io::{draw_wfault, Placed, SimWriter, WFault};
use crate::model::{gen_deep, gen_doc, mutate_in_place, Knobs, M};
use crate::reffmt;
use crate::refpath::{cost, gen_path};
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use yason::{PathExpression, QueriedValue, Value, Yason};

enum What<'a> {
    Doc(&'a Yason),
    Display(&'a Yason),
    Query(QueriedValue<'a, 'a>),
}

impl What<'_> {
    fn write(&self, pretty: bool, w: &mut SimWriter) -> bool {
        match self {
            What::Doc(y) => y.format_to(pretty, w).is_ok(),
            What::Display(y) => write!(w, "{}", y.format(pretty)).is_ok(),
            What::Query(q) => q.format_to(pretty, w).is_ok(),
        }
    }
}

fn attempts(ctx: &mut Ctx, what: &What, pretty: bool, text: &str) -> R {
    let n = 1 + ctx.n(5);
    for i in 0..=n {
        let f = if i == n {
            WFault::None
        } else if ctx.fchance(6) {
            WFault::PanicAtCall { at: ctx.f(30) as usize }
        } else {
            draw_wfault(ctx, text.len())
        };
        let mut w = SimWriter::new(f, text.len() + 8);
        let r = if let WFault::PanicAtCall { .. } = f {
            let r = catch_unwind(AssertUnwindSafe(|| what.write(pretty, &mut w)));
            match r {
                Ok(b) => b,
                Err(_) => {
                    let m = take_panic();
                    if !m.contains(INJECTED) {
                        return viol("panic", format!("formatting into an unwinding writer: {m}"));
                    }
                    ctx.fault("writer-unwind");
                    false
                }
            }
        } else {
            ctx.sut("format", || what.write(pretty, &mut w))?
        };
        if w.torn {
            return viol("not-a-string", format!("after {} bytes the writer was handed bytes that are not a string: a character cut in two", w.out.len()));
        }
        ctx.ev(format!("{f:?}: ok={r}, {} bytes, {} calls failed", w.out.len(), w.failed));
        if w.failed > 0 {
            ctx.fault(match f {
                WFault::AtByte { partial: true, .. } => "short-write",
                WFault::OnceAtCall { .. } => "transient-write-error",
                _ => "write-error",
            });
            if r {
                return viol("error-lost", format!("writer failed ({f:?}) but formatting reported success; {} of {} bytes written", w.out.len(), text.len()));
            }
        } else if !r {
            return viol("spurious-error", format!("the writer never failed ({f:?}) but formatting did"));
        } else if w.out != text {
            let at = w.out.bytes().zip(text.bytes()).position(|(a, b)| a != b).unwrap_or(w.out.len().min(text.len()));
            return viol("wrong-text", format!("text differs at byte {at}: {:?}, expected {:?}", tail(&w.out, at), tail(text, at)));
        }
        if !text.starts_with(&w.out) {
            let at = w.out.bytes().zip(text.bytes()).position(|(a, b)| a != b).unwrap_or(text.len());
            return viol("not-a-prefix", format!("after {f:?} the writer holds something that is not a prefix of the text, from byte {at}: {:?}, expected {:?}", tail(&w.out, at), tail(text, at)));
        }
    }
    Ok(())
}

fn tail(s: &str, at: usize) -> String {
    let mut b = at.saturating_sub(10);
    while !s.is_char_boundary(b) {
        b -= 1;
    }
    s[b..].chars().take(40).collect()
}

pub fn run(ctx: &mut Ctx) -> R {
    let k = Knobs::draw(ctx, 40);
    let m = if ctx.n(10) == 9 {
        let d = if ctx.n(3) == 2 { 100 } else { 1 + ctx.n(100) as usize };
        gen_deep(ctx, d)
    } else {
        gen_doc(ctx, &k)
    };
    let bytes = if ctx.n(4) == 3 {
        let mut v = Vec::new();
        let l = Layout { shuffle: ctx.n(1000), null_fill: 0 };
        codec::encode(&m, &l, &mut v);
        v
    } else {
        plain(&m).map_err(skip)?.as_bytes().to_vec()
    };
    let y: &Yason = unsafe { Yason::new_unchecked(&bytes) };
    let pretty = ctx.n(2) == 1;
    ctx.ev(format!("pretty={pretty} {}", m.brief()));
    match ctx.n(4) {
        0 => attempts(ctx, &What::Doc(y), pretty, &reffmt::text(&m, pretty)),
        1 => {
            // several documents, one after the other in the same place
            let mut m = m;
            let skew = ctx.f(64) as usize;
            let mut place = Placed::new(&bytes, skew, 5);
            for i in 0..3 {
                let y: &Yason = unsafe { Yason::new_unchecked(place.bytes()) };
                attempts(ctx, &What::Doc(y), pretty ^ (i == 2), &reffmt::text(&m, pretty ^ (i == 2)))?;
                m = mutate_in_place(ctx, &m);
                let b = plain(&m).map_err(skip)?;
                if !place.reload(b.as_bytes()) {
                    break;
                }
                ctx.fault("reused-place");
            }
            Ok(())
        }
        2 => attempts(ctx, &What::Display(y), pretty, &reffmt::text(&m, pretty)),
        _ => {
            let p = gen_path(ctx, &m, true);
            if cost(&p, &m) > 2000 {
                return Ok(());
            }
            let t = p.render(ctx, false);
            let pe = PathExpression::from_str(&t).map_err(skip)?;
            let (mut qb, mut rb): (Vec<Value>, Vec<u8>) = (Vec::new(), Vec::new());
            let mode = ctx.n(4);
            let wrapper = ctx.n(3) != 0;
            ctx.ev(format!("query {t} mode {mode} wrapper {wrapper}"));
            let q = ctx.sut("query", || {
                pe.query(
                    y,
                    wrapper,
                    if mode & 1 != 0 { Some(&mut qb) } else { None },
                    if mode & 2 != 0 { Some(&mut rb) } else { None },
                )
            })?;
            let Ok(q) = q else { return Ok(()) };
            // judged against what the answer holds, not against what it should hold
            let text = match crate::ask::read(&q) {
                crate::ask::Ans::None => String::new(),
                crate::ask::Ans::One(m) => reffmt::text(&m, pretty),
                crate::ask::Ans::Many(v) => reffmt::text(&M::Arr(v), pretty),
                crate::ask::Ans::Doc(_, m) => reffmt::text(&m, pretty),
                crate::ask::Ans::Broken(e) => return Err(skip(e)),
            };
            attempts(ctx, &What::Query(q), pretty, &text)
        }
    }
}
