//! A document that was cut short: what still reads is right, everything else is an error.

use crate::ask::{ask, brief, matches, want};
use crate::builder::plain;
use crate::codec::{self, Layout};
use crate::ctx::{skip, viol, Ctx, R};
use crate::io::{Place, SimWriter, WFault};
use crate::model::{gen_doc, mutate, Knobs, M};
use crate::reffmt;
use crate::refpath::{cost, gen_path};
use std::str::FromStr;
use yason::{Array, DataType, Object, PathExpression, Value, Yason, YasonError};

type E = Result<(), String>;

/// Ok(Some): a value that has to be right; Ok(None): an error, which is fine.
fn got<T>(r: Result<T, YasonError>) -> Option<T> {
    r.ok()
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, r: Result<T, YasonError>, w: T) -> E {
    match r {
        Ok(v) if v != w => Err(format!("{what} gave {v:?}, intact {w:?}")),
        _ => Ok(()),
    }
}

/// A typed accessor: an error, or the intact value.
fn typed<T: PartialEq + std::fmt::Debug>(what: &str, r: Result<T, YasonError>, w: Option<T>) -> E {
    match (r, w) {
        (Err(_), _) => Ok(()),
        (Ok(v), Some(w)) if v == w => Ok(()),
        (Ok(v), w) => Err(format!("{what} gave {v:?}, intact {w:?}")),
    }
}

/// The value, and if `deep` what is in it. Each value is gone through in depth once only, or
/// nested ones would take exponential time.
fn value(v: &Value, m: &M, deep: bool) -> E {
    match (v, m) {
        (Value::Array(a), M::Arr(b)) if !deep => same("len", a.len(), b.len()),
        (Value::Object(a), M::Obj(b)) if !deep => same("len", a.len(), b.len()),
        (Value::Null, M::Null) => Ok(()),
        (Value::Bool(a), M::Bool(b)) if a == b => Ok(()),
        (Value::Number(a), M::Num(b)) if a == b => Ok(()),
        (Value::String(a), M::Str(b)) if a == b => Ok(()),
        (Value::Array(a), M::Arr(b)) => array(a, b),
        (Value::Object(a), M::Obj(b)) => object(a, b),
        _ => Err(format!("value of type {} instead of {}", v.data_type(), m.brief())),
    }
}

fn str_of(m: &M) -> Option<&str> {
    match m {
        M::Str(s) => Some(s),
        _ => None,
    }
}
fn num_of(m: &M) -> Option<yason::Number> {
    match m {
        M::Num(n) => Some(*n),
        _ => None,
    }
}
fn bool_of(m: &M) -> Option<bool> {
    match m {
        M::Bool(b) => Some(*b),
        _ => None,
    }
}

/// Too far from both ends to be asked for on its own.
fn middle(i: usize, len: usize) -> bool {
    i >= 8 && i + 8 < len
}

fn array(a: &Array, v: &[M]) -> E {
    same("len", a.len(), v.len())?;
    same("is_empty", a.is_empty(), v.is_empty())?;
    if let Some(it) = got(a.iter()) {
        let mut n = 0;
        let mut whole = true;
        for x in it.take(v.len() + 2) {
            match x {
                Ok(x) => {
                    if n >= v.len() {
                        return Err("iterator gives too many".into());
                    }
                    value(&x, &v[n], middle(n, v.len())).map_err(|e| format!("iter[{n}]: {e}"))?;
                }
                Err(_) => {
                    whole = false;
                    break;
                }
            }
            n += 1;
        }
        if whole && n != v.len() {
            return Err(format!("iterator gave {n} of {} without an error", v.len()));
        }
    }
    for (i, m) in v.iter().enumerate() {
        if middle(i, v.len()) {
            continue;
        }
        let t = m.data_type();
        let w = |e: String| format!("[{i}]: {e}");
        if let Some(x) = got(a.get(i)) {
            value(&x, m, true).map_err(w)?;
        }
        same("type_of", a.type_of(i), t).map_err(w)?;
        same("is_null", a.is_null(i), t == DataType::Null).map_err(w)?;
        same("is_type", a.is_type(i, DataType::Number), t == DataType::Number).map_err(w)?;
        typed("string", a.string(i), str_of(m)).map_err(w)?;
        typed("number", a.number(i), num_of(m)).map_err(w)?;
        typed("bool", a.bool(i), bool_of(m)).map_err(w)?;
        match (got(a.object(i)), m) {
            (Some(o), M::Obj(b)) => same("object().len", o.len(), b.len()).map_err(w)?,
            (Some(_), _) => return Err(w("object() gave a value".into())),
            _ => {}
        }
        match (got(a.array(i)), m) {
            (Some(o), M::Arr(b)) => same("array().len", o.len(), b.len()).map_err(w)?,
            (Some(_), _) => return Err(w("array() gave a value".into())),
            _ => {}
        }
    }
    if a.get(v.len()).is_ok() {
        return Err("get beyond the end gave a value".into());
    }
    Ok(())
}

fn object(o: &Object, v: &[(String, M)]) -> E {
    let s = crate::model::sorted(v);
    same("len", o.len(), v.len())?;
    same("is_empty", o.is_empty(), v.is_empty())?;
    if let Some(it) = got(o.iter()) {
        let mut n = 0;
        let mut whole = true;
        for x in it.take(v.len() + 2) {
            match x {
                Ok((k, x)) => {
                    if n >= s.len() || s[n].0 != k {
                        return Err(format!("iter[{n}] has key {k:?}"));
                    }
                    value(&x, &s[n].1, middle(n, s.len())).map_err(|e| format!("iter[{n}]: {e}"))?;
                }
                Err(_) => {
                    whole = false;
                    break;
                }
            }
            n += 1;
        }
        if whole && n != v.len() {
            return Err(format!("iterator gave {n} of {} without an error", v.len()));
        }
    }
    if let Some(it) = got(o.key_iter()) {
        for (n, x) in it.take(v.len() + 2).enumerate() {
            match x {
                Ok(k) if n < s.len() && s[n].0 == k => {}
                Ok(k) => return Err(format!("key_iter[{n}] is {k:?}")),
                Err(_) => break,
            }
        }
    }
    if let Some(it) = got(o.value_iter()) {
        for (n, x) in it.take(v.len() + 2).enumerate() {
            match x {
                Ok(x) if n < s.len() => value(&x, &s[n].1, false).map_err(|e| format!("value_iter[{n}]: {e}"))?,
                Ok(_) => return Err("value_iter gives too many".into()),
                Err(_) => break,
            }
        }
    }
    for (i, e) in s.iter().enumerate() {
        if middle(i, s.len()) {
            continue;
        }
        let (k, m) = (&e.0, &e.1);
        let w = |e: String| format!(".{k:?}: {e}");
        let t = m.data_type();
        match o.get(k) {
            Ok(Some(x)) => value(&x, m, true).map_err(w)?,
            Ok(None) => return Err(w("get finds nothing".into())),
            Err(_) => {}
        }
        same("contains_key", o.contains_key(k), true).map_err(w)?;
        same("type_of", o.type_of(k), Some(t)).map_err(w)?;
        same("is_null", o.is_null(k), Some(t == DataType::Null)).map_err(w)?;
        same("is_type", o.is_type(k, DataType::String), Some(t == DataType::String)).map_err(w)?;
        typed("string", o.string(k), str_of(m).map(Some)).map_err(w)?;
        typed("number", o.number(k), num_of(m).map(Some)).map_err(w)?;
        typed("bool", o.bool(k), bool_of(m).map(Some)).map_err(w)?;
    }
    for miss in ["", "no such key"] {
        if s.iter().all(|e| e.0 != miss) {
            match o.get(miss) {
                Ok(Some(_)) => return Err(format!("absent key {miss:?} has a value")),
                _ => {}
            }
            same("contains_key of an absent key", o.contains_key(miss), false)?;
        }
    }
    Ok(())
}

fn document(y: &Yason, m: &M) -> E {
    let t = m.data_type();
    same("data_type", y.data_type(), t)?;
    same("is_null", y.is_null(), t == DataType::Null)?;
    typed("string", y.string(), str_of(m))?;
    typed("number", y.number(), num_of(m))?;
    typed("bool", y.bool(), bool_of(m))?;
    match (got(y.object()), m) {
        (Some(o), M::Obj(b)) => object(&o, b)?,
        (Some(_), _) => return Err("object() gave a value".into()),
        _ => {}
    }
    match (got(y.array()), m) {
        (Some(o), M::Arr(b)) => array(&o, b)?,
        (Some(_), _) => return Err("array() gave a value".into()),
        _ => {}
    }
    match Value::try_from(y) {
        Ok(v) => value(&v, m, false),
        Err(_) => Ok(()),
    }
}

pub fn run(ctx: &mut Ctx) -> R {
    let k = Knobs::draw(ctx, 30);
    let m = gen_doc(ctx, &k);
    let full = if ctx.n(3) == 2 {
        let l = Layout { shuffle: ctx.n(1000), null_fill: ctx.n(1 << 32) as u32 };
        let mut v = Vec::new();
        codec::encode(&m, &l, &mut v);
        v
    } else {
        plain(&m).map_err(skip)?.as_bytes().to_vec()
    };
    ctx.ev(format!("doc of {} bytes: {}", full.len(), m.brief()));
    let intact = plain(&m).map_err(skip)?;
    let other_m = mutate(ctx, &m);
    let other = plain(&other_m).map_err(skip)?;
    let other_same = other_m.same(&m);
    let rounds = 1 + ctx.n(8);
    for _ in 0..rounds {
        let n = match ctx.f(3) {
            0 => ctx.f(full.len() as u64) as usize,
            1 => full.len() - 1 - ctx.f(full.len().min(6) as u64) as usize,
            _ => ctx.f(full.len().min(24) as u64) as usize,
        };
        let p = Place::draw(ctx, &full[..n]);
        ctx.fault("truncated-document");
        let y: &Yason = unsafe { Yason::new_unchecked(p.bytes()) };
        ctx.ev(format!("cut to {n} bytes"));
        let bad = |what: &str, e: String| {
            viol("wrong-answer", format!("{what} on the first {n} of {} bytes: {e}; document {}", full.len(), m.brief()))
        };
        if let Err(e) = ctx.sut("read a truncated document", || document(y, &m))? {
            return bad("reading", e);
        }
        for (o, w, what) in [(&intact, true, "the intact document"), (&other, other_same, "another document")] {
            for (a, b) in [(y, &**o), (&**o, y)] {
                if let Ok(e) = ctx.sut("equals", || a.equals(b))? {
                    if e != w {
                        return bad("equality", format!("{e} against {what}"));
                    }
                }
            }
        }
        let pretty = ctx.n(2) == 1;
        let text = reffmt::text(&m, pretty);
        let mut w = SimWriter::new(WFault::None, text.len());
        let r = ctx.sut("format", || y.format_to(pretty, &mut w).is_ok())?;
        if r && w.out != text {
            return bad("formatting", format!("success with {:?}", w.out));
        }
        if !text.starts_with(&w.out) {
            return bad("formatting", format!("wrote {:?}, which is not a prefix of the text", w.out));
        }
        let path = gen_path(ctx, &m, true);
        if cost(&path, &m) < 2000 {
            let t = path.render(ctx, false);
            let pe = PathExpression::from_str(&t).map_err(skip)?;
            let wrapper = ctx.n(3) != 0;
            let mut rb = Vec::new();
            let use_rb = ctx.n(2) == 1;
            // values an answer refers to may themselves be cut
            let r = ctx.sut("query", || ask(&pe, y, wrapper, None, if use_rb { Some(&mut rb) } else { None }))?;
            let w = want(&path, &m, wrapper);
            match &r {
                Err(_) => {}
                Ok(crate::ask::Ans::Broken(_)) => {}
                Ok(_) if matches(&r, &w) => {}
                Ok(_) => return bad(&format!("query {t}"), format!("{}, intact {w:?}", brief(&r))),
            }
            if path.fun.is_none() {
                if let Ok(b) = ctx.sut("exists", || pe.exists(y))? {
                    if b == path.matches(&m).is_empty() {
                        return bad(&format!("exists {t}"), b.to_string());
                    }
                }
            }
        }
    }
    Ok(())
}
