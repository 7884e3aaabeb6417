//! Asking yason queries and comparing answers.

use crate::alloc::unarmed;
use crate::ctx::{viol, R};
use crate::model::M;
use crate::reader::{m_of, m_of_yason};
use crate::refpath::Path;
use yason::{PathExpression, QueriedValue, Value, Yason, YasonError};

/// An answer, read through the API, with the bytes of the result document if there is one.
#[derive(Clone, Debug)]
pub enum Ans {
    None,
    One(M),
    Many(Vec<M>),
    Doc(Vec<u8>, M),
    /// the answer could not be read
    Broken(String),
}

pub fn read(q: &QueriedValue) -> Ans {
    let many = |v: &[Value]| match v.iter().map(m_of).collect::<Result<Vec<M>, String>>() {
        Ok(v) => Ans::Many(v),
        Err(e) => Ans::Broken(e),
    };
    match q {
        QueriedValue::None => Ans::None,
        QueriedValue::Value(v) => match m_of(v) {
            Ok(m) => Ans::One(m),
            Err(e) => Ans::Broken(e),
        },
        QueriedValue::Values(v) => many(v),
        QueriedValue::ValuesRef(v) => many(v),
        QueriedValue::Yason(y) => match m_of_yason(y) {
            Ok(m) => Ans::Doc(y.as_bytes().to_vec(), m),
            Err(e) => Ans::Broken(e),
        },
    }
}

pub fn ask<'a>(
    pe: &PathExpression,
    y: &'a Yason,
    wrapper: bool,
    qb: Option<&mut Vec<Value<'a>>>,
    rb: Option<&mut Vec<u8>>,
) -> Result<Ans, YasonError> {
    // the two buffers share one lifetime in the signature
    let (qb, rb): (Option<&mut Vec<Value<'a>>>, Option<&mut Vec<u8>>) = (qb, rb);
    match pe.query(y, wrapper, qb, rb) {
        Ok(q) => Ok(unarmed(|| read(&q))),
        Err(e) => Err(e),
    }
}

#[derive(Clone, Debug)]
pub enum Want {
    Refused,
    None,
    One(M),
    Many(Vec<M>),
}

/// What the reference says the answer is.
pub fn want(p: &Path, m: &M, wrapper: bool) -> Want {
    if p.fun.is_some() && !wrapper {
        return Want::Refused;
    }
    let mut v = p.eval(m);
    if wrapper {
        if v.is_empty() {
            Want::None
        } else {
            Want::Many(v)
        }
    } else {
        match v.len() {
            0 => Want::None,
            1 => Want::One(v.remove(0)),
            _ => Want::Refused,
        }
    }
}

pub fn show(v: &[M]) -> String {
    M::Arr(v.to_vec()).brief()
}

fn all_same(a: &[M], b: &[M]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y))
}

/// Does the answer match?
pub fn matches(a: &Result<Ans, YasonError>, w: &Want) -> bool {
    match (a, w) {
        (Err(YasonError::MultiValuesWithoutWrapper), Want::Refused) => true,
        (Ok(Ans::None), Want::None) => true,
        (Ok(Ans::One(a)), Want::One(b)) => a.same(b),
        (Ok(Ans::Doc(_, a)), Want::One(b)) => a.same(b),
        (Ok(Ans::Many(a)), Want::Many(b)) => all_same(a, b),
        (Ok(Ans::Doc(_, M::Arr(a))), Want::Many(b)) => all_same(a, b),
        _ => false,
    }
}

pub fn brief(a: &Result<Ans, YasonError>) -> String {
    match a {
        Err(e) => format!("error {e:?}"),
        Ok(Ans::None) => "nothing".into(),
        Ok(Ans::One(m)) => format!("value {}", m.brief()),
        Ok(Ans::Many(v)) => format!("values {}", show(v)),
        Ok(Ans::Doc(_, m)) => format!("document {}", m.brief()),
        Ok(Ans::Broken(e)) => format!("unreadable answer: {e}"),
    }
}

pub fn judge(class: &str, what: &str, a: &Result<Ans, YasonError>, w: &Want) -> R {
    if matches(a, w) {
        return Ok(());
    }
    viol(class, format!("{what}: got {}, expected {w:?}", brief(a)).chars().take(1500).collect::<String>())
}
