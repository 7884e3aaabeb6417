//! Reads a document through every accessor of the public API and compares it with the model.

use crate::model::{key_cmp, sorted, M};
use yason::{Array, DataType, Object, Value, Yason, YasonError};

pub type E = Result<(), String>;

fn ok<T>(what: &str, r: Result<T, YasonError>) -> Result<T, String> {
    r.map_err(|e| format!("{what}: error {e:?}"))
}

fn want(c: bool, what: impl FnOnce() -> String) -> E {
    if c {
        Ok(())
    } else {
        Err(what())
    }
}

const TYPES: [DataType; 6] =
    [DataType::Object, DataType::Array, DataType::String, DataType::Number, DataType::Bool, DataType::Null];

/// `r` must be the "wrong type" error.
fn wrong<T>(what: &str, r: Result<T, YasonError>, exp: DataType, act: DataType) -> E {
    match r {
        Err(YasonError::UnexpectedType { expected, actual }) if expected == exp && actual == act => Ok(()),
        Err(e) => Err(format!("{what} on {act}: error {e:?}")),
        Ok(_) => Err(format!("{what} on {act} gave a value")),
    }
}

/// Whether the value is the model, by type and own content; containers by length only.
fn shallow(v: &Value, m: &M) -> E {
    let good = match (v, m) {
        (Value::Null, M::Null) => true,
        (Value::Bool(a), M::Bool(b)) => a == b,
        (Value::Number(a), M::Num(b)) => a == b,
        (Value::String(a), M::Str(b)) => a == b,
        (Value::Array(a), M::Arr(b)) => ok("len", a.len())? == b.len(),
        (Value::Object(a), M::Obj(b)) => ok("len", a.len())? == b.len(),
        _ => false,
    };
    want(good && v.data_type() == m.data_type(), || format!("value {v:?} is not {}", m.brief()))
}

/// Whether the value is the model, all the way down.
pub fn value_is(v: &Value, m: &M) -> E {
    shallow(v, m)?;
    match (v, m) {
        (Value::Array(a), M::Arr(b)) => array_is(a, b),
        (Value::Object(a), M::Obj(b)) => object_is(a, b),
        _ => Ok(()),
    }
}

pub fn yason_is(y: &Yason, m: &M) -> E {
    let t = m.data_type();
    want(ok("data_type", y.data_type())? == t, || format!("data_type of {}", m.brief()))?;
    want(ok("is_null", y.is_null())? == matches!(m, M::Null), || "is_null".into())?;
    let v = ok("Value::try_from", Value::try_from(y))?;
    shallow(&v, m)?;
    for x in TYPES {
        match x {
            DataType::Object => match m {
                M::Obj(b) => object_is(&ok("object", y.object())?, b)?,
                _ => wrong("object()", y.object(), x, t)?,
            },
            DataType::Array => match m {
                M::Arr(b) => array_is(&ok("array", y.array())?, b)?,
                _ => wrong("array()", y.array(), x, t)?,
            },
            DataType::String => match m {
                M::Str(b) => want(ok("string", y.string())? == b, || "string()".into())?,
                _ => wrong("string()", y.string(), x, t)?,
            },
            DataType::Number => match m {
                M::Num(b) => want(ok("number", y.number())? == *b, || "number()".into())?,
                _ => wrong("number()", y.number(), x, t)?,
            },
            DataType::Bool => match m {
                M::Bool(b) => want(ok("bool", y.bool())? == *b, || "bool()".into())?,
                _ => wrong("bool()", y.bool(), x, t)?,
            },
            _ => {}
        }
    }
    Ok(())
}

fn oob<T>(what: &str, r: Result<T, YasonError>) -> E {
    match r {
        Err(YasonError::IndexOutOfBounds { .. }) => Ok(()),
        Err(e) => Err(format!("{what} beyond the end: error {e:?}")),
        Ok(_) => Err(format!("{what} beyond the end gave a value")),
    }
}

/// Uses an iterator in other ways than from start to end: skipping, partly, again after its end.
/// `is` judges the item at a position.
fn hops<T, I: Iterator<Item = Result<T, YasonError>>>(
    what: &str,
    n: usize,
    make: impl Fn() -> Result<I, YasonError>,
    is: impl Fn(usize, &T) -> E,
) -> E {
    let at = |i: usize, x: Option<Result<T, YasonError>>| match x {
        None => want(i >= n, || format!("{what}: nothing at {i} of {n}")),
        Some(_) if i >= n => Err(format!("{what}: an item at {i} of {n}")),
        Some(x) => is(i, &ok(what, x)?).map_err(|e| format!("{what} at {i}: {e}")),
    };
    let step = 1 + n / 5;
    // two at once, one ahead of the other by leaps
    let (mut a, mut b) = (ok(what, make())?, ok(what, make())?);
    let (mut i, mut j) = (0, 0);
    while j < n {
        let (lo, hi) = b.size_hint();
        want(lo <= n - j && hi.is_none_or(|h| h >= n - j), || format!("{what}: size_hint {lo}, {hi:?} with {} left", n - j))?;
        at(j + step - 1, b.nth(step - 1))?;
        j += step;
        at(i, a.next())?;
        i += 1;
        if j < n {
            at(j, b.next())?;
            j += 1;
        }
    }
    for _ in 0..3 {
        at(n, b.next())?;
    }
    at(n, b.nth(2))?;
    want(a.count() == n.saturating_sub(i), || format!("{what}: count() is wrong after {i} of {n}"))?;
    at(n.wrapping_sub(1), ok(what, make())?.last())?;
    for (k, x) in ok(what, make())?.step_by(step).enumerate() {
        at(k * step, Some(x))?;
    }
    for (k, x) in ok(what, make())?.skip(n / 2).take(3).enumerate() {
        at(n / 2 + k, Some(x))?;
    }
    at(n, ok(what, make())?.nth(n))?;
    at(n, ok(what, make())?.nth(usize::MAX - 1))
}

/// Which indexes to look at closely: all of them in small containers, a spread in big ones.
fn close_look(i: usize, n: usize) -> bool {
    n <= 64 || i < 4 || i + 4 >= n || i.is_power_of_two() || (i + 1).is_power_of_two()
}

/// A container has the bytes that belong to it, and no others.
fn extent(y: &Yason) -> E {
    let b = y.as_bytes();
    let n = b.get(1..5).map(|s| u32::from_le_bytes(s.try_into().unwrap()) as usize + 5);
    want(n == Some(b.len()), || format!("a container of {n:?} bytes was given {}", b.len()))
}

pub fn array_is(a: &Array, v: &[M]) -> E {
    extent(a.yason())?;
    want(ok("len", a.len())? == v.len(), || format!("array len {:?}, not {}", a.len(), v.len()))?;
    want(ok("is_empty", a.is_empty())? == v.is_empty(), || "is_empty".into())?;
    let mut n = 0;
    for x in ok("iter", a.iter())? {
        let x = ok("array iter", x)?;
        want(n < v.len(), || "array iterator gives too many".into())?;
        shallow(&x, &v[n]).map_err(|e| format!("iter[{n}]: {e}"))?;
        n += 1;
    }
    want(n == v.len(), || format!("array iterator gave {n} of {}", v.len()))?;
    hops("array iterator", n, || a.iter(), |i, x| shallow(x, &v[i]))?;
    for (i, m) in v.iter().enumerate() {
        if !close_look(i, v.len()) {
            continue;
        }
        array_item(a, i, m).map_err(|e| format!("[{i}]: {e}"))?;
    }
    for i in [v.len(), v.len() + 1, v.len() + 65_536] {
        oob("get", a.get(i))?;
        oob("type_of", a.type_of(i))?;
        oob("is_type", a.is_type(i, DataType::Null))?;
        oob("is_null", a.is_null(i))?;
        oob("object", a.object(i))?;
        oob("array", a.array(i))?;
        oob("string", a.string(i))?;
        oob("number", a.number(i))?;
        oob("bool", a.bool(i))?;
    }
    Ok(())
}

fn array_item(a: &Array, i: usize, m: &M) -> E {
    let t = m.data_type();
    shallow(&ok("get_unchecked", unsafe { a.get_unchecked(i) })?, m)?;
    want(ok("type_of", a.type_of(i))? == t, || "type_of".into())?;
    for x in TYPES {
        want(ok("is_type", a.is_type(i, x))? == (x == t), || format!("is_type {x}"))?;
    }
    want(ok("is_null", a.is_null(i))? == matches!(m, M::Null), || "is_null".into())?;
    match m {
        M::Obj(b) => want(ok("object", a.object(i))?.len().ok() == Some(b.len()), || "object()".into())?,
        _ => wrong("object()", a.object(i), DataType::Object, t)?,
    }
    match m {
        M::Arr(b) => want(ok("array", a.array(i))?.len().ok() == Some(b.len()), || "array()".into())?,
        _ => wrong("array()", a.array(i), DataType::Array, t)?,
    }
    match m {
        M::Str(b) => want(ok("string", a.string(i))? == b, || "string()".into())?,
        _ => wrong("string()", a.string(i), DataType::String, t)?,
    }
    match m {
        M::Num(b) => want(ok("number", a.number(i))? == *b, || "number()".into())?,
        _ => wrong("number()", a.number(i), DataType::Number, t)?,
    }
    match m {
        M::Bool(b) => want(ok("bool", a.bool(i))? == *b, || "bool()".into())?,
        _ => wrong("bool()", a.bool(i), DataType::Bool, t)?,
    }
    value_is(&ok("get", a.get(i))?, m)
}

pub fn object_is(o: &Object, v: &[(String, M)]) -> E {
    extent(o.yason())?;
    let s = sorted(v);
    want(ok("len", o.len())? == v.len(), || format!("object len {:?}, not {}", o.len(), v.len()))?;
    want(ok("is_empty", o.is_empty())? == v.is_empty(), || "is_empty".into())?;
    let mut n = 0;
    for k in ok("key_iter", o.key_iter())? {
        let k = ok("key_iter", k)?;
        want(n < s.len() && k == s[n].0, || format!("key_iter[{n}] is {k:?}"))?;
        n += 1;
    }
    want(n == s.len(), || format!("key_iter gave {n} of {}", s.len()))?;
    n = 0;
    for x in ok("value_iter", o.value_iter())? {
        let x = ok("value_iter", x)?;
        want(n < s.len(), || "value_iter gives too many".into())?;
        shallow(&x, &s[n].1).map_err(|e| format!("value_iter[{n}]: {e}"))?;
        n += 1;
    }
    want(n == s.len(), || format!("value_iter gave {n} of {}", s.len()))?;
    n = 0;
    for x in ok("iter", o.iter())? {
        let (k, x) = ok("object iter", x)?;
        want(n < s.len() && k == s[n].0, || format!("iter[{n}] has key {k:?}"))?;
        shallow(&x, &s[n].1).map_err(|e| format!("iter[{n}]: {e}"))?;
        n += 1;
    }
    want(n == s.len(), || format!("object iterator gave {n} of {}", s.len()))?;
    hops("object iterator", n, || o.iter(), |i, x| {
        want(x.0 == s[i].0, || format!("key {:?}", x.0))?;
        shallow(&x.1, &s[i].1)
    })?;
    hops("key iterator", n, || o.key_iter(), |i, x| want(*x == s[i].0, || format!("key {x:?}")))?;
    hops("value iterator", n, || o.value_iter(), |i, x| shallow(x, &s[i].1))?;
    for (i, e) in s.iter().enumerate() {
        if !close_look(i, s.len()) {
            // still has to be findable
            want(ok("contains_key", o.contains_key(&e.0))?, || format!("key {:?} is not found", e.0))?;
            continue;
        }
        object_item(o, &e.0, &e.1).map_err(|m| format!(".{:?}: {m}", e.0))?;
        for miss in [format!("{}\u{0}", e.0), format!("{}~", e.0)] {
            if s.binary_search_by(|x| key_cmp(&x.0, &miss)).is_err() {
                absent(o, &miss)?;
            }
        }
        // a neighbour of the same length
        if let Some(c) = e.0.chars().last().filter(|c| c.is_ascii_lowercase()) {
            let mut miss = e.0.clone();
            miss.pop();
            miss.push(if c == 'z' { 'a' } else { (c as u8 + 1) as char });
            if s.binary_search_by(|x| key_cmp(&x.0, &miss)).is_err() {
                absent(o, &miss)?;
            }
        }
        // one character off at some places
        let l = e.0.len();
        for at in [l / 2, (l * 7 + i * 31) % l.max(1), (l * 3 + i * 17 + 5) % l.max(1)] {
            if let Some(miss) = crate::model::one_off(&e.0, at) {
                if s.binary_search_by(|x| key_cmp(&x.0, &miss)).is_err() {
                    want(!ok("contains_key", o.contains_key(&miss))?, || format!("absent key {miss:?} is contained"))?;
                    want(ok("get", o.get(&miss))?.is_none(), || format!("absent key {miss:?} has a value"))?;
                }
            }
        }
    }
    for miss in ["", "no such key", "\u{10ffff}\u{10ffff}"] {
        if s.binary_search_by(|x| key_cmp(&x.0, miss)).is_err() {
            absent(o, miss)?;
        }
    }
    Ok(())
}

fn absent(o: &Object, k: &str) -> E {
    want(!ok("contains_key", o.contains_key(k))?, || format!("absent key {k:?} is contained"))?;
    want(ok("get", o.get(k))?.is_none(), || format!("absent key {k:?} has a value"))?;
    want(ok("type_of", o.type_of(k))?.is_none(), || format!("absent key {k:?} has a type"))?;
    want(ok("is_type", o.is_type(k, DataType::Null))?.is_none(), || format!("absent key {k:?} is_type"))?;
    want(ok("is_null", o.is_null(k))?.is_none(), || format!("absent key {k:?} is_null"))?;
    want(ok("object", o.object(k))?.is_none(), || format!("absent key {k:?} object"))?;
    want(ok("array", o.array(k))?.is_none(), || format!("absent key {k:?} array"))?;
    want(ok("string", o.string(k))?.is_none(), || format!("absent key {k:?} string"))?;
    want(ok("number", o.number(k))?.is_none(), || format!("absent key {k:?} number"))?;
    want(ok("bool", o.bool(k))?.is_none(), || format!("absent key {k:?} bool"))
}

fn object_item(o: &Object, k: &str, m: &M) -> E {
    let t = m.data_type();
    want(ok("contains_key", o.contains_key(k))?, || "is not found".into())?;
    want(ok("type_of", o.type_of(k))? == Some(t), || "type_of".into())?;
    for x in TYPES {
        want(ok("is_type", o.is_type(k, x))? == Some(x == t), || format!("is_type {x}"))?;
    }
    want(ok("is_null", o.is_null(k))? == Some(matches!(m, M::Null)), || "is_null".into())?;
    match m {
        M::Obj(b) => {
            want(ok("object", o.object(k))?.and_then(|x| x.len().ok()) == Some(b.len()), || "object()".into())?
        }
        _ => wrong("object()", o.object(k), DataType::Object, t)?,
    }
    match m {
        M::Arr(b) => want(ok("array", o.array(k))?.and_then(|x| x.len().ok()) == Some(b.len()), || "array()".into())?,
        _ => wrong("array()", o.array(k), DataType::Array, t)?,
    }
    match m {
        M::Str(b) => want(ok("string", o.string(k))? == Some(b.as_str()), || "string()".into())?,
        _ => wrong("string()", o.string(k), DataType::String, t)?,
    }
    match m {
        M::Num(b) => want(ok("number", o.number(k))? == Some(*b), || "number()".into())?,
        _ => wrong("number()", o.number(k), DataType::Number, t)?,
    }
    match m {
        M::Bool(b) => want(ok("bool", o.bool(k))? == Some(*b), || "bool()".into())?,
        _ => wrong("bool()", o.bool(k), DataType::Bool, t)?,
    }
    match ok("get", o.get(k))? {
        Some(v) => value_is(&v, m),
        None => Err("get() gives nothing".into()),
    }
}

/// Walks a value through the iterators without allocating, hashing what it sees.
pub fn digest(v: &Value) -> Result<u64, YasonError> {
    fn h(a: u64, b: &[u8]) -> u64 {
        let mut a = a;
        for x in b {
            a = (a ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
        a
    }
    Ok(match v {
        Value::Null => 1,
        Value::Bool(b) => 2 + *b as u64,
        Value::Number(n) => {
            let mut buf = [0u8; 64];
            let l = n.compact_encode(&mut buf[..]).unwrap_or(0);
            h(5, &buf[..l])
        }
        Value::String(s) => h(7, s.as_bytes()),
        Value::Array(a) => {
            let mut x = a.len()? as u64 ^ 0x1000;
            for e in a.iter()? {
                x = h(x, &digest(&e?)?.to_le_bytes());
            }
            x
        }
        Value::Object(o) => {
            let mut x = o.len()? as u64 ^ 0x2000;
            for e in o.iter()? {
                let (k, e) = e?;
                x = h(x, k.as_bytes());
                x = h(x, &digest(&e)?.to_le_bytes());
            }
            x
        }
    })
}

/// The model of a value, read through the API.
pub fn m_of(v: &Value) -> Result<M, String> {
    Ok(match v {
        Value::Null => M::Null,
        Value::Bool(b) => M::Bool(*b),
        Value::Number(n) => M::Num(*n),
        Value::String(s) => M::Str(s.to_string()),
        Value::Array(a) => {
            let mut w = Vec::new();
            for e in ok("iter", a.iter())? {
                w.push(m_of(&ok("iter", e)?)?);
            }
            M::Arr(w)
        }
        Value::Object(o) => {
            let mut w = Vec::new();
            for e in ok("iter", o.iter())? {
                let (k, e) = ok("iter", e)?;
                w.push((k.to_string(), m_of(&e)?));
            }
            M::Obj(w)
        }
    })
}

pub fn m_of_yason(y: &Yason) -> Result<M, String> {
    m_of(&ok("Value::try_from", Value::try_from(y))?)
}
