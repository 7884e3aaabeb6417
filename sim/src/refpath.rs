//! Reference path expressions: an AST, a renderer to path text, and an evaluator over the model.

use crate::ctx::Ctx;
use crate::model::{sorted, M};
use yason::Number;

#[derive(Clone, Debug, PartialEq)]
pub enum Ix {
    At(usize),
    Last(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sub {
    One(Ix),
    Range(Ix, Ix),
}

#[derive(Clone, Debug, PartialEq)]
pub enum St {
    Key(String),
    AnyKey,
    Subs(Vec<Sub>),
    AnyIx,
    Desc(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fun {
    Count,
    Size,
    Type,
}

#[derive(Clone, Debug)]
pub struct Path {
    pub steps: Vec<St>,
    pub fun: Option<Fun>,
}

fn plain(k: &str) -> bool {
    !k.is_empty() && k.as_bytes()[0].is_ascii_alphabetic() && k.bytes().all(|b| b.is_ascii_alphanumeric())
}

/// Keys that can be written in a path and mean themselves (quoted keys are matched as written).
pub fn writable(k: &str) -> bool {
    !k.contains('"') && !k.contains('\\')
}

impl Path {
    /// Path text. Draws spacing and quoting from the tape.
    pub fn render(&self, ctx: &mut Ctx, spaces: bool) -> String {
        let ws = |ctx: &mut Ctx| -> &'static str {
            if !spaces {
                return "";
            }
            match ctx.n(6) {
                4 => " ",
                5 => "  ",
                _ => "",
            }
        };
        let mut s = String::new();
        s.push_str(ws(ctx));
        s.push('$');
        for st in &self.steps {
            s.push_str(ws(ctx));
            match st {
                St::Key(k) | St::Desc(k) => {
                    s.push_str(if matches!(st, St::Desc(_)) { ".." } else { "." });
                    s.push_str(ws(ctx));
                    if plain(k) && ctx.n(3) != 2 {
                        s.push_str(k);
                    } else {
                        s.push('"');
                        s.push_str(k);
                        s.push('"');
                    }
                }
                St::AnyKey => {
                    s.push('.');
                    s.push_str(ws(ctx));
                    s.push('*');
                }
                St::AnyIx => {
                    s.push('[');
                    s.push_str(ws(ctx));
                    s.push('*');
                    s.push_str(ws(ctx));
                    s.push(']');
                }
                St::Subs(v) => {
                    s.push('[');
                    for (i, x) in v.iter().enumerate() {
                        if i > 0 {
                            s.push(',');
                        }
                        s.push_str(ws(ctx));
                        let ix = |ctx: &mut Ctx, i: &Ix, s: &mut String| match i {
                            Ix::At(n) => s.push_str(&n.to_string()),
                            Ix::Last(0) => s.push_str("last"),
                            Ix::Last(n) => {
                                s.push_str("last");
                                s.push_str(ws(ctx));
                                s.push('-');
                                s.push_str(ws(ctx));
                                s.push_str(&n.to_string());
                            }
                        };
                        match x {
                            Sub::One(a) => ix(ctx, a, &mut s),
                            Sub::Range(a, b) => {
                                ix(ctx, a, &mut s);
                                s.push_str(" to ");
                                ix(ctx, b, &mut s);
                            }
                        }
                        s.push_str(ws(ctx));
                    }
                    s.push(']');
                }
            }
        }
        s.push_str(ws(ctx));
        if let Some(f) = self.fun {
            s.push('.');
            s.push_str(ws(ctx));
            s.push_str(match f {
                Fun::Count => "count",
                Fun::Size => "size",
                Fun::Type => "type",
            });
            s.push_str(ws(ctx));
            s.push('(');
            s.push_str(ws(ctx));
            s.push(')');
            s.push_str(ws(ctx));
        }
        s
    }
}

/// Inclusive index range selected from an array of `len`, None if nothing.
pub fn select(sub: &Sub, len: usize) -> Option<(usize, usize)> {
    if len == 0 {
        return None;
    }
    let last = len - 1;
    match sub {
        Sub::One(Ix::At(i)) => (*i < len).then_some((*i, *i)),
        Sub::One(Ix::Last(m)) => (*m <= last).then(|| (last - m, last - m)),
        Sub::Range(a, b) => {
            let beyond = |x: &Ix| matches!(x, Ix::Last(m) if *m > last);
            if beyond(a) && beyond(b) {
                return None;
            }
            let pos = |x: &Ix| match x {
                Ix::At(i) => *i,
                Ix::Last(m) => last.saturating_sub(*m),
            };
            let (p, q) = (pos(a).min(pos(b)), pos(a).max(pos(b)).min(last));
            (p <= q).then_some((p, q))
        }
    }
}

/// Does an array step select a value that is not an array?
fn relaxed(st: &St) -> Option<bool> {
    match st {
        St::AnyIx => Some(true),
        St::Subs(subs) => Some(subs.iter().any(|s| matches!(select(s, 1), Some((0, _))))),
        _ => None,
    }
}

fn walk<'m>(m: &'m M, mut steps: &[St], out: &mut Vec<&'m M>) {
    while let (false, Some(st)) = (matches!(m, M::Arr(_)), steps.first()) {
        match relaxed(st) {
            Some(true) => steps = &steps[1..],
            Some(false) => return,
            None => break,
        }
    }
    let Some((st, rest)) = steps.split_first() else {
        out.push(m);
        return;
    };
    match st {
        St::Key(k) => match m {
            M::Obj(v) => {
                if let Some((_, x)) = v.iter().find(|e| e.0 == *k) {
                    walk(x, rest, out);
                }
            }
            M::Arr(v) => v.iter().for_each(|x| walk(x, steps, out)),
            _ => {}
        },
        St::AnyKey => match m {
            M::Obj(v) => sorted(v).into_iter().for_each(|e| walk(&e.1, rest, out)),
            M::Arr(v) => v.iter().for_each(|x| walk(x, steps, out)),
            _ => {}
        },
        St::AnyIx => match m {
            M::Arr(v) => v.iter().for_each(|x| walk(x, rest, out)),
            _ => unreachable!(),
        },
        St::Subs(subs) => match m {
            M::Arr(v) => {
                for s in subs {
                    if let Some((b, e)) = select(s, v.len()) {
                        v[b..=e].iter().for_each(|x| walk(x, rest, out));
                    }
                }
            }
            _ => unreachable!(),
        },
        St::Desc(k) => match m {
            M::Obj(v) => {
                if let Some((_, x)) = v.iter().find(|e| e.0 == *k) {
                    walk(x, rest, out);
                }
                sorted(v).into_iter().for_each(|e| walk(&e.1, steps, out));
            }
            M::Arr(v) => v.iter().for_each(|x| walk(x, steps, out)),
            _ => {}
        },
    }
}

impl Path {
    /// The values selected, before any trailing function.
    pub fn matches<'m>(&self, m: &'m M) -> Vec<&'m M> {
        let mut out = Vec::new();
        walk(m, &self.steps, &mut out);
        out
    }
    /// The values a query returns, function applied.
    pub fn eval(&self, m: &M) -> Vec<M> {
        let v = self.matches(m);
        match self.fun {
            None => v.into_iter().cloned().collect(),
            Some(Fun::Count) => vec![M::Num(Number::from(v.len() as u64))],
            Some(Fun::Size) => v
                .into_iter()
                .map(|x| match x {
                    M::Arr(a) => M::Num(Number::from(a.len() as u64)),
                    _ => M::Num(Number::from(1u64)),
                })
                .collect(),
            Some(Fun::Type) => v.into_iter().map(|x| M::Str(x.type_name().to_string())).collect(),
        }
    }
}

fn keys_of(m: &M, out: &mut Vec<String>) {
    match m {
        M::Arr(v) => v.iter().for_each(|x| keys_of(x, out)),
        M::Obj(v) => {
            for (k, x) in v {
                if out.len() < 64 && writable(k) {
                    out.push(k.clone());
                }
                keys_of(x, out);
            }
        }
        _ => {}
    }
}

fn gen_ix(ctx: &mut Ctx, len: usize) -> Ix {
    let n = match ctx.n(8) {
        0 => 0,
        1 => 1,
        2 => len.saturating_sub(1),
        3 => len,
        4 => len + 1,
        5 => ctx.n(6) as usize,
        6 => ctx.n(len as u64 + 2) as usize,
        _ => match ctx.n(3) {
            0 => 2147483647,
            // far away, but the same as one of the elements if only some of the bits are looked at
            n => (n as usize) * (1 << [7usize, 8, 15, 16, 24, 30][ctx.n(6) as usize]) - (n as usize - 1) + ctx.n(len as u64 + 1) as usize,
        },
    };
    let n = n.min(2147483647);
    if ctx.n(5) < 2 {
        Ix::Last(n)
    } else {
        Ix::At(n)
    }
}

fn gen_sub(ctx: &mut Ctx, len: usize) -> Sub {
    if ctx.n(3) == 2 {
        Sub::Range(gen_ix(ctx, len), gen_ix(ctx, len))
    } else {
        Sub::One(gen_ix(ctx, len))
    }
}

/// A path that is likely, not certain, to select something in the document.
pub fn gen_path(ctx: &mut Ctx, doc: &M, funs: bool) -> Path {
    let mut keys = Vec::new();
    keys_of(doc, &mut keys);
    let n = ctx.n(6) as usize;
    let mut steps = Vec::new();
    let mut here: Option<&M> = Some(doc);
    for _ in 0..n {
        let follow = ctx.n(8) < 6;
        let st = match (here, follow) {
            (Some(M::Obj(v)), true) if !v.is_empty() => match ctx.n(6) {
                0..=3 => {
                    let e = &v[ctx.n(v.len() as u64) as usize];
                    if writable(&e.0) {
                        here = Some(&e.1);
                        St::Key(e.0.clone())
                    } else {
                        St::AnyKey
                    }
                }
                4 => {
                    here = v.first().map(|e| &e.1);
                    St::AnyKey
                }
                _ => {
                    let k = if keys.is_empty() { "a".to_string() } else { keys[ctx.n(keys.len() as u64) as usize].clone() };
                    here = None;
                    St::Desc(k)
                }
            },
            (Some(M::Arr(v)), true) => match ctx.n(6) {
                0..=2 => {
                    let s = gen_sub(ctx, v.len());
                    here = select(&s, v.len()).map(|(b, _)| &v[b]);
                    St::Subs(vec![s])
                }
                3 => {
                    let k = 2 + ctx.n(4);
                    let s: Vec<Sub> = (0..k).map(|_| gen_sub(ctx, v.len())).collect();
                    here = s.iter().find_map(|s| select(s, v.len())).map(|(b, _)| &v[b]);
                    St::Subs(s)
                }
                4 => {
                    here = v.first();
                    St::AnyIx
                }
                _ => {
                    if keys.is_empty() {
                        St::AnyIx
                    } else {
                        here = None;
                        St::Key(keys[ctx.n(keys.len() as u64) as usize].clone())
                    }
                }
            },
            _ => match ctx.n(6) {
                0 => St::AnyKey,
                1 => St::AnyIx,
                2 | 3 => {
                    let k = 1 + ctx.n(2);
                    St::Subs((0..k).map(|_| gen_sub(ctx, 2)).collect())
                }
                _ => {
                    let k = if keys.is_empty() || ctx.n(6) == 5 {
                        "missing".to_string()
                    } else {
                        keys[ctx.n(keys.len() as u64) as usize].clone()
                    };
                    if ctx.n(2) == 0 {
                        St::Key(k)
                    } else {
                        St::Desc(k)
                    }
                }
            },
        };
        steps.push(st);
    }
    let fun = if funs && ctx.n(5) == 4 {
        Some([Fun::Count, Fun::Size, Fun::Type][ctx.n(3) as usize])
    } else {
        None
    };
    Path { steps, fun }
}

/// Number of node visits an evaluation may take (descendant steps multiply); used to bound runs.
pub fn cost(p: &Path, m: &M) -> usize {
    fn w(m: &M, steps: &[St], left: &mut usize) {
        if *left == 0 {
            return;
        }
        *left -= 1;
        let Some((st, rest)) = steps.split_first() else { return };
        match (st, m) {
            (St::Key(k), M::Obj(v)) => {
                if let Some((_, x)) = v.iter().find(|e| e.0 == *k) {
                    w(x, rest, left)
                }
            }
            (St::AnyKey, M::Obj(v)) => v.iter().for_each(|e| w(&e.1, rest, left)),
            (St::Key(_) | St::AnyKey, M::Arr(v)) => v.iter().for_each(|x| w(x, steps, left)),
            (St::AnyIx | St::Subs(_), M::Arr(v)) => {
                let k = if let St::Subs(s) = st { s.len() } else { 1 };
                for _ in 0..k {
                    v.iter().for_each(|x| w(x, rest, left))
                }
            }
            (St::AnyIx | St::Subs(_), x) => w(x, rest, left),
            (St::Desc(k), M::Obj(v)) => {
                if let Some((_, x)) = v.iter().find(|e| e.0 == *k) {
                    w(x, rest, left)
                }
                v.iter().for_each(|e| w(&e.1, steps, left))
            }
            (St::Desc(_), M::Arr(v)) => v.iter().for_each(|x| w(x, steps, left)),
            _ => {}
        }
    }
    let mut left = 50_000;
    w(m, &p.steps, &mut left);
    50_000 - left
}
