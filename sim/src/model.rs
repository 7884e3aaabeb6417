//! The reference model of a document, and generators for it.

use crate::ctx::Ctx;
use std::cmp::Ordering;
use std::str::FromStr;
use yason::Number;

#[derive(Clone, Debug)]
pub enum M {
    Null,
    Bool(bool),
    Num(Number),
    Str(String),
    Arr(Vec<M>),
    /// in push order
    Obj(Vec<(String, M)>),
}

pub fn key_cmp(a: &str, b: &str) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.as_bytes().cmp(b.as_bytes()))
}

impl M {
    pub fn same(&self, o: &M) -> bool {
        match (self, o) {
            (M::Null, M::Null) => true,
            (M::Bool(a), M::Bool(b)) => a == b,
            (M::Num(a), M::Num(b)) => a == b,
            (M::Str(a), M::Str(b)) => a == b,
            (M::Arr(a), M::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            (M::Obj(a), M::Obj(b)) => {
                if a.len() != b.len() {
                    return false;
                }
                let (a, b) = (sorted(a), sorted(b));
                a.iter().zip(b.iter()).all(|(x, y)| x.0 == y.0 && x.1.same(&y.1))
            }
            _ => false,
        }
    }
    pub fn type_name(&self) -> &'static str {
        match self {
            M::Null => "null",
            M::Bool(_) => "bool",
            M::Num(_) => "number",
            M::Str(_) => "string",
            M::Arr(_) => "array",
            M::Obj(_) => "object",
        }
    }
    pub fn data_type(&self) -> yason::DataType {
        use yason::DataType as D;
        match self {
            M::Null => D::Null,
            M::Bool(_) => D::Bool,
            M::Num(_) => D::Number,
            M::Str(_) => D::String,
            M::Arr(_) => D::Array,
            M::Obj(_) => D::Object,
        }
    }
    pub fn is_container(&self) -> bool {
        matches!(self, M::Arr(_) | M::Obj(_))
    }
    pub fn nodes(&self) -> usize {
        match self {
            M::Arr(v) => 1 + v.iter().map(|x| x.nodes()).sum::<usize>(),
            M::Obj(v) => 1 + v.iter().map(|x| x.1.nodes()).sum::<usize>(),
            _ => 1,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            M::Arr(v) => 1 + v.iter().map(|x| x.depth()).max().unwrap_or(0),
            M::Obj(v) => 1 + v.iter().map(|x| x.1.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    /// Short rendering for logs.
    pub fn brief(&self) -> String {
        let mut s = String::new();
        self.brief_to(&mut s);
        s
    }
    fn brief_to(&self, s: &mut String) {
        if s.len() > 600 {
            if !s.ends_with('…') {
                s.push('…');
            }
            return;
        }
        match self {
            M::Null => s.push_str("null"),
            M::Bool(b) => s.push_str(if *b { "true" } else { "false" }),
            M::Num(n) => s.push_str(&n.to_string()),
            M::Str(t) => s.push_str(&brief_str(t)),
            M::Arr(v) => {
                s.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    x.brief_to(s);
                }
                s.push(']');
            }
            M::Obj(v) => {
                s.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    s.push_str(&brief_str(k));
                    s.push(':');
                    x.brief_to(s);
                }
                s.push('}');
            }
        }
    }
}

pub fn brief_str(t: &str) -> String {
    if t.len() <= 40 {
        format!("{t:?}")
    } else {
        let cut: String = t.chars().take(12).collect();
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in t.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        format!("{cut:?}+{}B#{:08x}", t.len(), h as u32)
    }
}

pub fn sorted(v: &[(String, M)]) -> Vec<&(String, M)> {
    let mut r: Vec<&(String, M)> = v.iter().collect();
    r.sort_by(|a, b| key_cmp(&a.0, &b.0));
    r
}

pub fn to_json(m: &M) -> serde_json::Value {
    use serde_json::Value as V;
    match m {
        M::Null => V::Null,
        M::Bool(b) => V::Bool(*b),
        M::Num(n) => {
            let mut s = String::new();
            n.format_to_json(&mut s).unwrap();
            V::Number(serde_json::from_str(&s).unwrap())
        }
        M::Str(s) => V::String(s.clone()),
        M::Arr(v) => V::Array(v.iter().map(to_json).collect()),
        M::Obj(v) => V::Object(v.iter().map(|(k, x)| (k.clone(), to_json(x))).collect()),
    }
}

pub fn from_json(v: &serde_json::Value) -> Option<M> {
    use serde_json::Value as V;
    Some(match v {
        V::Null => M::Null,
        V::Bool(b) => M::Bool(*b),
        V::Number(n) => M::Num(Number::from_str(&n.to_string()).ok()?),
        V::String(s) => M::Str(s.clone()),
        V::Array(v) => M::Arr(v.iter().map(from_json).collect::<Option<_>>()?),
        V::Object(v) => M::Obj(v.iter().map(|(k, x)| Some((k.clone(), from_json(x)?))).collect::<Option<_>>()?),
    })
}

// ------------------------------------------------------------------------------------------------

/// Per-run knobs (swarm style).
#[derive(Clone, Debug)]
pub struct Knobs {
    pub max_nodes: usize,
    pub max_depth: usize,
    pub str_style: u64,
    pub key_style: u64,
    pub num_style: u64,
    pub max_fan: u64,
    pub big: bool,
    /// strings of many megabytes
    pub huge: bool,
    /// chance 1/x for a container as child
    pub nest: u64,
}

impl Knobs {
    pub fn draw(ctx: &mut Ctx, max_nodes: usize) -> Self {
        let mut k = Self::draw_small(ctx, max_nodes);
        k.huge = k.big && ctx.chance(40);
        k
    }
    /// Without strings of many megabytes.
    pub fn draw_small(ctx: &mut Ctx, max_nodes: usize) -> Self {
        Knobs {
            huge: false,
            max_nodes: 1 + ctx.n(max_nodes as u64) as usize,
            max_depth: 1 + ctx.n(8) as usize,
            str_style: ctx.n(7),
            key_style: ctx.n(7),
            num_style: ctx.n(6),
            max_fan: 1 + ctx.n(12),
            big: ctx.chance(24),
            nest: 2 + ctx.n(4),
        }
    }
}

/// Much deeper or wider than the others, by itself.
fn gen_odd(ctx: &mut Ctx, k: &Knobs) -> M {
    if ctx.n(2) == 0 {
        // leaves room below the limit for containers around it
        let d = 2 + ctx.n(69) as usize;
        return gen_deep(ctx, d);
    }
    let n = 13 + ctx.n(90) as usize;
    let flat = Knobs { max_nodes: n + 1, max_depth: 2, max_fan: n as u64, big: false, huge: false, nest: 6, ..*k };
    let mut budget = n + 1;
    match ctx.n(2) {
        0 => gen_arr(ctx, &flat, 1, &mut budget),
        _ => gen_obj(ctx, &flat, 1, &mut budget),
    }
}

pub fn gen_doc(ctx: &mut Ctx, k: &Knobs) -> M {
    if ctx.n(40) == 39 {
        return gen_odd(ctx, k);
    }
    let mut budget = k.max_nodes;
    match ctx.n(8) {
        0 => gen_scalar(ctx, k),
        1..=3 => gen_arr(ctx, k, 1, &mut budget),
        _ => gen_obj(ctx, k, 1, &mut budget),
    }
}

pub fn gen_container(ctx: &mut Ctx, k: &Knobs) -> M {
    if ctx.n(40) == 39 {
        return gen_odd(ctx, k);
    }
    let mut budget = k.max_nodes;
    match ctx.n(2) {
        0 => gen_arr(ctx, k, 1, &mut budget),
        _ => gen_obj(ctx, k, 1, &mut budget),
    }
}

fn gen_child(ctx: &mut Ctx, k: &Knobs, depth: usize, budget: &mut usize) -> M {
    *budget = budget.saturating_sub(1);
    if depth < k.max_depth && *budget > 0 && ctx.n(k.nest) == k.nest - 1 {
        match ctx.n(2) {
            0 => gen_arr(ctx, k, depth + 1, budget),
            _ => gen_obj(ctx, k, depth + 1, budget),
        }
    } else {
        gen_scalar(ctx, k)
    }
}

fn fan(ctx: &mut Ctx, k: &Knobs, budget: usize) -> usize {
    let n = ctx.n(k.max_fan + 1) as usize;
    if k.big && ctx.chance(6) {
        return [255usize, 256, 257, 300][ctx.n(4) as usize];
    }
    n.min(budget)
}

/// The size of a container with thousands of elements, now and then. Nothing else of size is near it.
fn wide(ctx: &mut Ctx, k: &Knobs, budget: &mut usize) -> Option<usize> {
    if !k.huge || !ctx.chance(3) {
        return None;
    }
    *budget = 0;
    Some([1000usize, 4095, 4096, 20_000, 32_767, 32_768, 65_534, 65_535][ctx.n(8) as usize])
}

fn wide_child(r: &mut crate::tape::Rng, i: usize) -> M {
    match r.next() % 6 {
        0 => M::Null,
        1 => M::Bool(i % 3 == 0),
        2 | 3 => M::Num(Number::from(i)),
        4 => M::Str(WORDS[i % 12].to_string()),
        _ => M::Arr(vec![M::Bool(true); i % 3]),
    }
}

pub fn gen_arr(ctx: &mut Ctx, k: &Knobs, depth: usize, budget: &mut usize) -> M {
    if let Some(n) = wide(ctx, k, budget) {
        let mut r = crate::tape::Rng::new(ctx.n(1000));
        return M::Arr((0..n).map(|i| wide_child(&mut r, i)).collect());
    }
    let n = fan(ctx, k, *budget);
    M::Arr((0..n).map(|_| gen_child(ctx, k, depth, budget)).collect())
}

pub fn gen_obj(ctx: &mut Ctx, k: &Knobs, depth: usize, budget: &mut usize) -> M {
    if let Some(n) = wide(ctx, k, budget) {
        let mut r = crate::tape::Rng::new(ctx.n(1000));
        // keys of several lengths, in one of several orders; 7919 is a prime and does not divide any n
        let step = [1, 7919, n - 1][ctx.n(3) as usize];
        return M::Obj((0..n).map(|i| (((i * step) % n).to_string(), wide_child(&mut r, i))).collect());
    }
    let n = fan(ctx, k, *budget);
    let mut v: Vec<(String, M)> = Vec::new();
    let mut used = std::collections::BTreeSet::new();
    for i in 0..n {
        let mut key = gen_key(ctx, k);
        if !used.insert(key.clone()) {
            if key.len() > 65_000 {
                continue;
            }
            key = format!("{key}~{i}");
            if !used.insert(key.clone()) {
                continue;
            }
        }
        let c = gen_child(ctx, k, depth, budget);
        v.push((key, c));
    }
    M::Obj(v)
}

pub fn gen_scalar(ctx: &mut Ctx, k: &Knobs) -> M {
    match ctx.n(6) {
        0 => M::Null,
        1 => M::Bool(ctx.n(2) == 1),
        2 | 3 => M::Num(gen_num(ctx, k)),
        _ => M::Str(gen_str(ctx, k)),
    }
}

pub fn gen_num_text(ctx: &mut Ctx, style: u64) -> String {
    let style = if style == 5 { ctx.n(5) } else { style };
    let neg = if ctx.n(3) == 2 { "-" } else { "" };
    match style {
        0 => format!("{neg}{}", ctx.n(10)),
        1 => {
            let pool = [
                "0", "1", "127", "128", "255", "256", "99", "100", "101", "9999", "10000", "10001", "65535", "65536",
                "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993", "9223372036854775807",
                "18446744073709551615", "18446744073709551616", "0.1", "0.001", "1e-130", "9.9e125",
                "99999999999999999999999999999999999999", "12345678901234567890123456789012345678",
                "0.00000000000000000000000000000000000001", "32767", "32768", "100000000", "1e10", "10000000000",
            ];
            format!("{neg}{}", pool[ctx.n(pool.len() as u64) as usize])
        }
        2 => {
            // integer part, fraction
            let d = ctx.n(1_000_000);
            let s = ctx.n(9) as usize;
            format!("{neg}{}.{:0w$}{}", d / 1000, d % 1000, ctx.n(10), w = s.max(1))
        }
        3 => {
            // many significant digits (up to 38, which decimals hold exactly)
            let n = 1 + ctx.n(38) as usize;
            let a = ctx.n(u64::MAX);
            let b = ctx.n(u64::MAX);
            let mut s = format!("{a:020}{b:020}");
            s.truncate(n);
            let dot = ctx.n(n as u64 + 1) as usize;
            let s = format!("{}.{}", &s[..dot], &s[dot..]);
            let s = s.trim_start_matches('0').trim_end_matches('.').to_string();
            let s = if s.starts_with('.') || s.is_empty() { format!("0{s}") } else { s };
            let s = if s == "0." { "0".to_string() } else { s };
            format!("{neg}{s}")
        }
        _ => {
            let e = ctx.n(240) as i64 - 120;
            let m = ctx.n(1000);
            match ctx.n(3) {
                0 => format!("{neg}{m}e{e}"),
                1 => format!("{neg}{}.{}E{e:+}", m / 10, m % 10),
                _ => format!("{neg}{m}0e{}", e - 1),
            }
        }
    }
}

pub fn gen_num(ctx: &mut Ctx, k: &Knobs) -> Number {
    let t = gen_num_text(ctx, k.num_style);
    Number::from_str(&t).unwrap_or(Number::ZERO)
}

const ODD: [&str; 24] = [
    "\"", "\\", "/", "\n", "\r", "\t", "\u{8}", "\u{c}", "\0", "\u{1}", "\u{1f}", "\u{7f}", "é", "ß", "中", "\u{2028}",
    "\u{ffff}", "😀", "\u{10ffff}", "\u{80}", "\u{7ff}", "\u{800}", "{\"a\":1}", "\\u0041",
];

const WORDS: [&str; 12] =
    ["", "a", "b", "key", "value", "name", "abc", "id", "xyzzy", "true", "null", "0123456789abcdef"];

fn lens(ctx: &mut Ctx, big: bool, huge: bool) -> usize {
    if big && ctx.chance(10) {
        if huge && ctx.chance(3) {
            // offsets and lengths of more than two and three bytes
            return [2_097_151usize, 2_097_152, 3_000_000, 16_777_300][ctx.n(4) as usize];
        }
        return [16382usize, 16383, 16384, 16385, 20000, 32767, 32768, 65535, 65536, 70000][ctx.n(10) as usize];
    }
    [0usize, 1, 2, 3, 7, 15, 60, 126, 127, 128, 129, 130, 255, 256, 257, 300][ctx.n(16) as usize]
}

pub fn fill_str(seed: u64, len: usize, alphabet: &[u8]) -> String {
    let mut r = crate::tape::Rng::new(seed);
    let mut s = Vec::with_capacity(len);
    while s.len() < len {
        let mut x = r.next();
        for _ in 0..8 {
            if s.len() < len {
                s.push(alphabet[(x & 0xff) as usize % alphabet.len()]);
                x >>= 8;
            }
        }
    }
    String::from_utf8(s).unwrap()
}

const ALPHA: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";

pub fn gen_str(ctx: &mut Ctx, k: &Knobs) -> String {
    let style = if k.str_style == 6 { ctx.n(6) } else { k.str_style };
    match style {
        0 => WORDS[ctx.n(12) as usize].to_string(),
        1 => {
            let l = lens(ctx, k.big, k.huge);
            let s = ctx.n(16);
            fill_str(s, l, ALPHA)
        }
        2 | 3 => {
            let n = ctx.n(8);
            let mut s = String::new();
            for _ in 0..n {
                if ctx.n(2) == 0 {
                    s.push_str(WORDS[ctx.n(12) as usize]);
                } else {
                    s.push_str(ODD[ctx.n(24) as usize]);
                }
            }
            s
        }
        4 => {
            let l = lens(ctx, k.big, k.huge);
            let s = ctx.n(16);
            if ctx.n(4) == 3 {
                // odd characters all along
                let o = ODD[ctx.n(24) as usize];
                let lead = ctx.n(5) as usize;
                let t = fill_str(s, lead, ALPHA) + &o.repeat(l / o.len());
                return t;
            }
            // long with an odd character at a seeded place
            let mut t = fill_str(s, l, ALPHA);
            let at = ctx.n(l as u64 + 1) as usize;
            t.insert_str(at, ODD[ctx.n(24) as usize]);
            t
        }
        _ => {
            let n = ctx.n(20);
            let top = [0x250u64, 0x250, 0x80, 0x3000, 0x110000][ctx.n(5) as usize];
            (0..n).map(|_| char::from_u32((ctx.n(top)) as u32).unwrap_or('?')).collect()
        }
    }
}

pub fn gen_key(ctx: &mut Ctx, k: &Knobs) -> String {
    let style = if k.key_style == 6 { ctx.n(6) } else { k.key_style };
    match style {
        0 => ((b'a' + ctx.n(26) as u8) as char).to_string(),
        1 => {
            // same length, shared prefix
            format!("key{:02}", ctx.n(100))
        }
        2 => {
            // prefix chains
            "abcdefghijklmnop"[..ctx.n(17) as usize].to_string()
        }
        3 => {
            let n = 1 + ctx.n(3);
            (0..n).map(|_| ODD[ctx.n(24) as usize]).collect()
        }
        4 => {
            if k.big && ctx.chance(12) {
                let l = [255usize, 256, 16383, 16384, 32767, 32768, 65534, 65535][ctx.n(8) as usize];
                let s = ctx.n(64);
                fill_str(s, l, b"ab")
            } else if ctx.n(3) == 0 {
                let l = lens(ctx, false, false);
                let s = ctx.n(64);
                fill_str(s, l, b"ab")
            } else {
                let l = 1 + ctx.n(4) as usize;
                let s = ctx.n(1000);
                fill_str(s, l, b"ab")
            }
        }
        _ => {
            let l = 1 + ctx.n(6) as usize;
            let s = ctx.n(100_000);
            fill_str(s, l, ALPHA)
        }
    }
}

/// Numbers nested `depth` containers deep, mixing arrays and objects, with siblings.
pub fn gen_deep(ctx: &mut Ctx, depth: usize) -> M {
    let mode = ctx.n(3);
    let leaf = match ctx.n(4) {
        0 => None,
        1 => Some(M::Num(Number::from(7))),
        2 => Some(M::Str("leaf".into())),
        _ => Some(M::Bool(true)),
    };
    let mut cur = leaf;
    let sib = ctx.n(4);
    for level in (0..depth).rev() {
        let arr = match mode {
            0 => true,
            1 => false,
            _ => ctx.n(2) == 0,
        };
        let extra = sib == 3 && level % 7 == 0;
        cur = Some(if arr {
            let mut v: Vec<M> = Vec::new();
            if extra {
                v.push(M::Null);
            }
            v.extend(cur.take());
            if extra {
                v.push(M::Str("s".into()));
            }
            M::Arr(v)
        } else {
            let mut v: Vec<(String, M)> = Vec::new();
            if extra {
                v.push(("zz".into(), M::Bool(false)));
            }
            if let Some(c) = cur.take() {
                v.push(("k".into(), c));
            }
            if extra {
                v.push(("a".into(), M::Num(Number::from(level as u64))));
            }
            M::Obj(v)
        });
    }
    cur.unwrap_or(M::Null)
}

/// A small change somewhere in the document; None if the document offers none.
pub fn mutate(ctx: &mut Ctx, m: &M) -> M {
    match m {
        M::Null => M::Bool(false),
        M::Bool(b) => {
            if ctx.n(2) == 0 {
                M::Bool(!b)
            } else {
                M::Null
            }
        }
        M::Num(n) => match ctx.n(3) {
            0 => M::Num(*n + Number::ONE),
            1 => M::Str(n.to_string()),
            _ => M::Num(-(*n) + Number::ONE),
        },
        M::Str(s) => {
            let mut t = s.clone();
            match ctx.n(6) {
                4 | 5 => {
                    // one character somewhere, same length
                    let at = ctx.n(s.len().max(1) as u64) as usize;
                    return M::Str(one_off(s, at).unwrap_or(t + "x"));
                }
                0 => t.push('x'),
                1 => {
                    if t.pop().is_none() {
                        t.push('y')
                    }
                }
                2 => {
                    // same length, last byte differs
                    match t.pop() {
                        Some('q') => t.push('r'),
                        Some(c) if c.is_ascii() => t.push('q'),
                        Some(_) => t.push('z'),
                        None => t.push('z'),
                    }
                }
                _ => t.insert(0, 'w'),
            }
            M::Str(t)
        }
        M::Arr(v) => {
            let mut v = v.clone();
            if v.is_empty() {
                return M::Arr(vec![M::Null]);
            }
            let i = ctx.n(v.len() as u64) as usize;
            match ctx.n(4) {
                0 => {
                    v.remove(i);
                }
                1 if v.len() < 65_535 => v.insert(i, M::Null),
                2 if v.len() > 1 && !v[i].same(&v[(i + 1) % v.len()]) => {
                    let j = (i + 1) % v.len();
                    v.swap(i, j);
                }
                _ => v[i] = mutate(ctx, &v[i].clone()),
            }
            M::Arr(v)
        }
        M::Obj(v) => {
            let mut v = v.clone();
            if v.is_empty() {
                return M::Obj(vec![("a".into(), M::Null)]);
            }
            let i = ctx.n(v.len() as u64) as usize;
            match ctx.n(5) {
                0 => {
                    v.remove(i);
                }
                x @ (1 | 4) => {
                    // rename a key
                    let at = ctx.n(v[i].0.len().max(1) as u64) as usize;
                    let other = if x == 4 { one_off(&v[i].0, at) } else { None };
                    let k = other.unwrap_or_else(|| format!("{}'", if v[i].0.len() < 65_535 { &v[i].0 } else { "" }));
                    if v.iter().all(|e| e.0 != k) {
                        v[i].0 = k;
                    } else {
                        v.remove(i);
                    }
                }
                2 if v.len() > 1 && !v[i].1.same(&v[(i + 1) % v.len()].1) => {
                    let j = (i + 1) % v.len();
                    let t = v[i].1.clone();
                    v[i].1 = v[j].1.clone();
                    v[j].1 = t;
                }
                _ => v[i].1 = mutate(ctx, &v[i].1.clone()),
            }
            M::Obj(v)
        }
    }
}

/// The string with one ASCII character changed, at `at` or the next place that has one.
pub fn one_off(t: &str, at: usize) -> Option<String> {
    let b = t.as_bytes();
    let i = (0..b.len()).map(|k| (k + at) % b.len()).find(|&i| b[i].is_ascii_graphic())?;
    let mut v = b.to_vec();
    v[i] = if v[i] == b'b' { b'a' } else { b'b' };
    String::from_utf8(v).ok()
}

/// A change that leaves the encoded size as it is, where the document offers one.
pub fn mutate_in_place(ctx: &mut Ctx, m: &M) -> M {
    match m {
        M::Null => M::Null,
        M::Bool(b) => M::Bool(!b),
        M::Num(n) => M::Num(-*n),
        M::Str(s) => {
            let at = ctx.n(s.len().max(1) as u64) as usize;
            M::Str(one_off(s, at).unwrap_or_else(|| s.clone()))
        }
        M::Arr(v) => {
            let mut v = v.clone();
            if !v.is_empty() {
                let i = ctx.n(v.len() as u64) as usize;
                if ctx.n(2) == 0 {
                    v[i] = mutate_in_place(ctx, &v[i].clone());
                } else {
                    v.reverse();
                }
            }
            M::Arr(v)
        }
        M::Obj(v) => {
            let mut v = v.clone();
            if !v.is_empty() {
                let i = ctx.n(v.len() as u64) as usize;
                let at = ctx.n(v[i].0.len().max(1) as u64) as usize;
                match (ctx.n(2), one_off(&v[i].0, at)) {
                    (0, Some(k)) if v.iter().all(|e| e.0 != k) => v[i].0 = k,
                    _ => v[i].1 = mutate_in_place(ctx, &v[i].1.clone()),
                }
            }
            M::Obj(v)
        }
    }
}
