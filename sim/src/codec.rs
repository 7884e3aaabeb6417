//! Independent codec for the documented binary format (the BNF in /repo/src/lib.rs). It stands for
//! a peer built from the documentation alone. Only the bytes inside a number come from decimal-rs.

use crate::model::{key_cmp, M};
use yason::Number;

#[derive(Clone, Default)]
pub struct Layout {
    /// permutes the physical order of key-values and outlined values; 0 = push order
    pub shuffle: u64,
    /// what to put in the inline field of a null element
    pub null_fill: u32,
}

fn perm(n: usize, seed: u64) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    if seed != 0 {
        let mut r = crate::tape::Rng::new(seed);
        for i in (1..n).rev() {
            let j = (r.next() % (i as u64 + 1)) as usize;
            p.swap(i, j);
        }
    }
    p
}

pub fn type_byte(m: &M) -> u8 {
    match m {
        M::Obj(_) => 1,
        M::Arr(_) => 2,
        M::Str(_) => 3,
        M::Num(_) => 4,
        M::Bool(_) => 5,
        M::Null => 6,
    }
}

fn varint(mut n: usize, out: &mut Vec<u8>) {
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}

fn number(n: &Number, out: &mut Vec<u8>) {
    let mut buf = [0u8; 64];
    let len = n.compact_encode(&mut buf[..]).unwrap();
    out.push(len as u8);
    out.extend_from_slice(&buf[..len]);
}

/// type byte and value
pub fn encode(m: &M, l: &Layout, out: &mut Vec<u8>) {
    out.push(type_byte(m));
    value(m, l, out);
}

fn value(m: &M, l: &Layout, out: &mut Vec<u8>) {
    match m {
        M::Null => {}
        M::Bool(b) => out.push(*b as u8),
        M::Num(n) => number(n, out),
        M::Str(s) => {
            varint(s.len(), out);
            out.extend_from_slice(s.as_bytes());
        }
        M::Arr(v) => {
            let size_at = out.len();
            out.extend_from_slice(&[0; 4]);
            let base = out.len();
            out.extend_from_slice(&(v.len() as u16).to_le_bytes());
            let entries = out.len();
            out.resize(entries + 5 * v.len(), 0);
            for i in perm(v.len(), l.shuffle) {
                let e = entries + 5 * i;
                out[e] = type_byte(&v[i]);
                let field = match &v[i] {
                    M::Null => l.null_fill,
                    M::Bool(b) => *b as u32,
                    x => {
                        let off = (out.len() - base) as u32;
                        if x.is_container() {
                            out.push(type_byte(x));
                        }
                        value(x, l, out);
                        off
                    }
                };
                out[e + 1..e + 5].copy_from_slice(&field.to_le_bytes());
            }
            let size = (out.len() - base) as i32;
            out[size_at..size_at + 4].copy_from_slice(&size.to_le_bytes());
        }
        M::Obj(v) => {
            let size_at = out.len();
            out.extend_from_slice(&[0; 4]);
            let base = out.len();
            out.extend_from_slice(&(v.len() as u16).to_le_bytes());
            let table = out.len();
            out.resize(table + 4 * v.len(), 0);
            let mut order: Vec<usize> = (0..v.len()).collect();
            order.sort_by(|&a, &b| key_cmp(&v[a].0, &v[b].0));
            let mut rank = vec![0; v.len()];
            for (r, &i) in order.iter().enumerate() {
                rank[i] = r;
            }
            for i in perm(v.len(), l.shuffle) {
                let off = (out.len() - base) as u32;
                let t = table + 4 * rank[i];
                out[t..t + 4].copy_from_slice(&off.to_le_bytes());
                out.extend_from_slice(&(v[i].0.len() as u16).to_le_bytes());
                out.extend_from_slice(v[i].0.as_bytes());
                out.push(type_byte(&v[i].1));
                value(&v[i].1, l, out);
            }
            let size = (out.len() - base) as i32;
            out[size_at..size_at + 4].copy_from_slice(&size.to_le_bytes());
        }
    }
}

pub fn encoded(m: &M) -> Vec<u8> {
    let mut v = Vec::new();
    encode(m, &Layout::default(), &mut v);
    v
}

type D<T> = Result<T, String>;

/// Strict decoder: every byte of the document has to be accounted for.
pub fn decode(b: &[u8]) -> D<M> {
    let mut d = Dec { b, used: 0 };
    let (m, end) = d.typed(0)?;
    if end != b.len() {
        return Err(format!("{} bytes, but the value ends at {}", b.len(), end));
    }
    if d.used != b.len() {
        return Err(format!("{} of {} bytes are referenced", d.used, b.len()));
    }
    Ok(m)
}

struct Dec<'a> {
    b: &'a [u8],
    used: usize,
}

impl Dec<'_> {
    fn get(&mut self, at: usize, n: usize) -> D<&[u8]> {
        self.used += n;
        let b = self.b;
        b.get(at..at + n).ok_or_else(|| format!("bytes {at}..{} beyond {}", at + n, b.len()))
    }
    fn u8(&mut self, at: usize) -> D<u8> {
        Ok(self.get(at, 1)?[0])
    }
    fn u16(&mut self, at: usize) -> D<usize> {
        Ok(u16::from_le_bytes(self.get(at, 2)?.try_into().unwrap()) as usize)
    }
    fn u32(&mut self, at: usize) -> D<usize> {
        Ok(u32::from_le_bytes(self.get(at, 4)?.try_into().unwrap()) as usize)
    }
    fn typed(&mut self, at: usize) -> D<(M, usize)> {
        let t = self.u8(at)?;
        self.value(t, at + 1)
    }
    fn value(&mut self, t: u8, at: usize) -> D<(M, usize)> {
        match t {
            1 => self.object(at),
            2 => self.array(at),
            3 => {
                let mut n = 0usize;
                let mut p = at;
                loop {
                    let b = self.u8(p)?;
                    n |= ((b & 0x7f) as usize) << (7 * (p - at));
                    p += 1;
                    if b & 0x80 == 0 {
                        break;
                    }
                    if p - at >= 4 {
                        return Err("data-length longer than 4 bytes".into());
                    }
                }
                let s = String::from_utf8(self.get(p, n)?.to_vec()).map_err(|e| e.to_string())?;
                Ok((M::Str(s), p + n))
            }
            4 => {
                let n = self.u8(at)? as usize;
                if n == 0 {
                    return Err("empty number".into());
                }
                let v = Number::decode(self.get(at + 1, n)?);
                Ok((M::Num(v), at + 1 + n))
            }
            5 => match self.u8(at)? {
                0 => Ok((M::Bool(false), at + 1)),
                1 => Ok((M::Bool(true), at + 1)),
                x => Err(format!("bool {x}")),
            },
            6 => Ok((M::Null, at)),
            x => Err(format!("type {x}")),
        }
    }
    fn array(&mut self, at: usize) -> D<(M, usize)> {
        let size = self.u32(at)?;
        let base = at + 4;
        let end = base + size;
        let n = self.u16(base)?;
        let mut v = Vec::with_capacity(n.min(1 << 16));
        for i in 0..n {
            let e = base + 2 + 5 * i;
            let t = self.u8(e)?;
            let f = self.u32(e + 1)?;
            let m = match t {
                5 if f <= 1 => M::Bool(f == 1),
                5 => return Err(format!("inlined bool {f}")),
                6 => M::Null,
                3 | 4 => self.value(t, base + f)?.0,
                1 | 2 => {
                    if self.u8(base + f)? != t {
                        return Err("type of the entry and of the outlined value differ".into());
                    }
                    let (m, e) = self.value(t, base + f + 1)?;
                    if e > end {
                        return Err("nested value runs past its array".into());
                    }
                    m
                }
                x => return Err(format!("entry type {x}")),
            };
            v.push(m);
        }
        Ok((M::Arr(v), end))
    }
    fn object(&mut self, at: usize) -> D<(M, usize)> {
        let size = self.u32(at)?;
        let base = at + 4;
        let end = base + size;
        let n = self.u16(base)?;
        let mut v: Vec<(String, M)> = Vec::with_capacity(n.min(1 << 16));
        for i in 0..n {
            let p = base + self.u32(base + 2 + 4 * i)?;
            let kl = self.u16(p)?;
            let k = String::from_utf8(self.get(p + 2, kl)?.to_vec()).map_err(|e| e.to_string())?;
            if let Some((prev, _)) = v.last() {
                if key_cmp(prev, &k) != std::cmp::Ordering::Less {
                    return Err(format!("keys out of order: {prev:?} then {k:?}"));
                }
            }
            let t = self.u8(p + 2 + kl)?;
            let (m, e) = self.value(t, p + 3 + kl)?;
            if e > end {
                return Err("nested value runs past its object".into());
            }
            v.push((k, m));
        }
        Ok((M::Obj(v), end))
    }
}
