//! Replicating documents as text or through serde over a faulty link: what arrives is equal to
//! what was sent, what arrives damaged is refused, and once the link heals everything arrives.

use crate::builder::plain;
use crate::ctx::{skip, viol, Ctx, R};
use crate::io::{Place, SimLink, SimWriter, WFault};
use crate::model::{self, gen_deep, gen_doc, Knobs, M};
use crate::reader::yason_is;
use crate::serdes::{BytesDe, How};
use serde::de::value;
use serde::Deserialize;
use std::io::{Read, Write};
use yason::{Yason, YasonBuf};

/// Hands out bytes a few at a time, with interruptions.
struct Chunks<'a> {
    b: &'a [u8],
    rng: crate::tape::Rng,
    interrupted: bool,
}
impl Read for Chunks<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let x = self.rng.next();
        if x % 5 == 0 && !self.interrupted {
            self.interrupted = true;
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        self.interrupted = false;
        let n = (1 + (x >> 8) as usize % 7).min(out.len()).min(self.b.len());
        out[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        Ok(n)
    }
}

/// Takes a few bytes at a time and fails for good after `left`.
struct Sink {
    out: Vec<u8>,
    left: usize,
    rng: crate::tape::Rng,
    failed: bool,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = (1 + self.rng.next() as usize % 9).min(b.len()).min(self.left);
        if n == 0 && !b.is_empty() {
            self.failed = true;
            return Err(std::io::ErrorKind::Other.into());
        }
        self.out.extend_from_slice(&b[..n]);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Codec {
    Text,
    Pretty,
    Display,
    JsonString,
    JsonWriter,
    JsonValue,
    JsonReader,
    Bincode,
    BincodeWriter,
    BincodeReader,
    BincodeInStruct,
    Raw,
}
const CODECS: [Codec; 12] = [
    Codec::Text,
    Codec::Pretty,
    Codec::Display,
    Codec::JsonString,
    Codec::JsonWriter,
    Codec::JsonValue,
    Codec::JsonReader,
    Codec::Bincode,
    Codec::BincodeWriter,
    Codec::BincodeReader,
    Codec::BincodeInStruct,
    Codec::Raw,
];

fn send(ctx: &mut Ctx, y: &YasonBuf, c: Codec) -> R<Vec<u8>> {
    fn e<T>(c: Codec, r: Result<T, impl std::fmt::Debug>) -> R<T> {
        match r {
            Ok(v) => Ok(v),
            Err(e) => viol("encode-failed", format!("{c:?}: {e:?}")),
        }
    }
    let yr: &Yason = y;
    match c {
        Codec::Text | Codec::Pretty => {
            let mut w = SimWriter::new(WFault::None, 64);
            let r = ctx.sut("format", || yr.format_to(c == Codec::Pretty, &mut w))?;
            e(c, r)?;
            Ok(w.out.into_bytes())
        }
        Codec::Display => ctx.sut("format", || yr.format(false).to_string().into_bytes()),
        Codec::JsonString | Codec::JsonReader => {
            let r = ctx.sut("to_string", || serde_json::to_string(y))?;
            Ok(e(c, r)?.into_bytes())
        }
        Codec::JsonValue => {
            let r = ctx.sut("to_value", || serde_json::to_value(y))?;
            Ok(e(c, r)?.to_string().into_bytes())
        }
        Codec::Bincode | Codec::BincodeReader => {
            let r = ctx.sut("bincode", || bincode::serialize(y))?;
            e(c, r)
        }
        Codec::BincodeInStruct => {
            let r = ctx.sut("bincode", || bincode::serialize(&(7u32, y, Some(y), "end")))?;
            e(c, r)
        }
        Codec::JsonWriter | Codec::BincodeWriter => {
            let seed = ctx.f(1 << 20);
            let mut left = if ctx.fchance(3) { ctx.f(200) as usize } else { usize::MAX };
            loop {
                let mut s = Sink { out: Vec::new(), left, rng: crate::tape::Rng::new(seed), failed: false };
                let r = ctx.sut("serialize into a writer", || {
                    if c == Codec::JsonWriter {
                        serde_json::to_writer(&mut s, y).is_ok()
                    } else {
                        bincode::serialize_into(&mut s, y).is_ok()
                    }
                })?;
                if r {
                    if s.failed {
                        return viol("error-lost", format!("{c:?}: the writer failed but serializing reported success"));
                    }
                    return Ok(s.out);
                }
                if !s.failed {
                    return viol("encode-failed", format!("{c:?}: failed although the writer did not"));
                }
                ctx.fault("write-error");
                left = usize::MAX;
            }
        }
        Codec::Raw => Ok(y.as_bytes().to_vec()),
    }
}

fn recv(ctx: &mut Ctx, b: &[u8], c: Codec) -> R<Result<YasonBuf, String>> {
    fn e<T>(r: Result<T, impl std::fmt::Debug>) -> Result<T, String> {
        r.map_err(|e| format!("{e:?}"))
    }
    let txt = || std::str::from_utf8(b).map_err(|e| format!("{e:?}"));
    let seed = ctx.f(1 << 20);
    let way = ctx.n(6);
    ctx.sut("decode", || match c {
        Codec::Text | Codec::Pretty | Codec::Display => {
            let t = txt()?;
            match way {
                0 => e(YasonBuf::parse(t)),
                1 => {
                    let mut buf = vec![9u8; seed as usize % 30];
                    e(Yason::parse_to(&mut buf, t).map(|y| y.to_owned()))
                }
                2 => {
                    let v: serde_json::Value = e(serde_json::from_str(t))?;
                    e(YasonBuf::try_from(&v))
                }
                // formats that lend, share or give away the text
                3 => e(YasonBuf::deserialize(value::StrDeserializer::<value::Error>::new(t))),
                4 => e(YasonBuf::deserialize(value::BorrowedStrDeserializer::<value::Error>::new(t))),
                _ => e(YasonBuf::deserialize(value::StringDeserializer::<value::Error>::new(t.to_string()))),
            }
        }
        Codec::JsonString | Codec::JsonWriter | Codec::JsonValue => match way % 3 {
            0 => e(serde_json::from_slice::<YasonBuf>(b)),
            1 => e(serde_json::from_str::<YasonBuf>(txt()?)),
            _ => e(serde_json::from_str::<serde_json::Value>(txt()?).and_then(serde_json::from_value::<YasonBuf>)),
        },
        Codec::JsonReader => {
            e(serde_json::from_reader::<_, YasonBuf>(Chunks { b, rng: crate::tape::Rng::new(seed), interrupted: false }))
        }
        Codec::Bincode | Codec::BincodeWriter => e(bincode::deserialize::<YasonBuf>(b)),
        Codec::BincodeReader => {
            e(bincode::deserialize_from::<_, YasonBuf>(Chunks { b, rng: crate::tape::Rng::new(seed), interrupted: false }))
        }
        Codec::BincodeInStruct => {
            let (n, y, z, t): (u32, YasonBuf, Option<YasonBuf>, String) = e(bincode::deserialize(b))?;
            if n != 7 || t != "end" || z.as_ref().map(|z| z.as_bytes()) != Some(y.as_bytes()) {
                return Ok(YasonBuf::from_marker());
            }
            Ok(y)
        }
        Codec::Raw => match way {
            0 | 1 => Ok(unsafe { YasonBuf::new_unchecked(b.to_vec()) }),
            2 => Ok(unsafe { Yason::new_unchecked(b) }.to_owned()),
            3 => e(YasonBuf::deserialize(BytesDe { bytes: b, how: How::Bytes })),
            4 => e(YasonBuf::deserialize(BytesDe { bytes: b, how: How::Borrowed })),
            _ => e(YasonBuf::deserialize(BytesDe { bytes: b, how: How::Owned })),
        },
    })
}

/// A document no scenario sends: its arrival means the frame around a document was misread.
trait Marker {
    fn from_marker() -> Self;
}
impl Marker for YasonBuf {
    fn from_marker() -> Self {
        plain(&M::Str("misread frame".into())).unwrap()
    }
}

/// Formats that keep the encoded bytes as they are.
fn binary(c: Codec) -> bool {
    matches!(c, Codec::Bincode | Codec::BincodeWriter | Codec::BincodeReader | Codec::BincodeInStruct | Codec::Raw)
}

pub fn run(ctx: &mut Ctx) -> R {
    let k = Knobs::draw(ctx, 24);
    let n = 1 + ctx.n(4) as usize;
    let mut msgs: Vec<(M, YasonBuf, Codec, Vec<u8>)> = Vec::new();
    for i in 0..n {
        let m = if ctx.n(12) == 11 {
            let d = 1 + ctx.n(100) as usize;
            gen_deep(ctx, d)
        } else if ctx.n(12) == 11 {
            // a text on its own
            let k = Knobs { big: true, str_style: 4, ..Knobs::draw(ctx, 1) };
            M::Str(model::gen_str(ctx, &k))
        } else {
            gen_doc(ctx, &k)
        };
        let y = plain(&m).map_err(skip)?;
        let c = CODECS[ctx.n(CODECS.len() as u64) as usize];
        let frame = send(ctx, &y, c)?;
        ctx.ev(format!("message {i} {c:?} {} bytes: {}", frame.len(), m.brief()));
        msgs.push((m, y, c, frame));
    }
    let mut link = SimLink::new(true);
    let mut back = SimLink::new(false);
    let mut have: Vec<Option<YasonBuf>> = (0..n).map(|_| None).collect();
    let mut acked = vec![false; n];
    let faulty = ctx.n(5);
    for round in 0..=faulty {
        if round == faulty {
            // the link heals; what is under way is gone
            link.drop_all();
            back.drop_all();
            link.healthy = true;
            back.healthy = true;
            ctx.ev("link heals");
        }
        for (i, m) in msgs.iter().enumerate() {
            if !acked[i] {
                link.send(ctx, i as u64, &m.3);
            }
        }
        // a partition holds frames back for a while
        let limit = if round == faulty { u64::MAX } else { ctx.n(8) };
        let mut done = 0;
        while done < limit {
            let Some(f) = link.recv() else { break };
            done += 1;
            let i = f.seq as usize;
            let (m, y, c, _) = &msgs[i];
            let judged = match c {
                Codec::Raw => false,
                Codec::Text | Codec::Pretty | Codec::Display => !matches!(m, M::Num(_)),
                // a bare JSON number
                _ => true,
            };
            if f.damaged {
                if judged {
                    let r = recv(ctx, &f.body, *c)?;
                    ctx.ev(format!("damaged frame {i}: {}", if r.is_ok() { "accepted" } else { "refused" }));
                    if r.is_ok() {
                        return viol("damaged-accepted", format!("{c:?}: {} of the frame's bytes were accepted as a document; sent {}", f.body.len(), m.brief()));
                    }
                }
                continue;
            }
            let r = recv(ctx, &f.body, *c)?;
            let got = match r {
                Ok(g) => g,
                Err(e) => return viol("decode-failed", format!("{c:?}: {e}; sent {}", m.brief())),
            };
            // the replica lives elsewhere
            let p = Place::draw(ctx, got.as_bytes());
            let z: &Yason = unsafe { Yason::new_unchecked(p.bytes()) };
            let read = ctx.sut("read replica", || yason_is(z, m))?;
            if let Err(e) = read {
                return viol("replica-differs", format!("{c:?}: {e}; sent {}", m.brief()));
            }
            let eq = ctx.sut("compare replica", || (z.equals(y), y.equals(z)))?;
            match eq {
                (Ok(true), Ok(true)) => {}
                e => return viol("replica-differs", format!("{c:?}: equals says {e:?}; sent {}", m.brief())),
            }
            if binary(*c) && got.as_bytes() != y.as_bytes() {
                return viol("replica-differs", format!("{c:?}: bytes changed in transit; sent {}", m.brief()));
            }
            ctx.ev(format!("frame {i} arrives"));
            have[i] = Some(got);
            back.send(ctx, f.seq, b"ack");
            while let Some(a) = back.recv() {
                acked[a.seq as usize] = true;
            }
        }
    }
    for (i, h) in have.iter().enumerate() {
        let Some(h) = h else {
            return viol("not-delivered", format!("message {i} never arrived although the link healed"));
        };
        // passing a replica on
        if ctx.n(3) == 2 {
            let c = CODECS[ctx.n(CODECS.len() as u64) as usize];
            let f = send(ctx, h, c)?;
            match recv(ctx, &f, c)? {
                Err(e) => return viol("decode-failed", format!("second hop, {c:?}: {e}; sent {}", msgs[i].0.brief())),
                Ok(z) => {
                    if let Err(e) = ctx.sut("read", || yason_is(&z, &msgs[i].0))? {
                        return viol("replica-differs", format!("second hop, {c:?}: {e}"));
                    }
                }
            }
        }
    }
    ctx.probe("all-delivered");
    let _ = model::brief_str;
    Ok(())
}
