//! A binary serde format that allocates nothing, so that only yason's allocations count.

use serde::de::{self, Visitor};
use serde::ser;
use std::fmt::{self, Display, Write};

/// Error text in a fixed buffer.
#[derive(Debug)]
pub struct NoAlloc {
    buf: [u8; 160],
    len: usize,
}

impl NoAlloc {
    fn new(d: impl Display) -> Self {
        let mut e = NoAlloc { buf: [0; 160], len: 0 };
        let _ = write!(e, "{d}");
        e
    }
}
impl Write for NoAlloc {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for b in s.bytes() {
            if self.len < self.buf.len() && b < 128 {
                self.buf[self.len] = b;
                self.len += 1;
            }
        }
        Ok(())
    }
}
impl Display for NoAlloc {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(std::str::from_utf8(&self.buf[..self.len]).unwrap_or("?"))
    }
}
impl std::error::Error for NoAlloc {}
impl de::Error for NoAlloc {
    fn custom<T: Display>(msg: T) -> Self {
        NoAlloc::new(msg)
    }
}
impl ser::Error for NoAlloc {
    fn custom<T: Display>(msg: T) -> Self {
        NoAlloc::new(msg)
    }
}

#[derive(Clone, Copy, Debug)]
pub enum How {
    Bytes,
    Borrowed,
    Owned,
}

pub struct BytesDe<'a> {
    pub bytes: &'a [u8],
    pub how: How,
}

impl<'de> de::Deserializer<'de> for BytesDe<'de> {
    type Error = NoAlloc;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, NoAlloc> {
        match self.how {
            How::Bytes => v.visit_bytes(self.bytes),
            How::Borrowed => v.visit_borrowed_bytes(self.bytes),
            How::Owned => {
                let b = crate::alloc::unarmed(|| self.bytes.to_vec());
                v.visit_byte_buf(b)
            }
        }
    }
    fn is_human_readable(&self) -> bool {
        false
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

/// Accepts bytes only and gives their checksum.
pub struct BytesSer;

type Imp = ser::Impossible<u64, NoAlloc>;

fn no<T>() -> Result<T, NoAlloc> {
    Err(NoAlloc::new("only bytes are supported"))
}

impl ser::Serializer for BytesSer {
    type Ok = u64;
    type Error = NoAlloc;
    type SerializeSeq = Imp;
    type SerializeTuple = Imp;
    type SerializeTupleStruct = Imp;
    type SerializeTupleVariant = Imp;
    type SerializeMap = Imp;
    type SerializeStruct = Imp;
    type SerializeStructVariant = Imp;
    fn is_human_readable(&self) -> bool {
        false
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<u64, NoAlloc> {
        Ok(crate::io::checksum(v))
    }
    fn serialize_bool(self, _: bool) -> Result<u64, NoAlloc> {
        no()
    }
    fn serialize_i8(self, _: i8) -> Result<u64, NoAlloc> {
        no()
    }
    fn serialize_i16(self, _: i16) -> Result<u64, NoAlloc> {
        no()
    }
    fn serialize_i32(self, _: i32) -> Result<u64, NoAlloc> {
        no()
    }
    fn serialize_i64(self, _: i64) -> Result<u64, NoAlloc> {
        no()
    }
    fn serialize_u8(self, _: u8) -> Result<u64, NoAlloc> {
        no()
    }
    fn serialize_u16(self, _: u16) -> Result<u64, NoAlloc> {
        no()
    }
    fn serialize_u32(self, _: u32) -> Result<u64, NoAlloc> {
        no()
    }
    fn serialize_u64(self, _: u64) -> Result<u64, NoAlloc> {
        no()
    }
    fn serialize_f32(self, _: f32) -> Result<u64, NoAlloc> {
        no()
    }
    fn serialize_f64(self, _: f64) -> Result<u64, NoAlloc> {
        no()
    }
    fn serialize_char(self, _: char) -> Result<u64, NoAlloc> {
        no()
    }
    fn serialize_str(self, _: &str) -> Result<u64, NoAlloc> {
        no()
    }
    fn serialize_none(self) -> Result<u64, NoAlloc> {
        no()
    }
    fn serialize_some<T: ?Sized + ser::Serialize>(self, _: &T) -> Result<u64, NoAlloc> {
        no()
    }
    fn serialize_unit(self) -> Result<u64, NoAlloc> {
        no()
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<u64, NoAlloc> {
        no()
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<u64, NoAlloc> {
        no()
    }
    fn serialize_newtype_struct<T: ?Sized + ser::Serialize>(self, _: &'static str, _: &T) -> Result<u64, NoAlloc> {
        no()
    }
    fn serialize_newtype_variant<T: ?Sized + ser::Serialize>(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: &T,
    ) -> Result<u64, NoAlloc> {
        no()
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Imp, NoAlloc> {
        no()
    }
    fn serialize_tuple(self, _: usize) -> Result<Imp, NoAlloc> {
        no()
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Imp, NoAlloc> {
        no()
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, NoAlloc> {
        no()
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Imp, NoAlloc> {
        no()
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Imp, NoAlloc> {
        no()
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, NoAlloc> {
        no()
    }
    fn collect_str<T: ?Sized + Display>(self, _: &T) -> Result<u64, NoAlloc> {
        no()
    }
}
