//! Runtime types and values of the serde data model, and the driver that
//! pushes them through the crate's Serializer and Deserializer exactly as
//! derived code would.  Kinds and value shapes are those of spec/Wire.tla.

use serde::de::{self, DeserializeSeed, MapAccess, SeqAccess, Visitor};
use serde::ser::{
    SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple,
    SerializeTupleStruct, SerializeTupleVariant,
};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Unit, Bool, U8, U16, U32, U64, I8, I16, I32, I64, F32, F64, Char, Str, Bytes,
    Buint, Bint, Bdec, Date, Dt, Nbuint, Nbint, Nbdec, Ndate, Ndt,
    Opt, Seq, Map, Nt, Us, Tup, St, Ts, Tv, Sv, Enum,
    // only for C15: things the format cannot express
    U128, I128, SeqX, MapX, MapK,
}

pub const NAMES: &[(K, &str)] = &[
    (K::Unit, "unit"), (K::Bool, "bool"), (K::U8, "u8"), (K::U16, "u16"), (K::U32, "u32"),
    (K::U64, "u64"), (K::I8, "i8"), (K::I16, "i16"), (K::I32, "i32"), (K::I64, "i64"),
    (K::F32, "f32"), (K::F64, "f64"), (K::Char, "char"), (K::Str, "str"), (K::Bytes, "bytes"),
    (K::Buint, "buint"), (K::Bint, "bint"), (K::Bdec, "bdec"), (K::Date, "date"), (K::Dt, "dt"),
    (K::Nbuint, "nbuint"), (K::Nbint, "nbint"), (K::Nbdec, "nbdec"), (K::Ndate, "ndate"),
    (K::Ndt, "ndt"), (K::Opt, "opt"), (K::Seq, "seq"), (K::Map, "map"), (K::Nt, "nt"),
    (K::Us, "us"), (K::Tup, "tup"), (K::St, "st"), (K::Ts, "ts"), (K::Tv, "tv"), (K::Sv, "sv"),
    (K::Enum, "enum"), (K::U128, "u128"), (K::I128, "i128"), (K::SeqX, "seqx"),
    (K::MapX, "mapx"), (K::MapK, "mapk"),
];

impl K {
    pub fn name(self) -> &'static str {
        NAMES.iter().find(|(k, _)| *k == self).unwrap().1
    }
    pub fn of(name: &str) -> K {
        NAMES.iter().find(|(_, n)| *n == name).unwrap_or_else(|| panic!("kind {name}")).0
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ty {
    pub k: K,
    pub s: Vec<Ty>,
    pub n: usize,
}

pub fn leaf(k: K) -> Ty {
    Ty { k, s: vec![], n: 0 }
}
pub fn node(k: K, s: Vec<Ty>) -> Ty {
    Ty { k, s, n: 0 }
}

impl Ty {
    pub fn variants(&self) -> usize {
        self.s.len().max(self.n)
    }
    pub fn variant(&self, i: usize) -> Ty {
        if self.s.is_empty() { leaf(K::Unit) } else { self.s[i % self.s.len()].clone() }
    }
    pub fn min_width(&self) -> usize {
        match self.k {
            K::Unit | K::Us => 0,
            K::Nt => self.s[0].min_width(),
            K::Tup | K::St | K::Ts | K::Tv | K::Sv => self.s.iter().map(|t| t.min_width()).sum(),
            _ => 1,
        }
    }
    /// a sequence somewhere whose elements take no bytes
    pub fn has_zero_width_seq(&self) -> bool {
        (self.k == K::Seq && self.s[0].min_width() == 0)
            || self.s.iter().any(|t| t.has_zero_width_seq())
    }
    pub fn size(&self) -> usize {
        1 + self.s.iter().map(|t| t.size()).sum::<usize>()
    }
}

/// What a value is, in the shapes of Wire.tla.
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Unit,
    Bool(bool),
    /// integers and floats: little-endian bytes
    Raw(Vec<u8>),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Opt(Option<Box<Val>>),
    List(Vec<Val>),
    /// map entries; the key is a Str except under K::MapK
    Map(Vec<(Val, Val)>),
    Enum(u32, Box<Val>),
    /// canonical digits of a big integer
    Big(Vec<u8>),
    /// digits and scale of a decimal
    Dec(Vec<u8>, i64),
    /// year and day of the year, None when a decoded one is no date
    Date(Option<(i32, u16)>),
    /// seconds and nanoseconds, None when a decoded one is no instant
    Dt(Option<(i64, u32)>),
}

impl Val {
    pub fn raw<const N: usize>(b: [u8; N]) -> Val {
        Val::Raw(b.to_vec())
    }
    fn arr<const N: usize>(&self) -> [u8; N] {
        match self {
            Val::Raw(b) => b.as_slice().try_into().expect("width"),
            v => panic!("not raw: {v:?}"),
        }
    }
    pub fn list(&self) -> &[Val] {
        match self {
            Val::List(v) => v,
            v => panic!("not list: {v:?}"),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Val::Str(s) => 1 + s.len(),
            Val::Bytes(s) => 1 + s.len(),
            Val::Opt(Some(v)) => 1 + v.size(),
            Val::List(v) => 1 + v.iter().map(|x| x.size()).sum::<usize>(),
            Val::Map(v) => 1 + v.iter().map(|(k, x)| k.size() + x.size()).sum::<usize>(),
            Val::Enum(_, v) => 1 + v.size(),
            _ => 1,
        }
    }
}

// ---------------------------------------------------------------- big types

#[cfg(all(feature = "num-traits", feature = "num-bigint"))]
pub mod big {
    pub fn u(b: &[u8]) -> num_bigint::BigUint {
        num_bigint::BigUint::from_bytes_le(b)
    }
    pub fn i(b: &[u8]) -> num_bigint::BigInt {
        num_bigint::BigInt::from_signed_bytes_le(b)
    }
    pub fn canon_u(v: &num_bigint::BigUint) -> Vec<u8> {
        let mut b = v.to_bytes_le();
        while b.last() == Some(&0) {
            b.pop();
        }
        b
    }
    pub fn canon_i(v: &num_bigint::BigInt) -> Vec<u8> {
        let b = v.to_signed_bytes_le();
        if b.iter().all(|x| *x == 0) {
            vec![]
        } else {
            b
        }
    }
    #[cfg(feature = "bigdecimal")]
    pub fn d(b: &[u8], s: i64) -> bigdecimal::BigDecimal {
        bigdecimal::BigDecimal::new(i(b), s)
    }
    #[cfg(feature = "bigdecimal")]
    pub fn canon_d(v: &bigdecimal::BigDecimal) -> (Vec<u8>, i64) {
        let (i, s) = v.as_bigint_and_exponent();
        (canon_i(&i), s)
    }
}

#[cfg(feature = "time")]
pub mod tm {
    use std::convert::TryInto;
    pub fn date(y: i32, o: u16) -> time::Date {
        time::Date::from_ordinal_date(y, o).unwrap()
    }
    pub fn dt(s: i64, n: u32) -> time::OffsetDateTime {
        time::OffsetDateTime::from_unix_timestamp_nanos(s as i128 * 1_000_000_000 + n as i128).unwrap()
    }
    pub fn of_date(d: dlhn::Date) -> Option<(i32, u16)> {
        let r: Result<time::Date, ()> = d.try_into();
        r.ok().map(|d| (d.year(), d.ordinal()))
    }
    pub fn of_dt(d: dlhn::DateTime) -> Option<(i64, u32)> {
        let r: Result<time::OffsetDateTime, ()> = d.try_into();
        r.ok().map(|d| (d.unix_timestamp(), d.nanosecond()))
    }
}

// ---------------------------------------------------------------- serialize

fn names() -> &'static [&'static str] {
    use std::sync::OnceLock;
    static N: OnceLock<Vec<&'static str>> = OnceLock::new();
    N.get_or_init(|| {
        (0..70_000usize)
            .map(|i| -> &'static str { Box::leak(format!("n{i}").into_boxed_str()) })
            .collect()
    })
}
fn name(i: usize) -> &'static str {
    names().get(i).copied().unwrap_or("n")
}

thread_local!(static SIDE: std::cell::Cell<Option<fn()>> = const { std::cell::Cell::new(None) });
/// Runs the side job of this thread, unless it is what is running.
pub fn side() {
    if let Some(f) = SIDE.take() {
        f();
        SIDE.set(Some(f));
    }
}
/// `g` with `f` run in the middle of everything it writes and reads.
pub fn with_side<T>(f: fn(), g: impl FnOnce() -> T) -> T {
    SIDE.set(Some(f));
    let x = g();
    SIDE.set(None);
    x
}

pub struct TV<'a>(pub &'a Ty, pub &'a Val);

struct Raw<'a>(&'a [u8]);
impl Serialize for Raw<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(self.0)
    }
}

impl Serialize for TV<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let (t, v) = (self.0, self.1);
        side();
        match (t.k, v) {
            (K::Unit, _) => s.serialize_unit(),
            (K::Us, _) => s.serialize_unit_struct("U"),
            (K::Bool, Val::Bool(b)) => s.serialize_bool(*b),
            (K::U8, v) => s.serialize_u8(u8::from_le_bytes(v.arr())),
            (K::U16, v) => s.serialize_u16(u16::from_le_bytes(v.arr())),
            (K::U32, v) => s.serialize_u32(u32::from_le_bytes(v.arr())),
            (K::U64, v) => s.serialize_u64(u64::from_le_bytes(v.arr())),
            (K::U128, v) => s.serialize_u128(u128::from_le_bytes(v.arr())),
            (K::I8, v) => s.serialize_i8(i8::from_le_bytes(v.arr())),
            (K::I16, v) => s.serialize_i16(i16::from_le_bytes(v.arr())),
            (K::I32, v) => s.serialize_i32(i32::from_le_bytes(v.arr())),
            (K::I64, v) => s.serialize_i64(i64::from_le_bytes(v.arr())),
            (K::I128, v) => s.serialize_i128(i128::from_le_bytes(v.arr())),
            (K::F32, v) => s.serialize_f32(f32::from_le_bytes(v.arr())),
            (K::F64, v) => s.serialize_f64(f64::from_le_bytes(v.arr())),
            (K::Char, Val::Char(c)) => s.serialize_char(*c),
            (K::Str, Val::Str(x)) => s.serialize_str(x),
            (K::Bytes, Val::Bytes(x)) => Raw(x).serialize(s),
            (K::Opt, Val::Opt(None)) => s.serialize_none(),
            (K::Opt, Val::Opt(Some(x))) => s.serialize_some(&TV(&t.s[0], x)),
            (K::Seq | K::SeqX, Val::List(x)) => {
                let mut q = s.serialize_seq(if t.k == K::Seq { Some(x.len()) } else { None })?;
                for e in x {
                    q.serialize_element(&TV(&t.s[0], e))?;
                }
                q.end()
            }
            (K::Map | K::MapX | K::MapK, Val::Map(x)) => {
                let (kt, vt) = if t.k == K::MapK {
                    (t.s[1].clone(), &t.s[0])
                } else {
                    (leaf(K::Str), &t.s[0])
                };
                let mut q = s.serialize_map(if t.k == K::MapX { None } else { Some(x.len()) })?;
                for (i, (k, e)) in x.iter().enumerate() {
                    if i % 2 == 0 {
                        q.serialize_entry(&TV(&kt, k), &TV(vt, e))?;
                    } else {
                        q.serialize_key(&TV(&kt, k))?;
                        q.serialize_value(&TV(vt, e))?;
                    }
                }
                q.end()
            }
            (K::Nt, x) => s.serialize_newtype_struct("N", &TV(&t.s[0], x)),
            (K::Tup, Val::List(x)) => {
                let mut q = s.serialize_tuple(x.len())?;
                for (a, e) in t.s.iter().zip(x) {
                    q.serialize_element(&TV(a, e))?;
                }
                q.end()
            }
            (K::Ts, Val::List(x)) => {
                let mut q = s.serialize_tuple_struct("T", x.len())?;
                for (a, e) in t.s.iter().zip(x) {
                    q.serialize_field(&TV(a, e))?;
                }
                q.end()
            }
            (K::St, Val::List(x)) => {
                let mut q = s.serialize_struct("S", x.len())?;
                for (i, (a, e)) in t.s.iter().zip(x).enumerate() {
                    q.serialize_field(name(i), &TV(a, e))?;
                }
                q.end()
            }
            (K::Enum, Val::Enum(i, x)) => {
                let p = t.variant(*i as usize);
                let n = name(*i as usize);
                match p.k {
                    K::Unit => s.serialize_unit_variant("E", *i, n),
                    K::Tv => {
                        let x = x.list();
                        let mut q = s.serialize_tuple_variant("E", *i, n, x.len())?;
                        for (a, e) in p.s.iter().zip(x) {
                            q.serialize_field(&TV(a, e))?;
                        }
                        q.end()
                    }
                    K::Sv => {
                        let x = x.list();
                        let mut q = s.serialize_struct_variant("E", *i, n, x.len())?;
                        for (j, (a, e)) in p.s.iter().zip(x).enumerate() {
                            q.serialize_field(name(j), &TV(a, e))?;
                        }
                        q.end()
                    }
                    _ => s.serialize_newtype_variant("E", *i, n, &TV(&p, x)),
                }
            }
            #[cfg(all(feature = "num-traits", feature = "num-bigint"))]
            (K::Buint, Val::Big(b)) => dlhn::BigUint::from(big::u(b)).serialize(s),
            #[cfg(all(feature = "num-traits", feature = "num-bigint"))]
            (K::Bint, Val::Big(b)) => dlhn::BigInt::from(big::i(b)).serialize(s),
            #[cfg(all(feature = "num-traits", feature = "num-bigint"))]
            (K::Nbuint, Val::Big(b)) => dlhn::format::big_uint::serialize(&big::u(b), s),
            #[cfg(all(feature = "num-traits", feature = "num-bigint"))]
            (K::Nbint, Val::Big(b)) => dlhn::format::big_int::serialize(&big::i(b), s),
            #[cfg(all(feature = "num-traits", feature = "num-bigint", feature = "bigdecimal"))]
            (K::Bdec, Val::Dec(b, e)) => dlhn::BigDecimal::from(big::d(b, *e)).serialize(s),
            #[cfg(all(feature = "num-traits", feature = "num-bigint", feature = "bigdecimal"))]
            (K::Nbdec, Val::Dec(b, e)) => dlhn::format::big_decimal::serialize(&big::d(b, *e), s),
            #[cfg(feature = "time")]
            (K::Date, Val::Date(Some((y, o)))) => dlhn::Date::from(tm::date(*y, *o)).serialize(s),
            #[cfg(feature = "time")]
            (K::Ndate, Val::Date(Some((y, o)))) => dlhn::format::date::serialize(&tm::date(*y, *o), s),
            #[cfg(feature = "time")]
            (K::Dt, Val::Dt(Some((a, n)))) => dlhn::DateTime::from(tm::dt(*a, *n)).serialize(s),
            #[cfg(feature = "time")]
            (K::Ndt, Val::Dt(Some((a, n)))) => dlhn::format::date_time::serialize(&tm::dt(*a, *n), s),
            (k, v) => panic!("cannot serialize {k:?} {v:?}"),
        }
    }
}

// -------------------------------------------------------------- deserialize

pub struct Seed<'a>(pub &'a Ty);

impl<'de> DeserializeSeed<'de> for Seed<'_> {
    type Value = Val;

    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        let t = self.0;
        side();
        match t.k {
            K::Unit => <()>::deserialize(d).map(|_| Val::Unit),
            K::Us => d.deserialize_unit_struct("U", UnitV),
            K::Bool => bool::deserialize(d).map(Val::Bool),
            K::U8 => u8::deserialize(d).map(|v| Val::raw(v.to_le_bytes())),
            K::U16 => u16::deserialize(d).map(|v| Val::raw(v.to_le_bytes())),
            K::U32 => u32::deserialize(d).map(|v| Val::raw(v.to_le_bytes())),
            K::U64 => u64::deserialize(d).map(|v| Val::raw(v.to_le_bytes())),
            K::I8 => i8::deserialize(d).map(|v| Val::raw(v.to_le_bytes())),
            K::I16 => i16::deserialize(d).map(|v| Val::raw(v.to_le_bytes())),
            K::I32 => i32::deserialize(d).map(|v| Val::raw(v.to_le_bytes())),
            K::I64 => i64::deserialize(d).map(|v| Val::raw(v.to_le_bytes())),
            K::U128 => u128::deserialize(d).map(|v| Val::raw(v.to_le_bytes())),
            K::I128 => i128::deserialize(d).map(|v| Val::raw(v.to_le_bytes())),
            K::F32 => f32::deserialize(d).map(|v| Val::raw(v.to_le_bytes())),
            K::F64 => f64::deserialize(d).map(|v| Val::raw(v.to_le_bytes())),
            K::Char => char::deserialize(d).map(Val::Char),
            K::Str => String::deserialize(d).map(Val::Str),
            K::Bytes => serde_bytes::ByteBuf::deserialize(d).map(|v| Val::Bytes(v.into_vec())),
            K::Opt => d.deserialize_option(OptV(&t.s[0])),
            K::Seq | K::SeqX => d.deserialize_seq(SeqV(&t.s[0])),
            K::Map | K::MapX => d.deserialize_map(MapV(&t.s[0], leaf(K::Str))),
            K::MapK => d.deserialize_map(MapV(&t.s[0], t.s[1].clone())),
            K::Nt => d.deserialize_newtype_struct("N", NtV(&t.s[0])),
            K::Tup => d.deserialize_tuple(t.s.len(), ListV(&t.s)),
            K::Ts => d.deserialize_tuple_struct("T", t.s.len(), ListV(&t.s)),
            K::St => d.deserialize_struct("S", &names()[..t.s.len()], ListV(&t.s)),
            K::Enum => d.deserialize_enum("E", &names()[..t.variants().min(names().len())], EnumV(t)),
            #[cfg(all(feature = "num-traits", feature = "num-bigint"))]
            K::Buint => dlhn::BigUint::deserialize(d).map(|v| {
                let n: num_bigint::BigUint = v.into();
                Val::Big(big::canon_u(&n))
            }),
            #[cfg(all(feature = "num-traits", feature = "num-bigint"))]
            K::Bint => dlhn::BigInt::deserialize(d).map(|v| {
                let n: num_bigint::BigInt = v.into();
                Val::Big(big::canon_i(&n))
            }),
            #[cfg(all(feature = "num-traits", feature = "num-bigint"))]
            K::Nbuint => dlhn::format::big_uint::deserialize(d).map(|n| Val::Big(big::canon_u(&n))),
            #[cfg(all(feature = "num-traits", feature = "num-bigint"))]
            K::Nbint => dlhn::format::big_int::deserialize(d).map(|n| Val::Big(big::canon_i(&n))),
            #[cfg(all(feature = "num-traits", feature = "num-bigint", feature = "bigdecimal"))]
            K::Bdec => dlhn::BigDecimal::deserialize(d).map(|v| {
                let n: bigdecimal::BigDecimal = v.into();
                let (b, e) = big::canon_d(&n);
                Val::Dec(b, e)
            }),
            #[cfg(all(feature = "num-traits", feature = "num-bigint", feature = "bigdecimal"))]
            K::Nbdec => dlhn::format::big_decimal::deserialize(d).map(|n| {
                let (b, e) = big::canon_d(&n);
                Val::Dec(b, e)
            }),
            #[cfg(feature = "time")]
            K::Date => dlhn::Date::deserialize(d).map(|v| Val::Date(tm::of_date(v))),
            #[cfg(feature = "time")]
            K::Ndate => dlhn::format::date::deserialize(d).map(|v| Val::Date(Some((v.year(), v.ordinal())))),
            #[cfg(feature = "time")]
            K::Dt => dlhn::DateTime::deserialize(d).map(|v| Val::Dt(tm::of_dt(v))),
            #[cfg(feature = "time")]
            K::Ndt => dlhn::format::date_time::deserialize(d)
                .map(|v| Val::Dt(Some((v.unix_timestamp(), v.nanosecond())))),
            k => panic!("cannot deserialize {k:?}"),
        }
    }
}

macro_rules! expecting {
    () => {
        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("a value of the requested type")
        }
    };
}

struct UnitV;
impl<'de> Visitor<'de> for UnitV {
    type Value = Val;
    expecting!();
    fn visit_unit<E>(self) -> Result<Val, E> {
        Ok(Val::Unit)
    }
}

struct OptV<'a>(&'a Ty);
impl<'de> Visitor<'de> for OptV<'_> {
    type Value = Val;
    expecting!();
    fn visit_none<E>(self) -> Result<Val, E> {
        Ok(Val::Opt(None))
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Ok(Val::Opt(Some(Box::new(Seed(self.0).deserialize(d)?))))
    }
}

struct SeqV<'a>(&'a Ty);
impl<'de> Visitor<'de> for SeqV<'_> {
    type Value = Val;
    expecting!();
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        // as Vec's own visitor does: trust a size hint up to 1 MiB
        let hint = a.size_hint().unwrap_or(0).min(1024 * 1024 / std::mem::size_of::<Val>());
        let mut v = Vec::with_capacity(hint);
        while let Some(x) = a.next_element_seed(Seed(self.0))? {
            v.push(x);
        }
        Ok(Val::List(v))
    }
}

struct MapV<'a>(&'a Ty, Ty);
impl<'de> Visitor<'de> for MapV<'_> {
    type Value = Val;
    expecting!();
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = Vec::new();
        while let Some(k) = a.next_key_seed(Seed(&self.1))? {
            let x = a.next_value_seed(Seed(self.0))?;
            v.push((k, x));
        }
        Ok(Val::Map(v))
    }
}

struct NtV<'a>(&'a Ty);
impl<'de> Visitor<'de> for NtV<'_> {
    type Value = Val;
    expecting!();
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Seed(self.0).deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        a.next_element_seed(Seed(self.0))?.ok_or_else(|| de::Error::invalid_length(0, &self))
    }
}

/// tuples and structs, from a sequence or from named fields
struct ListV<'a>(&'a [Ty]);
struct FieldName;
impl<'de> DeserializeSeed<'de> for FieldName {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = String;
            expecting!();
            fn visit_str<E>(self, s: &str) -> Result<String, E> {
                Ok(s.to_string())
            }
        }
        d.deserialize_identifier(V)
    }
}
impl<'de> Visitor<'de> for ListV<'_> {
    type Value = Val;
    expecting!();
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = Vec::new();
        for (i, t) in self.0.iter().enumerate() {
            v.push(
                a.next_element_seed(Seed(t))?
                    .ok_or_else(|| de::Error::invalid_length(i, &"more elements"))?,
            );
        }
        Ok(Val::List(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        // as derived code: fields are told apart by the key the format reports
        let mut v: Vec<Option<Val>> = vec![None; self.0.len()];
        while let Some(k) = a.next_key_seed(FieldName)? {
            let i: usize = k[1..].parse().map_err(|_| de::Error::custom("field"))?;
            if i >= v.len() || v[i].is_some() {
                return Err(de::Error::custom("unknown or duplicate field"));
            }
            v[i] = Some(a.next_value_seed(Seed(&self.0[i]))?);
        }
        v.into_iter()
            .map(|x| x.ok_or_else(|| de::Error::custom("missing field")))
            .collect::<Result<_, _>>()
            .map(Val::List)
    }
}

struct EnumV<'a>(&'a Ty);
struct Ident(usize);
impl<'de> DeserializeSeed<'de> for Ident {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> {
        struct V(usize);
        impl<'de> Visitor<'de> for V {
            type Value = usize;
            expecting!();
            fn visit_u64<E: de::Error>(self, v: u64) -> Result<usize, E> {
                if v < self.0 as u64 {
                    Ok(v as usize)
                } else {
                    Err(E::invalid_value(de::Unexpected::Unsigned(v), &"variant index"))
                }
            }
        }
        d.deserialize_identifier(V(self.0))
    }
}
impl<'de> Visitor<'de> for EnumV<'_> {
    type Value = Val;
    expecting!();
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        use de::VariantAccess;
        let (i, va) = a.variant_seed(Ident(self.0.variants()))?;
        let p = self.0.variant(i);
        let v = match p.k {
            K::Unit => {
                va.unit_variant()?;
                Val::Unit
            }
            K::Tv => va.tuple_variant(p.s.len(), ListV(&p.s))?,
            K::Sv => va.struct_variant(&names()[..p.s.len()], ListV(&p.s))?,
            _ => va.newtype_variant_seed(Seed(&p))?,
        };
        Ok(Val::Enum(i as u32, Box::new(v)))
    }
}

// --------------------------------------------------------------------- json

pub fn jbytes(b: &[u8], o: &mut String) {
    o.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        if *x >= 100 {
            o.push((b'0' + x / 100) as char);
        }
        if *x >= 10 {
            o.push((b'0' + x / 10 % 10) as char);
        }
        o.push((b'0' + x % 10) as char);
    }
    o.push(']');
}

pub fn jty(t: &Ty, o: &mut String) {
    o.push_str("{\"k\":\"");
    o.push_str(t.k.name());
    o.push_str("\",\"s\":[");
    for (i, x) in t.s.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        jty(x, o);
    }
    o.push_str(&format!("],\"n\":{}}}", t.n));
}

pub fn jval(v: &Val, o: &mut String) {
    match v {
        Val::Unit => o.push_str("[]"),
        Val::Bool(b) => o.push(if *b { '1' } else { '0' }),
        Val::Raw(b) | Val::Bytes(b) | Val::Big(b) => jbytes(b, o),
        Val::Char(c) => o.push_str(&(*c as u32).to_string()),
        Val::Str(s) => jbytes(s.as_bytes(), o),
        Val::Opt(None) => o.push_str("[]"),
        Val::Opt(Some(x)) => {
            o.push('[');
            jval(x, o);
            o.push(']');
        }
        Val::List(x) => {
            o.push('[');
            for (i, e) in x.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                jval(e, o);
            }
            o.push(']');
        }
        Val::Map(x) => {
            o.push('[');
            for (i, (k, e)) in x.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                o.push('[');
                jval(k, o);
                o.push(',');
                jval(e, o);
                o.push(']');
            }
            o.push(']');
        }
        Val::Enum(i, x) => {
            o.push('[');
            jbytes(&i.to_le_bytes(), o);
            o.push(',');
            jval(x, o);
            o.push(']');
        }
        Val::Dec(b, s) => {
            o.push('[');
            jbytes(b, o);
            o.push(',');
            jbytes(&s.to_le_bytes(), o);
            o.push(']');
        }
        Val::Date(None) | Val::Dt(None) => o.push_str("[]"),
        Val::Date(Some((y, d))) => o.push_str(&format!("[{y},{d}]")),
        Val::Dt(Some((s, n))) => {
            o.push('[');
            jbytes(&s.to_le_bytes(), o);
            o.push(',');
            jbytes(&n.to_le_bytes(), o);
            o.push(']');
        }
    }
}

/// Reads a type and a value back from JSON (cases written by TLC).
pub fn ty_of(j: &serde_json::Value) -> Ty {
    Ty {
        k: K::of(j["k"].as_str().unwrap()),
        s: j["s"].as_array().map(|a| a.iter().map(ty_of).collect()).unwrap_or_default(),
        n: j["n"].as_u64().unwrap_or(0) as usize,
    }
}

pub fn bytes_of(j: &serde_json::Value) -> Vec<u8> {
    j.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default()
}

pub fn val_of(t: &Ty, j: &serde_json::Value) -> Val {
    let arr = || j.as_array().cloned().unwrap_or_default();
    match t.k {
        K::Unit | K::Us => Val::Unit,
        K::Bool => Val::Bool(j.as_u64() == Some(1)),
        K::Char => Val::Char(char::from_u32(j.as_u64().unwrap() as u32).unwrap()),
        K::Str => Val::Str(String::from_utf8(bytes_of(j)).unwrap()),
        K::Bytes => Val::Bytes(bytes_of(j)),
        K::Opt => Val::Opt(arr().first().map(|x| Box::new(val_of(&t.s[0], x)))),
        K::Seq | K::SeqX => Val::List(arr().iter().map(|x| val_of(&t.s[0], x)).collect()),
        K::Map | K::MapX => Val::Map(
            arr().iter().map(|e| (val_of(&leaf(K::Str), &e[0]), val_of(&t.s[0], &e[1]))).collect(),
        ),
        K::MapK => Val::Map(
            arr().iter().map(|e| (val_of(&t.s[1], &e[0]), val_of(&t.s[0], &e[1]))).collect(),
        ),
        K::Nt => val_of(&t.s[0], j),
        K::Tup | K::St | K::Ts | K::Tv | K::Sv => {
            Val::List(arr().iter().zip(&t.s).map(|(x, t)| val_of(t, x)).collect())
        }
        K::Enum => {
            let b = bytes_of(&j[0]);
            let i = u32::from_le_bytes(b.as_slice().try_into().unwrap());
            Val::Enum(i, Box::new(val_of(&t.variant(i as usize), &j[1])))
        }
        K::Buint | K::Bint | K::Nbuint | K::Nbint => Val::Big(bytes_of(j)),
        K::Bdec | K::Nbdec => Val::Dec(
            bytes_of(&j[0]),
            i64::from_le_bytes(bytes_of(&j[1]).as_slice().try_into().unwrap()),
        ),
        K::Date | K::Ndate => Val::Date(Some((
            j[0].as_i64().unwrap() as i32,
            j[1].as_u64().unwrap() as u16,
        ))),
        K::Dt | K::Ndt => Val::Dt(Some((
            i64::from_le_bytes(bytes_of(&j[0]).as_slice().try_into().unwrap()),
            u32::from_le_bytes(bytes_of(&j[1]).as_slice().try_into().unwrap()),
        ))),
        _ => Val::Raw(bytes_of(j)),
    }
}
