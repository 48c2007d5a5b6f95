//! Real Rust types: their static headers, their bytes, and types the format
//! cannot decode.
use crate::ctx::Ctx;
use crate::dynamic::*;
use crate::gen::*;
use crate::io::*;
use crate::suites::*;
use crate::ty::*;
use dlhn::{DeserializeHeader, Deserializer, SerializeHeader, Serializer};
use serde::de::{Deserialize, DeserializeOwned, Visitor};
use serde::Serialize;
use serde_bytes::ByteBuf;
use std::collections::{BTreeMap, HashMap};

pub fn run(c: &mut Ctx, suite: &str, r: &mut Rng, n: usize) {
    match suite {
        "stat" => stat(c, r, n),
        "std" => std_types(c, r, n),
        _ => any(c, r, n),
    }
}

/// a type and the model's name for it
pub trait M {
    fn t() -> Ty;
}
macro_rules! leaf_m { ($($t:ty => $k:ident),* $(,)?) => { $( impl M for $t { fn t() -> Ty { leaf(K::$k) } } )* } }
leaf_m! { () => Unit, bool => Bool, u8 => U8, u16 => U16, u32 => U32, u64 => U64, i8 => I8, i16 => I16,
    i32 => I32, i64 => I64, f32 => F32, f64 => F64, String => Str, ByteBuf => Bytes,
    dlhn::BigUint => Buint, dlhn::BigInt => Bint, dlhn::BigDecimal => Bdec, dlhn::Date => Date, dlhn::DateTime => Dt,
    char => Char }
impl<T: M> M for Option<T> {
    fn t() -> Ty {
        node(K::Opt, vec![T::t()])
    }
}
impl<T: M> M for Vec<T> {
    fn t() -> Ty {
        node(K::Seq, vec![T::t()])
    }
}
impl<T: M> M for BTreeMap<String, T> {
    fn t() -> Ty {
        node(K::Map, vec![T::t()])
    }
}
impl<T: M> M for HashMap<String, T> {
    fn t() -> Ty {
        node(K::Map, vec![T::t()])
    }
}
macro_rules! alias_m { ($($t:ty => $k:ident),* $(,)?) => { $( impl M for $t { fn t() -> Ty { leaf(K::$k) } } )* } }
alias_m! { &'static str => Str, num_bigint::BigUint => Buint, num_bigint::BigInt => Bint, bigdecimal::BigDecimal => Bdec,
    time::Date => Date, time::OffsetDateTime => Dt }
impl<T: M> M for BTreeMap<&'static str, T> {
    fn t() -> Ty {
        node(K::Map, vec![T::t()])
    }
}
impl<T: M> M for HashMap<&'static str, T> {
    fn t() -> Ty {
        node(K::Map, vec![T::t()])
    }
}
impl<T: M> M for Box<T> {
    fn t() -> Ty {
        T::t()
    }
}
impl<T: M> M for std::sync::Arc<T> {
    fn t() -> Ty {
        T::t()
    }
}
impl<T: M, E: M> M for Result<T, E> {
    fn t() -> Ty {
        node(K::Enum, vec![T::t(), E::t()])
    }
}
impl<T: M, const N: usize> M for [T; N] {
    fn t() -> Ty {
        node(K::Tup, vec![T::t(); N])
    }
}
macro_rules! tup_m { ($($($n:ident)+;)*) => { $( impl<$($n: M),+> M for ($($n,)+) { fn t() -> Ty { node(K::Tup, vec![$($n::t()),+]) } } )* } }
tup_m! { A; A B; A B C; A B C D; A B C D E; A B C D E F; A B C D E F G; A B C D E F G H; A B C D E F G H I;
    A B C D E F G H I J; A B C D E F G H I J L; A B C D E F G H I J L N; A B C D E F G H I J L N O;
    A B C D E F G H I J L N O P; A B C D E F G H I J L N O P Q; A B C D E F G H I J L N O P Q S; }
impl M for std::time::Duration {
    fn t() -> Ty {
        node(K::St, vec![leaf(K::U64), leaf(K::U32)])
    }
}
impl M for std::ops::Range<u16> {
    fn t() -> Ty {
        node(K::St, vec![leaf(K::U16), leaf(K::U16)])
    }
}
impl M for std::ops::Bound<i16> {
    fn t() -> Ty {
        node(K::Enum, vec![leaf(K::Unit), leaf(K::I16), leaf(K::I16)])
    }
}
impl M for std::net::Ipv4Addr {
    fn t() -> Ty {
        node(K::Tup, vec![leaf(K::U8); 4])
    }
}
impl M for std::net::IpAddr {
    fn t() -> Ty {
        node(K::Enum, vec![node(K::Tup, vec![leaf(K::U8); 4]), node(K::Tup, vec![leaf(K::U8); 16])])
    }
}
impl M for std::net::Ipv6Addr {
    fn t() -> Ty {
        node(K::Tup, vec![leaf(K::U8); 16])
    }
}
impl M for std::net::SocketAddrV4 {
    fn t() -> Ty {
        node(K::Tup, vec![<std::net::Ipv4Addr as M>::t(), leaf(K::U16)])
    }
}
impl M for std::net::SocketAddrV6 {
    fn t() -> Ty {
        node(K::Tup, vec![<std::net::Ipv6Addr as M>::t(), leaf(K::U16)])
    }
}
impl M for std::net::SocketAddr {
    fn t() -> Ty {
        node(K::Enum, vec![<std::net::SocketAddrV4 as M>::t(), <std::net::SocketAddrV6 as M>::t()])
    }
}
impl<T: M> M for std::marker::PhantomData<T> {
    fn t() -> Ty {
        leaf(K::Us)
    }
}
macro_rules! same_m { ($($w:ty),* $(,)?) => { $( impl<T: M> M for $w { fn t() -> Ty { T::t() } } )* } }
same_m! { std::rc::Rc<T>, std::cell::RefCell<T>, std::sync::Mutex<T>, std::sync::RwLock<T>, std::cmp::Reverse<T> }
macro_rules! seq_m { ($($w:ty),* $(,)?) => { $( impl<T: M> M for $w { fn t() -> Ty { node(K::Seq, vec![T::t()]) } } )* } }
seq_m! { std::collections::LinkedList<T>, Box<[T]>, std::sync::Arc<[T]> }
macro_rules! also_m { ($($w:ty = $t:ty),* $(,)?) => { $( impl M for $w { fn t() -> Ty { <$t as M>::t() } } )* } }
also_m! { Box<str> = String, std::rc::Rc<str> = String, std::sync::atomic::AtomicI16 = i16, std::sync::atomic::AtomicBool = bool,
    usize = u64, isize = i64, std::num::Saturating<u64> = u64, std::ffi::CString = ByteBuf, std::num::NonZeroU16 = u16,
    std::num::NonZeroI64 = i64 }
impl<T: M> M for std::ops::RangeInclusive<T> {
    fn t() -> Ty {
        node(K::St, vec![T::t(), T::t()])
    }
}
impl M for std::time::SystemTime {
    fn t() -> Ty {
        node(K::St, vec![leaf(K::U64), leaf(K::U32)])
    }
}
impl M for std::ffi::OsString {
    fn t() -> Ty {
        node(K::Enum, vec![node(K::Seq, vec![leaf(K::U8)])])
    }
}
impl M for std::num::Wrapping<i32> {
    fn t() -> Ty {
        leaf(K::I32)
    }
}
impl M for std::path::PathBuf {
    fn t() -> Ty {
        leaf(K::Str)
    }
}
impl M for std::collections::VecDeque<u32> {
    fn t() -> Ty {
        node(K::Seq, vec![leaf(K::U32)])
    }
}
impl M for std::borrow::Cow<'static, str> {
    fn t() -> Ty {
        leaf(K::Str)
    }
}
impl M for std::cell::Cell<u64> {
    fn t() -> Ty {
        leaf(K::U64)
    }
}

fn header_bytes<T: SerializeHeader + ?Sized>() -> String {
    let mut b = Vec::new();
    match T::serialize_header(&mut b) {
        Ok(()) => jb(&b),
        Err(_) => "[255]".into(),
    }
}

/// the static header, and a value through the real type
fn one_stat<T: M + SerializeHeader + Serialize + DeserializeOwned>(c: &mut Ctx, r: &mut Rng, n: usize) {
    let t = T::t();
    for i in 0..n {
        let v = val(r, &t, true, false);
        if v.size() > 900 {
            continue;
        }
        c.op(format!("\"o\":\"stat\",\"t\":{},\"v\":{}", jt(&t), jv(&v)), || {
            let mut o = format!(",\"hb\":{}", header_bytes::<T>());
            let mut hb = Vec::new();
            let _ = T::serialize_header(&mut hb);
            let parsed = (&mut hb.as_slice()).deserialize_header();
            // the encoding of the corresponding header value
            if let Ok(h) = &parsed {
                o += &format!(",\"h2\":{}", jb(&hser(h).unwrap_or_default()));
            } else {
                o += ",\"h2\":[]";
            }
            let Some(b) = ser(&t, &v) else { return o + ",\"s\":0" };
            let mut src = b.as_slice();
            let x = T::deserialize(&mut Deserializer::new(&mut src));
            let left = src.len();
            let Ok(x) = x else { return o + ",\"s\":1,\"d\":0" };
            let mut b2 = Vec::new();
            let ok = x.serialize(&mut Serializer::new(&mut b2)).is_ok();
            o += &format!(",\"s\":1,\"d\":1,\"left\":{left},\"ok\":{},\"b\":{}", ok as u8, jb(&b2));
            if let Ok(h) = parsed {
                let mut d = b2.clone();
                d.extend([1, 2]);
                match bde(&h, &d) {
                    (Some(y), n) => o += &format!(",\"r\":1,\"y\":{},\"n\":{n}", jy(&y)),
                    _ => o += ",\"r\":0",
                }
            } else {
                o += ",\"r\":0";
            }
            o
        });
        if i == 0 && t.size() == 1 && v == Val::Unit {
            break;
        }
    }
}

/// types that are only written, or only have a header
fn only<T: SerializeHeader + ?Sized>(c: &mut Vec<Static>, t: Ty) {
    fn write<T: SerializeHeader + ?Sized>(mut w: &mut dyn std::io::Write) -> bool {
        T::serialize_header(&mut w).is_ok()
    }
    c.push((t, write::<T>));
}
/// a type's own header, as the model names it, and what writes it
pub type Static = (Ty, fn(&mut dyn std::io::Write) -> bool);

fn stat(c: &mut Ctx, r: &mut Rng, n: usize) {
    macro_rules! go { ($($t:ty),* $(,)?) => { $( one_stat::<$t>(c, r, n); )* } }
    go! { (), bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, String, ByteBuf, dlhn::BigUint, dlhn::BigInt,
        dlhn::BigDecimal, dlhn::Date, dlhn::DateTime }
    go! { Option<()>, Option<bool>, Option<Option<u16>>, Option<Vec<String>>, Vec<()>, Vec<u8>, Vec<Vec<i32>>,
        Vec<Option<ByteBuf>>, BTreeMap<String, u8>, BTreeMap<String, Vec<Option<i64>>>, Vec<BTreeMap<String, dlhn::Date>>,
        BTreeMap<String, BTreeMap<String, ()>>, Option<dlhn::BigDecimal>, Vec<dlhn::DateTime>, Vec<(u8, String)>,
        Option<(bool, Option<f32>)>, BTreeMap<String, (u16, ByteBuf)> }
    go! { (u8,), (u8, u16), (u8, u16, u32), (u8, u16, u32, u64), (u8, u16, u32, u64, i8), (u8, u16, u32, u64, i8, i16),
        (u8, u16, u32, u64, i8, i16, i32), (u8, u16, u32, u64, i8, i16, i32, i64),
        (u8, u16, u32, u64, i8, i16, i32, i64, f32), (u8, u16, u32, u64, i8, i16, i32, i64, f32, f64),
        (u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, bool), (u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, bool, String),
        (u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, bool, String, ByteBuf),
        (u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, bool, String, ByteBuf, ()),
        (u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, bool, String, ByteBuf, (), Option<u8>),
        (u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, bool, String, ByteBuf, (), Option<u8>, Vec<u16>) }
    go! { ((u8, u16), (String,)), (((bool,),),), ((), (), ()), Vec<((), u8)>,
        (dlhn::Date, dlhn::DateTime, dlhn::BigInt, dlhn::BigUint, dlhn::BigDecimal) }
    for (t, write) in statics().into_iter().chain(nested()) {
        c.op(format!("\"o\":\"head\",\"t\":{}", jt(&t)), || {
            let mut b = Vec::new();
            format!(",\"hb\":{}", if write(&mut b) { jb(&b) } else { "[255]".into() })
        });
    }
}

/// every nesting of three containers, and of four of the most common
fn nested() -> Vec<Static> {
    fn head<T: M + SerializeHeader>(c: &mut Vec<Static>) {
        only::<T>(c, T::t());
    }
    macro_rules! six { ($n:ident, $f:ident) => {
        fn $n<T: M + SerializeHeader>(c: &mut Vec<Static>) {
            $f::<Option<T>>(c);
            $f::<Vec<T>>(c);
            $f::<BTreeMap<String, T>>(c);
            $f::<HashMap<String, T>>(c);
            $f::<(T,)>(c);
            $f::<(T, u8)>(c);
        }
    } }
    macro_rules! four { ($n:ident, $f:ident) => {
        fn $n<T: M + SerializeHeader>(c: &mut Vec<Static>) {
            $f::<Option<T>>(c);
            $f::<Vec<T>>(c);
            $f::<BTreeMap<String, T>>(c);
            $f::<(T, T)>(c);
        }
    } }
    six!(six1, head);
    six!(six2, six1);
    six!(six3, six2);
    four!(four1, head);
    four!(four2, four1);
    four!(four3, four2);
    four!(four4, four3);
    let mut list = vec![];
    six3::<bool>(&mut list);
    six3::<()>(&mut list);
    four4::<u8>(&mut list);
    list
}

pub fn statics() -> Vec<Static> {
    let mut list = vec![];
    let c = &mut list;
    // every container around everything, and around every container
    fn head<T: M + SerializeHeader>(c: &mut Vec<Static>) {
        only::<T>(c, T::t());
    }
    fn ring<T: M + SerializeHeader>(c: &mut Vec<Static>) {
        head::<T>(c);
        head::<Option<T>>(c);
        head::<Vec<T>>(c);
        head::<BTreeMap<String, T>>(c);
        head::<BTreeMap<&'static str, T>>(c);
        head::<HashMap<String, T>>(c);
        head::<HashMap<&'static str, T>>(c);
        head::<(T,)>(c);
        head::<(u8, T)>(c);
        head::<(T, String, T)>(c);
    }
    fn around<T: M + SerializeHeader>(c: &mut Vec<Static>) {
        head::<T>(c);
        head::<Option<T>>(c);
        head::<Vec<T>>(c);
        head::<BTreeMap<String, T>>(c);
        head::<HashMap<String, T>>(c);
        head::<(bool, T)>(c);
    }
    fn rings<T: M + SerializeHeader>(c: &mut Vec<Static>) {
        ring::<Option<T>>(c);
        ring::<Vec<T>>(c);
        ring::<BTreeMap<String, T>>(c);
        ring::<HashMap<String, T>>(c);
        ring::<(T,)>(c);
        ring::<(T, T)>(c);
    }
    macro_rules! heads { ($f:ident: $($t:ty),* $(,)?) => { $( $f::<$t>(c); )* } }
    heads! { ring: (), bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, String, &'static str, ByteBuf, dlhn::BigUint, dlhn::BigInt,
        dlhn::BigDecimal, dlhn::Date, dlhn::DateTime, num_bigint::BigUint, num_bigint::BigInt, bigdecimal::BigDecimal, time::Date,
        time::OffsetDateTime }
    heads! { rings: (), u8, String, ByteBuf, dlhn::BigDecimal, time::OffsetDateTime }
    // a tuple of each length with the odd one out at each end
    macro_rules! arity { ($($n:ident)*; $($u:ident)*) => { head::<($($n,)* bool,)>(c); head::<(bool, $($n,)*)>(c); head::<($($u,)* (),)>(c); } }
    type U = ();
    type I = i16;
    arity! { I; U }
    arity! { I I; U U }
    arity! { I I I; U U U }
    arity! { I I I I; U U U U }
    arity! { I I I I I; U U U U U }
    arity! { I I I I I I; U U U U U U }
    arity! { I I I I I I I; U U U U U U U }
    arity! { I I I I I I I I; U U U U U U U U }
    arity! { I I I I I I I I I; U U U U U U U U U }
    arity! { I I I I I I I I I I; U U U U U U U U U U }
    arity! { I I I I I I I I I I I; U U U U U U U U U U U }
    arity! { I I I I I I I I I I I I; U U U U U U U U U U U U }
    arity! { I I I I I I I I I I I I I; U U U U U U U U U U U U U }
    arity! { I I I I I I I I I I I I I I; U U U U U U U U U U U U U U }
    arity! { I I I I I I I I I I I I I I I; U U U U U U U U U U U U U U U }
    // tuples of every length with elements whose headers differ in length
    macro_rules! prefixes {
        ([$($d:ty,)*]) => {};
        ([$($d:ty,)*] $h:ty, $($t:ty,)*) => { around::<($($d,)* $h,)>(c); prefixes!([$($d,)* $h,] $($t,)*); };
    }
    type A = Vec<u16>;
    type B = Option<Vec<(bool, i8)>>;
    type C = (u32, BTreeMap<String, f32>, ());
    prefixes!([] u8, A, U, B, String, C, bool, Option<u64>, A, i64, C, B, u8, A, U, B,);
    prefixes!([] A, U, B, String, C, bool, Option<u64>, A, i64, C, B, u8, A, U, B, u8,);
    prefixes!([] C, B, A, U, C, B, A, U, C, B, A, U, C, B, A, U,);
    prefixes!([] U, A, B, C, U, A, B, C, U, A, B, C, U, A, B, C,);
    prefixes!([] B, C, U, A, B, C, U, A, B, C, U, A, B, C, U, A,);
    let one = |k, t| node(k, vec![t]);
    only::<&str>(c, leaf(K::Str));
    only::<serde_bytes::Bytes>(c, leaf(K::Bytes));
    only::<num_bigint::BigUint>(c, leaf(K::Buint));
    only::<num_bigint::BigInt>(c, leaf(K::Bint));
    only::<bigdecimal::BigDecimal>(c, leaf(K::Bdec));
    only::<time::Date>(c, leaf(K::Date));
    only::<time::OffsetDateTime>(c, leaf(K::Dt));
    only::<BTreeMap<&str, u8>>(c, one(K::Map, leaf(K::U8)));
    only::<HashMap<&str, i8>>(c, one(K::Map, leaf(K::I8)));
    only::<HashMap<String, Option<time::Date>>>(c, one(K::Map, one(K::Opt, leaf(K::Date))));
    only::<Vec<Vec<Vec<Vec<&str>>>>>(c, one(K::Seq, one(K::Seq, one(K::Seq, one(K::Seq, leaf(K::Str))))));
    only::<Option<Vec<HashMap<String, (num_bigint::BigInt, time::OffsetDateTime)>>>>(
        c,
        one(K::Opt, one(K::Seq, one(K::Map, node(K::Tup, vec![leaf(K::Bint), leaf(K::Dt)])))),
    );
    type T16<T> = (T, T, T, T, T, T, T, T, T, T, T, T, T, T, T, T);
    only::<T16<T16<u8>>>(c, node(K::Tup, vec![node(K::Tup, vec![leaf(K::U8); 16]); 16]));
    list
}

/// real types against the generic driver: canonical bytes in, the same out
fn std_types(c: &mut Ctx, r: &mut Rng, n: usize) {
    collected(c, r, 70 + n / 4);
    fn go<T: M + Serialize + DeserializeOwned>(c: &mut Ctx, r: &mut Rng, n: usize) {
        let t = T::t();
        for _ in 0..n {
            let v = val(r, &t, true, false);
            one_std::<T>(c, &t, &v);
        }
    }
    macro_rules! all { ($($t:ty),* $(,)?) => { $( go::<$t>(c, r, n); )* } }
    all! { Result<u8, String>, Result<(), i64>, Box<u32>, std::sync::Arc<String>, [u16; 0], [u16; 5], [u8; 32], [i64; 3], [Option<bool>; 2],
        std::ops::Range<u16>, std::ops::Bound<i16>, std::net::Ipv4Addr, std::net::IpAddr, std::num::Wrapping<i32>,
        std::collections::VecDeque<u32>, std::borrow::Cow<'static, str>, std::cell::Cell<u64>, char, Option<char>, Vec<char>,
        std::net::Ipv6Addr, std::net::SocketAddrV4, std::marker::PhantomData<u8>,
        std::rc::Rc<String>, std::cell::RefCell<i8>, std::sync::Mutex<Option<u8>>, std::sync::RwLock<char>, std::cmp::Reverse<u32>,
        std::collections::LinkedList<String>, Box<[i32]>, std::sync::Arc<[bool]>, Box<str>, std::rc::Rc<str>,
        std::sync::atomic::AtomicI16, std::sync::atomic::AtomicBool, usize, isize, std::num::Saturating<u64>,
        std::ops::RangeInclusive<i8>, std::ffi::OsString, Vec<std::marker::PhantomData<u8>>,
        Option<std::net::Ipv4Addr>, Vec<std::net::IpAddr>, BTreeMap<String, std::net::Ipv4Addr>, (std::net::IpAddr, u8, std::net::Ipv6Addr),
        Result<std::net::Ipv4Addr, std::net::Ipv6Addr>, Box<std::net::Ipv4Addr>, BTreeMap<String, Vec<Option<std::net::SocketAddrV4>>>,
        Vec<String>, BTreeMap<String, u16>, Option<Box<(u8, f64)>>, Vec<ByteBuf>, Vec<f32>, (char, bool, i16) }
    // durations carry their nanoseconds, so only small ones are values
    for _ in 0..n {
        let t = <std::time::Duration as M>::t();
        let v = Val::List(vec![Val::raw((int_bits(r, 64) >> 1).to_le_bytes()), Val::raw((r.below(1_000_000_000) as u32).to_le_bytes())]);
        one_std::<std::time::Duration>(c, &t, &v);
    }
    for i in 0..n {
        // seconds since 1970; values these types do not have are left out
        let t = <std::time::SystemTime as M>::t();
        let v = Val::List(vec![Val::raw((int_bits(r, 64) >> 2).to_le_bytes()), Val::raw((r.below(1_000_000_000) as u32).to_le_bytes())]);
        one_std::<std::time::SystemTime>(c, &t, &v);
        let b = (0..r.below(300)).map(|_| 1 + r.below(255) as u8).collect();
        one_std::<std::ffi::CString>(c, &leaf(K::Bytes), &Val::Bytes(b));
        let k = int_bits(r, 64).max(1);
        one_std::<std::num::NonZeroI64>(c, &leaf(K::I64), &Val::raw(k.to_le_bytes()));
        one_std::<std::num::NonZeroU16>(c, &leaf(K::U16), &Val::raw((i as u16 % 500 + 1).to_le_bytes()));
        // the scope and flow of an address are not written, so v6 only from here
        let t = <std::net::SocketAddr as M>::t();
        one_std::<std::net::SocketAddr>(c, &t, &val(r, &t, true, false));
    }
    for s in ["", "/a/b", "x y"] {
        one_std::<std::path::PathBuf>(c, &leaf(K::Str), &Val::Str(s.into()));
    }
    let t = node(K::Map, vec![leaf(K::I8)]);
    for k in ["", "k", "日本"] {
        one_std::<HashMap<String, i8>>(c, &t, &Val::Map(vec![(Val::Str(k.into()), Val::raw([7]))]));
    }
    one_std::<HashMap<String, i8>>(c, &t, &Val::Map(vec![]));
}

fn placed<T: M + Serialize + DeserializeOwned>(c: &mut Ctx, r: &mut Rng, n: usize) {
    let t = T::t();
    for _ in 0..n {
        let v = val(r, &t, true, false);
        one_std::<T>(c, &t, &v);
    }
}

/// the crate's types, alone and inside others, each also in the place of the last
pub fn in_place_numbers(c: &mut Ctx, r: &mut Rng, n: usize) {
    placed::<dlhn::BigUint>(c, r, n);
    placed::<dlhn::BigInt>(c, r, n);
    placed::<dlhn::BigDecimal>(c, r, n);
    placed::<Vec<dlhn::BigUint>>(c, r, n);
    placed::<[dlhn::BigInt; 2]>(c, r, n);
    placed::<Option<Box<dlhn::BigDecimal>>>(c, r, n);
}

pub fn in_place_times(c: &mut Ctx, r: &mut Rng, n: usize) {
    placed::<dlhn::Date>(c, r, n);
    placed::<dlhn::DateTime>(c, r, n);
    placed::<Vec<dlhn::Date>>(c, r, n);
    placed::<(dlhn::DateTime, dlhn::Date)>(c, r, n);
}

/// what is written through the collecting methods of serde: text made of
/// pieces, and collections that hand over an iterator
fn collected(c: &mut Ctx, r: &mut Rng, n: usize) {
    use std::collections::*;
    struct Pieces(Vec<String>, bool);
    impl std::fmt::Display for Pieces {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            self.0.iter().try_for_each(|p| f.write_str(p))
        }
    }
    impl Serialize for Pieces {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            if self.1 { format_args!("{}", self).serialize(s) } else { s.collect_str(self) }
        }
    }
    fn one<T: Serialize>(c: &mut Ctx, t: &Ty, v: &Val, x: T) {
        c.op(format!("\"o\":\"wr\",\"t\":{},\"v\":{}", jt(t), jv(v)), || {
            let mut b = Vec::new();
            let ok = x.serialize(&mut Serializer::new(&mut b)).is_ok();
            format!(",\"s\":{},\"b\":{}", ok as u8, jb(&b))
        });
    }
    let strings = node(K::Map, vec![leaf(K::U8)]);
    for i in 0..n {
        let long = [600, 1023, 1025, 2049, 4095, 4097, 5001];
        let l = if i % 10 == 9 { long[i / 10 % 7] } else { [0, 1, 2, 30, 126, 127, 128, 129, 300][i % 9] };
        let all: String = (0..l).map(|j| if i % 2 == 0 { 'x' } else { ['é', '日', 'a', '\u{10ffff}'][j % 4] }).collect();
        let mut ps = vec![];
        let mut rest = all.chars().peekable();
        while rest.peek().is_some() {
            let k = r.below(40 + l / 2);
            ps.push(rest.by_ref().take(k).collect());
        }
        let p = Pieces(ps, i % 4 < 2);
        one(c, &leaf(K::Str), &Val::Str(all.clone()), &p);
        one(c, &node(K::Opt, vec![leaf(K::Str)]), &Val::Opt(Some(Box::new(Val::Str(all.clone())))), Some(&p));
        // text as a key
        struct Keyed<'a>(&'a Pieces);
        impl Serialize for Keyed<'_> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.collect_map([(self.0, 7u8)])
            }
        }
        one(c, &strings, &Val::Map(vec![(Val::Str(all.clone()), Val::raw([7]))]), Keyed(&p));
        if l > 300 {
            continue;
        }
        let xs: Vec<u16> = (0..l).map(|j| (j * 331) as u16).collect();
        let v = Val::List(xs.iter().map(|x| Val::raw(x.to_le_bytes())).collect());
        let t = node(K::Seq, vec![leaf(K::U16)]);
        one(c, &t, &v, &xs);
        one(c, &t, &v, xs.iter().copied().collect::<VecDeque<_>>());
        one(c, &t, &v, xs.iter().copied().collect::<LinkedList<_>>());
        one(c, &t, &v, xs.clone().into_boxed_slice());
        struct Over<'a>(&'a [u16]);
        impl Serialize for Over<'_> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.collect_seq(self.0)
            }
        }
        one(c, &t, &v, Over(&xs));
        let m: BTreeMap<String, u8> = (0..l).map(|j| (format!("{j:03}"), j as u8)).collect();
        let v = Val::Map(m.iter().map(|(k, x)| (Val::Str(k.clone()), Val::raw([*x]))).collect());
        one(c, &strings, &v, &m);
        let s: BTreeSet<String> = m.keys().cloned().collect();
        one(c, &node(K::Seq, vec![leaf(K::Str)]), &Val::List(s.iter().map(|k| Val::Str(k.clone())).collect()), &s);
    }
}

/// collections handed over as iterators that know their length, bounds of it,
/// or nothing about it
pub fn hints(c: &mut Ctx, r: &mut Rng, n: usize) {
    struct Hinted<I>(I, (usize, Option<usize>));
    impl<I: Iterator> Iterator for Hinted<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            let x = self.0.next()?;
            self.1 = (self.1 .0.saturating_sub(1), self.1 .1.map(|h| h.saturating_sub(1)));
            Some(x)
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.1
        }
    }
    struct S<'a>(&'a [u8], (usize, Option<usize>));
    impl Serialize for S<'_> {
        fn serialize<Z: serde::Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
            s.collect_seq(Hinted(self.0.iter(), self.1))
        }
    }
    struct P<'a>(&'a [(String, u8)], (usize, Option<usize>));
    impl Serialize for P<'_> {
        fn serialize<Z: serde::Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
            s.collect_map(Hinted(self.0.iter().map(|(k, v)| (k, v)), self.1))
        }
    }
    fn one<T: Serialize>(c: &mut Ctx, t: &Ty, v: &Val, exact: bool, x: T) {
        c.op(format!("\"o\":\"hint\",\"t\":{},\"v\":{},\"exact\":{}", jt(t), jv(v), exact as u8), || {
            let mut b = Vec::new();
            let ok = x.serialize(&mut Serializer::new(&mut b)).is_ok();
            format!(",\"s\":{},\"b\":{}", ok as u8, jb(&b))
        });
    }
    for i in 0..n {
        let l = [0usize, 1, 2, 3, 10, 127, 128][i % 7];
        let (lo, hi) = (l - r.below(l + 1), l + r.below(4));
        for h in [(l, Some(l)), (0, None), (0, Some(l)), (lo, None), (l, None), (lo, Some(hi)), (l, Some(hi)), (0, Some(0)), (0, Some(usize::MAX))] {
            if h.1.is_some_and(|h| h < l) {
                continue;
            }
            let exact = h == (l, Some(l));
            let x = r.bytes(l);
            let v = Val::List(x.iter().map(|b| Val::raw([*b])).collect());
            let t = node(K::Seq, vec![leaf(K::U8)]);
            one(c, &t, &v, exact, S(&x, h));
            one(c, &node(K::Tup, vec![t, leaf(K::U8)]), &Val::List(vec![v, Val::raw([5])]), exact, (S(&x, h), 5u8));
            let m: Vec<(String, u8)> = x.iter().enumerate().map(|(i, b)| (format!("{i:03}"), *b)).collect();
            let v = Val::Map(m.iter().map(|(k, b)| (Val::Str(k.clone()), Val::raw([*b]))).collect());
            let t = node(K::Map, vec![leaf(K::U8)]);
            one(c, &t, &v, exact, P(&m, h));
            one(c, &node(K::Opt, vec![t]), &Val::Opt(Some(Box::new(v))), exact, Some(P(&m, h)));
        }
    }
}

/// what real types allocate while they read lengths that are lies
pub fn mem(c: &mut Ctx, r: &mut Rng, n: usize, lie: &dyn Fn(&mut Rng, u32) -> Vec<u8>) {
    use std::collections::*;
    fn one<T: DeserializeOwned>(c: &mut Ctx, t: &Ty, b: &[u8]) {
        c.op(format!("\"o\":\"mem\",\"t\":{},\"b\":{},\"len\":{}", jt(t), jb(b), b.len()), || {
            let mut p = crate::io::Plain { data: b, pos: 0 };
            let base = crate::alloc::start();
            let v = T::deserialize(&mut Deserializer::new(&mut p));
            let peak = crate::alloc::peak_since(base);
            format!(",\"peak\":{},\"n\":{},\"r\":{}", peak.min(1 << 30), p.pos, v.is_ok() as u8)
        });
    }
    type M1<T> = HashMap<String, T>;
    type M4<T> = M1<M1<M1<M1<T>>>>;
    type V4<T> = Vec<Vec<Vec<Vec<T>>>>;
    let m = |t| node(K::Map, vec![t]);
    let s = |t| node(K::Seq, vec![t]);
    let sizes: Vec<u32> = if n < 10_000 { vec![12, 20, 31, 32, 40, 63] } else { (8..64).collect() };
    for k in sizes {
        // each level promises, and delivers one key
        let level = |r: &mut Rng, key: bool| {
            let mut b = lie(r, k);
            if key {
                b.extend([1, b'k']);
            }
            b
        };
        let deep = |r: &mut Rng, keys: &[bool]| keys.iter().flat_map(|x| level(r, *x)).collect::<Vec<u8>>();
        let (u, w) = (leaf(K::U64), leaf(K::Str));
        one::<M1<u64>>(c, &m(u.clone()), &deep(r, &[true]));
        one::<M4<u64>>(c, &m(m(m(m(u.clone())))), &deep(r, &[true; 4]));
        one::<M4<M4<u8>>>(c, &m(m(m(m(m(m(m(m(leaf(K::U8))))))))), &deep(r, &[true; 8]));
        one::<BTreeMap<String, BTreeMap<String, BTreeMap<String, u64>>>>(c, &m(m(m(u.clone()))), &deep(r, &[true; 3]));
        one::<V4<u64>>(c, &s(s(s(s(u.clone())))), &deep(r, &[false; 4]));
        one::<V4<V4<(u64, u64)>>>(c, &s(s(s(s(s(s(s(s(node(K::Tup, vec![u.clone(), u.clone()]))))))))), &deep(r, &[false; 8]));
        one::<V4<M4<u64>>>(c, &s(s(s(s(m(m(m(m(u.clone())))))))), &deep(r, &[false, false, false, false, true, true, true, true]));
        one::<VecDeque<VecDeque<VecDeque<u64>>>>(c, &s(s(s(u.clone()))), &deep(r, &[false; 3]));
        one::<Vec<HashSet<String>>>(c, &s(s(w.clone())), &deep(r, &[false; 3]));
        one::<Vec<BTreeSet<String>>>(c, &s(s(w.clone())), &deep(r, &[false; 3]));
        one::<LinkedList<BinaryHeap<String>>>(c, &s(s(w.clone())), &deep(r, &[false; 3]));
        one::<Box<[Box<[Box<str>]>]>>(c, &s(s(w.clone())), &deep(r, &[false; 3]));
        one::<Vec<Vec<std::borrow::Cow<'static, str>>>>(c, &s(s(w.clone())), &deep(r, &[false; 3]));
        one::<std::ffi::CString>(c, &leaf(K::Bytes), &deep(r, &[false]));
        one::<std::path::PathBuf>(c, &w, &deep(r, &[false]));
        // a good start, and nothing after it
        let m1 = [3usize, 20, 70, 140, 300, 1100, 4200][k as usize % 7];
        let mut b = lie(r, k.max(20));
        b.extend(vec![9; m1]);
        one::<Vec<u8>>(c, &s(leaf(K::U8)), &b);
        one::<VecDeque<u8>>(c, &s(leaf(K::U8)), &b);
        one::<HashSet<u8>>(c, &s(leaf(K::U8)), &b);
        let mut b = lie(r, k.max(20));
        for j in 0..m1 {
            let x = format!("{j}");
            b.push(x.len() as u8);
            b.extend(x.as_bytes());
        }
        one::<Vec<String>>(c, &s(w.clone()), &b);
        one::<HashSet<String>>(c, &s(w.clone()), &b);
        one::<M1<()>>(c, &m(leaf(K::Unit)), &b);
    }
}

/// real types as the keys of a map, among them some that are strings elsewhere
pub fn keys(c: &mut Ctx) {
    struct Once<K>(K, bool);
    impl<K: Serialize> Serialize for Once<K> {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            use serde::ser::SerializeMap;
            let mut m = s.serialize_map(Some(1))?;
            if self.1 {
                m.serialize_entry(&self.0, &7u8)?;
            } else {
                m.serialize_key(&self.0)?;
                m.serialize_value(&7u8)?;
            }
            m.end()
        }
    }
    fn one<T: M + Serialize>(c: &mut Ctx, x: T, v: Val) {
        let t = node(K::MapK, vec![leaf(K::U8), T::t()]);
        let v = Val::Map(vec![(v, Val::raw([7]))]);
        for entry in [true, false] {
            c.op(format!("\"o\":\"refuse\",\"t\":{},\"v\":{}", jt(&t), jv(&v)), || {
                let mut b = Vec::new();
                match Once(&x, entry).serialize(&mut Serializer::new(&mut b)) {
                    Err(_) => ",\"s\":0".into(),
                    Ok(()) => format!(",\"s\":1,\"b\":{}", jb(&b)),
                }
            });
        }
    }
    use std::net::*;
    let bytes = |b: &[u8]| Val::List(b.iter().map(|x| Val::raw([*x])).collect());
    let v4 = Ipv4Addr::new(127, 0, 0, 1);
    let v6 = Ipv6Addr::LOCALHOST;
    let port = Val::raw(80u16.to_le_bytes());
    one(c, v4, bytes(&v4.octets()));
    one(c, v6, bytes(&v6.octets()));
    one(c, IpAddr::V4(v4), Val::Enum(0, Box::new(bytes(&v4.octets()))));
    one(c, IpAddr::V6(v6), Val::Enum(1, Box::new(bytes(&v6.octets()))));
    one(c, SocketAddrV4::new(v4, 80), Val::List(vec![bytes(&v4.octets()), port.clone()]));
    one(c, SocketAddrV6::new(v6, 80, 0, 0), Val::List(vec![bytes(&v6.octets()), port.clone()]));
    one(c, SocketAddr::from((v4, 80)), Val::Enum(0, Box::new(Val::List(vec![bytes(&v4.octets()), port]))));
    one(c, std::time::Duration::new(3, 4), Val::List(vec![Val::raw(3u64.to_le_bytes()), Val::raw(4u32.to_le_bytes())]));
    one(c, (), Val::Unit);
    one(c, std::marker::PhantomData::<u8>, Val::Unit);
    one(c, Some(String::from("k")), Val::Opt(Some(Box::new(Val::Str("k".into())))));
    one(c, None::<String>, Val::Opt(None));
    one(c, vec![String::from("k")], Val::List(vec![Val::Str("k".into())]));
    one(c, (String::from("k"),), Val::List(vec![Val::Str("k".into())]));
    one(c, Ok::<String, u8>("k".into()), Val::Enum(0, Box::new(Val::Str("k".into()))));
    one(c, ByteBuf::from(b"k".to_vec()), Val::Bytes(b"k".to_vec()));
    one(c, std::ffi::CString::new("k").unwrap(), Val::Bytes(b"k".to_vec()));
    one(c, 'k', Val::Char('k'));
    one(c, usize::MAX, Val::raw(u64::MAX.to_le_bytes()));
    one(c, dlhn::BigUint::from(num_bigint::BigUint::from(7u8)), Val::Big(vec![7]));
    one(c, dlhn::BigInt::from(num_bigint::BigInt::from(7)), Val::Big(vec![7]));
    one(c, dlhn::BigDecimal::from(bigdecimal::BigDecimal::from(7)), Val::Dec(vec![7], 0));
    one(c, dlhn::Date::from(time::Date::from_ordinal_date(2024, 60).unwrap()), Val::Date(Some((2024, 60))));
    one(c, dlhn::DateTime::from(time::OffsetDateTime::UNIX_EPOCH), Val::Dt(Some((0, 0))));
    // and those that are strings
    one(c, "k", Val::Str("k".into()));
    one(c, String::from("k"), Val::Str("k".into()));
    one(c, Box::<str>::from("k"), Val::Str("k".into()));
    one(c, std::borrow::Cow::from("k"), Val::Str("k".into()));
    one(c, std::path::PathBuf::from("k"), Val::Str("k".into()));
}

thread_local!(static LAST: std::cell::RefCell<HashMap<&'static str, Vec<u8>>> = Default::default());

fn one_std<T: Serialize + DeserializeOwned>(c: &mut Ctx, t: &Ty, v: &Val) {
    if v.size() > 900 {
        return;
    }
    c.op(format!("\"o\":\"std\",\"t\":{},\"v\":{}", jt(t), jv(v)), || {
        let Some(b) = ser(t, v) else { return ",\"s\":0".into() };
        let mut d = b.clone();
        d.extend([1, 2, 3]);
        let mut p = Plain { data: &d, pos: 0 };
        match T::deserialize(&mut Deserializer::new(&mut p)) {
            Err(_) => format!(",\"s\":1,\"b\":{},\"d\":0", jb(&b)),
            Ok(x) => {
                let mut b2 = Vec::new();
                let ok = x.serialize(&mut Serializer::new(&mut b2)).is_ok();
                // once more, in the place of the value before it
                let last = LAST.with(|l| l.borrow_mut().insert(std::any::type_name::<T>(), b.clone())).unwrap_or(b.clone());
                let mut place = T::deserialize(&mut Deserializer::new(&mut last.as_slice())).unwrap_or(x);
                let mut q = Plain { data: &d, pos: 0 };
                let inplace = T::deserialize_in_place(&mut Deserializer::new(&mut q), &mut place).is_ok();
                let mut b3 = Vec::new();
                let inplace = inplace && place.serialize(&mut Serializer::new(&mut b3)).is_ok();
                format!(
                    ",\"s\":1,\"b\":{},\"d\":1,\"ok\":{},\"b2\":{},\"n\":{},\"ok3\":{},\"b3\":{},\"n3\":{}",
                    jb(&b), ok as u8, jb(&b2), p.pos, inplace as u8, jb(&b3), q.pos
                )
            }
        }
    });
}

// ------------------------------------------------- types it may not know

struct Any;
impl<'de> Deserialize<'de> for Any {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Any, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Any;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("anything")
            }
            fn visit_u64<E>(self, _: u64) -> Result<Any, E> {
                Ok(Any)
            }
            fn visit_unit<E>(self) -> Result<Any, E> {
                Ok(Any)
            }
        }
        d.deserialize_any(V)
    }
}

#[derive(serde::Deserialize)]
#[serde(untagged)]
#[allow(dead_code)]
enum Untagged {
    A(u8),
    B(String),
}
#[derive(serde::Deserialize)]
#[serde(tag = "t")]
#[allow(dead_code)]
enum Tagged {
    A { x: u8 },
    B,
}
#[derive(serde::Deserialize)]
#[allow(dead_code)]
struct Flat {
    a: u8,
    #[serde(flatten)]
    b: BTreeMap<String, u8>,
}
#[derive(serde::Deserialize)]
#[allow(dead_code)]
struct Unsized<'a> {
    #[serde(borrow)]
    s: &'a str,
    b: &'a [u8],
}

fn any(c: &mut Ctx, r: &mut Rng, n: usize) {
    fn one<T: Deserialize<'static>>(c: &mut Ctx, name: &str, b: &[u8]) {
        // leaked: the value may borrow from the reader for as long as it likes
        c.op(format!("\"o\":\"any\",\"t\":\"{name}\",\"b\":{}", jb(b)), || {
            let data: &'static [u8] = Box::leak(b.to_vec().into_boxed_slice());
            let p: &'static mut Plain<'static> = Box::leak(Box::new(Plain { data, pos: 0 }));
            let d = Box::leak(Box::new(Deserializer::new(p)));
            format!(",\"r\":{}", T::deserialize(d).is_ok() as u8)
        });
    }
    macro_rules! all { ($b:expr; $($t:ty),* $(,)?) => { $( one::<$t>(c, stringify!($t), $b); )* } }
    use std::ffi::{CString, OsString};
    use std::num::*;
    use std::time::*;
    for i in 0..n {
        let l = r.below(20);
        let b = if i % 3 == 0 { r.bytes(l) } else { soup(r, l) };
        all! { &b; serde::de::IgnoredAny, Any, u128, i128, &'static str, &'static [u8], Box<str>, Box<[u8]>, Untagged, Tagged, Flat,
            Unsized<'static>, Duration, SystemTime, NonZeroU8, NonZeroI64, std::net::SocketAddr, std::net::IpAddr, CString, OsString,
            std::path::PathBuf, usize, isize, [u8; 3], [String; 2], BTreeMap<u32, u8>, HashMap<char, u8>, BTreeMap<Option<u8>, ()>,
            std::collections::BTreeSet<u16>, Result<u8, u16>, std::ops::Bound<u8>, std::ops::RangeInclusive<i32>,
            std::marker::PhantomData<u8>, std::sync::Mutex<u8>, std::sync::atomic::AtomicU32, std::cmp::Reverse<char>,
            Option<serde::de::IgnoredAny>, Vec<Any>, (Any, u8), BTreeMap<String, serde::de::IgnoredAny>, f32, char, bool,
            Vec<(u8, u8)>, Vec<u128>, Vec<i128>, dlhn::BigUint, dlhn::BigInt, dlhn::BigDecimal, dlhn::Date, dlhn::DateTime }
    }
}

// ------------------------------------------------- inputs of known findings

/// the exact inputs listed in known_findings.txt for crashes and hangs
pub fn kf(c: &mut Ctx) {
    #[derive(serde::Deserialize)]
    #[allow(dead_code)]
    struct L(Option<Box<L>>);
    let deep = vec![1u8; 1_000_000];
    c.op("\"o\":\"kf\",\"id\":\"deep-header\"".into(), || {
        let r = crate::suites::hde(&deep).0;
        // an accepted header must be droppable too
        format!(",\"r\":{}", r.is_ok() as u8)
    });
    c.op("\"o\":\"kf\",\"id\":\"deep-type\"".into(), || {
        let mut s = deep.as_slice();
        let r = L::deserialize(&mut Deserializer::new(&mut s));
        format!(",\"r\":{}", r.is_ok() as u8)
    });
    let n = ser(&leaf(K::U64), &Val::raw((1u64 << 62).to_le_bytes())).unwrap();
    c.op("\"o\":\"kf\",\"id\":\"zero-width-array\"".into(), || {
        let h = dlhn::Header::Array(Box::new(dlhn::Header::Unit));
        let mut s = n.as_slice();
        let r = dlhn::Body::deserialize(&h, &mut Deserializer::new(&mut s));
        format!(",\"r\":{}", r.is_ok() as u8)
    });
    c.op("\"o\":\"kf\",\"id\":\"zero-width-seq\"".into(), || {
        // counted, so that the loop cannot be optimised away
        struct Count;
        static SEEN: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        impl<'de> Deserialize<'de> for Count {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Count, D::Error> {
                <()>::deserialize(d)?;
                SEEN.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                Ok(Count)
            }
        }
        let mut s = n.as_slice();
        let r = Vec::<Count>::deserialize(&mut Deserializer::new(&mut s));
        format!(",\"r\":{}", r.is_ok() as u8)
    });
}
