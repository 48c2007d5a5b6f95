//! Values far beyond any limit one might think of, of real types: what they
//! are made of is told, and whether the bytes are that, so often.
use crate::ctx::Ctx;
use crate::gen::*;
use crate::suites::*;
use crate::ty::*;
use dlhn::{Deserializer, Serializer};
use serde::de::{DeserializeOwned, DeserializeSeed};
use serde::Serialize;
use serde_bytes::ByteBuf;
use std::collections::BTreeMap;

fn bytes<T: Serialize>(v: &T) -> Option<Vec<u8>> {
    let mut b = Vec::new();
    v.serialize(&mut Serializer::new(&mut b)).ok().map(|_| b)
}

fn tell<T: PartialEq>(v: &T, n: usize, b: Option<Vec<u8>>, part: impl Fn(usize) -> Vec<u8>, read: impl Fn(&mut &[u8]) -> Option<T>) -> String {
    let Some(b) = b else { return ",\"s\":0".into() };
    let shown = [0, n / 2, n - 1];
    let rows: Vec<String> = shown.iter().map(|i| jb(&part(*i))).collect();
    let w = part(0).len();
    let h = b.len().saturating_sub(w * n);
    let mut at = h;
    let same = (0..n).all(|i| {
        let p = part(i);
        at += p.len();
        b.get(at - p.len()..at) == Some(&p[..])
    }) && at == b.len();
    let mut x = b.clone();
    x.extend([1, 2, 3]);
    let mut s = x.as_slice();
    let y = read(&mut s);
    format!(",\"s\":1,\"rows\":[{}],\"h\":{},\"same\":{},\"d\":{},\"eq\":{},\"used\":{},\"cut\":{}", rows.join(","), jb(&b[..h.min(12)]), same as u8,
        y.is_some() as u8, (y.as_ref() == Some(v)) as u8, x.len() - s.len(), read(&mut &b[..b.len() - 1]).is_some() as u8)
}

/// `part` is one element on its own, for the specification to judge
fn one<T: Serialize + DeserializeOwned + PartialEq>(c: &mut Ctx, k: &str, n: usize, v: impl FnOnce() -> T, part: impl Fn(usize) -> Vec<u8>) {
    c.op(format!("\"o\":\"huge\",\"k\":\"{k}\",\"n\":{n}"), || {
        let v = v();
        tell(&v, n, bytes(&v), part, |s| T::deserialize(&mut Deserializer::new(s)).ok())
    });
}

#[cfg(feature = "full")]
fn body(c: &mut Ctx, k: &str, n: usize, h: dlhn::Header, v: impl FnOnce() -> dlhn::Body, part: impl Fn(usize) -> Vec<u8>) {
    c.op(format!("\"o\":\"huge\",\"k\":\"{k}\",\"n\":{n}"), || {
        let v = v();
        let mut o = tell(&v, n, bytes(&v), part, |s| dlhn::Body::deserialize(&h, &mut Deserializer::new(s)).ok());
        o += &format!(",\"va\":{}", v.validate(&h) as u8);
        o
    });
}

const TEXT: &str = "a\u{e9}\u{65e5}\u{10ffff}";
fn key(i: usize) -> String {
    format!("{i:07}")
}
fn entry(i: usize) -> Vec<u8> {
    let mut p = vec![7];
    p.extend(key(i).as_bytes());
    p.push(i as u8);
    p
}

/// so many of one value, as a type and as a body: its bytes are told, and
/// whether they ever change
fn steady(c: &mut Ctx, times: usize, t: &Ty, v: &Val) {
    c.op(format!("\"o\":\"steady\",\"t\":{},\"v\":{},\"times\":{times}", jt(t), jv(v)), || {
        let mut b = Vec::new();
        let mut z = Serializer::new(&mut b);
        let wrote = (0..times).take_while(|_| TV(t, v).serialize(&mut z).is_ok()).count();
        let mut o = again(times, wrote, &b);
        let (mut one, mut each) = (0, 0);
        let mut s = b.as_slice();
        let mut d = Deserializer::new(&mut s);
        while one < times && Seed(t).deserialize(&mut d).ok().as_ref() == Some(v) {
            one += 1;
        }
        let left = s.len();
        let mut s = b.as_slice();
        while each < times && Seed(t).deserialize(&mut Deserializer::new(&mut s)).ok().as_ref() == Some(v) {
            each += 1;
        }
        o += &format!(",\"read\":[{one},{each}],\"left\":[{left},{}]", s.len());
        o
    });
}

fn again(times: usize, wrote: usize, b: &[u8]) -> String {
    let size = b.len() / times;
    let same = b.len() % times == 0 && b.chunks(size.max(1)).all(|x| x == &b[..size]);
    format!(",\"wrote\":{wrote},\"same\":{},\"b\":{}", same as u8, jb(&b[..size]))
}

#[cfg(feature = "full")]
fn steady_body(c: &mut Ctx, times: usize, t: &Ty, v: &Val) {
    use crate::hdr::*;
    use dlhn::DeserializeHeader;
    c.op(format!("\"o\":\"steadyd\",\"t\":{},\"v\":{},\"times\":{times}", jt(t), jv(v)), || {
        let (h, y) = (to_header(&header_of(t)), to_body(t, v));
        let mut b = Vec::new();
        let mut z = Serializer::new(&mut b);
        let wrote = (0..times).take_while(|_| y.serialize(&mut z).is_ok()).count();
        let mut o = again(times, wrote, &b);
        let (mut one, mut each) = (0, 0);
        let mut s = b.as_slice();
        let mut d = Deserializer::new(&mut s);
        while one < times && dlhn::Body::deserialize(&h, &mut d).ok().as_ref() == Some(&y) {
            one += 1;
        }
        let left = s.len();
        let mut s = b.as_slice();
        while each < times && dlhn::Body::deserialize(&h, &mut Deserializer::new(&mut s)).ok().as_ref() == Some(&y) {
            each += 1;
        }
        let valid = (0..times).take_while(|_| y.validate(&h)).count();
        o += &format!(",\"read\":[{one},{each}],\"left\":[{left},{}],\"valid\":{valid}", s.len());
        // the header as often, into one sink and out of one source
        let mut b = Vec::new();
        let wrote = (0..times).take_while(|_| h.serialize(&mut b).is_ok()).count();
        let mut s = b.as_slice();
        let mut read = 0;
        while read < times && s.deserialize_header().ok().as_ref() == Some(&h) {
            read += 1;
        }
        o += &format!(",\"hd\":{{\"z\":0{},\"read\":{read},\"left\":{}}}", again(times, wrote, &b), s.len());
        o
    });
}

/// long sessions of large values
fn volume<T: Serialize + DeserializeOwned + PartialEq>(c: &mut Ctx, k: &str, n: usize, times: usize, many: bool, v: T) {
    c.op(format!("\"o\":\"volume\",\"k\":\"{k}\",\"n\":{n},\"times\":{times},\"many\":{}", many as u8), || {
        let mut b = Vec::new();
        let mut z = Serializer::new(&mut b);
        let mut wrote = 0;
        for _ in 0..times {
            if v.serialize(&mut z).is_ok() {
                wrote += 1;
            }
        }
        let size = b.len() / times;
        let same = b.chunks(size.max(1)).all(|x| x == &b[..size]);
        let mut s = b.as_slice();
        let mut read = 0;
        if many {
            while read < times && T::deserialize(&mut Deserializer::new(&mut s)).ok().as_ref() == Some(&v) {
                read += 1;
            }
        } else {
            let mut d = Deserializer::new(&mut s);
            while read < times && T::deserialize(&mut d).ok().as_ref() == Some(&v) {
                read += 1;
            }
        }
        format!(",\"wrote\":{wrote},\"read\":{read},\"same\":{},\"h\":{},\"size\":{size},\"left\":{}", same as u8, jb(&b[..4]), s.len())
    });
}

pub fn run(c: &mut Ctx, n: usize) {
    c.per = 1;
    let more = if n > 1 { vec![(1 << 26) + 1, (1 << 28) + 3] } else { vec![] };
    for m in [1_000_001usize, (1 << 20) + 1, (1 << 24) + 1].into_iter().chain(more) {
        one(c, "bytes", m, || ByteBuf::from(vec![200u8; m]), |_| vec![200]);
        one(c, "str", m / 10, || TEXT.repeat(m / 10), |_| TEXT.into());
        #[cfg(feature = "full")]
        {
            body(c, "bytes", m, dlhn::Header::Binary, || dlhn::Body::Binary(ByteBuf::from(vec![200u8; m])), |_| vec![200]);
            body(c, "str", m / 10, dlhn::Header::String, || dlhn::Body::String(TEXT.repeat(m / 10)), |_| TEXT.into());
        }
    }
    one(c, "str", 1_700_000, || TEXT.repeat(1_700_000), |_| TEXT.into());
    for m in [1_000_001usize, (1 << 20) + 1, if n > 1 { (1 << 24) + 1 } else { 1_500_000 }] {
        one(c, "seq", m, || vec![7u8; m], |_| vec![7]);
        one(c, "seq", m, || vec![true; m], |_| vec![1]);
        one(c, "seq", m, || vec![(300u16, false); m], |_| bytes(&(300u16, false)).unwrap_or_default());
        one(c, "seq", m, || vec![Some(9u32); m], |_| vec![1, 9]);
        one(c, "seq", m, || vec![(); m], |_| vec![]);
    }
    let m = 1_100_000;
    one(c, "map", m, || (0..m).map(|i| (key(i), i as u8)).collect::<BTreeMap<String, u8>>(), entry);
    #[cfg(feature = "full")]
    {
        use dlhn::{Body, Header};
        body(c, "seq", m, Header::Array(Box::new(Header::UInt8)), || Body::Array(vec![Body::UInt8(7); m]), |_| vec![7]);
        body(c, "map", m, Header::Map(Box::new(Header::UInt8)), || Body::Map((0..m).map(|i| (key(i), Body::UInt8(i as u8))).collect()), entry);
    }
}

/// many values through one serializer, and out of one deserializer or as many
pub fn volumes(c: &mut Ctx, r: &mut Rng, n: usize) {
    c.per = 1;
    let most = if n > 1 { 20_000_000 } else { 1_500_000 };
    for many in [false, true] {
        let m = 1 << 20;
        volume(c, "bytes", m, 150, many, ByteBuf::from(vec![3u8; m]));
        volume(c, "str", m, 150, many, "t".repeat(m));
        volume(c, "seq", 100_000, 40, many, vec![5u8; 100_000]);
        volume(c, "seq", 0, 2 * most, many, Vec::<u8>::new());
        volume(c, "map", 0, most, many, BTreeMap::<String, u8>::new());
        volume(c, "str", 2, most, many, "ab".to_string());
        volume(c, "bytes", 1, most, many, ByteBuf::from(vec![0u8]));
    }
    // anything at all, many times over
    let (most, some) = if n > 1 { (4_000_000, 400_000) } else { (1_100_000, 70_000) };
    let mut ts: Vec<Ty> = leaves().into_iter().map(leaf).collect();
    ts.extend([
        node(K::Opt, vec![leaf(K::U8)]),
        node(K::Seq, vec![node(K::Seq, vec![leaf(K::U8)])]),
        node(K::Map, vec![leaf(K::Bool)]),
        node(K::Tup, vec![leaf(K::U16), leaf(K::Str)]),
        node(K::St, vec![leaf(K::I8), node(K::Opt, vec![leaf(K::Unit)])]),
        node(K::Ts, vec![leaf(K::I8)]),
        node(K::Nt, vec![leaf(K::U32)]),
        Ty { k: K::Enum, s: vec![leaf(K::Unit), leaf(K::U16), node(K::Tv, vec![leaf(K::U8), leaf(K::Bool)])], n: 0 },
    ]);
    for t in ts {
        let v = loop {
            let v = val(r, &t, true, false);
            if v.size() < 8 && (!jv(&v).contains("null")) && TV(&t, &v).serialize(&mut Serializer::new(&mut std::io::sink())).is_ok() {
                break v;
            }
        };
        if Seed(&t).deserialize(&mut Deserializer::new(&mut &ser(&t, &v).unwrap_or_default()[..])).ok().as_ref() != Some(&v) {
            // not a number, say
            continue;
        }
        let cheap = BASIC.contains(&t.k) || matches!(t.k, K::Opt | K::Enum | K::Seq);
        steady(c, if cheap { most } else { some }, &t, &v);
        #[cfg(feature = "full")]
        steady_body(c, some, &t, &v);
    }
}
