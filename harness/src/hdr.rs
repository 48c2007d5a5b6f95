//! dlhn::Header and dlhn::Body against the types and values of ty.rs.
use crate::gen::Rng;
use crate::ty::*;
use dlhn::{Body, Header};
use std::collections::BTreeMap;

pub fn to_header(t: &Ty) -> Header {
    let one = || Box::new(to_header(&t.s[0]));
    let all = || t.s.iter().map(to_header).collect::<Vec<_>>();
    match t.k {
        K::Unit | K::Us => Header::Unit,
        K::Opt => Header::Optional(one()),
        K::Bool => Header::Boolean,
        K::U8 => Header::UInt8,
        K::U16 => Header::UInt16,
        K::U32 => Header::UInt32,
        K::U64 => Header::UInt64,
        K::I8 => Header::Int8,
        K::I16 => Header::Int16,
        K::I32 => Header::Int32,
        K::I64 => Header::Int64,
        K::F32 => Header::Float32,
        K::F64 => Header::Float64,
        K::Buint | K::Nbuint => Header::BigUInt,
        K::Bint | K::Nbint => Header::BigInt,
        K::Bdec | K::Nbdec => Header::BigDecimal,
        K::Str | K::Char => Header::String,
        K::Bytes => Header::Binary,
        K::Seq => Header::Array(one()),
        K::Map => Header::Map(one()),
        K::Nt => to_header(&t.s[0]),
        K::Tup | K::St | K::Ts | K::Tv | K::Sv => Header::Tuple(all()),
        K::Enum => Header::Enum(all()),
        K::Date | K::Ndate => Header::Date,
        K::Dt | K::Ndt => Header::DateTime,
        k => panic!("no header for {k:?}"),
    }
}

pub fn of_header(h: &Header) -> Ty {
    let one = |k, x: &Header| node(k, vec![of_header(x)]);
    match h {
        Header::Unit => leaf(K::Unit),
        Header::Optional(x) => one(K::Opt, x),
        Header::Boolean => leaf(K::Bool),
        Header::UInt8 => leaf(K::U8),
        Header::UInt16 => leaf(K::U16),
        Header::UInt32 => leaf(K::U32),
        Header::UInt64 => leaf(K::U64),
        Header::Int8 => leaf(K::I8),
        Header::Int16 => leaf(K::I16),
        Header::Int32 => leaf(K::I32),
        Header::Int64 => leaf(K::I64),
        Header::Float32 => leaf(K::F32),
        Header::Float64 => leaf(K::F64),
        Header::BigUInt => leaf(K::Buint),
        Header::BigInt => leaf(K::Bint),
        Header::BigDecimal => leaf(K::Bdec),
        Header::String => leaf(K::Str),
        Header::Binary => leaf(K::Bytes),
        Header::Array(x) => one(K::Seq, x),
        Header::Tuple(x) => node(K::Tup, x.iter().map(of_header).collect()),
        Header::Map(x) => one(K::Map, x),
        Header::Enum(x) => node(K::Enum, x.iter().map(of_header).collect()),
        Header::Date => leaf(K::Date),
        Header::DateTime => leaf(K::Dt),
    }
}

/// the body for a value, built by hand
#[cfg(feature = "full")]
pub fn to_body(t: &Ty, v: &Val) -> Body {
    fn raw<const N: usize>(v: &Val) -> [u8; N] {
        match v {
            Val::Raw(b) => b.as_slice().try_into().unwrap(),
            _ => panic!(),
        }
    }
    match (t.k, v) {
        (K::Unit | K::Us, _) => Body::Unit,
        (K::Opt, Val::Opt(x)) => Body::Optional(x.as_ref().map(|x| Box::new(to_body(&t.s[0], x)))),
        (K::Bool, Val::Bool(b)) => Body::Boolean(*b),
        (K::U8, v) => Body::UInt8(u8::from_le_bytes(raw(v))),
        (K::U16, v) => Body::UInt16(u16::from_le_bytes(raw(v))),
        (K::U32, v) => Body::UInt32(u32::from_le_bytes(raw(v))),
        (K::U64, v) => Body::UInt64(u64::from_le_bytes(raw(v))),
        (K::I8, v) => Body::Int8(i8::from_le_bytes(raw(v))),
        (K::I16, v) => Body::Int16(i16::from_le_bytes(raw(v))),
        (K::I32, v) => Body::Int32(i32::from_le_bytes(raw(v))),
        (K::I64, v) => Body::Int64(i64::from_le_bytes(raw(v))),
        (K::F32, v) => Body::Float32(f32::from_le_bytes(raw(v))),
        (K::F64, v) => Body::Float64(f64::from_le_bytes(raw(v))),
        (K::Char, Val::Char(c)) => Body::String(c.to_string()),
        (K::Str, Val::Str(s)) => Body::String(s.clone()),
        (K::Bytes, Val::Bytes(s)) => Body::Binary(serde_bytes::ByteBuf::from(s.clone())),
        (K::Buint | K::Nbuint, Val::Big(b)) => Body::BigUInt(dlhn::BigUint::from(big::u(b))),
        (K::Bint | K::Nbint, Val::Big(b)) => Body::BigInt(dlhn::BigInt::from(big::i(b))),
        (K::Bdec | K::Nbdec, Val::Dec(b, s)) => Body::BigDecimal(dlhn::BigDecimal::from(big::d(b, *s))),
        (K::Date | K::Ndate, Val::Date(Some((y, o)))) => Body::Date(dlhn::Date::from(tm::date(*y, *o))),
        (K::Dt | K::Ndt, Val::Dt(Some((s, n)))) => Body::DateTime(dlhn::DateTime::from(tm::dt(*s, *n))),
        (K::Seq, Val::List(x)) => Body::Array(x.iter().map(|e| to_body(&t.s[0], e)).collect()),
        (K::Map, Val::Map(x)) => {
            let mut m = BTreeMap::new();
            for (k, e) in x {
                if let Val::Str(k) = k {
                    m.insert(k.clone(), to_body(&t.s[0], e));
                }
            }
            Body::Map(m)
        }
        (K::Nt, x) => to_body(&t.s[0], x),
        (K::Tup | K::St | K::Ts | K::Tv | K::Sv, Val::List(x)) => {
            Body::Tuple(t.s.iter().zip(x).map(|(t, e)| to_body(t, e)).collect())
        }
        (K::Enum, Val::Enum(i, x)) => Body::Enum(*i, Box::new(to_body(&t.variant(*i as usize), x))),
        (k, v) => panic!("no body for {k:?} {v:?}"),
    }
}

#[cfg(feature = "full")]
pub fn jbody(b: &Body, o: &mut String) {
    let leaf = |k: &str, v: Val, o: &mut String| {
        o.push_str("{\"k\":\"");
        o.push_str(k);
        o.push_str("\",\"v\":");
        jval(&v, o);
        o.push('}');
    };
    let list = |k: &str, v: &[Body], o: &mut String| {
        o.push_str("{\"k\":\"");
        o.push_str(k);
        o.push_str("\",\"v\":[");
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            jbody(x, o);
        }
        o.push_str("]}");
    };
    match b {
        Body::Unit => leaf("unit", Val::Unit, o),
        Body::Optional(None) => list("opt", &[], o),
        Body::Optional(Some(x)) => list("opt", std::slice::from_ref(x), o),
        Body::Boolean(x) => leaf("bool", Val::Bool(*x), o),
        Body::UInt8(x) => leaf("u8", Val::raw(x.to_le_bytes()), o),
        Body::UInt16(x) => leaf("u16", Val::raw(x.to_le_bytes()), o),
        Body::UInt32(x) => leaf("u32", Val::raw(x.to_le_bytes()), o),
        Body::UInt64(x) => leaf("u64", Val::raw(x.to_le_bytes()), o),
        Body::Int8(x) => leaf("i8", Val::raw(x.to_le_bytes()), o),
        Body::Int16(x) => leaf("i16", Val::raw(x.to_le_bytes()), o),
        Body::Int32(x) => leaf("i32", Val::raw(x.to_le_bytes()), o),
        Body::Int64(x) => leaf("i64", Val::raw(x.to_le_bytes()), o),
        Body::Float32(x) => leaf("f32", Val::raw(x.to_le_bytes()), o),
        Body::Float64(x) => leaf("f64", Val::raw(x.to_le_bytes()), o),
        Body::BigUInt(x) => {
            let n: num_bigint::BigUint = x.clone().into();
            leaf("buint", Val::Big(big::canon_u(&n)), o)
        }
        Body::BigInt(x) => {
            let n: num_bigint::BigInt = x.clone().into();
            leaf("bint", Val::Big(big::canon_i(&n)), o)
        }
        Body::BigDecimal(x) => {
            let n: bigdecimal::BigDecimal = x.clone().into();
            let (d, s) = big::canon_d(&n);
            leaf("bdec", Val::Dec(d, s), o)
        }
        Body::String(x) => leaf("str", Val::Str(x.clone()), o),
        Body::Binary(x) => leaf("bytes", Val::Bytes(x.to_vec()), o),
        Body::Array(x) => list("seq", x, o),
        Body::Tuple(x) => list("tup", x, o),
        Body::Map(x) => {
            o.push_str("{\"k\":\"map\",\"v\":[");
            for (i, (k, e)) in x.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                o.push('[');
                jbytes(k.as_bytes(), o);
                o.push(',');
                jbody(e, o);
                o.push(']');
            }
            o.push_str("]}");
        }
        Body::Enum(i, x) => {
            o.push_str("{\"k\":\"enum\",\"v\":[");
            jbytes(&i.to_le_bytes(), o);
            o.push(',');
            jbody(x, o);
            o.push_str("]}");
        }
        Body::Date(x) => leaf("date", Val::Date(tm::of_date(*x)), o),
        Body::DateTime(x) => leaf("dt", Val::Dt(tm::of_dt(*x)), o),
    }
}

pub fn parts(b: &Body) -> usize {
    1 + match b {
        Body::Optional(Some(x)) => parts(x),
        Body::Array(x) | Body::Tuple(x) => x.iter().map(parts).sum(),
        Body::Map(x) => x.values().map(parts).sum(),
        Body::Enum(_, x) => parts(x),
        _ => 0,
    }
}

/// replaces one part of a body, chosen by `at` in preorder
pub fn graft(b: &mut Body, at: &mut usize, by: &Body) {
    if *at == 0 {
        *b = by.clone();
        *at = usize::MAX;
        return;
    }
    *at = at.wrapping_sub(1);
    match b {
        Body::Optional(Some(x)) => graft(x, at, by),
        Body::Array(x) | Body::Tuple(x) => {
            for e in x {
                if *at > 1 << 40 {
                    return;
                }
                graft(e, at, by);
            }
        }
        Body::Map(x) => {
            for e in x.values_mut() {
                if *at > 1 << 40 {
                    return;
                }
                graft(e, at, by);
            }
        }
        Body::Enum(_, x) => graft(x, at, by),
        _ => {}
    }
}

/// a small change that may or may not break conformance
pub fn disturb(r: &mut Rng, b: &Body, other: &Body) -> Body {
    let mut b = b.clone();
    fn walk(b: &mut Body, at: &mut usize, r: &mut Rng) {
        if *at == 0 {
            match b {
                Body::Tuple(x) | Body::Array(x) if r.one_in(2) => {
                    x.pop();
                }
                Body::Tuple(x) | Body::Array(x) => {
                    let e = x.last().cloned().unwrap_or(Body::Unit);
                    x.push(e)
                }
                Body::Optional(x) => *x = None,
                Body::Enum(i, _) => *i = i.wrapping_add(*r.pick(&[1, 2, u32::MAX, 65536, 1 << 31])),
                Body::Map(x) => {
                    x.insert("zz".into(), Body::Boolean(true));
                }
                Body::UInt8(x) => *b = Body::Int8(*x as i8),
                Body::UInt16(x) => *b = Body::UInt32(*x as u32),
                Body::UInt32(x) => *b = Body::UInt16(*x as u16),
                Body::String(x) => *b = Body::Binary(serde_bytes::ByteBuf::from(x.clone().into_bytes())),
                Body::Unit => *b = Body::Tuple(vec![]),
                _ => *b = Body::Unit,
            }
            *at = usize::MAX;
            return;
        }
        *at = at.wrapping_sub(1);
        match b {
            Body::Optional(Some(x)) => walk(x, at, r),
            Body::Array(x) | Body::Tuple(x) => {
                for e in x {
                    if *at > 1 << 40 {
                        return;
                    }
                    walk(e, at, r);
                }
            }
            Body::Map(x) => {
                for e in x.values_mut() {
                    if *at > 1 << 40 {
                        return;
                    }
                    walk(e, at, r);
                }
            }
            Body::Enum(_, x) => walk(x, at, r),
            _ => {}
        }
    }
    let n = parts(&b);
    let mut at = r.below(n);
    if r.one_in(3) {
        graft(&mut b, &mut at, other);
    } else {
        walk(&mut b, &mut at, r);
    }
    b
}

/// the header of a type, as Header.tla's HeaderOf
pub fn header_of(t: &Ty) -> Ty {
    match t.k {
        K::Enum => node(K::Enum, (0..t.variants()).map(|i| header_of(&t.variant(i))).collect()),
        K::Nt => header_of(&t.s[0]),
        K::Tup | K::St | K::Ts | K::Tv | K::Sv => node(K::Tup, t.s.iter().map(header_of).collect()),
        K::Opt | K::Seq | K::Map => node(t.k, vec![header_of(&t.s[0])]),
        k => leaf(match k {
            K::Us => K::Unit,
            K::Char => K::Str,
            K::Nbuint => K::Buint,
            K::Nbint => K::Bint,
            K::Nbdec => K::Bdec,
            K::Ndate => K::Date,
            K::Ndt => K::Dt,
            k => k,
        }),
    }
}
