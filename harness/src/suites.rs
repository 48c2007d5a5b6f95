//! What is asked of the crate under test.  Every suite is a function of its
//! seed and size, so that a run can be repeated op by op.
use crate::ctx::Ctx;
use crate::gen::*;
use crate::hdr::*;
use crate::io::*;
use crate::ty::*;
use dlhn::{DeserializeHeader, Deserializer, Header, Serializer};
use serde::de::DeserializeSeed;
use serde::Serialize;

/// an error is there to be shown, which must not fail either
pub fn shown<T, E: std::fmt::Display + std::fmt::Debug>(r: Result<T, E>) -> Option<T> {
    r.map_err(|e| format!("{e} {e:?} {e:#?}")).ok()
}
pub fn ser(t: &Ty, v: &Val) -> Option<Vec<u8>> {
    let mut b = Vec::new();
    shown(TV(t, v).serialize(&mut Serializer::new(&mut b))).map(|_| b)
}
pub fn de(t: &Ty, b: &[u8]) -> (Option<Val>, usize) {
    let mut r = Plain { data: b, pos: 0 };
    let v = shown(Seed(t).deserialize(&mut Deserializer::new(&mut r)));
    (v, r.pos)
}
pub fn hser(h: &Header) -> Option<Vec<u8>> {
    let mut b = Vec::new();
    shown(h.serialize(&mut b)).map(|_| b)
}
pub fn hde(b: &[u8]) -> (std::io::Result<Header>, usize) {
    let mut r = Plain { data: b, pos: 0 };
    let h = r.deserialize_header();
    (h, r.pos)
}

pub fn js(f: impl FnOnce(&mut String)) -> String {
    let mut o = String::new();
    f(&mut o);
    o
}
pub fn jb(b: &[u8]) -> String {
    js(|o| jbytes(b, o))
}
pub fn jt(t: &Ty) -> String {
    js(|o| jty(t, o))
}
pub fn jv(v: &Val) -> String {
    js(|o| jval(v, o))
}

/// cases written by TLC, one JSON object per line
pub fn cases(path: &str) -> Vec<serde_json::Value> {
    let f = std::fs::read_to_string(path).expect("cases");
    f.lines().filter(|l| !l.trim().is_empty()).map(|l| serde_json::from_str(l).expect("case")).collect()
}

pub fn run(c: &mut Ctx, suite: &str, seed: u64, n: usize, path: &str) {
    let mut r = Rng::new(seed, suite);
    match suite {
        "ints" => ints(c, &mut r, n),
        "intd" => intd(c, &mut r, n),
        "rt" => rt(c, &mut r, n),
        "rtleaf" => rtleaf(c, &mut r, n),
        "num" => num(c, &mut r, n),
        "time" => time(c, &mut r, n),
        "rle" => rle(c, &mut r, n),
        "dec" => dec(c, &mut r, n),
        "decleaf" => decleaf(c, &mut r, n),
        "trunc" => trunc(c, &mut r, n),
        "refuse" => refuse(c, &mut r, n),
        "hrt" => hrt(c, &mut r, n),
        "hwide" => hwide(c),
        "hfull" => hfull(c),
        "hdec" => hdec(c, &mut r, n),
        "hexh" => hexh(c, n),
        "mem" => mem(c, &mut r, n),
        "hist" => crate::hist::run(c, &mut r, n),
        "bulk" => crate::bulk::run(c, &mut r, n),
        "huge" => crate::huge::run(c, n),
        "volume" => crate::huge::volumes(c, &mut r, n),
        "cases" => run_cases(c, &mut r, path),
        "re" => re(c, &mut r, path),
        #[cfg(feature = "full")]
        "kf" => crate::real::kf(c),
        "sink" | "source" | "chan" => crate::chan::run(c, suite, &mut r, n, path),
        #[cfg(feature = "full")]
        "dyn" | "ddec" | "val" | "dtrunc" | "dmem" => crate::dynamic::run(c, suite, &mut r, n),
        #[cfg(feature = "full")]
        "stat" | "std" | "any" => crate::real::run(c, suite, &mut r, n),
        s => panic!("no suite {s}"),
    }
}

// ------------------------------------------------------------------ integers

fn int_row(k: K, v: &Val, junk: &[u8]) -> String {
    let t = leaf(k);
    let Some(b) = ser(&t, v) else { return format!("[{},[],[],0]", jv(v)) };
    let mut x = b.clone();
    x.extend_from_slice(junk);
    let (w, n) = de(&t, &x);
    let w = w.map(|w| jv(&w)).unwrap_or("[]".into());
    format!("[{},{},{},{}]", jv(v), jb(&b), w, n)
}

pub fn width(k: K) -> usize {
    match k {
        K::U8 | K::I8 => 1,
        K::U16 | K::I16 => 2,
        K::U32 | K::I32 | K::F32 => 4,
        K::U64 | K::I64 | K::F64 => 8,
        _ => 0,
    }
}

fn ints(c: &mut Ctx, r: &mut Rng, n: usize) {
    for k in INTS {
        let w = width(*k);
        let mut vals: Vec<u64> = vec![];
        if w <= 2 {
            vals.extend(0..1u64 << (8 * w));
        } else {
            for p in 0..8 * w {
                for d in 0..8u64 {
                    vals.push((1u64 << p).wrapping_add(d).wrapping_sub(4));
                    // the same edges of the zigzag image
                    let s = (1i64 << p.min(62)).wrapping_add(d as i64).wrapping_sub(4);
                    vals.push((-s) as u64);
                }
            }
            vals.extend([u64::MAX, u64::MAX / 2, u64::MAX / 2 + 1]);
            // every byte position, alone and with its neighbours filled
            for i in 0..w {
                for x in [1u64, 0x55, 0x7f, 0x80, 0xaa, 0xff] {
                    vals.push(x << (8 * i));
                    vals.push((x << (8 * i)) | ((1u64 << (8 * i)) - 1));
                    vals.push(!(x << (8 * i)));
                }
            }
            for _ in 0..n {
                vals.push(int_bits(r, 8 * w as u32));
            }
        }
        for ch in vals.chunks(if w <= 2 { 512 } else { 64 }) {
            let v: Vec<Val> = ch.iter().map(|x| Val::Raw(x.to_le_bytes()[..w].to_vec())).collect();
            let junk = [r.next() as u8, 0xff, 0];
            c.op(format!("\"o\":\"ints\",\"k\":\"{}\"", k.name()), || {
                let rows: Vec<String> = v.iter().map(|v| int_row(*k, v, &junk)).collect();
                format!(",\"rows\":[{}]", rows.join(","))
            });
        }
    }
}

fn intd(c: &mut Ctx, r: &mut Rng, n: usize) {
    for k in INTS {
        let w = width(*k);
        let mut ins: Vec<Vec<u8>> = vec![vec![]];
        for a in 0..=255u8 {
            ins.push(vec![a]);
        }
        if w == 2 {
            for a in 0..=255u8 {
                for b in 0..=255u8 {
                    // all two-byte strings once; k picks what may follow
                    ins.push(if *k == K::U16 { vec![a, b, 7] } else { vec![a, b] });
                }
            }
        }
        if w >= 2 {
            for a in 0..=255u8 {
                for l in 0..w + 2 {
                    let mut b = vec![a];
                    b.extend(r.bytes(l));
                    ins.push(b);
                }
                let x = r.pick(&[0u8, 0xff, 0x80, 0x7f, 1]).to_owned();
                let mut b = vec![a];
                b.extend(std::iter::repeat_n(x, w));
                ins.push(b);
            }
            for _ in 0..n {
                let l = r.below(w + 3);
                ins.push(soup(r, l));
            }
        }
        for ch in ins.chunks(if w <= 2 { 256 } else { 64 }) {
            c.op(format!("\"o\":\"intd\",\"k\":\"{}\"", k.name()), || {
                let rows: Vec<String> = ch
                    .iter()
                    .map(|b| {
                        let (v, p) = de(&leaf(*k), b);
                        match v {
                            Some(v) => format!("[{},1,{},{}]", jb(b), jv(&v), p),
                            None => format!("[{},0,[],0]", jb(b)),
                        }
                    })
                    .collect();
                format!(",\"rows\":[{}]", rows.join(","))
            });
        }
    }
}

// ---------------------------------------------------------------- round trip

/// What went wrong before must not matter: a write that fails and a read that
/// ends early, and nothing is made of their outcome here.
fn stumble(t: &Ty, v: &Val, b: &[u8], cut: usize) {
    if b.is_empty() {
        return;
    }
    let mut room = vec![0u8; cut % b.len()];
    let mut sink = room.as_mut_slice();
    let _ = TV(t, v).serialize(&mut Serializer::new(&mut sink));
    let _ = de(t, &b[..cut / 7 % b.len()]);
}

pub fn one_rt(c: &mut Ctx, r: &mut Rng, t: &Ty, v: &Val) {
    let jl = r.below(4);
    let junk = r.bytes(jl);
    let (bt, bv) = (leaf(K::U32), Val::raw((r.next() as u32 >> r.below(32)).to_le_bytes()));
    let cut = r.below(1 << 16);
    c.op(format!("\"o\":\"rt\",\"t\":{},\"v\":{}", jt(t), jv(v)), || {
        let Some(b) = ser(t, v) else {
            return ",\"s\":0".into();
        };
        stumble(t, v, &b, cut);
        // once more, through a serializer that has been used before
        let mut b2 = Vec::new();
        let mut s = Serializer::new(&mut b2);
        TV(&bt, &bv).serialize(&mut s).expect("u32");
        let _ = TV(t, v).serialize(&mut s);
        TV(&bt, &bv).serialize(&mut s).expect("u32");
        let e = ser(&bt, &bv).unwrap();
        let mut want = e.clone();
        want.extend_from_slice(&b);
        want.extend_from_slice(&e);
        let same = (b2 == want) as u8;
        let mut x = b.clone();
        x.extend_from_slice(&junk);
        let (w, n) = de(t, &x);
        match w {
            None => format!(",\"s\":1,\"b\":{},\"same\":{same},\"d\":0", jb(&b)),
            Some(w) => format!(",\"s\":1,\"b\":{},\"same\":{same},\"d\":1,\"w\":{},\"n\":{n}", jb(&b), jv(&w)),
        }
    });
}

fn rt(c: &mut Ctx, r: &mut Rng, n: usize) {
    for i in 0..n {
        let t = if i % 8 == 0 { enum_ty(r, 2) } else { ty(r, 1 + i % 4) };
        for _ in 0..2 {
            let v = val(r, &t, false, i % 3 == 0);
            if v.size() < 3000 {
                one_rt(c, r, &t, &v);
            }
        }
    }
}

/// strings with one of the special characters at an end or in the middle
fn special() -> Vec<String> {
    let mut v = vec![];
    for ch in SPECIAL {
        for l in [0usize, 1, 124, 125, 126, 127, 128, 300] {
            let x = "x".repeat(l);
            v.push(format!("{ch}{x}"));
            v.push(format!("{x}{ch}"));
            v.push(format!("{x}{ch}{x}"));
        }
    }
    v
}

fn rtleaf(c: &mut Ctx, r: &mut Rng, n: usize) {
    for k in leaves() {
        let t = leaf(k);
        for i in 0..n {
            let v = val(r, &t, false, i % 2 == 0);
            one_rt(c, r, &t, &v);
        }
    }
    for k in INTS {
        for (t, v) in [
            (node(K::Opt, vec![leaf(*k)]), Val::Opt(None)),
            (node(K::Opt, vec![leaf(*k)]), Val::Opt(Some(Box::new(val(r, &leaf(*k), false, false))))),
            (node(K::Seq, vec![leaf(*k)]), Val::List(vec![])),
        ] {
            one_rt(c, r, &t, &v);
        }
    }
    // every length around the first step of the length varint, and the string cut-over
    for l in [0usize, 1, 63, 64, 65, 125, 126, 127, 128, 129, 130, 255, 256, 257] {
        for ch in ['a', '\u{7f}', 'é', '日', '\u{10ffff}'] {
            let s: String = std::iter::repeat_n(ch, l / ch.len_utf8()).chain(std::iter::repeat_n('z', l % ch.len_utf8())).collect();
            one_rt(c, r, &leaf(K::Str), &Val::Str(s));
        }
        one_rt(c, r, &leaf(K::Bytes), &Val::Bytes((0..l).map(|i| (i * 7) as u8).collect()));
        let t = node(K::Seq, vec![leaf(K::U8)]);
        one_rt(c, r, &t, &Val::List((0..l).map(|i| Val::Raw(vec![(i * 5) as u8])).collect()));
        let t = node(K::Seq, vec![leaf(K::Unit)]);
        one_rt(c, r, &t, &Val::List(vec![Val::Unit; l]));
        let t = node(K::Map, vec![leaf(K::U8)]);
        one_rt(c, r, &t, &Val::Map((0..l).map(|i| (Val::Str(format!("{i}")), Val::Raw(vec![i as u8]))).collect()));
    }
    for s in special() {
        one_rt(c, r, &leaf(K::Str), &Val::Str(s));
    }
    for x in SPECIAL {
        one_rt(c, r, &leaf(K::Char), &Val::Char(*x));
    }
    // every scalar plane edge as a char
    for x in [0u32, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1ffff, 0x20000, 0xfffff, 0x100000, 0x10ffff] {
        one_rt(c, r, &leaf(K::Char), &Val::Char(char::from_u32(x).unwrap()));
    }
    // enum indexes
    let payloads = [
        (leaf(K::Unit), Val::Unit),
        (leaf(K::U8), Val::Raw(vec![9])),
        (node(K::Tv, vec![leaf(K::U8), leaf(K::Str)]), Val::List(vec![Val::Raw(vec![200]), Val::Str("ab".into())])),
        (node(K::Sv, vec![leaf(K::Bool), leaf(K::U8)]), Val::List(vec![Val::Bool(true), Val::Raw(vec![1])])),
        (node(K::Tv, vec![]), Val::List(vec![])),
        (node(K::Sv, vec![]), Val::List(vec![])),
        (leaf(K::Us), Val::Unit),
    ];
    for (p, x) in payloads {
        let t = Ty { k: K::Enum, s: vec![p], n: usize::MAX >> 34 };
        for i in [0u32, 1, 126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385, 65535, 65536, 2097151, 2097152, 268435455, 268435456] {
            one_rt(c, r, &t, &Val::Enum(i, Box::new(x.clone())));
        }
    }
}

// ------------------------------------------------------------- numbers, time

/// the crate's type and the native helper side by side
fn num(c: &mut Ctx, r: &mut Rng, n: usize) {
    let _ = (&c, &r, n);
    #[cfg(all(feature = "num-traits", feature = "num-bigint"))]
    {
        let have = leaves();
        let both = |c: &mut Ctx, r: &mut Rng, a: K, b: K, v: &Val| {
            if have.contains(&a) {
                one_rt(c, r, &leaf(a), v);
                one_rt(c, r, &leaf(b), v);
            }
        };
        // all one-byte and many two-byte digit strings
        for x in 0..=255u8 {
            let v = if x == 0 { vec![] } else { vec![x] };
            both(c, r, K::Buint, K::Nbuint, &Val::Big(v.clone()));
            both(c, r, K::Bint, K::Nbint, &Val::Big(v));
            for y in [1u8, 0x7f, 0x80, 0xfe, 0xff] {
                both(c, r, K::Buint, K::Nbuint, &Val::Big(vec![x, y]));
                if !(y == 0xff && x >= 0x80) {
                    both(c, r, K::Bint, K::Nbint, &Val::Big(vec![x, y]));
                }
            }
            if x < 0x80 && x > 0 {
                // numbers that need a sign byte
                both(c, r, K::Bint, K::Nbint, &Val::Big(vec![x | 0x80, 0]));
            }
        }
        for i in 0..n {
            let (u, s) = (big_digits(r, false), big_digits(r, true));
            both(c, r, K::Buint, K::Nbuint, &Val::Big(u));
            both(c, r, K::Bint, K::Nbint, &Val::Big(s));
            let (d, e) = (dec_digits(r), scale(r));
            both(c, r, K::Bdec, K::Nbdec, &Val::Dec(d.clone(), e));
            // the same number with more trailing zeros
            if let (true, Some(e2)) = (i % 2 == 0 && d.len() < 20 && !d.is_empty(), e.checked_add(1)) {
                let ten: num_bigint::BigInt = num_bigint::BigInt::from_signed_bytes_le(&d) * 10;
                both(c, r, K::Bdec, K::Nbdec, &Val::Dec(ten.to_signed_bytes_le(), e2));
            }
        }
        // small decimals against every trailing-zero count
        for x in [1i64, -1, 7, -7, 10, 12, 99, 120, -120, 128, -128, 255, 256, 1000, 32767, -32768, i64::MAX] {
            for z in 0..4u32 {
                for e in [0i64, 1, 2, 3, -1, -2, 63, 64, -64, -65, 8191, 8192] {
                    let d = (num_bigint::BigInt::from(x) * num_bigint::BigInt::from(10).pow(z)).to_signed_bytes_le();
                    both(c, r, K::Bdec, K::Nbdec, &Val::Dec(d, e + z as i64));
                }
            }
        }
        // every length, with every kind of top digit over every kind of rest
        for l in (1usize..=80).chain([95, 96, 97, 127, 128, 129, 255, 256, 257]) {
            for (i, top) in [1u8, 0x7f, 0x80, 0xfe, 0xff, 0x55].iter().enumerate() {
                let mut d = match (l + i) % 3 {
                    0 => vec![0u8; l],
                    1 => vec![0xff; l],
                    _ => r.bytes(l),
                };
                d[l - 1] = *top;
                if l < 2 || !(*top == 0xff && d[l - 2] >= 0x80) {
                    both(c, r, K::Bint, K::Nbint, &Val::Big(d.clone()));
                }
                if *top >= 0x80 {
                    let mut e = d.clone();
                    e.push(0);
                    both(c, r, K::Bint, K::Nbint, &Val::Big(e.clone()));
                    if l < 30 {
                        both(c, r, K::Bdec, K::Nbdec, &Val::Dec(e, l as i64));
                    }
                }
                both(c, r, K::Buint, K::Nbuint, &Val::Big(d));
            }
        }
        // powers of ten and of five: as many trailing zeros as digits, or none
        for z in (0..40u32).chain([60, 99]) {
            for (m, base) in [(1i64, 10u32), (-3, 10), (1, 5), (-1, 5)] {
                let d = (num_bigint::BigInt::from(m) * num_bigint::BigInt::from(base).pow(z)).to_signed_bytes_le();
                both(c, r, K::Bdec, K::Nbdec, &Val::Dec(d, z as i64 / 2));
            }
        }
        // as many trailing zeros as anybody has
        for (i, z) in [20u32, 99, 100, 255, 256, 300, 512, 999, 1000, 1001, 1024, 1500, 2500, 4100].into_iter().enumerate() {
            if z > 1500 && n < 200 {
                continue;
            }
            for m in [1i64, -3, r.next() as i64 | 1] {
                let e = [0i64, -(z as i64), 7, scale(r) / 2][i % 4];
                tens(c, m, z, e);
            }
        }
        // zero at every scale
        for e in [0i64, 1, -1, 5, i64::MIN, i64::MAX] {
            both(c, r, K::Bdec, K::Nbdec, &Val::Dec(vec![], e));
        }
        let lengths = [90usize, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 8192, 16_384, 65_535, 65_536, 100_000];
        for len in &lengths[..if n < 200 { 13 } else { lengths.len() }] {
            for _ in 0..2 + n / 400 {
                long_number(c, r, *len);
            }
        }
        if n > 1000 {
            long_number(c, r, 1 << 20);
            long_number(c, r, 3_000_000);
        }
        #[cfg(feature = "full")]
        crate::real::in_place_numbers(c, r, 30 + n / 10);
        // bytes: both read them, and read the same
        for i in 0..n {
            let l = r.below(6);
            let d = match i % 4 {
                0 => soup(r, l),
                1 => {
                    let mut d = r.bytes(l);
                    d.extend(vec![*r.pick(&[0u8, 0xff]); r.below(3)]);
                    d
                }
                _ => r.bytes(l),
            };
            let mut b = vec![d.len() as u8];
            b.extend_from_slice(&d);
            let tail = match i % 3 {
                0 => r.bytes(3),
                1 => ser(&leaf(K::I64), &Val::raw(scale(r).to_le_bytes())).unwrap(),
                _ => vec![],
            };
            b.extend(tail);
            for k in [K::Buint, K::Nbuint, K::Bint, K::Nbint, K::Bdec, K::Nbdec] {
                if have.contains(&k) {
                    one_dec(c, &leaf(k), &b);
                }
            }
        }
    }
}

fn time(c: &mut Ctx, r: &mut Rng, n: usize) {
    let _ = (&c, &r, n);
    #[cfg(feature = "time")]
    {
        let both = |c: &mut Ctx, r: &mut Rng, a: K, b: K, v: &Val| {
            one_rt(c, r, &leaf(a), v);
            one_rt(c, r, &leaf(b), v);
        };
        for i in 0..n {
            let (d, t) = (date(r), instant(r));
            both(c, r, K::Date, K::Ndate, &Val::Date(Some(d)));
            both(c, r, K::Dt, K::Ndt, &Val::Dt(Some(t)));
            // an offset must not change the instant
            let off = (r.below(2 * 64800) as i32 - 64800).clamp(-64799, 64799);
            one_offset(c, t, off);
            // any bytes
            let k = [K::Date, K::Ndate, K::Dt, K::Ndt][i % 4];
            let (y, o) = match k {
                K::Date | K::Ndate => {
                    let y = match r.below(3) {
                        0 => int_bits(r, 32) as i32,
                        1 => r.pick(&[-11999i32, -12000, -11998, 7999, 8000, 7998, i32::MAX, i32::MIN, i32::MAX - 1999, i32::MAX - 2000, -2147481648]).to_owned(),
                        _ => date(r).0 - 2000,
                    };
                    let o = match r.below(3) {
                        0 => int_bits(r, 16) as u16,
                        1 => *r.pick(&[363u16, 364, 365, 366, 65534, 65535, 0]),
                        _ => r.below(366) as u16,
                    };
                    (ser(&leaf(K::I32), &Val::raw(y.to_le_bytes())), ser(&leaf(K::U16), &Val::raw(o.to_le_bytes())))
                }
                _ => {
                    let s = match r.below(4) {
                        0 => int_bits(r, 64) as i64,
                        1 => *r.pick(&[MIN_SECS, MIN_SECS - 1, MAX_SECS, MAX_SECS + 1, MIN_SECS - 4, MAX_SECS - 3, i64::MIN, i64::MAX, i64::MAX - 3]),
                        _ => instant(r).0,
                    };
                    let f = match r.below(3) {
                        0 => int_bits(r, 32) as u32,
                        1 => *r.pick(&[999_999_999u32, 1_000_000_000, 1_000_000_001, 1_999_999_999, 2_000_000_000, 3_999_999_999, 4_000_000_000, u32::MAX]),
                        _ => instant(r).1,
                    };
                    (ser(&leaf(K::I64), &Val::raw(s.to_le_bytes())), ser(&leaf(K::U32), &Val::raw(f.to_le_bytes())))
                }
            };
            let mut b = y.unwrap();
            b.extend(o.unwrap());
            one_dec(c, &leaf(k), &b);
            let k2 = [K::Ndate, K::Date, K::Ndt, K::Dt][i % 4];
            one_dec(c, &leaf(k2), &b);
            let l = r.below(10);
            let m = soup(r, l);
            one_dec(c, &leaf(k), &m);
        }
        // every day of the years around the rules
        for y in [-9999, -9996, -400, -100, -4, -1, 0, 1, 4, 100, 400, 1900, 1999, 2000, 2001, 2004, 2100, 9996, 9999] {
            for o in [1u16, 2, 58, 59, 60, 61, 127, 128, 129, 130, 255, 256, 363, 364, 365, 366] {
                let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
                if o <= if leap { 366 } else { 365 } {
                    both(c, r, K::Date, K::Ndate, &Val::Date(Some((y, o))));
                }
            }
        }
        for s in [MIN_SECS, MIN_SECS + 1, MAX_SECS, MAX_SECS - 1, -1, 0, 1, -2, -62135596800, -86400, -86399, 946684799] {
            for f in [0u32, 1, 2, 127, 128, 500_000_000, 999_999_998, 999_999_999] {
                both(c, r, K::Dt, K::Ndt, &Val::Dt(Some((s, f))));
            }
        }
        // the ends of the local years, where UTC is in another year or in none
        for off in [1i32, 59, 60, 3600, 18000, 64799] {
            for d in [0i64, 1, off as i64 - 1, off as i64, off as i64 + 1] {
                for f in [0u32, 1, 999_999_999] {
                    one_offset(c, (MIN_SECS - off as i64 + d, f), off);
                    one_offset(c, (MAX_SECS + off as i64 - d, f), -off);
                    one_offset(c, (d, f), off);
                    one_offset(c, (-d, f), -off);
                }
            }
        }
        #[cfg(feature = "full")]
        crate::real::in_place_times(c, r, 40 + n / 10);
    }
}

/// the instant seen from another offset
#[cfg(feature = "time")]
fn one_offset(c: &mut Ctx, (s, n): (i64, u32), off: i32) {
    // the local year must stay within the native range; the one in UTC may not
    if !(MIN_SECS <= s + off as i64 && s + off as i64 <= MAX_SECS) {
        return;
    }
    let v = Val::Dt(Some((s, n)));
    for k in [K::Dt, K::Ndt] {
        c.op(format!("\"o\":\"off\",\"t\":{},\"v\":{},\"off\":{off}", jt(&leaf(k)), jv(&v)), || {
            let o = time::UtcOffset::from_whole_seconds(off).unwrap();
            let l = tm::dt(s + off as i64, n);
            let d = time::PrimitiveDateTime::new(l.date(), l.time()).assume_offset(o);
            let mut b = Vec::new();
            let mut z = Serializer::new(&mut b);
            let r = if k == K::Dt {
                dlhn::DateTime::from(d).serialize(&mut z)
            } else {
                dlhn::format::date_time::serialize(&d, &mut z)
            };
            format!(",\"s\":{},\"b\":{}", r.is_ok() as u8, jb(&b))
        });
    }
}

// ------------------------------------------------------- long strings, bytes

/// content as runs: [[byte, count], ...]
fn runs(b: &[u8]) -> String {
    let mut o = String::from("[");
    let mut i = 0;
    while i < b.len() {
        let j = b[i..].iter().position(|x| *x != b[i]).map_or(b.len(), |p| i + p);
        if i > 0 {
            o.push(',');
        }
        o.push_str(&format!("[{},{}]", b[i], j - i));
        i = j;
    }
    o.push(']');
    o
}

/// Numbers of many digits, as runs: written, read back, and read from the
/// digits as they are (with what a canonical form leaves out).
#[cfg(all(feature = "num-traits", feature = "num-bigint"))]
/// m times ten to the z, with the scale e + z: the number of m with the scale e
#[cfg(all(feature = "num-traits", feature = "num-bigint"))]
fn tens(c: &mut Ctx, m: i64, z: u32, e: i64) {
    let m = num_bigint::BigInt::from(m);
    for k in [K::Bdec, K::Nbdec] {
        if !leaves().contains(&k) {
            continue;
        }
        c.op(format!("\"o\":\"tens\",\"k\":\"{}\",\"m\":{},\"sc\":{},\"z\":{z}", k.name(), jb(&m.to_signed_bytes_le()), jb(&e.to_le_bytes())), || {
            let d = (&m * num_bigint::BigInt::from(10).pow(z)).to_signed_bytes_le();
            let Some(b) = ser(&leaf(k), &Val::Dec(d, e + z as i64)) else { return ",\"s\":0".into() };
            let (w, _) = de(&leaf(k), &b);
            let (ok, d, s) = match w {
                Some(Val::Dec(d, s)) => (1, d, s),
                _ => (0, vec![], 0),
            };
            format!(",\"s\":1,\"b\":{},\"d\":{ok},\"w\":[{},{}]", jb(&b), jb(&d), jb(&s.to_le_bytes()))
        });
    }
}

fn long_number(c: &mut Ctx, r: &mut Rng, len: usize) {
    let mut d = Vec::with_capacity(len);
    while d.len() < len {
        let m = (*r.pick(&[1usize, 1, 2, 7, 255, 256, 1000, 4096, len / 2 + 1])).min(len - d.len());
        let any = r.next() as u8;
        let x = *r.pick(&[0u8, 0, 1, 3, 0x7f, 0x80, 0xfe, 0xff, 0xff, any]);
        d.extend(std::iter::repeat_n(x, m));
    }
    let sc = scale(r);
    for k in [K::Buint, K::Nbuint, K::Bint, K::Nbint, K::Bdec, K::Nbdec] {
        if !leaves().contains(&k) {
            continue;
        }
        let dec = matches!(k, K::Bdec | K::Nbdec);
        let sc = sc.to_le_bytes();
        c.op(format!("\"o\":\"bigrun\",\"k\":\"{}\",\"c\":{},\"sc\":{}", k.name(), runs(&d), jb(&sc)), || {
            let t = leaf(k);
            let v = if dec { Val::Dec(d.clone(), i64::from_le_bytes(sc)) } else { Val::Big(d.clone()) };
            let Some(e) = ser(&t, &v) else { return ",\"s\":0".into() };
            let read = |b: &[u8], no: &str| -> (String, usize) {
                let mut b = b.to_vec();
                b.extend([1, 2, 3]);
                let (w, n) = de(&t, &b);
                let (ok, w, ws) = match w {
                    Some(Val::Big(w)) => (1, w, 0),
                    Some(Val::Dec(w, s)) => (1, w, s),
                    _ => (0, vec![], 0),
                };
                (format!(",\"d{no}\":{ok},\"w{no}\":{},\"ws{no}\":{}", runs(&w), jb(&ws.to_le_bytes())), n)
            };
            let (first, n) = read(&e, "");
            let mut raw = ser(&leaf(K::Bytes), &Val::Bytes(d.clone())).unwrap();
            if dec {
                raw.extend(ser(&leaf(K::I64), &Val::raw(sc)).unwrap());
            }
            let (second, _) = read(&raw, "2");
            format!(",\"s\":1,\"e\":{}{first},\"n\":{n}{second}", runs(&e))
        });
    }
}

fn rle(c: &mut Ctx, r: &mut Rng, n: usize) {
    let mut sizes = vec![
        126usize, 127, 128, 129, 255, 256, 1023, 1024, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 12288, 12289,
        16383, 16384, 16385, 65535, 65536, 65537, 100_000, 131_072, 131_073,
    ];
    for _ in 0..n {
        sizes.push(int_bits(r, 18) as usize);
    }
    if n > 100 {
        sizes.extend([2_097_151, 2_097_152, 2_097_153, 3_000_000]);
    }
    for total in sizes {
        for k in [K::Str, K::Bytes] {
            // runs that end on and around the multiples of 4096
            let mut b = Vec::with_capacity(total);
            let mut x = 97u8;
            if r.one_in(4) {
                // or one run of it
                b = vec![*r.pick(if k == K::Str { &[0, 32, 48, 97, 127] } else { &[0, 0, 1, 128, 255] }); total];
            }
            while b.len() < total {
                let edge = *r.pick(&[1usize, 5, 127, 128, 1000, 4095, 4096, 4096, 4097]);
                let m = edge.min(total - b.len());
                b.extend(std::iter::repeat_n(x, m));
                x = if x >= 120 { 97 } else { x + 1 };
            }
            let cut = *r.pick(&[1usize, 2, 100, 4096, 4097]);
            c.op(format!("\"o\":\"rle\",\"k\":\"{}\",\"c\":{}", k.name(), runs(&b)), || {
                let t = leaf(k);
                let v = if k == K::Str {
                    Val::Str(String::from_utf8(b.clone()).unwrap())
                } else {
                    Val::Bytes(b.clone())
                };
                let Some(e) = ser(&t, &v) else { return ",\"s\":0".into() };
                if e.len() < total {
                    return format!(",\"s\":1,\"h\":[],\"e\":{},\"d\":0", runs(&e));
                }
                let (h, body) = e.split_at(e.len() - total);
                let mut data = e.clone();
                data.extend([1, 2, 3]);
                let (w, n) = de(&t, &data);
                let (w, d) = match w {
                    Some(Val::Str(s)) => (s.into_bytes(), 1),
                    Some(Val::Bytes(s)) => (s, 1),
                    _ => (vec![], 0),
                };
                let (q, _) = de(&t, &e[..e.len().saturating_sub(cut)]);
                format!(
                    ",\"s\":1,\"h\":{},\"e\":{},\"d\":{d},\"w\":{},\"n\":{n},\"q\":{}",
                    jb(h), runs(body), runs(&w), q.is_some() as u8
                )
            });
        }
    }
}

// ----------------------------------------------------------- arbitrary bytes

pub fn one_dec(c: &mut Ctx, t: &Ty, b: &[u8]) {
    c.op(format!("\"o\":\"dec\",\"t\":{},\"b\":{}", jt(t), jb(b)), || {
        let (v, n) = de(t, b);
        match v {
            Some(v) => format!(",\"r\":1,\"w\":{},\"n\":{n}", jv(&v)),
            None => ",\"r\":0".into(),
        }
    });
}

fn dec(c: &mut Ctx, r: &mut Rng, n: usize) {
    for i in 0..n {
        let t = if i % 6 == 0 { enum_ty(r, 1) } else { ty(r, 1 + i % 3) };
        if t.has_zero_width_seq() {
            continue;
        }
        let v = val(r, &t, false, false);
        if v.size() > 400 {
            continue;
        }
        if let Some(e) = ser(&t, &v) {
            for _ in 0..3 {
                let b = mutate(r, &e);
                one_dec(c, &t, &b);
            }
        }
        let l = r.below(24);
        let b = soup(r, l);
        one_dec(c, &t, &b);
    }
}

/// the content rules one by one
fn decleaf(c: &mut Ctx, r: &mut Rng, n: usize) {
    for s in special() {
        let mut b = ser(&leaf(K::U64), &Val::raw((s.len() as u64).to_le_bytes())).unwrap();
        b.extend(s.as_bytes());
        one_dec(c, &leaf(K::Str), &b);
        one_dec(c, &leaf(K::Char), &b);
    }
    // tags
    for x in 0..=255u8 {
        for t in [leaf(K::Bool), node(K::Opt, vec![leaf(K::U8)]), node(K::Opt, vec![leaf(K::Unit)]), node(K::Opt, vec![leaf(K::Bool)])] {
            one_dec(c, &t, &[x]);
            one_dec(c, &t, &[x, x]);
            one_dec(c, &t, &[x, 1]);
        }
    }
    // strings and chars: every 1-byte, chosen 2, 3, 4-byte contents, on both
    // sides of the length at which the implementation changes its method
    let edge: Vec<u8> = vec![0, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec,
        0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xff];
    let mut contents: Vec<Vec<u8>> = vec![vec![]];
    contents.extend((0..=255u8).map(|x| vec![x]));
    for a in &edge {
        for b in &edge {
            contents.push(vec![*a, *b]);
        }
    }
    for _ in 0..n {
        for l in [3usize, 4, 5] {
            contents.push((0..l).map(|_| *r.pick(&edge)).collect());
        }
        // valid characters, whole and clipped, one or two of them
        let mut s = string(r, 1).into_bytes();
        if r.one_in(3) {
            s.extend(string(r, 1).into_bytes());
        }
        if r.one_in(3) {
            s.pop();
        }
        if r.one_in(4) && !s.is_empty() {
            let i = r.below(s.len());
            s[i] ^= 1 << r.below(8);
        }
        contents.push(s);
    }
    for (i, x) in contents.iter().enumerate() {
        let framed = |pre: usize, x: &[u8], post: usize| {
            let mut v = vec![b'a'; pre];
            v.extend_from_slice(x);
            v.extend(vec![b'b'; post]);
            let mut b = ser(&leaf(K::U64), &Val::raw((v.len() as u64).to_le_bytes())).unwrap();
            b.extend(v);
            b
        };
        one_dec(c, &leaf(K::Str), &framed(0, x, 0));
        one_dec(c, &leaf(K::Char), &framed(0, x, 0));
        if i % 3 == 0 {
            one_dec(c, &leaf(K::Str), &framed(127 - x.len().min(127), x, 0));
            one_dec(c, &leaf(K::Str), &framed(128 - x.len().min(128), x, 0));
            one_dec(c, &leaf(K::Str), &framed(126, x, 3));
            one_dec(c, &leaf(K::Str), &framed(1, x, 1));
            let mut m = vec![1u8];
            m.extend(framed(0, x, 0));
            m.push(5);
            one_dec(c, &node(K::Map, vec![leaf(K::U8)]), &m);
        }
    }
    // variant indexes: each near every edge, in every form
    for (nv, big) in [(1usize, 0), (2, 0), (3, 0), (3, 127), (3, 128), (2, 200), (2, 16384), (2, 65535), (2, 65536), (2, 65537), (2, 100_000)] {
        let t = Ty { k: K::Enum, s: (0..nv).map(|i| if i == 0 { leaf(K::U8) } else { leaf(K::Unit) }).collect(), n: big };
        let m = t.variants() as u32;
        for base in [0u32, m, 128, 256, 16384, 65536, 65536 + 1, 1 << 24, 1 << 31, u32::MAX] {
            for d in [-2i64, -1, 0, 1, 2] {
                let i = (base as i64 + d).clamp(0, u32::MAX as i64) as u32;
                let mut b = ser(&leaf(K::U32), &Val::raw(i.to_le_bytes())).unwrap();
                b.extend([7, 7]);
                one_dec(c, &t, &b);
            }
        }
        for _ in 0..n / 4 {
            let i = int_bits(r, 32) as u32;
            let mut b = ser(&leaf(K::U32), &Val::raw(i.to_le_bytes())).unwrap();
            b.extend([1, 1]);
            one_dec(c, &t, &b);
        }
    }
    // lengths that promise more than there is
    for k in [K::Str, K::Bytes, K::Char, K::Seq, K::Map, K::Buint, K::Bint, K::Bdec, K::Nbuint, K::Nbdec] {
        if !leaves().contains(&k) && k != K::Seq && k != K::Map {
            continue;
        }
        let t = match k {
            K::Seq | K::Map => node(k, vec![leaf(K::U8)]),
            k => leaf(k),
        };
        for p in 0..64u32 {
            for d in [-1i64, 0, 1] {
                let l = ((1u64 << p) as i64).wrapping_add(d) as u64;
                let mut b = ser(&leaf(K::U64), &Val::raw(l.to_le_bytes())).unwrap();
                b.extend(vec![b'a'; r.below(6)]);
                one_dec(c, &t, &b);
            }
        }
        // and close below the largest ones, where arithmetic on them wraps
        for top in [u64::MAX, u64::MAX >> 1, u32::MAX as u64, (u32::MAX >> 1) as u64] {
            for d in [0u64, 1, 2, 3, 4, 7, 8, 15, 16, 63, 127, 255, 1023, 2047, 4093, 4094, 4095, 4096, 4097, 8191, 65535] {
                let mut b = ser(&leaf(K::U64), &Val::raw((top - d).to_le_bytes())).unwrap();
                b.extend(vec![b'a'; r.below(6)]);
                one_dec(c, &t, &b);
            }
        }
    }
}

// -------------------------------------------------------- truncated, failing

fn trunc(c: &mut Ctx, r: &mut Rng, n: usize) {
    let one = |c: &mut Ctx, r: &mut Rng, t: &Ty, v: &Val| {
        let kinds: Vec<usize> = (0..8).map(|_| r.below(2 * KINDS.len())).collect();
        c.op(format!("\"o\":\"trunc\",\"t\":{},\"v\":{}", jt(t), jv(v)), || {
            let Some(b) = ser(t, v) else { return ",\"s\":0".into() };
            let mut rows = vec![];
            for k in 0..b.len() {
                // the source ends after k bytes; fails there; and both with
                // bytes trickling in one at a time
                let (e, _) = de(t, &b[..k]);
                let f = kinds[k % kinds.len()];
                let mut src = Source {
                    script: Script::new(
                        if k == 0 { vec![Ans::Fail(f)] } else { vec![] },
                        Ans::Some(1),
                    ),
                    data: &b[..k],
                    pos: 0,
                    log: vec![],
                };
                src.script.steps = vec![Ans::Some(1); k];
                src.script.rest = Ans::Fail(f);
                let g = Seed(t).deserialize(&mut Deserializer::new(&mut src)).is_ok();
                rows.push(format!("[{k},{},{}]", e.is_some() as u8, g as u8));
            }
            format!(",\"s\":1,\"b\":{},\"rows\":[{}]", jb(&b), rows.join(","))
        });
    };
    for k in leaves() {
        let mut i = 0;
        while i < 6 + n / 60 {
            i += 1;
            let v = val(r, &leaf(k), false, i % 4 == 3);
            one(c, r, &leaf(k), &v);
        }
    }
    for l in [1usize, 2, 126, 127, 128, 129, 200] {
        one(c, r, &leaf(K::Str), &Val::Str("é".repeat(l / 2) + if l % 2 == 1 { "a" } else { "" }));
        one(c, r, &leaf(K::Bytes), &Val::Bytes(vec![0; l]));
    }
    for i in 0..n {
        let t = ty(r, 1 + i % 3);
        let v = val(r, &t, false, false);
        if v.size() < 200 {
            one(c, r, &t, &v);
        }
    }
    // headers
    for _ in 0..n {
        let h = header(r, 3);
        let f = r.below(2 * KINDS.len());
        c.op(format!("\"o\":\"htrunc\",\"h\":{}", jt(&h)), || {
            let Some(b) = hser(&to_header(&h)) else { return ",\"s\":0".into() };
            let mut rows = vec![];
            for k in 0..b.len() {
                let (e, _) = hde(&b[..k]);
                let mut src = Source {
                    script: Script::new(vec![Ans::Some(1); k], Ans::Fail(f)),
                    data: &b[..k],
                    pos: 0,
                    log: vec![],
                };
                let g = src.deserialize_header().is_ok();
                rows.push(format!("[{k},{},{}]", e.is_ok() as u8, g as u8));
            }
            format!(",\"s\":1,\"b\":{},\"rows\":[{}]", jb(&b), rows.join(","))
        });
    }
}

// ------------------------------------------------------------------- refusal

pub fn refuse_ty(r: &mut Rng, depth: usize) -> Ty {
    if depth == 0 || r.one_in(4) {
        let bad = [K::U128, K::I128];
        return match r.below(3) {
            0 => leaf(*r.pick(&bad)),
            _ => {
                let l = leaves();
                leaf(*r.pick(&l))
            }
        };
    }
    let d = depth - 1;
    match r.below(9) {
        0 => node(K::Opt, vec![refuse_ty(r, d)]),
        1 => node(K::Seq, vec![refuse_ty(r, d)]),
        2 => node(K::SeqX, vec![refuse_ty(r, d)]),
        3 => node(K::Map, vec![refuse_ty(r, d)]),
        4 => node(K::MapX, vec![refuse_ty(r, d)]),
        5 => {
            let k = key_ty(r, 1);
            node(K::MapK, vec![refuse_ty(r, d), k])
        }
        6 => node(K::Nt, vec![refuse_ty(r, d)]),
        _ => {
            let n = 1 + r.below(3);
            node(*r.pick(&[K::Tup, K::St, K::Ts]), (0..n).map(|_| refuse_ty(r, d)).collect())
        }
    }
}

/// a type for map keys: anything but a string
fn key_ty(r: &mut Rng, d: usize) -> Ty {
    loop {
        let t = match r.below(6) {
            0 => leaf(*r.pick(&[K::U128, K::I128])),
            1 => node(K::SeqX, vec![leaf(K::U8)]),
            2 => node(K::MapX, vec![leaf(K::U8)]),
            3 => node(K::Ts, vec![leaf(K::Str)]),
            _ => ty(r, d),
        };
        // a newtype around a string may or may not count as one
        if t.k != K::Nt && t.k != K::Str {
            return t;
        }
    }
}

fn refuse(c: &mut Ctx, r: &mut Rng, n: usize) {
    let one = |c: &mut Ctx, t: &Ty, v: &Val| {
        c.op(format!("\"o\":\"refuse\",\"t\":{},\"v\":{}", jt(t), jv(v)), || match ser(t, v) {
            None => ",\"s\":0".into(),
            Some(b) => format!(",\"s\":1,\"b\":{}", jb(&b)),
        });
    };
    // every kind as the key of a map
    let keys: Vec<Ty> = NAMES
        .iter()
        .map(|x| x.0)
        .filter(|k| !matches!(k, K::Str | K::Tv | K::Sv | K::Nt))
        .map(|k| match k {
            K::Opt | K::Seq | K::Map | K::SeqX | K::MapX => node(k, vec![leaf(K::Str)]),
            K::MapK => node(k, vec![leaf(K::U8), leaf(K::U8)]),
            K::Tup | K::St | K::Ts => node(k, vec![leaf(K::Str), leaf(K::Str)]),
            K::Enum => node(k, vec![leaf(K::Unit), leaf(K::Str), node(K::Tv, vec![leaf(K::Str), leaf(K::Str)]), node(K::Sv, vec![leaf(K::Str)])]),
            k => leaf(k),
        })
        .filter(|t| t.s.len() > 0 || leaves().contains(&t.k) || matches!(t.k, K::U128 | K::I128))
        .collect();
    for kt in &keys {
        for vt in [leaf(K::U8), leaf(K::Unit)] {
            let t = node(K::MapK, vec![vt.clone(), kt.clone()]);
            for m in 0..4 {
                let e = (0..m).map(|_| (val(r, kt, false, false), val(r, &vt, false, false))).collect();
                one(c, &t, &Val::Map(e));
            }
        }
    }
    #[cfg(feature = "full")]
    {
        crate::real::keys(c);
        crate::real::hints(c, r, 14 + n / 500);
    }
    // each form of a variant alone, plain and wrapped, as the only key and
    // after a key that is one too
    let forms = [
        (leaf(K::Unit), Val::Unit),
        (leaf(K::Str), Val::Str("k".into())),
        (node(K::Tv, vec![leaf(K::Str)]), Val::List(vec![Val::Str("k".into())])),
        (node(K::Tv, vec![]), Val::List(vec![])),
        (node(K::Sv, vec![leaf(K::Str)]), Val::List(vec![Val::Str("k".into())])),
        (node(K::Sv, vec![]), Val::List(vec![])),
    ];
    for (p, x) in forms {
        for i in [0u32, 1, 127, 128, 300] {
            let kt = Ty { k: K::Enum, s: vec![p.clone()], n: 1000 };
            let k = Val::Enum(i, Box::new(x.clone()));
            for vt in [leaf(K::U8), leaf(K::Unit)] {
                let v = val(r, &vt, false, false);
                let t = node(K::MapK, vec![vt.clone(), kt.clone()]);
                one(c, &t, &Val::Map(vec![(k.clone(), v.clone())]));
                one(c, &t, &Val::Map(vec![(k.clone(), v.clone()), (k.clone(), v.clone())]));
            }
        }
    }
    for kt in &keys {
        // the key of a map inside something else
        let t = node(K::MapK, vec![leaf(K::U8), kt.clone()]);
        let v = Val::Map(vec![(val(r, kt, false, false), Val::Raw(vec![1]))]);
        one(c, &node(K::Tup, vec![leaf(K::U8), t.clone()]), &Val::List(vec![Val::Raw(vec![1]), v.clone()]));
        one(c, &node(K::Map, vec![t.clone()]), &Val::Map(vec![(Val::Str("a".into()), v.clone())]));
        one(c, &node(K::Opt, vec![t]), &Val::Opt(Some(Box::new(v))));
    }
    for i in 0..n {
        let t = refuse_ty(r, 1 + i % 4);
        let v = val(r, &t, false, false);
        if v.size() < 500 {
            one(c, &t, &v);
        }
    }
}

// ------------------------------------------------------------------- headers

pub fn one_hrt(c: &mut Ctx, r: &mut Rng, h: &Ty) {
    let jl = r.below(4);
    let junk = r.bytes(jl);
    let cut = r.below(1 << 16);
    c.op(format!("\"o\":\"hrt\",\"h\":{}", jt(h)), || {
        let x = to_header(h);
        let Some(b) = hser(&x) else { return ",\"s\":0".into() };
        let mut d = b.clone();
        d.extend_from_slice(&junk);
        // headers that end early or go wrong before it must not matter
        if !b.is_empty() {
            let _ = hde(&b[..cut % b.len()]);
            let mut bad = b.clone();
            *bad.last_mut().unwrap() = 250;
            let _ = hde(&bad);
            let mut room = vec![0u8; cut % b.len()];
            let _ = x.serialize(&mut room.as_mut_slice());
        }
        let (w, n) = hde(&d);
        match w {
            Err(_) => format!(",\"s\":1,\"b\":{},\"d\":0", jb(&b)),
            Ok(w) => format!(
                ",\"s\":1,\"b\":{},\"d\":1,\"w\":{},\"n\":{n},\"eq\":{}",
                jb(&b), jt(&of_header(&w)), (w == x) as u8
            ),
        }
    });
}

fn hrt(c: &mut Ctx, r: &mut Rng, n: usize) {
    for k in HLEAVES {
        one_hrt(c, r, &leaf(*k));
        for o in [K::Opt, K::Seq, K::Map, K::Tup, K::Enum] {
            one_hrt(c, r, &node(o, vec![leaf(*k)]));
            for p in [K::Opt, K::Seq, K::Map, K::Tup, K::Enum] {
                one_hrt(c, r, &node(p, vec![node(o, vec![leaf(*k)])]));
            }
        }
    }
    for o in [K::Tup, K::Enum] {
        for m in [0usize, 1, 2, 126, 127, 128, 129, 130, 255, 256, 257] {
            one_hrt(c, r, &node(o, vec![leaf(K::U8); m]));
            let h = node(o, (0..m).map(|i| leaf(HLEAVES[i % HLEAVES.len()])).collect());
            one_hrt(c, r, &h);
        }
    }
    for i in 0..n {
        let h = header(r, 1 + i % 5);
        if h.size() < 600 {
            one_hrt(c, r, &h);
        }
    }
    // deep chains
    for d in [10usize, 30, 100] {
        let mut h = leaf(K::Bool);
        for i in 0..d {
            h = node([K::Opt, K::Seq, K::Map, K::Tup, K::Enum][i % 5], vec![h]);
        }
        one_hrt(c, r, &h);
    }
    for d in [126usize, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1500] {
        for k in [K::Opt, K::Seq, K::Map, K::Tup, K::Enum] {
            c.op(format!("\"o\":\"hdeep\",\"k\":\"{}\",\"c\":{d}", k.name()), || {
                let mut t = leaf(K::Bool);
                for _ in 0..d {
                    t = node(k, vec![t]);
                }
                let h = to_header(&t);
                let Some(b) = hser(&h) else { return ",\"s\":0".into() };
                let mut x = b.clone();
                x.push(3);
                let (w, n) = hde(&x);
                format!(",\"s\":1,\"b\":{},\"n\":{n},\"eq\":{}", jb(&b), (w.ok() == Some(h)) as u8)
            });
        }
    }
}

/// counts too large to write out: `c` elements of one code
fn hwide(c: &mut Ctx) {
    for k in [K::Tup, K::Enum] {
        for e in [K::Unit, K::Dt] {
            for m in [127usize, 128, 8191, 8192, 16383, 16384, 16385, 32767, 32768, 65534, 65535, 65536, 65537, 65663, 131072, 200_000] {
                for wrap in 0..2 {
                    c.op(format!("\"o\":\"hwide\",\"k\":\"{}\",\"e\":\"{}\",\"c\":{m},\"wrap\":{wrap}", k.name(), e.name()), || {
                        let mut h = to_header(&Ty { k, s: vec![leaf(e); m], n: 0 });
                        if wrap == 1 {
                            h = Header::Tuple(vec![Header::Boolean, h]);
                        }
                        let Some(b) = hser(&h) else { return ",\"s\":0".into() };
                        let mut d = b.clone();
                        d.push(3);
                        let (w, n) = hde(&d);
                        let at = b.len().saturating_sub(m);
                        format!(",\"s\":1,\"head\":{},\"rest\":{},\"n\":{n},\"eq\":{}",
                            jb(&b[..at.min(12)]), runs(&b[at..]), (w.ok() == Some(h)) as u8)
                    });
                }
            }
        }
    }
}

/// wide headers into sinks that fail after so many bytes
fn hfull(c: &mut Ctx) {
    struct Sink(Vec<u8>, usize, usize, usize);
    impl std::io::Write for Sink {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            let k = b.len().min(self.1 - self.0.len()).min(self.2);
            if k == 0 && !b.is_empty() {
                const HOW: [std::io::ErrorKind; 4] = [std::io::ErrorKind::Other, std::io::ErrorKind::BrokenPipe,
                    std::io::ErrorKind::WouldBlock, std::io::ErrorKind::TimedOut];
                return if self.3 == 4 { Ok(0) } else { Err(HOW[self.3].into()) };
            }
            self.0.extend_from_slice(&b[..k]);
            Ok(k)
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    for (i, m) in [3usize, 63, 64, 65, 100, 127, 128, 129, 255, 256, 300, 1000, 1024, 4100, 8190, 8300, 20_000, 65_535].into_iter().enumerate() {
        for k in [K::Tup, K::Enum] {
            for e in [leaf(K::U8), node(K::Opt, vec![leaf(K::Str)]), node(K::Tup, vec![leaf(K::Bool); 2])] {
                let wrap = (i + e.size()) % 2;
                c.op(format!("\"o\":\"hfull\",\"k\":\"{}\",\"e\":{},\"c\":{m},\"wrap\":{wrap}", k.name(), jt(&e)), || {
                    let mut h = to_header(&Ty { k, s: vec![e.clone(); m], n: 0 });
                    if wrap == 1 {
                        h = Header::Tuple(vec![Header::Boolean, h]);
                    }
                    let b = hser(&h).unwrap_or_default();
                    let n = b.len();
                    let mut at: Vec<usize> = (0..9).chain([n / 3, n / 2, n.saturating_sub(2), n.saturating_sub(1), n, n + 5]).collect();
                    for p in [64usize, 128, 256, 512, 1024, 2048, 4096, 8192, 16_384, 32_768, 65_536] {
                        at.extend([p - 1, p, p + 1]);
                    }
                    at.retain(|k| *k <= n + 5);
                    at.sort();
                    at.dedup();
                    let rows: Vec<String> = at.iter().enumerate().map(|(j, k)| {
                        let mut s = Sink(vec![], *k, [1usize << 20, 1, 7][(i + j) % 3], (i + j) % 5);
                        let ok = h.serialize(&mut s).is_ok();
                        let whole = if ok { s.0 == b } else { b.starts_with(&s.0) };
                        format!("[{k},{},{}]", ok as u8, whole as u8)
                    }).collect();
                    format!(",\"n\":{n},\"rows\":[{}]", rows.join(","))
                });
            }
        }
    }
}

fn one_hdec(c: &mut Ctx, b: &[u8]) {
    c.op(format!("\"o\":\"hdec\",\"b\":{}", jb(b)), || {
        let (h, n) = hde(b);
        match h {
            Ok(h) => {
                let e = hser(&h);
                format!(",\"r\":1,\"w\":{},\"n\":{n},\"eb\":{}", jt(&of_header(&h)), jb(&e.unwrap_or(vec![255; 64])))
            }
            Err(e) => format!(",\"r\":0,\"e\":\"{}\"", if e.kind() == std::io::ErrorKind::InvalidData { "code" } else { "other" }),
        }
    });
}

fn hdec(c: &mut Ctx, r: &mut Rng, n: usize) {
    let code = |r: &mut Rng| match r.below(6) {
        0 => r.below(32) as u8,
        1 => *r.pick(&[1u8, 20, 23]),
        2 => *r.pick(&[21u8, 24]),
        3 => r.below(4) as u8,
        4 => *r.pick(&[7u8, 12, 22, 27, 28, 255, 128, 0x80, 0xbf, 0xc0, 0x81]),
        _ => r.below(27) as u8,
    };
    for i in 0..n {
        let h = header(r, 1 + i % 4);
        if h.size() > 200 {
            continue;
        }
        if let Some(e) = hser(&to_header(&h)) {
            for _ in 0..2 {
                let b = mutate(r, &e);
                one_hdec(c, &b);
            }
        }
        let l = r.below(16);
        let b: Vec<u8> = (0..l).map(|_| code(r)).collect();
        one_hdec(c, &b);
        // a long count followed by that many codes, or one fewer, or a bad one
        if i % 10 == 0 {
            let m = *r.pick(&[3usize, 126, 127, 128, 129, 300]);
            let mut b = vec![*r.pick(&[21u8, 24])];
            b.extend(ser(&leaf(K::U16), &Val::raw((m as u16).to_le_bytes())).unwrap());
            b.extend(vec![*r.pick(&[0u8, 3, 18]); m - r.below(2)]);
            if r.one_in(3) {
                let i = r.below(b.len());
                b[i] = *r.pick(&[7u8, 12, 22, 27]);
            }
            one_hdec(c, &b);
        }
        if i % 50 == 0 {
            // overlong counts
            let x = r.below(4) as u8;
            for f in [vec![0x80 | x, 0], vec![0xc0, x, 0], vec![0xff, x, 0], vec![0xe0, x, 0]] {
                let mut b = vec![*r.pick(&[21u8, 24])];
                b.extend(f);
                b.extend([2, 3, 4, 5]);
                one_hdec(c, &b);
            }
        }
    }
}

/// every byte string of up to two bytes, and of three over the code alphabet
fn hexh(c: &mut Ctx, n: usize) {
    one_hdec(c, &[]);
    let one = |c: &mut Ctx, ins: Vec<Vec<u8>>| {
        c.op("\"o\":\"hdecs\"".into(), || {
            let rows: Vec<String> = ins
                .iter()
                .map(|b| {
                    let (h, n) = hde(b);
                    match h {
                        Ok(h) => format!("[{},1,{},{n}]", jb(b), jb(&hser(&h).unwrap_or(vec![255; 9]))),
                        Err(e) => format!("[{},0,[],{}]", jb(b), (e.kind() == std::io::ErrorKind::InvalidData) as u8),
                    }
                })
                .collect();
            format!(",\"rows\":[{}]", rows.join(","))
        });
    };
    one(c, (0..=255u8).map(|x| vec![x]).collect());
    for a in 0..=255u8 {
        one(c, (0..=255u8).map(|x| vec![a, x]).collect());
    }
    if n > 0 {
        for a in [1u8, 20, 21, 23, 24] {
            for b in 0..=27u8 {
                one(c, (0..=27u8).map(|x| vec![a, b, x]).collect());
                if b <= 1 || b >= 20 {
                    for d in 0..=27u8 {
                        one(c, (0..=27u8).map(|x| vec![a, b, d, x]).collect());
                    }
                }
            }
        }
    }
}

// -------------------------------------------------------------------- memory

/// Containers that promise more than they hold, and hold some of it: counts
/// that look trustworthy after so many elements.
pub fn started(r: &mut Rng, lie: &dyn Fn(&mut Rng, u32) -> Vec<u8>, n: usize) -> Vec<(Ty, Vec<u8>)> {
    let elems = [
        leaf(K::U8),
        leaf(K::F64),
        leaf(K::Str),
        leaf(K::Bytes),
        node(K::Opt, vec![leaf(K::U16)]),
        node(K::Tup, vec![leaf(K::U8), leaf(K::Str)]),
        node(K::Seq, vec![leaf(K::U8)]),
        node(K::Map, vec![leaf(K::Bool)]),
    ];
    let mut out = vec![];
    for k in [K::Seq, K::Map] {
        for e in &elems {
            for i in 0..3 + n / 400 {
                let m = [2usize, 20, 70, 140, 300, 1100, 4200][(i + r.below(3)) % 7] + r.below(9);
                let big = *r.pick(&[20u32, 22, 24, 28, 31, 32, 40, 62, 63]);
                let mut b = lie(r, big);
                for j in 0..m {
                    if k == K::Map {
                        b.extend(ser(&leaf(K::Str), &Val::Str(format!("{j}"))).unwrap());
                    }
                    let v = loop {
                        let v = val(r, e, true, false);
                        if v.size() < 12 {
                            break v;
                        }
                    };
                    b.extend(ser(e, &v).unwrap());
                }
                let mut t = node(k, vec![e.clone()]);
                // within others that have started just as well
                for _ in 0..r.below(3) {
                    let mut p = lie(r, 30);
                    if r.below(2) == 0 {
                        t = node(K::Seq, vec![t]);
                        p.extend(vec![0; 300]);
                    } else {
                        t = node(K::Map, vec![t]);
                        for j in 0..300 {
                            p.extend(ser(&leaf(K::Str), &Val::Str(format!("{j}"))).unwrap());
                            p.push(0);
                        }
                        p.extend([1, b'k']);
                    }
                    b.splice(0..0, p);
                }
                out.push((t, b));
            }
        }
    }
    out
}

fn mem(c: &mut Ctx, r: &mut Rng, n: usize) {
    let lie = |r: &mut Rng, k: u32| {
        let v = match r.below(3) {
            0 => (1u64 << k).wrapping_sub(1),
            1 => 1u64 << k,
            _ => (1u64 << k) + r.below(1 << k.min(20)) as u64,
        };
        ser(&leaf(K::U64), &Val::raw(v.to_le_bytes())).unwrap()
    };
    let one = |c: &mut Ctx, t: &Ty, b: &[u8]| {
        let info = if b.len() <= 400 { jb(b) } else { "[]".into() };
        c.op(format!("\"o\":\"mem\",\"t\":{},\"b\":{info},\"len\":{}", jt(t), b.len()), || {
            let base = crate::alloc::start();
            let (v, n) = de(t, b);
            let p = crate::alloc::peak_since(base);
            format!(",\"peak\":{},\"n\":{n},\"r\":{}", p.min(1 << 30), v.is_some() as u8)
        });
    };
    let sizes: Vec<u32> = (8..64).collect();
    let kinds: Vec<Ty> = leaves()
        .into_iter()
        .filter(|k| matches!(k, K::Str | K::Bytes | K::Char | K::Buint | K::Bint | K::Bdec | K::Nbuint | K::Nbint | K::Nbdec))
        .map(leaf)
        .chain([K::U8, K::U64, K::F64, K::Str, K::Bytes].map(|k| node(K::Seq, vec![leaf(k)])))
        .chain([K::Unit, K::U8, K::Str].map(|k| node(K::Map, vec![leaf(k)])))
        .collect();
    for t in &kinds {
        for k in &sizes {
            let mut b = lie(r, *k);
            let l = *r.pick(&[0usize, 0, 1, 5, 40]);
            b.extend(soup(r, l));
            one(c, t, &b);
        }
    }
    // promises within promises
    for _ in 0..n {
        let mut t = r.pick(&kinds).clone();
        let mut b = vec![];
        for _ in 0..r.below(6) {
            let k = *r.pick(&[10u32, 16, 20, 24, 31, 32, 40, 62, 63]);
            match r.below(5) {
                0 => {
                    t = node(K::Seq, vec![t]);
                    b.splice(0..0, lie(r, k));
                }
                1 => {
                    t = node(K::Map, vec![t]);
                    let mut p = lie(r, k);
                    p.extend([1, b'k']);
                    b.splice(0..0, p);
                }
                2 => {
                    t = node(K::Opt, vec![t]);
                    b.insert(0, 1);
                }
                3 => t = node(K::St, vec![t, leaf(K::Bytes)]),
                _ => {
                    t = Ty { k: K::Enum, s: vec![leaf(K::Unit), t], n: 0 };
                    b.insert(0, 1);
                }
            }
        }
        let k = r.below(64) as u32;
        b.extend(lie(r, k));
        let l = r.below(60);
        b.extend(soup(r, l));
        one(c, &t, &b);
    }
    #[cfg(feature = "full")]
    crate::real::mem(c, r, n, &lie);
    // received in full: memory follows what arrived; and long, but still short
    // of what was promised
    for k in [12u32, 16, 18, 20] {
        for t in [leaf(K::Str), leaf(K::Bytes), leaf(K::Buint), node(K::Seq, vec![leaf(K::U8)])] {
            if !leaves().contains(&t.k) && t.k != K::Seq {
                continue;
            }
            for more in [0u64, 1, 1 << 20, 1 << 40] {
                let l = 1u64 << k;
                let mut b = ser(&leaf(K::U64), &Val::raw((l + more).to_le_bytes())).unwrap();
                b.extend(std::iter::repeat_n(b'x', l as usize));
                one(c, &t, &b);
            }
        }
    }
    // a good start, and nothing after it
    for (t, b) in started(r, &lie, n) {
        one(c, &t, &b);
    }
    // headers
    let hone = |c: &mut Ctx, b: &[u8]| {
        let info = if b.len() <= 400 { jb(b) } else { "[]".into() };
        c.op(format!("\"o\":\"hmem\",\"b\":{info},\"len\":{}", b.len()), || {
            let base = crate::alloc::start();
            let (v, n) = hde(b);
            let p = crate::alloc::peak_since(base);
            format!(",\"peak\":{},\"n\":{n},\"r\":{}", p.min(1 << 30), v.is_ok() as u8)
        });
    };
    for d in [1usize, 2, 5, 30, 60, 100] {
        for code in [21u8, 24] {
            for m in [128u16, 1000, 16384, 30000, 65535] {
                let mut b = vec![];
                for _ in 0..d {
                    b.push(code);
                    b.extend(ser(&leaf(K::U16), &Val::raw(m.to_le_bytes())).unwrap());
                }
                b.extend([0, 0]);
                hone(c, &b);
            }
        }
    }
    for code in [21u8, 24] {
        for d in [1usize, 2, 3, 40, 100] {
            for m in [20usize, 70, 140, 300, 1100, 4200] {
                let mut b = vec![];
                for _ in 0..d {
                    b.push(code);
                    b.extend(ser(&leaf(K::U16), &Val::raw(65535u16.to_le_bytes())).unwrap());
                    b.extend(std::iter::repeat_n(3, m + r.below(5)));
                }
                hone(c, &b);
            }
        }
    }
    for _ in 0..n {
        let mut b = vec![];
        for _ in 0..1 + r.below(40) {
            match r.below(3) {
                0 => b.push(*r.pick(&[1u8, 20, 23])),
                1 => b.extend([0, 3, 18, 19][..r.below(4)].iter()),
                _ => {
                    b.push(*r.pick(&[21u8, 24]));
                    b.extend(ser(&leaf(K::U16), &Val::raw((int_bits(r, 16) as u16).to_le_bytes())).unwrap());
                }
            }
        }
        hone(c, &b);
    }
}

// ------------------------------------------------------- cases from elsewhere

/// {"o":"rt","t","v"}, {"o":"dec","t","b"}, {"o":"hrt","h"} or {"o":"hdec","b"}
fn run_cases(c: &mut Ctx, r: &mut Rng, path: &str) {
    for j in cases(path) {
        match j["o"].as_str().unwrap() {
            "rt" => {
                let t = ty_of(&j["t"]);
                let v = val_of(&t, &j["v"]);
                one_rt(c, r, &t, &v);
                #[cfg(feature = "full")]
                crate::dynamic::one_dyn(c, &t, &v);
            }
            "dec" => one_dec(c, &ty_of(&j["t"]), &bytes_of(&j["b"])),
            "hrt" => one_hrt(c, r, &ty_of(&j["h"])),
            "hdec" => one_hdec(c, &bytes_of(&j["b"])),
            #[cfg(feature = "full")]
            "ddec" => crate::dynamic::one_ddec(c, &ty_of(&j["h"]), &bytes_of(&j["b"])),
            #[cfg(feature = "full")]
            "val" => crate::dynamic::case_val(c, &j),
            o => panic!("case {o}"),
        }
    }
}

/// canonical bytes are decoded into the crate's own types and written again:
/// needs no native types, so it runs under every set of features
fn re(c: &mut Ctx, r: &mut Rng, path: &str) {
    let int = |k: K, b: &[u8]| ser(&leaf(k), &Val::Raw(b.to_vec())).unwrap_or_default();
    let digits = |d: &[u8]| [int(K::U64, &(d.len() as u64).to_le_bytes()), d.to_vec()].concat();
    for _ in 0..60 {
        let (y, o) = date(r);
        one_re(c, &leaf(K::Date), &[int(K::I32, &(y - 2000).to_le_bytes()), int(K::U16, &(o - 1).to_le_bytes())].concat());
        let (s, n) = instant(r);
        one_re(c, &leaf(K::Dt), &[int(K::I64, &s.to_le_bytes()), int(K::U32, &n.to_le_bytes())].concat());
        for (k, signed) in [(K::Buint, false), (K::Bint, true)] {
            let d = big_digits(r, signed);
            one_re(c, &leaf(k), &digits(&d));
        }
        // digits that do not end in a decimal zero
        let mut x = int_bits(r, 62) as i64;
        if x % 10 == 0 {
            x += 1;
        }
        if r.one_in(2) {
            x = -x;
        }
        let mut d = x.to_le_bytes().to_vec();
        while d.len() >= 2 && ((d[d.len() - 1] == 0 && d[d.len() - 2] < 0x80) || (d[d.len() - 1] == 0xff && d[d.len() - 2] >= 0x80)) {
            d.pop();
        }
        one_re(c, &leaf(K::Bdec), &[digits(&d), int(K::I64, &scale(r).to_le_bytes())].concat());
    }
    one_re(c, &leaf(K::Bdec), &[0]);
    for j in cases(path) {
        if j["o"] == "hrt" {
            let h = ty_of(&j["h"]);
            let b = bytes_of(&j["b"]);
            c.op(format!("\"o\":\"hre\",\"h\":{},\"b\":{}", jt(&h), jb(&b)), || {
                let (w, n) = hde(&b);
                match w {
                    Err(_) => ",\"r\":0".into(),
                    Ok(w) => format!(",\"r\":1,\"n\":{n},\"b2\":{},\"b3\":{}", jb(&hser(&w).unwrap_or_default()), jb(&hser(&to_header(&h)).unwrap_or_default())),
                }
            });
            continue;
        }
        one_re(c, &ty_of(&j["t"]), &bytes_of(&j["b"]));
    }
}

fn one_re(c: &mut Ctx, t: &Ty, b: &[u8]) {
    c.op(format!("\"o\":\"re\",\"t\":{},\"b\":{}", jt(t), jb(b)), || {
        let mut r = Plain { data: b, pos: 0 };
        let mut out = Vec::new();
        let ok = recode(t, &mut r, &mut out);
        // and as a body under the header of the type
        let mut q = Plain { data: b, pos: 0 };
        let mut b3 = vec![];
        let y = dlhn::Body::deserialize(&to_header(&crate::hdr::header_of(t)), &mut Deserializer::new(&mut q));
        let yo = y.is_ok_and(|y| y.serialize(&mut Serializer::new(&mut b3)).is_ok());
        format!(",\"r\":{},\"n\":{},\"b2\":{},\"yr\":{},\"m\":{},\"b3\":{}", ok as u8, r.pos, jb(&out), yo as u8, q.pos, jb(&b3))
    });
}

/// one leaf after the other, through the crate's types
fn recode(t: &Ty, r: &mut Plain, out: &mut Vec<u8>) -> bool {
    fn go<T: for<'de> serde::Deserialize<'de> + Serialize>(r: &mut Plain, out: &mut Vec<u8>) -> bool {
        match T::deserialize(&mut Deserializer::new(r)) {
            Ok(v) => v.serialize(&mut Serializer::new(out)).is_ok(),
            Err(_) => false,
        }
    }
    match t.k {
        K::Buint => go::<dlhn::BigUint>(r, out),
        K::Bint => go::<dlhn::BigInt>(r, out),
        K::Bdec => go::<dlhn::BigDecimal>(r, out),
        K::Date => go::<dlhn::Date>(r, out),
        K::Dt => go::<dlhn::DateTime>(r, out),
        K::Tup | K::St | K::Ts | K::Tv | K::Sv | K::Nt => t.s.iter().all(|t| recode(t, r, out)),
        K::Opt if has_crate(t) => match r.data.get(r.pos) {
            Some(1) => {
                r.pos += 1;
                out.push(1);
                recode(&t.s[0], r, out)
            }
            _ => go::<Option<()>>(r, out),
        },
        K::Seq | K::Map if has_crate(t) => {
            let Ok(n) = <u64 as serde::Deserialize>::deserialize(&mut Deserializer::new(r)) else { return false };
            n.serialize(&mut Serializer::new(&mut *out)).is_ok()
                && (0..n).all(|_| (t.k == K::Seq || go::<String>(r, out)) && recode(&t.s[0], r, out))
        }
        K::Enum if has_crate(t) => {
            let Ok(n) = <u32 as serde::Deserialize>::deserialize(&mut Deserializer::new(r)) else { return false };
            n.serialize(&mut Serializer::new(&mut *out)).is_ok() && recode(&t.variant(n as usize), r, out)
        }
        _ => match Seed(t).deserialize(&mut Deserializer::new(r)) {
            Ok(v) => TV(t, &v).serialize(&mut Serializer::new(out)).is_ok(),
            Err(_) => false,
        },
    }
}

fn has_crate(t: &Ty) -> bool {
    matches!(t.k, K::Buint | K::Bint | K::Bdec | K::Date | K::Dt) || t.s.iter().any(has_crate)
}
