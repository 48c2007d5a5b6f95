//! Dynamic bodies: decoding under a header, encoding, validation.
use crate::ctx::Ctx;
use crate::gen::*;
use crate::hdr::*;
use crate::io::*;
use crate::suites::*;
use crate::ty::*;
use dlhn::{Body, Deserializer, Header, Serializer};
use serde::Serialize;

pub fn bser(y: &Body) -> Option<Vec<u8>> {
    let mut b = Vec::new();
    shown(y.serialize(&mut Serializer::new(&mut b))).map(|_| b)
}
pub fn bde(h: &Header, b: &[u8]) -> (Option<Body>, usize) {
    let mut r = Plain { data: b, pos: 0 };
    let y = shown(Body::deserialize(h, &mut Deserializer::new(&mut r)));
    (y, r.pos)
}
pub fn jy(y: &Body) -> String {
    js(|o| jbody(y, o))
}

/// map entries distinct and in key order, so that a BTreeMap keeps them
fn ordered(v: &Val) -> bool {
    match v {
        Val::Opt(Some(x)) => ordered(x),
        Val::List(x) => x.iter().all(ordered),
        Val::Enum(_, x) => ordered(x),
        Val::Map(x) => {
            x.windows(2).all(|w| match (&w[0].0, &w[1].0) {
                (Val::Str(a), Val::Str(b)) => a < b,
                _ => false,
            }) && x.iter().all(|e| ordered(&e.1))
        }
        _ => true,
    }
}

pub fn one_dyn(c: &mut Ctx, t: &Ty, v: &Val) {
    if !ordered(v) || t.variants_total() > 2000 {
        return;
    }
    c.op(format!("\"o\":\"dyn\",\"t\":{},\"v\":{}", jt(t), jv(v)), || {
        let Some(b) = ser(t, v) else { return ",\"s\":0".into() };
        let h = to_header(&header_of(t));
        let mut d = b.clone();
        d.extend([9, 0, 255]);
        // a body that ends early before it must not matter
        if !b.is_empty() {
            let _ = bde(&h, &b[..b.len() / 2]);
        }
        let (y, n) = bde(&h, &d);
        let z = to_body(t, v);
        let zb = bser(&z).unwrap_or(vec![238; 40]);
        d.clear();
        d.extend_from_slice(&zb);
        d.extend([1, 254]);
        let (w, m) = de(t, &d);
        let mut o = format!(",\"s\":1,\"b\":{},\"zb\":{},\"hb\":{}", jb(&b), jb(&zb), jb(&hser(&h).unwrap_or_default()));
        match w {
            Some(w) => o += &format!(",\"d\":1,\"w\":{},\"m\":{m}", jv(&w)),
            None => o += ",\"d\":0",
        }
        match y {
            Some(y) => {
                o += &format!(
                    ",\"r\":1,\"y\":{},\"n\":{n},\"yb\":{},\"va\":{}",
                    jy(&y), jb(&bser(&y).unwrap_or(vec![238; 40])), y.validate(&h) as u8
                )
            }
            None => o += ",\"r\":0",
        }
        o
    });
}

impl Ty {
    pub fn variants_total(&self) -> usize {
        (if self.k == K::Enum { self.variants() } else { 0 })
            + self.s.iter().map(|t| t.variants_total()).sum::<usize>()
    }
}

pub fn one_ddec(c: &mut Ctx, h: &Ty, b: &[u8]) {
    c.op(format!("\"o\":\"ddec\",\"h\":{},\"b\":{}", jt(h), jb(b)), || {
        let x = to_header(h);
        let (y, n) = bde(&x, b);
        match y {
            None => ",\"r\":0".into(),
            Some(y) => {
                let e = bser(&y).unwrap_or_default();
                let (z, m) = bde(&x, &e);
                let j = jy(&y);
                let eq = z.is_some_and(|z| jy(&z) == j) && m == e.len();
                format!(",\"r\":1,\"y\":{j},\"n\":{n},\"va\":{},\"eq\":{}", y.validate(&x) as u8, eq as u8)
            }
        }
    });
}

/// validation of a body, and if it validates its way through bytes and back
fn judge_val(h: &Ty, y: &Body) -> String {
    let x = to_header(h);
    let j = jy(y);
    let r = y.validate(&x);
    let mut o = format!(",\"y\":{j},\"r\":{}", r as u8);
    if r {
        let e = bser(y).unwrap_or(vec![238; 40]);
        let mut d = e.clone();
        d.extend([3, 3]);
        let (z, m) = bde(&x, &d);
        let eq = z.is_some_and(|z| jy(&z) == j) && m == e.len();
        o += &format!(",\"b\":{},\"eq\":{}", jb(&e), eq as u8);
    }
    o
}

/// {"h", "y"} with y a body in the shape of Header.tla
pub fn case_val(c: &mut Ctx, j: &serde_json::Value) {
    let h = ty_of(&j["h"]);
    c.op(format!("\"o\":\"val\",\"h\":{}", jt(&h)), || {
        let y = body_of(&j["y"]);
        judge_val(&h, &y)
    });
}

fn body_of(j: &serde_json::Value) -> Body {
    let k = K::of(j["k"].as_str().unwrap());
    let v = &j["v"];
    let list = || v.as_array().map(|a| a.iter().map(body_of).collect::<Vec<_>>()).unwrap_or_default();
    match k {
        K::Opt => Body::Optional(list().into_iter().next().map(Box::new)),
        K::Seq => Body::Array(list()),
        K::Tup => Body::Tuple(list()),
        K::Map => Body::Map(
            v.as_array()
                .map(|a| a.iter().map(|e| (String::from_utf8(bytes_of(&e[0])).unwrap(), body_of(&e[1]))).collect())
                .unwrap_or_default(),
        ),
        K::Enum => Body::Enum(
            u32::from_le_bytes(bytes_of(&v[0]).try_into().unwrap()),
            Box::new(body_of(&v[1])),
        ),
        k => to_body(&leaf(k), &val_of(&leaf(k), v)),
    }
}

pub fn run(c: &mut Ctx, suite: &str, r: &mut Rng, n: usize) {
    match suite {
        "dyn" => dynr(c, r, n),
        "ddec" => ddec(c, r, n),
        "val" => val_suite(c, r, n),
        "dtrunc" => dtrunc(c, r, n),
        _ => dmem(c, r, n),
    }
}

fn dynr(c: &mut Ctx, r: &mut Rng, n: usize) {
    for k in leaves() {
        for i in 0..4 + n / 20 {
            let v = val(r, &leaf(k), true, i % 3 == 0);
            one_dyn(c, &leaf(k), &v);
        }
        for o in [K::Opt, K::Seq, K::Map, K::Nt] {
            let t = node(o, vec![leaf(k)]);
            for _ in 0..3 {
                let v = val(r, &t, true, false);
                one_dyn(c, &t, &v);
            }
        }
    }
    for i in 0..n {
        let mut t = if i % 6 == 0 { enum_ty(r, 1) } else { ty(r, 1 + i % 4) };
        shrink(&mut t);
        let v = val(r, &t, true, false);
        if v.size() < 800 {
            one_dyn(c, &t, &v);
        }
    }
    // many variants: the index takes one byte in the typed and the dynamic form
    for m in [1usize, 127, 128, 129, 300] {
        let t = Ty { k: K::Enum, s: vec![leaf(K::U16)], n: m };
        for i in [0, 1, 126, 127, 128, m - 1] {
            if i < m {
                let v = Val::Enum(i as u32, Box::new(Val::raw([1, 2])));
                one_dyn(c, &t, &v);
            }
        }
    }
    for l in [0usize, 1, 126, 127, 128, 129, 255, 256, 4095, 4096, 4097] {
        one_dyn(c, &leaf(K::Bytes), &Val::Bytes(vec![7; l]));
        one_dyn(c, &leaf(K::Str), &Val::Str("x".repeat(l)));
        if l < 300 {
            one_dyn(c, &node(K::Seq, vec![leaf(K::Bool)]), &Val::List((0..l).map(|i| Val::Bool(i % 3 == 0)).collect()));
            one_dyn(c, &node(K::Seq, vec![leaf(K::Unit)]), &Val::List(vec![Val::Unit; l]));
            let e = (0..l).map(|i| (Val::Str(format!("{i:05}")), Val::Raw(vec![i as u8]))).collect();
            one_dyn(c, &node(K::Map, vec![leaf(K::I8)]), &Val::Map(e));
        }
    }
}

/// enums with a million variants have no practical header
fn shrink(t: &mut Ty) {
    fn header_size(t: &Ty) -> usize {
        let n: usize = t.s.iter().map(header_size).sum();
        1 + if t.n > t.s.len() { (n.max(1) * t.n).div_ceil(t.s.len().max(1)) } else { n }
    }
    t.s.iter_mut().for_each(shrink);
    if t.n > 200 {
        t.n = 150;
    }
    if header_size(t) > 1500 {
        t.n = 0;
    }
}

fn ddec(c: &mut Ctx, r: &mut Rng, n: usize) {
    // tags and indexes, every value of the first byte
    for x in 0..=255u8 {
        for h in [
            leaf(K::Bool),
            node(K::Opt, vec![leaf(K::U8)]),
            node(K::Opt, vec![leaf(K::Unit)]),
            node(K::Enum, vec![leaf(K::U8), leaf(K::Unit), leaf(K::Bool)]),
            node(K::Enum, vec![]),
            node(K::Seq, vec![leaf(K::Bool)]),
            node(K::Map, vec![leaf(K::Bool)]),
            leaf(K::Str),
        ] {
            one_ddec(c, &h, &[x, 1, 0x61, 0, 1]);
        }
    }
    for m in [1usize, 2, 3, 127, 128, 129, 256] {
        let h = node(K::Enum, vec![leaf(K::Unit); m]);
        for base in [0u32, m as u32, 128, 256, 65536, 65536 + m as u32, 1 << 24, 1 << 31, u32::MAX] {
            for d in [-2i64, -1, 0, 1, 2] {
                let i = (base as i64 + d).clamp(0, u32::MAX as i64) as u32;
                let mut b = ser(&leaf(K::U32), &Val::raw(i.to_le_bytes())).unwrap();
                b.push(1);
                one_ddec(c, &h, &b);
            }
        }
    }
    for i in 0..n {
        let h = header(r, 1 + i % 4);
        if h.has_zero_width_seq() {
            continue;
        }
        if let Some(v) = hval(r, &h) {
            if v.size() < 500 {
                if let Some(e) = ser(&h, &v) {
                    one_ddec(c, &h, &e);
                    for _ in 0..2 {
                        let b = mutate(r, &e);
                        one_ddec(c, &h, &b);
                    }
                }
            }
        }
        let l = r.below(20);
        let b = soup(r, l);
        one_ddec(c, &h, &b);
    }
    // the same key twice: the last one stays
    let h = node(K::Map, vec![leaf(K::U8)]);
    for b in [vec![2u8, 1, 97, 5, 1, 97, 6], vec![3, 1, 98, 5, 1, 97, 6, 1, 98, 7], vec![2, 0, 1, 0, 2]] {
        one_ddec(c, &h, &b);
    }
}

fn val_suite(c: &mut Ctx, r: &mut Rng, n: usize) {
    let one = |c: &mut Ctx, r: &mut Rng, h: &Ty, from: &Ty, v: &Val, other: Option<(&Ty, &Val)>| {
        let mut q = r.clone();
        r.next();
        c.op(format!("\"o\":\"val\",\"h\":{}", jt(h)), || {
            let mut y = to_body(from, v);
            if let Some((ot, ov)) = other {
                y = disturb(&mut q, &y, &to_body(ot, ov));
            }
            judge_val(h, &y)
        });
    };
    // every kind against every kind
    for a in HLEAVES {
        for b in HLEAVES {
            let v = val(r, &leaf(*b), true, false);
            one(c, r, &leaf(*a), &leaf(*b), &v, None);
            for o in [K::Opt, K::Seq, K::Map, K::Tup, K::Enum] {
                let (ha, hb) = (node(o, vec![leaf(*a)]), node(o, vec![leaf(*b)]));
                if let Some(v) = hval(r, &hb) {
                    one(c, r, &ha, &hb, &v, None);
                }
            }
        }
        for o in [K::Opt, K::Seq, K::Map, K::Tup, K::Enum] {
            let hb = node(o, vec![leaf(*a)]);
            if let Some(v) = hval(r, &hb) {
                one(c, r, &leaf(*a), &hb, &v, None);
            }
            let v = val(r, &leaf(*a), true, false);
            one(c, r, &hb, &leaf(*a), &v, None);
            for p in [K::Opt, K::Seq, K::Map, K::Tup, K::Enum] {
                let hc = node(p, vec![leaf(*a)]);
                if let Some(v) = hval(r, &hc) {
                    one(c, r, &hb, &hc, &v, None);
                }
            }
        }
    }
    // small headers against the bodies of one another
    let mut small: Vec<Ty> = vec![node(K::Tup, vec![]), node(K::Enum, vec![])];
    for k in [K::Unit, K::U8, K::Str, K::Bytes] {
        small.push(leaf(k));
    }
    for _ in 0..2 {
        let inner = small.clone();
        for o in [K::Opt, K::Seq, K::Map, K::Tup, K::Enum] {
            for x in inner.iter().take(9) {
                small.push(node(o, vec![x.clone()]));
            }
        }
        small.push(node(K::Tup, vec![leaf(K::Unit), leaf(K::Unit)]));
        small.push(node(K::Enum, vec![leaf(K::Unit), node(K::Tup, vec![])]));
    }
    small.sort_by_key(jt);
    small.dedup_by_key(|t| jt(t));
    let bodies: Vec<(Ty, Val)> = small.iter().flat_map(|h| (0..3).filter_map(|_| Some((h.clone(), hval(r, h)?))).collect::<Vec<_>>()).collect();
    let mut seen = std::collections::HashSet::new();
    for h in &small {
        for (f, v) in &bodies {
            if v.size() < 12 && seen.insert(format!("{}{:?}", jt(h), to_body(f, v))) {
                one(c, r, h, f, v, None);
            }
        }
    }
    // arity, and one wrong element at every position
    for m in 0..6usize {
        for l in 0..6usize {
            let h = node(K::Tup, vec![leaf(K::U8); m]);
            let f = node(K::Tup, vec![leaf(K::U8); l]);
            let v = val(r, &f, true, false);
            one(c, r, &h, &f, &v, None);
        }
        for at in 0..=m {
            for wrong in [K::I8, K::Unit, K::U16] {
                for o in [K::Tup, K::Seq, K::Map] {
                    // written with a tuple of mixed kinds, regrouped below
                    let f = node(K::Tup, (0..m).map(|i| leaf(if i == at { wrong } else { K::U8 })).collect());
                    let v = val(r, &f, true, false);
                    let h = match o {
                        K::Tup => node(K::Tup, vec![leaf(K::U8); m]),
                        o => node(o, vec![leaf(K::U8)]),
                    };
                    c.op(format!("\"o\":\"val\",\"h\":{}", jt(&h)), || {
                        let y = match to_body(&f, &v) {
                            Body::Tuple(e) if o == K::Seq => Body::Array(e),
                            Body::Tuple(e) if o == K::Map => {
                                Body::Map(e.into_iter().enumerate().map(|(i, e)| (format!("k{i}"), e)).collect())
                            }
                            y => y,
                        };
                        judge_val(&h, &y)
                    });
                }
            }
        }
    }
    // variant indexes
    for m in [0usize, 1, 2, 3, 5] {
        let h = node(K::Enum, (0..m).map(|i| leaf([K::U8, K::Unit, K::Str][i % 3])).collect());
        for i in [0u32, 1, 2, 3, 4, 5, 6, 255, 256, 257, 65535, 65536, 65537, 65538, 1 << 24, 1 << 31, u32::MAX - 1, u32::MAX] {
            for k in [K::U8, K::Unit, K::Str, K::Bool] {
                let v = val(r, &leaf(k), true, false);
                c.op(format!("\"o\":\"val\",\"h\":{}", jt(&h)), || {
                    judge_val(&h, &Body::Enum(i, Box::new(to_body(&leaf(k), &v))))
                });
            }
        }
    }
    for i in 0..n {
        let h = header(r, 1 + i % 4);
        let g = header(r, 1 + i % 3);
        if let (Some(v), Some(w)) = (hval(r, &h), hval(r, &g)) {
            if v.size() > 500 || w.size() > 300 {
                continue;
            }
            if i % 4 == 0 {
                one(c, r, &h, &h, &v, None);
            }
            one(c, r, &h, &h, &v, Some((&g, &w)));
            one(c, r, &h, &h, &v, Some((&g, &w)));
            if i % 5 == 0 {
                one(c, r, &g, &h, &v, None);
            }
        }
    }
}

fn dtrunc(c: &mut Ctx, r: &mut Rng, n: usize) {
    for i in 0..n {
        let h = if i % 3 == 0 { node(*r.pick(&[K::Opt, K::Seq, K::Map, K::Tup, K::Enum]), vec![header(r, 2)]) } else { header(r, 1 + i % 3) };
        let Some(v) = hval(r, &h) else { continue };
        if v.size() > 200 {
            continue;
        }
        let f = r.below(2 * KINDS.len());
        c.op(format!("\"o\":\"dtrunc\",\"t\":{},\"v\":{}", jt(&h), jv(&v)), || {
            let x = to_header(&h);
            let Some(b) = bser(&to_body(&h, &v)) else { return ",\"s\":0".into() };
            let mut rows = vec![];
            for k in 0..b.len() {
                let (e, _) = bde(&x, &b[..k]);
                let mut src = Source {
                    script: Script::new(vec![Ans::Some(1); k], Ans::Fail(f)),
                    data: &b[..k],
                    pos: 0,
                    log: vec![],
                };
                let g = Body::deserialize(&x, &mut Deserializer::new(&mut src)).is_ok();
                rows.push(format!("[{k},{},{}]", e.is_some() as u8, g as u8));
            }
            format!(",\"s\":1,\"b\":{},\"rows\":[{}]", jb(&b), rows.join(","))
        });
    }
}

fn dmem(c: &mut Ctx, r: &mut Rng, n: usize) {
    let lie = |k: u32| ser(&leaf(K::U64), &Val::raw(((1u64 << k) - 1).to_le_bytes())).unwrap();
    // elements of which some members take no bytes: what they may take is for
    // the specification to say
    for (units, elements) in [(0usize, 200usize), (1, 200), (20, 200), (20_000, 1), (20_000, 200)] {
        c.op(format!("\"o\":\"zmem\",\"units\":{units},\"elements\":{elements},\"len\":{}", elements + 2), || {
            let mut ms = vec![dlhn::Header::Unit; units];
            ms.push(dlhn::Header::UInt8);
            let x = dlhn::Header::Array(Box::new(dlhn::Header::Tuple(ms)));
            let mut b = ser(&leaf(K::U64), &Val::raw((elements as u64).to_le_bytes())).unwrap();
            b.resize(b.len() + elements, 7);
            let base = crate::alloc::start();
            let (y, n) = bde(&x, &b);
            let p = crate::alloc::peak_since(base);
            format!(",\"peak\":{},\"n\":{n},\"r\":{}", p.min(1 << 30), y.is_some() as u8)
        });
    }
    for (t, b) in started(r, &|_: &mut Rng, k| lie(k), n) {
        let info = if b.len() <= 400 { jb(&b) } else { "[]".into() };
        c.op(format!("\"o\":\"dmem\",\"t\":{},\"b\":{info},\"len\":{}", jt(&t), b.len()), || {
            let x = to_header(&header_of(&t));
            let base = crate::alloc::start();
            let (y, n) = bde(&x, &b);
            let p = crate::alloc::peak_since(base);
            format!(",\"peak\":{},\"n\":{n},\"r\":{}", p.min(1 << 30), y.is_some() as u8)
        });
    }
    for i in 0..n {
        let k = 8 + (i % 56) as u32;
        let mut h = leaf(*r.pick(&[K::Str, K::Bytes, K::Buint, K::Bint, K::Bdec, K::U8, K::F64, K::Bool]));
        let mut b = match h.k {
            K::U8 | K::F64 | K::Bool => vec![],
            _ => lie(k),
        };
        for _ in 0..1 + r.below(4) {
            match r.below(4) {
                0 | 1 => {
                    h = node(K::Seq, vec![h]);
                    b.splice(0..0, lie(8 + r.below(56) as u32));
                }
                2 => {
                    h = node(K::Map, vec![h]);
                    let mut p = lie(8 + r.below(56) as u32);
                    p.extend([1, b'k']);
                    b.splice(0..0, p);
                }
                _ => {
                    h = node(K::Tup, vec![h, leaf(K::Bytes)]);
                }
            }
        }
        let l = r.below(30);
        b.extend(soup(r, l));
        let t = h.clone();
        c.op(format!("\"o\":\"dmem\",\"t\":{},\"b\":{},\"len\":{}", jt(&t), jb(&b), b.len()), || {
            let x = to_header(&h);
            let base = crate::alloc::start();
            let (y, n) = bde(&x, &b);
            let p = crate::alloc::peak_since(base);
            format!(",\"peak\":{},\"n\":{n},\"r\":{}", p.min(1 << 30), y.is_some() as u8)
        });
    }
}
