//! Long values: tens of thousands of elements, through sinks and sources
//! that take and give thousands of bytes at a time, or fail far inside.
//! Elements are written one by one and put together here; a sample of them
//! is recorded, with everything that is told about the whole.
use crate::ctx::Ctx;
use crate::gen::*;
use crate::io::*;
use crate::suites::*;
use crate::ty::*;
use dlhn::{Deserializer, Serializer};
use serde::de::DeserializeSeed;
use serde::Serialize;
use std::io::{Error, ErrorKind, Read, Result, Write};

/// takes at most `most` bytes a call, `left` in all, then fails
struct Dam {
    got: Vec<u8>,
    most: usize,
    left: usize,
    kind: usize,
    calls: usize,
    intr: usize,
}
impl Dam {
    fn new(most: usize, left: usize, kind: usize, intr: usize) -> Dam {
        Dam { got: vec![], most, left, kind, calls: 0, intr }
    }
    /// how much of `n` passes now
    fn pass(&mut self, n: usize) -> Result<usize> {
        self.calls += 1;
        if self.intr > 0 && self.calls % self.intr == 0 {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        if self.left == 0 {
            return match self.kind {
                0 => Ok(0),
                k => Err(Error::from(KINDS[k % KINDS.len()])),
            };
        }
        let k = n.min(self.most).min(self.left);
        self.left -= k;
        Ok(k)
    }
}
impl Write for Dam {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let k = self.pass(b.len())?;
        self.got.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
struct Drain<'a>(&'a [u8], usize, Dam);
impl Read for Drain<'_> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let k = self.2.pass(b.len().min(self.0.len() - self.1))?;
        b[..k].copy_from_slice(&self.0[self.1..self.1 + k]);
        self.1 += k;
        Ok(k)
    }
}

/// what the whole is made of
struct Bulk {
    t: Ty,
    v: Val,
    parts: Vec<Vec<u8>>,
    /// elements as recorded
    shown: Vec<String>,
}

fn picked(n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n.min(9)).chain(n.saturating_sub(5)..n).chain([126, 127, 128, 129, 4095, 4096, 16383, 16384, 65534, 65535, 65536, 65537]).collect();
    p.retain(|i| *i < n);
    p.sort();
    p.dedup();
    p
}

fn make(r: &mut Rng, k: K, e: &Ty, n: usize) -> Option<Bulk> {
    let some: Vec<Val> = (0..23).map(|_| loop {
        let v = val(r, e, true, false);
        // no NaN: the wholes are compared by ==
        let nan = e.k == K::F32 && matches!(&v, Val::Raw(b) if f32::from_le_bytes(b.as_slice().try_into().unwrap()).is_nan());
        if v.size() < 40 && !nan {
            break v;
        }
    }).collect();
    // of no order, all the same, all but the last the same
    let way = r.below(6);
    let el = |i: usize| match way {
        0 => some[0].clone(),
        1 => some[(i + 1 == n) as usize].clone(),
        _ => some[(i * 7 + i / 23) % some.len()].clone(),
    };
    let (t, v) = match k {
        K::Seq => (node(K::Seq, vec![e.clone()]), Val::List((0..n).map(el).collect())),
        K::Tup | K::St => (node(k, vec![e.clone(); n]), Val::List((0..n).map(el).collect())),
        K::Map => (node(K::Map, vec![e.clone()]), Val::Map((0..n).map(|i| (Val::Str(format!("{i:06}")), el(i))).collect())),
        K::Bytes => (leaf(K::Bytes), Val::Bytes(match way {
            0 => vec![*r.pick(&[0, 1, 255]); n],
            1 => (0..n).map(|i| (i + 1 == n) as u8).collect(),
            _ => (0..n).map(|i| (i * 31 + i / 256) as u8).collect(),
        })),
        _ => (leaf(K::Str), Val::Str((0..n).map(|i| {
            let c = ['a', 'é', '日', '\u{10ffff}', '\0', 'z'];
            match way {
                0 => c[n % 6],
                1 => c[(i + 1 == n) as usize * 2],
                _ => c[(i * 5 + i / 7) % 6],
            }
        }).collect())),
    };
    let all: Vec<(Option<Val>, Val)> = match &v {
        Val::List(x) => x.iter().map(|v| (None, v.clone())).collect(),
        Val::Map(x) => x.iter().map(|(k, v)| (Some(k.clone()), v.clone())).collect(),
        Val::Bytes(b) => b.iter().map(|x| (None, Val::raw([*x]))).collect(),
        Val::Str(s) => s.chars().map(|c| (None, Val::Char(c))).collect(),
        _ => unreachable!(),
    };
    let mut parts = vec![];
    for (k, v) in &all {
        let mut b = match k {
            Some(k) => ser(&leaf(K::Str), k)?,
            None => vec![],
        };
        match v {
            Val::Char(c) => b.extend(c.to_string().as_bytes()),
            v => b.extend(ser(e, v)?),
        }
        parts.push(b);
    }
    let shown = picked(n).into_iter().map(|i| {
        let (k, v) = &all[i];
        format!("[{},{},{}]", k.as_ref().map_or("[]".into(), jv), jv(v), jb(&parts[i]))
    }).collect();
    Some(Bulk { t, v, parts, shown })
}

fn read(t: &Ty, s: &mut impl Read) -> Option<Val> {
    Seed(t).deserialize(&mut Deserializer::new(s)).ok()
}

fn one(c: &mut Ctx, r: &mut Rng, k: K, e: &Ty, n: usize) {
    let kinds: Vec<usize> = (0..40).map(|_| r.below(KINDS.len())).collect();
    let at: Vec<usize> = (0..40).map(|_| r.next() as usize).collect();
    let et = if matches!(k, K::Bytes) { leaf(K::U8) } else { e.clone() };
    let mut q = r.clone();
    r.next();
    c.op(format!("\"o\":\"bulk\",\"k\":\"{}\",\"t\":{},\"n\":{n}", k.name(), jt(&et)), || {
        let Some(u) = make(&mut q, k, &et, n) else { return ",\"s\":0".into() };
        let sum: usize = u.parts.iter().map(|p| p.len()).sum();
        let Some(b) = ser(&u.t, &u.v) else { return ",\"s\":0".into() };
        let h = b.len().saturating_sub(sum);
        let same = (b.len() >= sum && b[h..] == u.parts.concat()[..]) as u8;
        let mut o = format!(",\"s\":1,\"rows\":[{}],\"sum\":{sum},\"h\":{},\"same\":{same}", u.shown.join(","), jb(&b[..h.min(12)]));
        let mut x = b.clone();
        x.extend([1, 2, 3]);
        let (w, used) = de(&u.t, &x);
        o += &format!(",\"d\":{},\"eq\":{},\"used\":{used}", w.is_some() as u8, (w.as_ref() == Some(&u.v)) as u8);
        // short of the end: the source ends, or fails, there
        let mut cuts: Vec<usize> = vec![b.len() - 1, b.len() / 2, h];
        cuts.extend(at.iter().take(3).map(|a| a % b.len()));
        for m in [4096usize, 8192] {
            cuts.extend([m + h, m + h + 1, m + h - 1]);
        }
        cuts.retain(|k| *k < b.len());
        let rows: Vec<String> = cuts.iter().enumerate().map(|(i, k)| {
            let end = read(&u.t, &mut Drain(&b[..*k], 0, Dam::new(1 << 30, *k, 0, 0))).is_some();
            let fails = read(&u.t, &mut Drain(&b, 0, Dam::new([1 << 30, 5000, 3][i % 3], *k, 1 + kinds[i], 0))).is_some();
            format!("[{k},{},{}]", end as u8, fails as u8)
        }).collect();
        o += &format!(",\"cuts\":[{}]", rows.join(","));
        // all of it, in pieces
        let most = [1usize, 3, 700, 4096, 5000, 65536];
        let rows: Vec<String> = most.iter().enumerate().map(|(i, m)| {
            let mut d = Dam::new(*m, usize::MAX, 0, [0, 5][i % 2]);
            let ok = TV(&u.t, &u.v).serialize(&mut Serializer::new(&mut d)).is_ok();
            format!("[{m},{},{}]", ok as u8, (d.got == b) as u8)
        }).collect();
        o += &format!(",\"sinks\":[{}]", rows.join(","));
        let rows: Vec<String> = most.iter().enumerate().map(|(i, m)| {
            let mut d = Drain(&x, 0, Dam::new(*m, usize::MAX, 0, [5, 0][i % 2]));
            let w = read(&u.t, &mut d);
            format!("[{m},{},{},{}]", w.is_some() as u8, (w.as_ref() == Some(&u.v)) as u8, d.1)
        }).collect();
        o += &format!(",\"srcs\":[{}]", rows.join(","));
        // a sink that is full, or fails
        let rows: Vec<String> = cuts.iter().enumerate().map(|(i, k)| {
            let mut d = Dam::new([1usize << 30, 5000, 300][i % 3], *k, kinds[i], [0, 0, 4][i % 3]);
            let ok = TV(&u.t, &u.v).serialize(&mut Serializer::new(&mut d)).is_ok();
            format!("[{k},{},{}]", ok as u8, (b.starts_with(&d.got)) as u8)
        }).collect();
        o += &format!(",\"full\":[{}]", rows.join(","));
        o
    });
    let _ = &c;
    #[cfg(feature = "full")]
    body(c, r, k, &et, n);
}

/// the same as a dynamic body
#[cfg(feature = "full")]
fn body(c: &mut Ctx, r: &mut Rng, k: K, et: &Ty, n: usize) {
    use crate::dynamic::*;
    use crate::hdr::*;
    let mut q = r.clone();
    r.next();
    c.op(format!("\"o\":\"bulkd\",\"k\":\"{}\",\"t\":{},\"n\":{n}", k.name(), jt(et)), || {
        let Some(u) = make(&mut q, k, et, n) else { return ",\"s\":0".into() };
        let sum: usize = u.parts.iter().map(|p| p.len()).sum();
        let h = to_header(&header_of(&u.t));
        let y = to_body(&u.t, &u.v);
        let Some(b) = bser(&y) else { return ",\"s\":0".into() };
        let at = b.len().saturating_sub(sum);
        let same = (b.len() >= sum && b[at..] == u.parts.concat()[..]) as u8;
        let mut o = format!(",\"s\":1,\"rows\":[{}],\"sum\":{sum},\"h\":{},\"same\":{same}", u.shown.join(","), jb(&b[..at.min(12)]));
        let mut x = b.clone();
        x.extend([1, 2, 3]);
        let (z, used) = bde(&h, &x);
        o += &format!(",\"d\":{},\"eq\":{},\"used\":{used},\"va\":{}", z.is_some() as u8, (z.as_ref() == Some(&y)) as u8,
            z.as_ref().is_some_and(|z| z.validate(&h)) as u8);
        let (w, m) = de(&u.t, &b);
        o += &format!(",\"td\":{},\"teq\":{},\"m\":{m}", w.is_some() as u8, (w.as_ref() == Some(&u.v)) as u8);
        // one element of another kind, at either end and inside
        let odd = if matches!(y, dlhn::Body::Array(_) | dlhn::Body::Tuple(_) | dlhn::Body::Map(_)) {
            let mut bad = vec![];
            for i in [0, n / 2, n - 1] {
                let mut y = y.clone();
                let wrong = dlhn::Body::Enum(9, Box::new(dlhn::Body::Unit));
                match &mut y {
                    dlhn::Body::Array(v) | dlhn::Body::Tuple(v) => v[i] = wrong,
                    dlhn::Body::Map(m) => {
                        let k = m.keys().nth(i).unwrap().clone();
                        m.insert(k, wrong);
                    }
                    _ => {}
                }
                bad.push(y.validate(&h) as u8);
            }
            bad
        } else {
            vec![]
        };
        o += &format!(",\"odd\":[{}]", odd.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        let mut cuts = vec![b.len() - 1, b.len() / 2, at, at + 4096, at + 4097, at + 8192];
        cuts.retain(|k| *k < b.len());
        let rows: Vec<String> = cuts.iter().enumerate().map(|(i, k)| {
            let end = bde(&h, &b[..*k]).0.is_some();
            let mut d = Drain(&b, 0, Dam::new(5000, *k, 1 + i, 0));
            let fails = dlhn::Body::deserialize(&h, &mut Deserializer::new(&mut d)).is_ok();
            format!("[{k},{},{}]", end as u8, fails as u8)
        }).collect();
        o += &format!(",\"cuts\":[{}]", rows.join(","));
        let rows: Vec<String> = cuts.iter().enumerate().map(|(i, k)| {
            let mut d = Dam::new([1usize << 30, 5000][i % 2], *k, i, 0);
            let ok = y.serialize(&mut Serializer::new(&mut d)).is_ok();
            format!("[{k},{},{}]", ok as u8, (b.starts_with(&d.got)) as u8)
        }).collect();
        o += &format!(",\"full\":[{}]", rows.join(","));
        let mut d = Dam::new(4999, usize::MAX, 0, 3);
        let ok = y.serialize(&mut Serializer::new(&mut d)).is_ok();
        o += &format!(",\"sinks\":[[4999,{},{}]]", ok as u8, (d.got == b) as u8);
        let mut d = Drain(&x, 0, Dam::new(4999, usize::MAX, 0, 3));
        let z = dlhn::Body::deserialize(&h, &mut Deserializer::new(&mut d)).ok();
        o += &format!(",\"srcs\":[[4999,{},{},{}]]", z.is_some() as u8, (z.as_ref() == Some(&y)) as u8, d.1);
        o
    });
}

pub fn run(c: &mut Ctx, r: &mut Rng, n: usize) {
    c.per = 6;
    crate::deep::run(c, r, n);
    crate::deep::sessions(c, r, n);
    crate::deep::weary(c, r, n);
    let elems: Vec<Ty> = vec![
        leaf(K::U8),
        leaf(K::Bool),
        leaf(K::U16),
        leaf(K::I64),
        leaf(K::F32),
        leaf(K::Str),
        leaf(K::Bytes),
        leaf(K::Unit),
        node(K::Opt, vec![leaf(K::U32)]),
        node(K::Seq, vec![leaf(K::U8)]),
        node(K::Tup, vec![leaf(K::I8), leaf(K::Str)]),
        node(K::Map, vec![leaf(K::Bool)]),
        Ty { k: K::Enum, s: vec![leaf(K::Unit), leaf(K::U16), node(K::Tv, vec![leaf(K::U8), leaf(K::Bool)])], n: 0 },
    ];
    let small = [127usize, 128, 129, 255, 256, 257, 511, 1023, 1024, 1025, 4095, 4096, 4097];
    let large = [8193usize, 16383, 16384, 16385, 32767, 32768, 65534, 65535, 65536, 65537, 65540, 70_000];
    let mut i = r.below(1000);
    for k in [K::Seq, K::Map, K::Tup, K::St] {
        for e in &elems {
            // nothing to fail inside of
            if e.k == K::Unit && k != K::Map && k != K::Seq {
                continue;
            }
            for _ in 0..n {
                one(c, r, k, e, small[i % small.len()]);
                i += 1;
            }
            if n > 2 {
                one(c, r, k, e, if matches!(k, K::Tup | K::St) { 65535 } else { large[i % large.len()] });
            }
        }
        for _ in 0..1 + n / 2 {
            // each kind of container beyond 16 bits, whatever else is drawn
            let big = *r.pick(&[65536usize, 65537, 65539]);
            let e = &elems[i % elems.len()];
            if matches!(k, K::Seq | K::Map) {
                one(c, r, k, e, big);
                one(c, r, k, &leaf(K::U8), 65_537 + i % 4);
            } else if e.k != K::Unit {
                { let m = *r.pick(&[20_000usize, 65535]); one(c, r, k, e, m); }
            }
            i += 5;
        }
    }
    for k in [K::Bytes, K::Str] {
        for m in small.iter().chain(&large) {
            if n > 2 || i % 3 == 0 || *m >= 65534 && i % 2 == 0 {
                one(c, r, k, &leaf(K::Char), *m);
            }
            i += 1;
        }
        one(c, r, k, &leaf(K::Char), 12_300);
    }
}
