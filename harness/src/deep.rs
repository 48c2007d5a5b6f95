//! Values nested deeper than anybody nests them: a chain of layers, one
//! around the other, around a byte (spec/Deep.tla); and sessions of tens of
//! thousands of values through one pair of serializer and deserializer.
use crate::ctx::Ctx;
use crate::gen::*;
use crate::suites::*;
use crate::ty::*;
use dlhn::{Deserializer, Serializer};
use serde::de::DeserializeSeed;
use serde::Serialize;
use std::io::{Read, Result, Write};

const LAYERS: [&str; 9] = ["opt", "seq", "map", "nt", "tup", "st", "nv", "tv", "sv"];

fn around(w: &str, t: Ty, v: Val) -> (Ty, Val) {
    let u = || leaf(K::U8);
    let one = |k| node(k, vec![t.clone()]);
    match w {
        "opt" => (one(K::Opt), Val::Opt(Some(Box::new(v)))),
        "seq" => (one(K::Seq), Val::List(vec![v])),
        "map" => (one(K::Map), Val::Map(vec![(Val::Str("k".into()), v)])),
        "nt" => (one(K::Nt), v),
        "tup" => (node(K::Tup, vec![t, u()]), Val::List(vec![v, Val::raw([6])])),
        "st" => (node(K::St, vec![u(), t]), Val::List(vec![Val::raw([5]), v])),
        "nv" => (node(K::Enum, vec![leaf(K::Unit), t]), Val::Enum(1, Box::new(v))),
        "tv" => (node(K::Enum, vec![node(K::Tv, vec![t, u()])]), Val::Enum(0, Box::new(Val::List(vec![v, Val::raw([6])])))),
        _ => (
            node(K::Enum, vec![leaf(K::Unit), leaf(K::Unit), node(K::Sv, vec![u(), t])]),
            Val::Enum(2, Box::new(Val::List(vec![Val::raw([5]), v]))),
        ),
    }
}

/// takes so many bytes, then fails
struct Full(Vec<u8>, usize);
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        let k = b.len().min(self.1 - self.0.len());
        if k == 0 && !b.is_empty() {
            return Err(std::io::Error::from(std::io::ErrorKind::Other));
        }
        self.0.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

fn one(ws: &[&str], times: usize) -> String {
    let (mut t, mut v) = (leaf(K::U8), Val::raw([7]));
    for w in ws.repeat(times).iter().rev() {
        (t, v) = around(w, t, v);
    }
    let Some(b) = ser(&t, &v) else { return ",\"s\":0".into() };
    let mut x = b.clone();
    x.extend([1, 2, 3]);
    let (w, used) = de(&t, &x);
    let mut o = format!(",\"s\":1,\"b\":{},\"d\":{},\"eq\":{},\"used\":{used}", jb(&b), w.is_some() as u8, (w.as_ref() == Some(&v)) as u8);
    let cuts: Vec<usize> = [b.len() - 1, b.len() / 2, b.len() / 3].into_iter().filter(|k| *k < b.len()).collect();
    let mut rows: Vec<String> = cuts.iter().map(|k| format!("[{k},{}]", de(&t, &b[..*k]).0.is_some() as u8)).collect();
    let mut full: Vec<String> = cuts.iter().map(|k| {
        let mut s = Full(vec![], *k);
        let ok = TV(&t, &v).serialize(&mut Serializer::new(&mut s)).is_ok();
        format!("[{k},{},{}]", ok as u8, b.starts_with(&s.0) as u8)
    }).collect();
    #[cfg(feature = "full")]
    {
        use crate::dynamic::*;
        use crate::hdr::*;
        let h = to_header(&header_of(&t));
        let hb = hser(&h).unwrap_or_default();
        let mut hx = hb.clone();
        hx.extend([1, 2, 3]);
        let (h2, hn) = hde(&hx);
        let y = to_body(&t, &v);
        let (z, n) = bde(&h, &x);
        // the same, around something else
        let (mut xt, mut xv) = (leaf(K::Bool), Val::Bool(true));
        for w in ws.repeat(times).iter().rev() {
            (xt, xv) = around(w, xt, xv);
        }
        let x = to_body(&xt, &xv);
        o += &format!(",\"hb\":{},\"heq\":{},\"hn\":{hn},\"yb\":{},\"yeq\":{},\"yn\":{n},\"va\":{},\"vb\":{}", jb(&hb), h2.is_ok_and(|x| x == h) as u8,
            jb(&bser(&y).unwrap_or_default()), (z.as_ref() == Some(&y)) as u8, y.validate(&h) as u8, x.validate(&h) as u8);
        rows.extend(cuts.iter().map(|k| format!("[{k},{}]", bde(&h, &b[..*k]).0.is_some() as u8)));
        full.extend(cuts.iter().map(|k| {
            let mut s = Full(vec![], *k);
            let ok = y.serialize(&mut Serializer::new(&mut s)).is_ok();
            format!("[{k},{},{}]", ok as u8, b.starts_with(&s.0) as u8)
        }));
    }
    o += &format!(",\"cuts\":[{}],\"full\":[{}]", rows.join(","), full.join(","));
    o
}

pub fn run(c: &mut Ctx, r: &mut Rng, n: usize) {
    let sizes = [33usize, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300];
    let mut chains: Vec<(Vec<&str>, usize)> = vec![];
    for (i, w) in LAYERS.iter().enumerate() {
        chains.push((vec![w], sizes[(i * 5 + n) % sizes.len()]));
        chains.push((vec![w], [129, 257, 300][i % 3]));
        chains.push((vec![w], [1500, 1100, 2100, 1030][(i + n) % 4]));
    }
    for i in 0..6 * n {
        let m = 2 + r.below(4);
        let ws: Vec<&str> = (0..m).map(|_| *r.pick(&LAYERS)).collect();
        chains.push((ws, sizes[i % sizes.len()] / m + 1));
    }
    for (ws, times) in chains {
        let names: Vec<String> = ws.iter().map(|w| format!("\"{w}\"")).collect();
        c.op(format!("\"o\":\"deep\",\"ws\":[{}],\"times\":{times}", names.join(",")), || {
            // room for the stack of an unoptimised build
            let t = std::thread::Builder::new().stack_size(1 << 30);
            let x = std::thread::scope(|s| t.spawn_scoped(s, || one(&ws, times)).expect("thread").join());
            match x {
                Ok(o) => o,
                Err(e) => std::panic::resume_unwind(e),
            }
        });
    }
    c.flush();
}

/// gives at most `most` bytes a read
struct Few<'a>(&'a [u8], usize, usize);
impl Read for Few<'_> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        let k = b.len().min(self.2).min(self.0.len() - self.1);
        b[..k].copy_from_slice(&self.0[self.1..self.1 + k]);
        self.1 += k;
        Ok(k)
    }
}

/// many values in a row, through one serializer and back through one (or
/// many) deserializers; told as what each value looked like, each look once
pub fn sessions(c: &mut Ctx, r: &mut Rng, n: usize) {
    for i in 0..4 * n {
        let kinds: Vec<(Ty, Val)> = (0..12).map(|_| loop {
            let d = r.below(3);
            let t = ty(r, d);
            let v = val(r, &t, true, false);
            if v.size() < 30 && t.size() < 20 && ser(&t, &v).is_some() {
                break (t, v);
            }
        }).collect();
        let times = [300usize, 5_000, 70_000, 66_000][i % 4];
        let order: Vec<usize> = (0..times).map(|_| r.below(kinds.len())).collect();
        let many = i % 8 >= 4;
        let most = [1usize << 20, 1, 7][i % 3];
        c.op(format!("\"o\":\"long\",\"times\":{times},\"many\":{}", many as u8), || {
            let mut looks: Vec<Vec<(Vec<u8>, Vec<u8>, usize)>> = vec![vec![]; kinds.len()];
            let mut b = vec![];
            let mut ends = vec![];
            struct Tap<'a>(&'a std::cell::RefCell<&'a mut Vec<u8>>);
            impl Write for Tap<'_> {
                fn write(&mut self, x: &[u8]) -> Result<usize> {
                    self.0.borrow_mut().extend_from_slice(x);
                    Ok(x.len())
                }
                fn flush(&mut self) -> Result<()> {
                    Ok(())
                }
            }
            {
                let cell = std::cell::RefCell::new(&mut b);
                let mut z = Serializer::new(Tap(&cell));
                for k in &order {
                    let (t, v) = &kinds[*k];
                    let ok = TV(t, v).serialize(&mut z).is_ok();
                    ends.push((ok, cell.borrow().len()));
                }
            }
            let mut s = Few(&b, 0, most);
            let mut got = vec![];
            if many {
                for k in &order {
                    let x = Seed(&kinds[*k].0).deserialize(&mut Deserializer::new(&mut s)).ok();
                    got.push((x, s.1));
                }
            } else {
                struct See<'a, 'b>(&'b std::cell::RefCell<Few<'a>>);
                impl Read for See<'_, '_> {
                    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
                        self.0.borrow_mut().read(b)
                    }
                }
                let cell = std::cell::RefCell::new(s);
                let mut see = See(&cell);
                let mut d = Deserializer::new(&mut see);
                for k in &order {
                    let x = Seed(&kinds[*k].0).deserialize(&mut d).ok();
                    got.push((x, cell.borrow().1));
                }
            }
            let mut at = (0, 0);
            for (j, k) in order.iter().enumerate() {
                let (ok, e) = ends[j];
                let (x, g) = &got[j];
                let back = match x {
                    Some(x) => ser(&kinds[*k].0, x).unwrap_or(vec![255]),
                    None => vec![254],
                };
                let look = (if ok { b[at.0.min(e)..e].to_vec() } else { vec![253] }, back, g - at.1);
                if looks[*k].len() < 4 && !looks[*k].contains(&look) {
                    looks[*k].push(look);
                }
                at = (e, *g);
            }
            let rows: Vec<String> = kinds.iter().zip(&looks).flat_map(|((t, v), l)| {
                l.iter().map(move |(b, w, n)| format!("[{},{},{},{},{n}]", jt(t), jv(v), jb(b), jb(w)))
            }).collect();
            format!(",\"rows\":[{}]", rows.join(","))
        });
    }
    c.flush();
}

/// source and sink whose other end stays in our hands
#[derive(Clone)]
struct Pipe(std::rc::Rc<std::cell::RefCell<(Vec<u8>, usize, usize)>>);
impl Pipe {
    fn new() -> Pipe {
        Pipe(std::rc::Rc::new(std::cell::RefCell::new((vec![], 0, usize::MAX))))
    }
    fn set(&self, b: Vec<u8>, room: usize) {
        *self.0.borrow_mut() = (b, 0, room);
    }
}
impl Write for Pipe {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        let mut p = self.0.borrow_mut();
        let k = b.len().min(p.2);
        if k == 0 && !b.is_empty() {
            return Err(std::io::Error::from(std::io::ErrorKind::Other));
        }
        p.0.extend_from_slice(&b[..k]);
        p.2 -= k;
        Ok(k)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Read for Pipe {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        let mut p = self.0.borrow_mut();
        let k = b.len().min(p.0.len() - p.1);
        b[..k].copy_from_slice(&p.0[p.1..p.1 + k]);
        p.1 += k;
        Ok(k)
    }
}

/// what a chain of layers around a boolean, and what a wrong one there, is in bytes
fn spoiled(t: &Ty, v: &Val, w: &Val) -> Option<(Vec<u8>, Vec<u8>)> {
    let (a, b) = (ser(t, v)?, ser(t, w)?);
    let i = (0..a.len().min(b.len())).find(|i| a[*i] != b[*i])?;
    let mut bad = a.clone();
    bad[i] = 9;
    Some((a, bad))
}

fn has_header(t: &Ty) -> bool {
    t.n <= 65535 && t.s.iter().all(has_header)
}

/// Thousands of failures first: values that are refused, sinks that are full,
/// bytes that are wrong or missing, at every place. What is written and read
/// after them, through the same serializer and deserializer, is told.
pub fn weary(c: &mut Ctx, r: &mut Rng, n: usize) {
    for i in 0..4 * n {
        let kinds: Vec<(Ty, Val)> = (0..14).map(|j| loop {
            let t = if j < LAYERS.len() { around(LAYERS[j], leaf(K::U16), Val::raw([5, 1])).0 } else { ty(r, 2) };
            let v = val(r, &t, true, false);
            if v.size() < 30 && t.size() < 20 && has_header(&t) && !matches!(v, Val::Opt(None)) && ser(&t, &v).is_some() {
                break (t, v);
            }
        }).collect();
        // chains of layers that lead to what fails
        let mut chains: Vec<Vec<&str>> = LAYERS.iter().map(|w| vec![*w]).collect();
        for _ in 0..9 {
            let m = 2 + r.below(3);
            chains.push((0..m).map(|_| *r.pick(&LAYERS)).collect());
        }
        let wrap = |ws: &[&str], t: Ty, v: Val| ws.iter().rev().fold((t, v), |(t, v), w| around(w, t, v));
        let mut refused: Vec<(Ty, Val)> = vec![];
        let mut good: Vec<(Ty, Val, Vec<u8>, Vec<u8>)> = vec![];
        for ws in &chains {
            let t = refuse_ty(r, 1);
            let v = val(r, &t, false, false);
            refused.push(wrap(ws, t, v));
            let (t, v) = wrap(ws, leaf(K::Bool), Val::Bool(true));
            let (_, w) = wrap(ws, leaf(K::Bool), Val::Bool(false));
            if let Some((a, bad)) = spoiled(&t, &v, &w) {
                good.push((t, v, a, bad));
            }
        }
        let times = [300usize, 1_200, 5_000, 70_000][i % 4];
        c.op(format!("\"o\":\"long\",\"times\":{times},\"weary\":1"), || {
            let (to, mut from) = (Pipe::new(), Pipe::new());
            let mut z = Serializer::new(to.clone());
            let other = from.clone();
            let mut d = Deserializer::new(&mut from);
            for j in 0..times {
                to.set(vec![], usize::MAX);
                let (t, v) = &refused[j % refused.len()];
                let _ = TV(t, v).serialize(&mut z);
                let (t, v, a, bad) = &good[(j / 3) % good.len()];
                match j % 3 {
                    0 => {
                        to.set(vec![], j % a.len());
                        let _ = TV(t, v).serialize(&mut z);
                    }
                    1 => {
                        other.set(a[..j % a.len()].to_vec(), 0);
                        let _ = Seed(t).deserialize(&mut d);
                    }
                    _ => {
                        other.set(bad.clone(), 0);
                        let _ = Seed(t).deserialize(&mut d);
                    }
                }
                #[cfg(feature = "full")]
                if j % 4 == 0 {
                    use crate::hdr::*;
                    let h = to_header(&header_of(t));
                    let b = if j % 8 == 0 { bad.as_slice() } else { &a[..j % a.len()] };
                    let _ = dlhn::Body::deserialize(&h, &mut Deserializer::new(&mut &b[..]));
                    let hb = hser(&h).unwrap_or_default();
                    let _ = hde(&hb[..j % hb.len().max(1)]);
                }
            }
            let mut rows = vec![];
            for _ in 0..2 {
                for (t, v) in &kinds {
                    to.set(vec![], usize::MAX);
                    let ok = TV(t, v).serialize(&mut z).is_ok();
                    let b = if ok { to.0.borrow().0.clone() } else { vec![253] };
                    let mut x = b.clone();
                    x.extend([1, 2, 3]);
                    other.set(x, 0);
                    let back = match Seed(t).deserialize(&mut d) {
                        Ok(w) => ser(t, &w).unwrap_or(vec![255]),
                        Err(_) => vec![254],
                    };
                    let n = other.0.borrow().1;
                    rows.push(format!("[{},{},{},{},{n}]", jt(t), jv(v), jb(&b), jb(&back)));
                    #[cfg(feature = "full")]
                    {
                        use crate::dynamic::*;
                        use crate::hdr::*;
                        let y = to_body(t, v);
                        let h = to_header(&header_of(t));
                        let hb = hser(&h).unwrap_or_default();
                        let h2 = hde(&hb).0;
                        let mut x = b.clone();
                        x.extend([1, 2, 3]);
                        let (z, n) = h2.map_or((None, 0), |h| bde(&h, &x));
                        rows.push(format!("[{},{},{},{},{n}]", jt(t), jv(v), jb(&bser(&y).unwrap_or(vec![253])),
                            jb(&z.and_then(|z| bser(&z)).unwrap_or(vec![254]))));
                    }
                }
            }
            format!(",\"rows\":[{}]", rows.join(","))
        });
    }
    c.flush();
}
