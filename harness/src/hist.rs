//! Bytes of a value after a history: earlier writes through the same
//! serializer, refused values, failing sinks, reads, other threads.
use crate::ctx::Ctx;
use crate::gen::*;
use crate::hdr::*;
use crate::suites::*;
use crate::ty::*;
use dlhn::{DeserializeHeader, Deserializer, Serializer};
use serde::de::DeserializeSeed;
use serde::Serialize;
use std::cell::{Cell, RefCell};
use std::io::{Error, ErrorKind, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone)]
enum Step {
    Typed(Ty, Val),
    /// a value outside the format, or perhaps inside
    Odd(Ty, Val),
    Header(Ty),
    #[cfg_attr(not(feature = "full"), allow(dead_code))]
    Body(Ty, Val),
    /// the sink fails after that many bytes of the value
    Fail(Ty, Val, usize),
    /// the sink panics there
    Panic(Ty, Val, usize),
    /// other values are written and read before every part of it
    Amid(Ty, Val),
    /// these bytes are read as the type and as a header
    Read(Ty, Vec<u8>),
}

#[derive(Clone)]
struct Tap(Rc<RefCell<Vec<u8>>>, Rc<Cell<usize>>, Rc<Cell<bool>>);
impl Write for Tap {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        side();
        let k = b.len().min(self.1.get());
        if k == 0 && !b.is_empty() {
            if self.2.get() {
                panic!("scripted panic");
            }
            return Err(Error::from(ErrorKind::BrokenPipe));
        }
        self.0.borrow_mut().extend_from_slice(&b[..k]);
        self.1.set(self.1.get() - k);
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct Amid<'a>(&'a [u8]);
impl Read for Amid<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        side();
        let k = b.len().min(3);
        self.0.read(&mut b[..k])
    }
}

/// Unrelated writes and reads, some of which fail.
fn other() {
    let e = Ty { k: K::Enum, s: vec![leaf(K::Unit), leaf(K::Str)], n: 0 };
    let t = node(K::St, vec![
        leaf(K::U64), leaf(K::I16), leaf(K::Str), leaf(K::Bytes), leaf(K::Char), leaf(K::F64), node(K::Opt, vec![leaf(K::Bool)]),
        node(K::Seq, vec![leaf(K::U32)]), node(K::Map, vec![leaf(K::U8)]), e,
    ]);
    let v = Val::List(vec![
        Val::raw(70_000u64.to_le_bytes()), Val::raw((-300i16).to_le_bytes()), Val::Str("side".into()), Val::Bytes(vec![7; 200]),
        Val::Char('\u{e9}'), Val::raw(1.5f64.to_le_bytes()), Val::Opt(Some(Box::new(Val::Bool(true)))),
        Val::List(vec![Val::raw(1u32.to_le_bytes()); 3]), Val::Map(vec![(Val::Str("k".into()), Val::raw([9]))]),
        Val::Enum(1, Box::new(Val::Str("s".into()))),
    ]);
    let mut b = vec![];
    TV(&t, &v).serialize(&mut Serializer::new(&mut b)).expect("other value");
    let w = Seed(&t).deserialize(&mut Deserializer::new(&mut b.as_slice())).ok();
    assert!(w.as_ref() == Some(&v), "another value comes back in the middle of a call");
    let _ = TV(&t, &v).serialize(&mut Serializer::new(&mut [0u8; 9].as_mut_slice()));
    let _ = Seed(&t).deserialize(&mut Deserializer::new(&mut &b[..9]));
    let mut h = vec![];
    let x = to_header(&node(K::Opt, vec![node(K::Tup, vec![leaf(K::Str), leaf(K::Bool)])]));
    x.serialize(&mut h).expect("other header");
    assert!(h.as_slice().deserialize_header().ok() == Some(x), "another header comes back in the middle of a call");
    let _ = (&h[..2]).deserialize_header();
}

/// what each step wrote, as JSON; `one`: through one serializer
fn play(steps: &[Step], one: bool) -> Vec<String> {
    let tap = Tap(Rc::new(RefCell::new(vec![])), Rc::new(Cell::new(usize::MAX)), Rc::new(Cell::new(false)));
    let mut z = Serializer::new(tap.clone());
    let mut out = vec![];
    for s in steps {
        tap.0.borrow_mut().clear();
        tap.1.set(usize::MAX);
        tap.2.set(false);
        if !one {
            z = Serializer::new(tap.clone());
        }
        let mut put = |m: &str, t: &Ty, v: String, ok: bool| {
            let mut b = tap.0.borrow().clone();
            let mut o = format!("{{\"m\":\"{m}\",\"t\":{},\"v\":{v},\"s\":{},\"b\":{}", jt(t), ok as u8, jb(&b));
            b.extend([1, 0, 255]);
            let mut src = Amid(&b);
            // and what is read here
            let w = if m == "header" {
                src.deserialize_header().ok().map(|h| jt(&of_header(&h)))
            } else {
                Seed(t).deserialize(&mut Deserializer::new(&mut src)).ok().map(|w| jv(&w))
            };
            let n = b.len() - src.0.len();
            o += &format!(",\"d\":{},\"w\":{},\"n\":{n}}}", w.is_some() as u8, w.unwrap_or("[]".into()));
            out.push(o);
        };
        match s {
            Step::Typed(t, v) => {
                let ok = TV(t, v).serialize(&mut z).is_ok();
                put("typed", t, jv(v), ok);
            }
            Step::Amid(t, v) => {
                with_side(other, || {
                    let ok = TV(t, v).serialize(&mut z).is_ok();
                    put("typed", t, jv(v), ok);
                });
            }
            Step::Panic(t, v, k) => {
                tap.1.set(*k);
                tap.2.set(true);
                let _ = catch_unwind(AssertUnwindSafe(|| TV(t, v).serialize(&mut z).is_ok()));
            }
            Step::Odd(t, v) => {
                let _ = TV(t, v).serialize(&mut z);
            }
            Step::Header(h) => {
                let ok = to_header(h).serialize(&mut tap.clone()).is_ok();
                put("header", h, "[]".into(), ok);
            }
            #[cfg(feature = "full")]
            Step::Body(t, v) => {
                let ok = to_body(t, v).serialize(&mut z).is_ok();
                put("typed", t, jv(v), ok);
            }
            #[cfg(not(feature = "full"))]
            Step::Body(..) => {}
            Step::Fail(t, v, k) => {
                tap.1.set(*k);
                let _ = TV(t, v).serialize(&mut z);
            }
            Step::Read(t, b) => {
                let _ = Seed(t).deserialize(&mut Deserializer::new(&mut b.as_slice())).map(|_| ());
                let _ = b.as_slice().deserialize_header();
            }
        }
    }
    out
}

fn step(r: &mut Rng, i: usize) -> Step {
    loop {
        let d = 1 + r.below(3);
        let t = if r.one_in(6) { enum_ty(r, 1) } else { ty(r, d) };
        let big = r.one_in(3);
        let v = val(r, &t, true, big);
        if v.size() > 120 {
            continue;
        }
        return match i % 14 {
            1 => {
                let t = refuse_ty(r, 2);
                let v = val(r, &t, false, false);
                Step::Odd(t, v)
            }
            3 => Step::Header(header(r, 2)),
            5 => {
                let k = r.below(9);
                Step::Fail(t, v, k)
            }
            7 => {
                let h = header(r, 2);
                match hval(r, &h) {
                    Some(v) if v.size() < 120 => Step::Body(h, v),
                    _ => continue,
                }
            }
            9 => {
                // a list of nothing has a length that no input pays for
                if t.has_zero_width_seq() {
                    continue;
                }
                let l = r.below(24);
                Step::Read(t, soup(r, l))
            }
            11 => Step::Amid(t, v),
            13 => {
                let k = r.below(9);
                Step::Panic(t, v, k)
            }
            _ => Step::Typed(t, v),
        };
    }
}

pub fn run(c: &mut Ctx, r: &mut Rng, n: usize) {
    c.per = 10;
    crate::deep::weary(c, r, 1 + n / 1000);
    for i in 0..n {
        let m = 2 + r.below(7);
        let off = r.below(14);
        let mut steps: Vec<Step> = (0..m).map(|j| step(r, j * 3 + off)).collect();
        steps.push(step(r, 0));
        let one = i % 2 == 0;
        let par = i % 16 == 5;
        c.op("\"o\":\"hist\"".into(), || {
            let rows = if par {
                // the same steps in several threads at once
                std::thread::scope(|s| {
                    let hs: Vec<_> = (0..4)
                        .map(|k| {
                            let mut mine = steps.clone();
                            mine.rotate_left(k % steps.len());
                            s.spawn(move || play(&mine, k % 2 == 0))
                        })
                        .collect();
                    hs.into_iter().flat_map(|h| h.join().expect("thread")).collect()
                })
            } else {
                play(&steps, one)
            };
            format!(",\"rows\":[{}]", rows.join(","))
        });
    }
    // every value of a kind right after every other, and every kind after every other
    let mut all: Vec<Vec<(Ty, Val)>> = vec![];
    for k in INTS {
        let w = width(*k) as u32 * 8;
        let vs = [0u64, 1, 63, 64, 127, 128, 1 << (w - 1), (1 << (w - 1)) - 1, u64::MAX];
        all.push(vs.iter().map(|v| (leaf(*k), Val::Raw(v.to_le_bytes()[..w as usize / 8].to_vec()))).collect());
    }
    for p in [leaf(K::Unit), leaf(K::U8), node(K::Tv, vec![leaf(K::Bool), leaf(K::U8)]), node(K::Sv, vec![leaf(K::U8)])] {
        let t = Ty { k: K::Enum, s: vec![p.clone()], n: usize::MAX >> 31 };
        let vs = [0u32, 1, 127, 128, 255, 256, 65535, 65536, u32::MAX - 1, u32::MAX];
        all.push(vs.iter().map(|i| (t.clone(), Val::Enum(*i, Box::new(val(r, &p, true, false))))).collect());
    }
    for t in [leaf(K::Str), leaf(K::Bytes), node(K::Seq, vec![leaf(K::U8)]), node(K::Seq, vec![leaf(K::Str)]), node(K::Map, vec![leaf(K::U8)]),
        node(K::Map, vec![leaf(K::Str)]), node(K::Opt, vec![leaf(K::Str)]), node(K::Opt, vec![leaf(K::Unit)]), leaf(K::Char), leaf(K::F32),
        leaf(K::F64), leaf(K::Bool)] {
        let mut vs: Vec<Val> = vec![];
        for _ in 0..60 {
            let v = val(r, &t, true, false);
            if v.size() < 12 && !vs.contains(&v) && vs.len() < 8 {
                vs.push(v);
            }
        }
        all.push(vs.into_iter().map(|v| (t.clone(), v)).collect());
    }
    let mut mix: Vec<(Ty, Val)> = all.iter().map(|x| r.pick(x).clone()).collect();
    mix.extend(leaves().into_iter().map(|k| (leaf(k), val(r, &leaf(k), true, false))));
    mix.retain(|(_, v)| v.size() < 60);
    all.push(mix);
    for vs in all {
        // a sequence that holds every ordered pair
        let m = vs.len();
        let mut order = vec![];
        for i in 0..m {
            order.push(i);
            for j in i + 1..m {
                order.extend([i, j]);
            }
        }
        order.push(0);
        let steps: Vec<Step> = order.iter().map(|i| Step::Typed(vs[*i].0.clone(), vs[*i].1.clone())).collect();
        for (i, part) in steps.chunks(80).enumerate() {
            // the parts overlap by one
            let mut part = part.to_vec();
            if let Some(s) = steps.get((i + 1) * 80) {
                part.push(s.clone());
            }
            for one in [true, false] {
                c.op("\"o\":\"hist\"".into(), || format!(",\"rows\":[{}]", play(&part, one).join(",")));
            }
        }
    }
    // very long histories of one value: told as the first bytes and whether
    // all the others are the same
    for (t, v) in [
        (leaf(K::U8), Val::raw([7])),
        (leaf(K::U16), Val::raw(300u16.to_le_bytes())),
        (leaf(K::Str), Val::Str("ab".into())),
        (leaf(K::Bool), Val::Bool(true)),
        (node(K::Opt, vec![leaf(K::U32)]), Val::Opt(Some(Box::new(Val::raw(70000u32.to_le_bytes()))))),
        (node(K::Seq, vec![leaf(K::Bool)]), Val::List(vec![Val::Bool(true), Val::Bool(false)])),
        (node(K::Map, vec![leaf(K::U8)]), Val::Map(vec![(Val::Str("k".into()), Val::raw([1]))])),
        (node(K::St, vec![leaf(K::U8), leaf(K::Str)]), Val::List(vec![Val::raw([1]), Val::Str("x".into())])),
    ] {
        for times in [300usize, 70_000] {
            c.op(format!("\"o\":\"rep\",\"t\":{},\"v\":{},\"times\":{times}", jt(&t), jv(&v)), || {
                let mut b = Vec::new();
                let mut z = Serializer::new(&mut b);
                let ok = (0..times).all(|_| TV(&t, &v).serialize(&mut z).is_ok());
                let l = b.len() / times;
                let all = ok && b.len() == l * times && b.chunks(l.max(1)).all(|x| x == &b[..l]);
                format!(",\"s\":{},\"b\":{},\"all\":{}", ok as u8, jb(&b[..l.min(40)]), all as u8)
            });
        }
    }
}
