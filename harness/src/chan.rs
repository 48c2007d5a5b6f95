//! Messages through sinks and sources that accept and deliver piecemeal.
//! A session is one sink or source, a list of messages, and what happened.
use crate::ctx::Ctx;
use crate::gen::*;
use crate::hdr::*;
use crate::io::*;
use crate::suites::*;
use crate::ty::*;
use dlhn::{DeserializeHeader, Deserializer, Serializer};
use serde::de::DeserializeSeed;
use serde::Serialize;

#[derive(Clone)]
pub enum Msg {
    Typed(Ty, Val),
    Header(Ty),
    /// the header of a Rust type, written by the type itself
    #[cfg_attr(not(feature = "full"), allow(dead_code))]
    Static(Ty, fn(&mut dyn std::io::Write) -> bool),
    /// whatever this writes, and the bytes it writes to a sink that takes all
    Raw(Vec<u8>, fn(&mut dyn std::io::Write) -> bool),
    /// a dynamic body of a header
    #[cfg_attr(not(feature = "full"), allow(dead_code))]
    Body(Ty, Val),
}

impl Msg {
    fn json(&self) -> String {
        match self {
            Msg::Typed(t, v) => format!("{{\"m\":\"typed\",\"t\":{},\"v\":{}}}", jt(t), jv(v)),
            Msg::Header(h) | Msg::Static(h, _) => format!("{{\"m\":\"header\",\"t\":{},\"v\":[]}}", jt(h)),
            Msg::Raw(b, _) => format!("{{\"m\":\"raw\",\"b\":{}}}", jb(b)),
            Msg::Body(t, v) => format!("{{\"m\":\"body\",\"t\":{},\"v\":{}}}", jt(t), jv(v)),
        }
    }
    fn of(j: &serde_json::Value) -> Msg {
        let t = ty_of(&j["t"]);
        match j["m"].as_str().unwrap() {
            "header" => Msg::Header(t),
            "body" => {
                let v = val_of(&t, &j["v"]);
                Msg::Body(t, v)
            }
            _ => {
                let v = val_of(&t, &j["v"]);
                Msg::Typed(t, v)
            }
        }
    }
    fn write<W: std::io::Write>(&self, w: &mut W) -> bool {
        match self {
            Msg::Typed(t, v) => TV(t, v).serialize(&mut Serializer::new(w)).is_ok(),
            Msg::Header(h) => to_header(h).serialize(w).is_ok(),
            Msg::Static(_, f) | Msg::Raw(_, f) => f(w),
            #[cfg(feature = "full")]
            Msg::Body(t, v) => to_body(t, v).serialize(&mut Serializer::new(w)).is_ok(),
            #[cfg(not(feature = "full"))]
            Msg::Body(..) => panic!("bodies need every feature"),
        }
    }
    /// what came back, as JSON
    fn read<R: std::io::Read>(&self, r: &mut R) -> Option<String> {
        match self {
            Msg::Typed(t, _) => Seed(t).deserialize(&mut Deserializer::new(r)).ok().map(|v| jv(&v)),
            Msg::Raw(..) => None,
            Msg::Header(_) | Msg::Static(..) => r.deserialize_header().ok().map(|h| jt(&of_header(&h))),
            #[cfg(feature = "full")]
            Msg::Body(t, _) => dlhn::Body::deserialize(&to_header(t), &mut Deserializer::new(r))
                .ok()
                .map(|y| crate::dynamic::jy(&y)),
            #[cfg(not(feature = "full"))]
            Msg::Body(..) => panic!("bodies need every feature"),
        }
    }
}

/// merged log entries as events
fn events(log: &mut Vec<Ev>, o: &mut Vec<String>) {
    for e in log.drain(..) {
        o.push(match e {
            Ev::Took(b) => format!("{{\"e\":\"took\",\"b\":{}}}", jb(&b)),
            Ev::Gave(n) => format!("{{\"e\":\"gave\",\"k\":{n}}}"),
            Ev::Intr => "{\"e\":\"intr\"}".into(),
            Ev::Fail => "{\"e\":\"fail\"}".into(),
            Ev::Zero => "{\"e\":\"zero\"}".into(),
        });
    }
}

/// `one`: all typed messages of a run share a serializer or deserializer
fn sink(c: &mut Ctx, msgs: &[Msg], script: &[Ans], one: bool) {
    let list: Vec<String> = msgs.iter().map(|m| m.json()).collect();
    c.op(format!("\"o\":\"sink\",\"msgs\":[{}]", list.join(",")), || {
        let mut s = Sink { script: Script::new(script.to_vec(), Ans::Some(7)), net: vec![], log: vec![] };
        let mut ev: Vec<String> = vec![];
        if one {
            // one serializer object; the log is read once at the end, so each
            // message's events are told apart by marks the sink records
            let mut z = Serializer::new(Shared(std::cell::RefCell::new(&mut s)));
            let mut marks = vec![];
            for m in msgs {
                let ok = match m {
                    Msg::Typed(t, v) => TV(t, v).serialize(&mut z).is_ok(),
                    #[cfg(feature = "full")]
                    Msg::Body(t, v) => to_body(t, v).serialize(&mut z).is_ok(),
                    _ => true,
                };
                marks.push(ok);
                // a call that logs the end of the message
                MARK.with(|x| x.set(x.get() + 1));
                if !ok {
                    break;
                }
            }
            drop(z);
            LOGS.with(|l| {
                let mut l = l.borrow_mut();
                for (i, ok) in marks.iter().enumerate() {
                    ev.push("{\"e\":\"begin\"}".into());
                    let mut mine = l.get(&i).cloned().unwrap_or_default();
                    events(&mut mine, &mut ev);
                    ev.push(format!("{{\"e\":\"end\",\"ok\":{}}}", *ok as u8));
                }
                l.clear();
            });
            MARK.with(|x| x.set(0));
        } else {
            for m in msgs {
                ev.push("{\"e\":\"begin\"}".into());
                let ok = m.write(&mut s);
                events(&mut s.log, &mut ev);
                ev.push(format!("{{\"e\":\"end\",\"ok\":{}}}", ok as u8));
                if !ok {
                    break;
                }
            }
        }
        format!(",\"evs\":[{}]", ev.join(","))
    });
}

thread_local! {
    #[cfg(feature = "full")]
    static STATICS: Vec<crate::real::Static> = crate::real::statics();
    static MARK: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static LOGS: std::cell::RefCell<std::collections::HashMap<usize, Vec<Ev>>> = Default::default();
}

/// files each call under the message being written
struct Shared<'a>(std::cell::RefCell<&'a mut Sink>);
impl std::io::Write for Shared<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let s = self.0.get_mut();
        let r = s.write(b);
        let i = MARK.with(|x| x.get());
        LOGS.with(|l| {
            let mut l = l.borrow_mut();
            let v = l.entry(i).or_default();
            for e in s.log.drain(..) {
                match (v.last_mut(), &e) {
                    (Some(Ev::Took(a)), Ev::Took(b)) => a.extend_from_slice(b),
                    _ => v.push(e),
                }
            }
        });
        r
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// `cut`: the source ends after that many bytes (none: junk follows)
fn source(c: &mut Ctx, msgs: &[Msg], script: &[Ans], rest: Ans, cut: Option<usize>, junk: &[u8], one: bool) {
    let list: Vec<String> = msgs.iter().map(|m| m.json()).collect();
    c.op(format!("\"o\":\"source\",\"msgs\":[{}]", list.join(",")), || {
        let mut data = vec![];
        for m in msgs {
            if !m.write(&mut data) {
                return ",\"data\":[],\"evs\":[]".into();
            }
        }
        match cut {
            Some(k) => data.truncate(k.min(data.len())),
            None => data.extend_from_slice(junk),
        }
        let mut s = Source { script: Script::new(script.to_vec(), rest), data: &data, pos: 0, log: vec![] };
        let mut ev: Vec<String> = vec![];
        if one && msgs.iter().all(|m| !matches!(m, Msg::Header(_) | Msg::Static(..))) {
            // all through one deserializer
            let mut outs = vec![];
            {
                let mut q = Tally(&mut s);
                let mut d = Deserializer::new(&mut q);
                for m in msgs {
                    let r = match m {
                        Msg::Typed(t, _) => Seed(t).deserialize(&mut d).ok().map(|v| jv(&v)),
                        #[cfg(feature = "full")]
                        Msg::Body(t, _) => dlhn::Body::deserialize(&to_header(t), &mut d).ok().map(|y| crate::dynamic::jy(&y)),
                        _ => None,
                    };
                    let stop = r.is_none();
                    outs.push(r);
                    MARK.with(|x| x.set(x.get() + 1));
                    if stop {
                        break;
                    }
                }
            }
            LOGS.with(|l| {
                let mut l = l.borrow_mut();
                for (i, r) in outs.into_iter().enumerate() {
                    ev.push("{\"e\":\"begin\"}".into());
                    let mut mine = l.get(&i).cloned().unwrap_or_default();
                    events(&mut mine, &mut ev);
                    ev.push(end(r));
                }
                l.clear();
            });
            MARK.with(|x| x.set(0));
        } else {
            for m in msgs {
                ev.push("{\"e\":\"begin\"}".into());
                let r = m.read(&mut s);
                events(&mut s.log, &mut ev);
                let stop = r.is_none();
                ev.push(end(r));
                if stop {
                    break;
                }
            }
        }
        format!(",\"data\":{},\"evs\":[{}]", jb(&data), ev.join(","))
    });
}
fn end(r: Option<String>) -> String {
    match r {
        Some(w) => format!("{{\"e\":\"end\",\"ok\":1,\"w\":{w}}}"),
        None => "{\"e\":\"end\",\"ok\":0}".into(),
    }
}

struct Tally<'a, 'b>(&'a mut Source<'b>);
impl std::io::Read for Tally<'_, '_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let r = self.0.read(b);
        let i = MARK.with(|x| x.get());
        LOGS.with(|l| {
            let mut l = l.borrow_mut();
            let v = l.entry(i).or_default();
            for e in self.0.log.drain(..) {
                match (v.last_mut(), &e) {
                    (Some(Ev::Gave(a)), Ev::Gave(k)) => *a += k,
                    _ => v.push(e),
                }
            }
        });
        r
    }
}

fn reset() {
    // a panic may have left a half-written log behind
    MARK.with(|x| x.set(0));
    LOGS.with(|l| l.borrow_mut().clear());
}

fn answers(r: &mut Rng, n: usize, bad: bool) -> Vec<Ans> {
    let style = r.below(4);
    (0..n)
        .map(|_| match r.below(12) {
            0 | 1 => Ans::Intr,
            2 if bad && r.one_in(3) => Ans::Fail(r.below(2 * KINDS.len())),
            3 if bad && r.one_in(4) => Ans::Zero,
            _ => Ans::Some(match style {
                0 => 1,
                1 => 1 + r.below(3),
                2 => 1 + r.below(40),
                _ => 1 << 20,
            }),
        })
        .collect()
}

fn message(r: &mut Rng, i: usize) -> Msg {
    match i % 8 {
        #[cfg(feature = "full")]
        3 => STATICS.with(|s| {
            let (t, f) = &s[r.below(s.len())];
            if t.size() < 100 { Msg::Static(t.clone(), *f) } else { Msg::Header(header(r, 2)) }
        }),
        0 => Msg::Header(header(r, 2)),
        #[cfg(feature = "full")]
        1 => {
            let h = header(r, 2);
            match hval(r, &h) {
                Some(v) if v.size() < 200 => Msg::Body(h, v),
                _ => Msg::Typed(leaf(K::Bool), Val::Bool(true)),
            }
        }
        2 => {
            let t = leaf(*r.pick(&[K::Str, K::Bytes]));
            let v = val(r, &t, true, true);
            Msg::Typed(t, v)
        }
        _ => loop {
            let d = 1 + r.below(3);
            let t = if r.one_in(5) { enum_ty(r, 1) } else { ty(r, d) };
            let v = val(r, &t, true, false);
            if v.size() < 200 {
                return Msg::Typed(t, v);
            }
        },
    }
}

/// one writer, written to sinks of all tempers
pub fn raw(c: &mut Ctx, r: &mut Rng, f: fn(&mut dyn std::io::Write) -> bool) {
    let mut b = vec![];
    // what goes wrong here does so in the sessions
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut b)));
    let l = b.len().min(40);
    let at = r.below(l + 1);
    let scripts = [
        (0..3 * l).map(|k| if k % 2 == 0 { Ans::Intr } else { Ans::Some(1) }).collect(),
        answers(r, l, false),
        (0..=at).map(|k| if k == at { Ans::Fail(at) } else { Ans::Some(1) }).collect(),
        (0..=at).map(|k| if k == at { Ans::Zero } else { Ans::Some(1) }).collect::<Vec<_>>(),
    ];
    let msgs = [Msg::Raw(b.clone(), f), Msg::Raw(b, f)];
    for s in &scripts {
        reset();
        sink(c, &msgs, s, false);
    }
}

pub fn run(c: &mut Ctx, suite: &str, r: &mut Rng, n: usize, path: &str) {
    c.per = 20;
    if suite == "chan" {
        return from_cases(c, path);
    }
    for i in 0..n {
        let m = 1 + r.below(4);
        let off = r.below(8);
        let msgs: Vec<Msg> = (0..m).map(|j| message(r, i + j + off)).collect();
        let one = i % 2 == 0;
        let bad = i % 3 == 0;
        let l = r.below(60);
        let script = answers(r, l, bad);
        reset();
        if suite == "sink" {
            let msgs: Vec<Msg> = if one { msgs.into_iter().filter(|m| !matches!(m, Msg::Header(_) | Msg::Static(..))).collect() } else { msgs };
            sink(c, &msgs, &script, one);
        } else {
            let rest = match r.below(3) {
                0 => Ans::Some(1),
                1 => Ans::Some(1 + r.below(9)),
                _ => Ans::Some(1 << 20),
            };
            let mut size = vec![];
            for m in &msgs {
                // sizes only steer the cut; a failure shows up in the session
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.write(&mut size)));
            }
            let cut = if i % 4 == 1 { Some(r.below(size.len() + 1)) } else { None };
            let jl = r.below(12);
            let junk = r.bytes(jl);
            source(c, &msgs, &script, rest, cut, &junk, one);
        }
    }
    // each failure position of a few messages, exactly
    for i in 0..n / 20 {
        let msgs = vec![message(r, i), message(r, i + 3)];
        let mut size = vec![];
        for m in &msgs {
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.write(&mut size)));
        }
        if size.len() > 60 {
            continue;
        }
        for k in 0..=size.len() {
            let mut script = vec![Ans::Some(1); k];
            script.push(if k % 5 == 4 { Ans::Zero } else { Ans::Fail(r.below(2 * KINDS.len())) });
            if k % 3 == 0 {
                script.insert(k / 2, Ans::Intr);
            }
            reset();
            if suite == "sink" {
                sink(c, &msgs, &script, false);
            } else {
                source(c, &msgs, &script, Ans::Some(3), None, &[1, 2, 3], false);
            }
        }
    }
    // the header of every Rust type, byte by byte, interrupted and failing
    #[cfg(feature = "full")]
    for (i, (t, f)) in crate::real::statics().into_iter().enumerate() {
        let l = t.size();
        let scripts = [
            vec![Ans::Intr, Ans::Some(1), Ans::Intr, Ans::Intr, Ans::Some(1), Ans::Intr, Ans::Some(2), Ans::Intr],
            (0..3 * l.min(40)).map(|k| if k % 2 == 0 { Ans::Intr } else { Ans::Some(1) }).collect(),
            vec![Ans::Some(1); l.min(40)],
            (0..=i % l.min(12)).map(|k| if k == i % l.min(12) { Ans::Fail(i) } else { Ans::Some(1) }).collect(),
            (0..=i % l.min(12)).map(|k| if k == i % l.min(12) { Ans::Zero } else { Ans::Some(1) }).collect(),
        ];
        let msgs = [Msg::Static(t, f), Msg::Typed(leaf(K::Bool), Val::Bool(true))];
        for s in &scripts {
            reset();
            if suite == "sink" {
                sink(c, &msgs, s, false);
            } else {
                source(c, &msgs, s, Ans::Some(1), None, &[1], false);
            }
        }
    }
    // long contents: many answers, several chunks
    for l in [127usize, 128, 129, 4095, 4096, 4097, 8192, 8193, 9000] {
        for k in [K::Str, K::Bytes] {
            let v = if k == K::Str { Val::Str(string(r, l)) } else { Val::Bytes(r.bytes(l)) };
            let msgs = vec![Msg::Typed(leaf(k), v), Msg::Typed(leaf(K::U8), Val::raw([5]))];
            for s in 0..3 {
                let mut script = answers(r, 40, false);
                if s == 2 {
                    let at = r.below(script.len());
                    script.insert(at, Ans::Fail(r.below(26)));
                }
                reset();
                if suite == "sink" {
                    sink(c, &msgs, &script, s == 1);
                } else {
                    let cut = if s == 2 { Some(l - r.below(3)) } else { None };
                    source(c, &msgs, &script, Ans::Some(1000), cut, &[1, 2, 3], s == 1);
                }
            }
        }
    }
}

/// behaviours of Channel.tla: {"side", "msgs", "script", "cut"}
fn from_cases(c: &mut Ctx, path: &str) {
    for j in cases(path) {
        let msgs: Vec<Msg> = j["msgs"].as_array().unwrap().iter().map(Msg::of).collect();
        let script: Vec<Ans> = j["script"]
            .as_array()
            .unwrap()
            .iter()
            .map(|a| match a.as_i64().unwrap() {
                -1 => Ans::Intr,
                -2 => Ans::Fail(0),
                -3 => Ans::Zero,
                k => Ans::Some(k as usize),
            })
            .collect();
        let one = j["one"].as_u64() == Some(1);
        reset();
        if j["side"] == "sink" {
            sink(c, &msgs, &script, one);
        } else {
            let cut = j["cut"].as_i64().filter(|k| *k >= 0).map(|k| k as usize);
            source(c, &msgs, &script, Ans::Some(1 << 20), cut, &bytes_of(&j["junk"]), one);
        }
    }
}
