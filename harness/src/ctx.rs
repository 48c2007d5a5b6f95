//! One run of a suite: every call into the crate under test goes through
//! `Ctx::op`, which records what was asked, what came back, and how it ended.
use crate::alloc;
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

static STARTED: AtomicU64 = AtomicU64::new(0); // ms since start + 1, 0: idle

pub struct Ctx {
    out: BufWriter<File>,
    ops: Vec<String>,
    bytes: usize,
    sess: u64,
    pub idx: u64,
    avoid: HashMap<u64, String>,
    only: Option<u64>,
    pend: File,
    t0: Instant,
    /// ops per session
    pub per: usize,
}

pub const HANG: i32 = 77;

impl Ctx {
    pub fn new(out: &str, pend: &str, avoid: &str, only: Option<u64>, limit_s: u64) -> Ctx {
        let t0 = Instant::now();
        std::panic::set_hook(Box::new(|_| {}));
        let w = t0;
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let s = STARTED.load(SeqCst);
            if s != 0 && w.elapsed().as_millis() as u64 > s + limit_s * 1000 {
                std::process::exit(HANG);
            }
        });
        Ctx {
            out: BufWriter::new(File::create(out).expect("out")),
            ops: vec![],
            bytes: 0,
            sess: 0,
            idx: 0,
            avoid: avoid
                .split(',')
                .filter_map(|x| x.split_once(':'))
                .map(|(i, w)| (i.parse().unwrap(), w.to_string()))
                .collect(),
            only,
            pend: File::create(pend).expect("pending"),
            t0,
            per: 40,
        }
    }

    /// `head` is what is asked (JSON fields), `f` asks it and returns what
    /// came back (JSON fields, each with a leading comma).
    pub fn op(&mut self, head: String, f: impl FnOnce() -> String) {
        self.idx += 1;
        let i = self.idx;
        if self.only.is_some_and(|o| o != i) {
            return;
        }
        let (x, tail) = match self.avoid.get(&i) {
            Some(w) => (w.clone(), String::new()),
            None => {
                self.pend.write_all_at(format!("{i:020}").as_bytes(), 0).unwrap();
                STARTED.store(self.t0.elapsed().as_millis() as u64 + 1, SeqCst);
                alloc::guard(true);
                let r = catch_unwind(AssertUnwindSafe(f));
                alloc::guard(false);
                STARTED.store(0, SeqCst);
                match r {
                    Ok(t) => ("ok".to_string(), t),
                    Err(e) => {
                        let m = e
                            .downcast_ref::<String>()
                            .cloned()
                            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                            .unwrap_or_default();
                        ("panic".into(), format!(",\"m\":{}", serde_json::to_string(&m).unwrap()))
                    }
                }
            }
        };
        let line = format!("{{\"i\":{i},\"x\":\"{x}\",{head}{tail}}}");
        self.bytes += line.len();
        self.ops.push(line);
        if self.ops.len() >= self.per || self.bytes > 60_000 {
            self.flush();
        }
    }

    pub fn flush(&mut self) {
        if self.ops.is_empty() {
            return;
        }
        self.sess += 1;
        writeln!(self.out, "{{\"id\":{},\"ops\":[{}]}}", self.sess, self.ops.join(",")).unwrap();
        self.ops.clear();
        self.bytes = 0;
    }

    pub fn finish(mut self) {
        self.flush();
        self.out.flush().unwrap();
    }
}
