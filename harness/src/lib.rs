//! Drives the crate under test and records what it does, for the trace
//! specifications in /verif/spec to judge.  See ../../DESIGN.md.
pub mod alloc;
pub mod bulk;
pub mod chan;
pub mod ctx;
pub mod deep;
#[cfg(feature = "full")]
pub mod dynamic;
pub mod gen;
pub mod hdr;
pub mod hist;
pub mod huge;
pub mod io;
#[cfg(feature = "full")]
pub mod real;
pub mod suites;
pub mod ty;

/// command line of a run, as pairs of names and values
pub fn args() -> std::collections::HashMap<String, String> {
    let mut a = std::collections::HashMap::new();
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        a.insert(k.trim_start_matches('-').to_string(), it.next().unwrap_or_default());
    }
    a
}

/// runs `body` in a thread with the stack of an ordinary main thread
pub fn work(body: impl FnOnce(&mut ctx::Ctx, &std::collections::HashMap<String, String>) + Send + 'static) {
    let run = move || {
        let a = args();
        let get = |k: &str, d: &str| a.get(k).cloned().unwrap_or(d.to_string());
        let mut c = ctx::Ctx::new(
            &get("out", "/dev/null"),
            &get("pending", "/dev/null"),
            &get("avoid", ""),
            get("only", "").parse().ok(),
            get("limit", "10").parse().unwrap(),
        );
        body(&mut c, &a);
        c.finish();
    };
    std::thread::Builder::new().stack_size(8 << 20).spawn(run).unwrap().join().expect("worker");
}
