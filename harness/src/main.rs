#[global_allocator]
static A: harness::alloc::Counting = harness::alloc::Counting;

fn main() {
    harness::work(|c, a| {
        let get = |k: &str, d: &str| a.get(k).cloned().unwrap_or(d.to_string());
        let seed: u64 = get("seed", "1").parse().unwrap();
        let n: usize = get("n", "100").parse().unwrap();
        harness::suites::run(c, &get("suite", ""), seed, n, &get("cases", ""));
    });
}
