"""Runs the harness against /repo and TLC against what it recorded."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(HARNESS, "target")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
HANG = 77


class ToolError(Exception):
    """the machinery failed, as opposed to the code under test"""


class BuildError(ToolError):
    pass


def log(*a):
    print(*a, flush=True)


class Work:
    """scratch directory of one run"""

    def __init__(self, name):
        base = os.path.join(VERIF, "work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=name + "-", dir=base)
        self.n = 0
        self.lock = threading.Lock()

    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, f"{self.n:03d}-{name}")

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ------------------------------------------------------------------ building

def cargo_env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def build(work, features=None, target=TARGET):
    """the harness with the given features of the crate under test (None: all)"""
    cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"),
           "--target-dir", target]
    if features is not None:
        cmd += ["--no-default-features", "--features", ",".join(features)]
    r = subprocess.run(cmd, env=cargo_env(), capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(f"harness does not build with features {features}:\n" + r.stderr[-4000:])
    b = work.path("harness")
    shutil.copy2(os.path.join(target, "debug", "harness"), b)
    return b


def build_crate_alone(features, target):
    """what the compiler says if the crate under test itself does not build"""
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", "/repo/dlhn/Cargo.toml", "--lib", "--no-default-features",
                        "--features", ",".join(features), "--target-dir", target], env=cargo_env(), capture_output=True, text=True)
    return None if r.returncode == 0 else r.stderr


# ------------------------------------------------------------------- running

class Run:
    """one suite, run to its end: the trace file and how often it died"""

    def __init__(self, suite, seed, n, trace, deaths, cases=None):
        self.suite, self.seed, self.n, self.trace, self.deaths, self.cases = suite, seed, n, trace, deaths, cases


def run_suite(work, binary, suite, seed, n, cases=None, limit=20, timeout=600, max_deaths=4):
    out, pend = work.path(suite + ".nd"), work.path(suite + ".pending")
    deaths = []
    t0 = time.time()
    while True:
        cmd = [binary, "--suite", suite, "--seed", str(seed), "--n", str(n), "--out", out, "--pending", pend,
               "--limit", str(limit), "--avoid", ",".join(f"{i}:{w}" for i, w in deaths)]
        if cases:
            cmd += ["--cases", cases]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, errors="replace",
                               timeout=max(30, timeout - (time.time() - t0)), cwd=work.dir)
        except subprocess.TimeoutExpired:
            raise ToolError(f"suite {suite} (seed {seed}, n {n}) did not finish within {timeout} s")
        if r.returncode == 0:
            break
        try:
            i = int(open(pend).read().strip("\0 \n"))
        except (OSError, ValueError):
            raise ToolError(f"suite {suite} failed before its first operation: {r.stderr[-2000:]}")
        if r.returncode == HANG:
            how = "hang"
        elif r.returncode < 0 or r.returncode in (134, 139):
            how = "crash"
        else:
            raise ToolError(f"suite {suite} exited with {r.returncode}: {r.stderr[-2000:]}")
        if any(d[0] == i for d in deaths):
            raise ToolError(f"suite {suite} died twice at operation {i}")
        deaths.append((i, how))
        if len(deaths) >= max_deaths:
            # enough to report; keep only the operations that killed it
            one_by_one(binary, suite, seed, n, cases, deaths, out, work)
            break
    return Run(suite, seed, n, out, deaths, cases)


def one_by_one(binary, suite, seed, n, cases, deaths, out, work):
    """a trace of just the operations that ended the process"""
    with open(out, "w") as f:
        pass
    for i, how in deaths:
        o = work.path("only.nd")
        cmd = [binary, "--suite", suite, "--seed", str(seed), "--n", str(n), "--out", o, "--pending", work.path("p"),
               "--avoid", f"{i}:{how}", "--only", str(i)]
        if cases:
            cmd += ["--cases", cases]
        subprocess.run(cmd, capture_output=True, timeout=120, cwd=work.dir)
        with open(out, "a") as f, open(o) as g:
            f.write(g.read())


# ----------------------------------------------------------------------- TLC

class Tlc:
    def __init__(self, out, rc, distinct, generated, depth, wall):
        self.out, self.rc, self.distinct, self.generated, self.depth, self.wall = out, rc, distinct, generated, depth, wall
        self.ok = "Model checking completed. No error has been found." in out

    def error(self):
        i = self.out.find("Error:")
        return self.out[i:i + 3000] if i >= 0 else self.out[-3000:]


def tlc(work, module, cfg=None, env=None, workers=4, heap="3g", timeout=800, extra=()):
    meta = work.path("states")
    cmd = ["java", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={workers}", "-Xss64m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", meta, "-config", cfg or module + ".cfg", *extra, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC on {module} did not finish within {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = None
    for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", r.stdout):
        pass
    d = re.search(r"depth of the complete state graph search is (\d+)", r.stdout)
    return Tlc(r.stdout + r.stderr, r.returncode, int(m.group(2)) if m else 0, int(m.group(1)) if m else 0,
               int(d.group(1)) if d else 0, time.time() - t0)


class Reject:
    def __init__(self, run, op, why):
        self.run, self.op, self.why = run, op, why


class Judged:
    def __init__(self):
        self.ops = self.states = self.transitions = 0
        self.rejects = []
        self.samples = []
        self.distinct = 0
        self.by = {}

    def add(self, j):
        for f in ("ops", "states", "transitions", "distinct"):
            setattr(self, f, getattr(self, f) + getattr(j, f))
        for s, n in j.by.items():
            self.by[s] = self.by.get(s, 0) + n
        self.rejects += j.rejects
        self.samples += j.samples


CHANNEL = {"sink", "source", "chan", "dsink"}


def judge(work, runs, jobs=2, workers=4):
    """walks TLC through every recorded operation"""
    res = Judged()
    groups = {"TraceOps": [], "TraceChannel": []}
    for r in runs:
        groups["TraceChannel" if r.suite in CHANNEL else "TraceOps"].append(r)
    chunks = []
    seen = set()
    for module, rs in groups.items():
        cur, size = [], 0
        for r in rs:
            with open(r.trace) as f:
                for line in f:
                    # the parser of the trace specification wants shallow JSON
                    cur.append((r, line))
                    size += len(line)
                    if size > 24_000_000:
                        chunks.append((module, cur))
                        cur, size = [], 0
        if cur:
            chunks.append((module, cur))
    lock = threading.Lock()

    def one(chunk):
        module, lines = chunk
        p = work.path(module + ".nd")
        with open(p, "w") as f:
            f.writelines(l for _, l in lines)
        t = tlc(work, module, env={"TRACE": p}, workers=workers, heap="5g")
        rej = []
        for m in re.finditer(r'"REJECT (\d+) (\d+) (.*)"', t.out):
            rej.append((int(m.group(1)), int(m.group(2)), m.group(3)))
        if not t.ok:
            raise ToolError(f"TLC on {module}: " + t.error())
        want = 0
        info = []
        for r, l in lines:
            j = json.loads(l)
            if module == "TraceOps":
                want += len(j["ops"]) + 1
            else:
                want += sum(len(o.get("evs", [])) + 1 for o in j["ops"])
            info.append(j)
        if not rej and t.distinct != want:
            raise ToolError(f"TLC walked {t.distinct} states of {module}, the trace has {want}")
        with lock:
            res.states += t.distinct
            res.transitions += t.generated
            for (r, _), j in zip(lines, info):
                for o in j["ops"]:
                    res.ops += 1
                    res.by[r.suite] = res.by.get(r.suite, 0) + 1
                    seen.add(hash(json.dumps({k: v for k, v in o.items() if k != "i"}, sort_keys=True)))
            for s, i, why in rej:
                r = lines[s - 1][0]
                op = next(o for o in info[s - 1]["ops"] if o["i"] == i)
                res.rejects.append(Reject(r, op, why))
            for k in range(0, len(info), max(1, len(info) // 2)):
                o = info[k]["ops"][len(info[k]["ops"]) // 2]
                s = json.dumps(o)
                if len(s) < 700:
                    res.samples.append(o)
        os.unlink(p)

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, chunks))
    res.distinct = len(seen)
    return res
