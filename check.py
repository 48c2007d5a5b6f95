#!/usr/bin/env python3
"""check.py <property>: decides one property of /repo's working tree.

Exit 0: held on everything explored.  Exit 1 with a line
"VIOLATION property=<id> replay=<path>": broken.  Exit 2: the check failed."""
import json, os, re, shutil, subprocess, sys, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
from lib import *
from plan import PLAN, FEATURES, ALL_FEATURES
import cases, derive

# the probes of suite kf, in its order; the others are known by the reason
# the specification gives
PROBES = ["deep-header", "deep-type", "zero-width-array", "zero-width-seq"]
REASONS = {"skipped-variant": "the index counts skipped variants, the header does not",
           "zero-width-members": "members without bytes take memory"}


def known_findings(prop):
    out = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for l in f:
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append({"id": m.group(2), "what": m.group(3).strip(), "why": REASONS.get(m.group(2))})
    return out


DIED = ("panic", "crash", "hang")


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = Work(prop)
    t0 = time.time()
    try:
        rc = Check(prop, tier, seed, work, t0).run()
    except ToolError as e:
        log(f"ERROR property={prop} the check could not be completed: {e}")
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        work.close()
    sys.exit(rc)


class Check:
    def __init__(self, prop, tier, seed, work, t0):
        self.prop, self.tier, self.seed, self.work, self.t0 = prop, tier, seed, work, t0
        self.plan = PLAN[prop]
        self.models = []
        self.violations = []
        self.findings = []
        self.extra = {}
        self.wire, self.built = {}, {}
        self.lock = threading.Lock()
        self.known = known_findings(prop)

    def counts(self, why):
        """does a rejection for this reason break this property?"""
        if why in DIED:
            return True
        r = self.plan.get("reasons")
        return r is None or re.search(r, why) is not None

    def run(self):
        self.pool = pool = ThreadPoolExecutor(8)
        models = [pool.submit(self.model, *m) for m in self.plan.get("models", [])]
        self.binary = build(self.work)
        rounds = 1 if self.tier == "quick" else self.plan.get("rounds", 2)
        total = Judged()
        for k in range(rounds):
            if k and time.time() - self.t0 > 400:
                break
            seed = self.seed + 7919 * k
            jobs = [pool.submit(self.suite, s, seed) for s in self.plan["suites"]]
            jobs += [pool.submit(getattr(self, c), seed, k) for c in self.plan.get("custom", [])]
            runs = []
            for f in jobs:
                r = f.result()
                runs += r if isinstance(r, list) else [r]
            total.add(judge(self.work, runs))
            for r in runs:
                os.unlink(r.trace)
        known = {}
        for r in total.rejects:
            f = next((f for f in self.known if f["why"] == r.why), None)
            if f:
                known[f["id"]] = f
            elif self.counts(r.why):
                self.violations.append(r)
        self.findings += known.values()
        for m in models:
            m.result()
        return self.report(total)

    def size(self, s):
        return s["q" if self.tier == "quick" else "t"]

    def suite(self, s, seed):
        n, cs = self.size(s), None
        if s.get("gen") == "parser":
            cs = cases.write_parser(self.work, [c for c in cases.parser(self.work, seed, n, self.tier)
                                                if s.get("only") is None or (c["t"]["k"] == "any") == (s["only"] == "header")])
        elif s.get("gen") == "channel":
            cs = cases.channel(self.work, seed, n, self.tier)
        elif s.get("gen"):
            with self.lock:
                if seed not in self.wire:
                    self.wire[seed] = cases.wire(self.work, seed, 4000, 30) if self.tier == "quick" \
                        else cases.wire(self.work, seed, 30000, 250)
            cs = cases.write(self.work, seed, s["gen"], self.wire[seed][:n])
        return run_suite(self.work, self.binary, s["suite"], seed, n, cases=cs)

    def single(self, suite, seed, op):
        """a trace of one operation"""
        p = self.work.path(suite + ".nd")
        with open(p, "w") as f:
            f.write(json.dumps({"id": 1, "ops": [{"i": 1, "x": "ok", **op}]}) + "\n")
        return Run(suite, seed, 0, p, [])

    # ------------------------------------------------- what needs more than a suite

    def probes(self, seed, k):
        """the inputs of the known findings, each in a process of its own"""
        runs = []
        if k == 0:
            for f in self.known:
                if f["id"] not in PROBES:
                    continue
                o = self.work.path("kf.nd")
                try:
                    rc = subprocess.run([self.binary, "--suite", "kf", "--seed", "1", "--n", "0", "--only", str(PROBES.index(f["id"]) + 1),
                                         "--limit", "5", "--out", o, "--pending", self.work.path("p")],
                                        capture_output=True, timeout=120, cwd=self.work.dir).returncode
                except subprocess.TimeoutExpired:
                    rc = HANG
                if rc == HANG or rc < 0 or rc in (134, 139):
                    self.findings.append(f)
                elif rc != 0:
                    raise ToolError(f"probe {f['id']} exited with {rc}")
                elif any(op["x"] != "ok" for l in open(o) for op in json.loads(l)["ops"]):
                    self.findings.append(f)
        return runs

    def derived(self, seed, k):
        """declarations made by GenDerive, compiled with the real macro"""
        num = 120 if self.tier == "quick" else 250
        decls, n = derive.generate(self.work, seed, num)
        decls = decls[:280 if self.tier == "quick" else 500]
        self.extra["declarations_generated"] = self.extra.get("declarations_generated", 0) + len(decls)
        self.extra["generator_states"] = self.extra.get("generator_states", 0) + n
        if k == 0:
            decls += derive.wide()
        try:
            runs = [run_suite(self.work, derive.compile_decls(self.work, seed, decls), "derive", seed, 0)]
        except derive.Refused as e:
            return [self.single("refused", seed, {"o": "fails", "what": "the macro refuses declarations that serde accepts", "m": str(e)})]
        if k == 0:
            ops = derive.expansions(self.work)
            for i, o in enumerate(ops):
                o["i"] = i + 1
            p = self.work.path("expand.nd")
            with open(p, "w") as f:
                f.write(json.dumps({"s": 0, "ops": ops}) + "\n")
            runs.append(Run("expand", seed, 0, p, []))
        return runs

    def typed(self, seed, k):
        """declarations made by GenDerive, read back as themselves"""
        decls, n = derive.generate(self.work, seed, 120 if self.tier == "quick" else 250)
        self.extra["generator_states"] = self.extra.get("generator_states", 0) + n
        decls = [j for j in (decls[:400] if self.tier == "quick" else decls[:700]) if derive.symmetric(j["d"])]
        if k == 0:
            decls += [j for j in derive.wide() if derive.symmetric(j["d"])]
        self.extra["declarations_generated"] = self.extra.get("declarations_generated", 0) + len(decls)
        return [run_suite(self.work, derive.compile_decls(self.work, seed, decls, True), "typed", seed, 0)]

    def derived_sink(self, seed, k):
        """derived headers, written to sinks that take them piecemeal"""
        decls, n = derive.generate(self.work, seed, 120 if self.tier == "quick" else 250)
        self.extra["generator_states"] = self.extra.get("generator_states", 0) + n
        decls = decls[:100 if self.tier == "quick" else 400] + (derive.wide() if k == 0 else [])
        self.extra["declarations_generated"] = self.extra.get("declarations_generated", 0) + len(decls)
        try:
            return [run_suite(self.work, derive.compile_decls(self.work, seed, decls, sink=True), "dsink", seed, 0)]
        except derive.Refused:
            return []      # C11's to report

    def features(self, seed, k):
        """the same cases and histories under other sets of features"""
        sets = FEATURES if self.tier == "quick" else ALL_FEATURES
        with self.lock:
            if seed not in self.wire:
                self.wire[seed] = cases.wire(self.work, seed, 4000, 30)
        cs = cases.write(self.work, seed, "re", self.wire[seed][:1200 if self.tier == "quick" else 4000])
        n = 4
        if k == 0:
            self.extra["feature_sets"] = sorted("+".join(f) or "none" for f in sets)

        def slot(i):
            runs = []
            for f in sets[i::n]:
                target = os.path.join(HARNESS, f"target-f{i}")
                first = len(runs)
                try:
                    if f not in self.built:
                        self.built[f] = build(self.work, f, target)
                    b = self.built[f]
                except BuildError as e:
                    err = build_crate_alone(f, target)
                    if err is None:
                        raise
                    runs.append(self.single("build:" + ("+".join(f) or "none"), seed,
                                            {"o": "fails", "what": "the crate does not build with these features", "m": err[-2000:]}))
                    continue
                runs.append(run_suite(self.work, b, "re", seed, 0, cases=cs))
                runs.append(run_suite(self.work, b, "hist", seed, 60))
                runs.append(run_suite(self.work, b, "rt", seed + len(f), 300))
                runs.append(run_suite(self.work, b, "rtleaf", seed, 20))
                if {"num-traits", "num-bigint"} <= set(f):
                    runs.append(run_suite(self.work, b, "num", seed, 20))
                if "time" in f:
                    runs.append(run_suite(self.work, b, "time", seed, 100))
                for r in runs[first:]:
                    r.suite += ":" + ("+".join(f) or "none")
            # the other sets must build at least
            for f in [f for f in ALL_FEATURES if f not in sets][i::n] if k == 0 else []:
                err = build_crate_alone(f, os.path.join(HARNESS, f"target-f{i}"))
                if err is not None:
                    runs.append(self.single("build:" + "+".join(f), seed,
                                            {"o": "fails", "what": "the crate does not build with these features", "m": err[-2000:]}))
            return runs
        with ThreadPoolExecutor(n) as ex:
            return [r for rs in ex.map(slot, range(n)) for r in rs]

    def model(self, name, inv=None):
        """checks a model; with `inv`, only those of its invariants"""
        cfg = os.path.join(SPEC, f"{name}_{self.tier}.cfg")
        if not os.path.exists(cfg):
            cfg = os.path.join(SPEC, name + ".cfg")
        if inv:
            with open(cfg) as f:
                text = re.sub(r"^(INVARIANTS?|PROPERT(Y|IES))\b.*$", "", f.read(), flags=re.M)
            cfg = self.work.path(name + ".cfg")
            with open(cfg, "w") as f:
                f.write(text + "\n" + inv + "\n")
        t = tlc(self.work, name, cfg=cfg, workers=4)
        if not t.ok:
            raise ToolError(f"the model {name} does not hold: " + t.error())
        self.models.append((name, t))

    def replay(self, k, r):
        d = os.path.join(VERIF, "work", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.prop}-{r.run.suite}-{r.run.seed}-{r.op['i']}.json")
        with open(p, "w") as f:
            json.dump({"property": self.prop, "why": r.why, "operation": r.op,
                       "again": f"harness --suite {r.run.suite} --seed {r.run.seed} --n {r.run.n} --only {r.op['i']} --out OUT"}, f)
        return p

    def report(self, j):
        v = self.violations
        for f in sorted(self.findings, key=lambda f: f["id"]):
            log(f"KNOWN-FINDING: property={self.prop} {f['what']}")
        for k, r in enumerate(v[:5]):
            p = self.replay(k, r)
            log(f"{self.prop}: {r.why[:300]}: {json.dumps(r.op)[:600]}")
            log(f"VIOLATION property={self.prop} replay={p}")
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": j.states + sum(t.distinct for _, t in self.models),
                "transitions": j.transitions + sum(t.generated for _, t in self.models),
                "traces_validated_against_impl": j.ops - len(j.rejects),
                "evaluations": j.ops, "distinct_nontrivial": j.distinct,
                "rule": "operations recorded from the real code and judged by the trace specification, told apart by everything recorded about them",
                "operations_by_suite": j.by,
                "models": {n: {"distinct_states": t.distinct, "states_generated": t.generated, "depth": t.depth,
                               "wall_s": round(t.wall, 1)} for n, t in self.models},
                "samples": j.samples[:4],
                **self.extra,
            },
            "wall_s": round(time.time() - self.t0, 1), "violations": len(v),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log(f"{self.prop}: {j.ops} operations, {len(v)} violations, {ev['coverage']['states']} states, {ev['wall_s']} s")
        return 1 if v else 0


main()
