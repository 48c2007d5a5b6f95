"""Cases printed by the generator specifications, as files for the harness."""
import json, os, random, re
from lib import *


def printed(out, tag):
    for l in out.splitlines():
        if l.startswith('"' + tag + " "):
            yield json.loads(json.loads(l)[len(tag) + 1:])


def wire(work, seed, want, traces):
    """`want` of the states of `traces` random walks through MC_Wire"""
    t = tlc(work, "GenWire", workers=1, extra=("-simulate", f"num={traces}", "-seed", str(seed), "-depth", "6"))
    if "The number of states generated" not in t.out or "Error:" in t.out:
        raise ToolError("GenWire: " + t.error())
    seen, out = set(), []
    for j in printed(t.out, "CASE"):
        k = json.dumps([j["t"], j["v"]])
        if k not in seen:
            seen.add(k)
            out.append(j)
    rng = random.Random(seed)
    rng.shuffle(out)
    return out[:want]


def parser(work, seed, want, tier):
    """`want` of the byte strings MC_Parser goes through"""
    cfg = os.path.join(SPEC, "GenParser.cfg" if tier == "quick" else "GenParser_thorough.cfg")
    t = tlc(work, "GenParser", cfg=cfg, workers=1)
    if not t.ok:
        raise ToolError("GenParser: " + t.error())
    out = list(printed(t.out, "CASE"))
    # every ending as often: most strings still wait for a byte
    rng = random.Random(seed)
    rng.shuffle(out)
    ends = [c for c in out if c["e"] != "wait"]
    waits = [c for c in out if c["e"] == "wait"]
    k = max(want // 2, want - len(waits))
    return ends[:k] + waits[:max(want - len(ends), want - k)]


def write_parser(work, cs):
    p = work.path("parser.nd")
    with open(p, "w") as f:
        for c in cs:
            if c["t"]["k"] == "any":
                js = [{"o": "hdec", "b": c["b"]}]
            else:
                js = [{"o": "dec", "t": c["t"], "b": c["b"]}, {"o": "ddec", "h": c["h"], "b": c["b"]}]
            for j in js:
                f.write(json.dumps(j, separators=(",", ":")) + "\n")
    return p


def channel(work, seed, want, tier):
    """`want` sessions of GenChannel, as a file"""
    cfg = os.path.join(SPEC, "GenChannel.cfg" if tier == "quick" else "GenChannel_thorough.cfg")
    t = tlc(work, "GenChannel", cfg=cfg, workers=1)
    if not t.ok:
        raise ToolError("GenChannel: " + t.error())
    lists = {j["list"]: j["msgs"] for j in printed(t.out, "LIST")}
    rng = random.Random(seed)
    cs = list(printed(t.out, "CASE"))
    rng.shuffle(cs)
    p = work.path("chan.nd")
    with open(p, "w") as f:
        for c in cs[:want]:
            j = {"side": c["side"], "msgs": lists[c["list"]], "script": c["script"], "one": rng.randrange(2), "cut": -1, "junk": []}
            if c["side"] == "source":
                if rng.randrange(3) == 0:
                    j["cut"] = rng.randrange(c["size"] + 1)
                else:
                    j["junk"] = [rng.choice((0, 1, 128, 255)) for _ in range(rng.randrange(4))]
            elif any(m["m"] == "header" for m in j["msgs"]):
                j["one"] = 0
            f.write(json.dumps(j, separators=(",", ":")) + "\n")
    return p


NATIVE = {"nbuint", "nbint", "nbdec", "ndate", "ndt"}


def kinds(t):
    return {t["k"]}.union(*[kinds(x) for x in t["s"]])


def header_of(b):
    """the header a byte string of HEnc spells, as a type"""
    K = {0: "unit", 1: "opt", 2: "bool", 3: "u8", 4: "u16", 5: "u32", 6: "u64", 8: "i8", 9: "i16", 10: "i32", 11: "i64",
         13: "f32", 14: "f64", 15: "buint", 16: "bint", 17: "bdec", 18: "str", 19: "bytes", 20: "seq", 21: "tup", 23: "map",
         24: "enum", 25: "date", 26: "dt"}

    def go(p):
        k = K[b[p]]
        p += 1
        n = 1 if k in ("opt", "seq", "map") else 0
        if k in ("tup", "enum"):
            n, p = (b[p], p + 1) if b[p] < 128 else (b[p] % 64 + 64 * b[p + 1], p + 2)
        s = []
        for _ in range(n):
            h, p = go(p)
            s.append(h)
        return {"k": k, "s": s, "n": 0}, p
    return go(0)[0]


def recodable(t):
    """without the native types, which builds without features do not have"""
    return not kinds(t) & NATIVE


def corrupt(rng, b):
    b = list(b)
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        x = rng.choice((0, 1, 2, 127, 128, 191, 192, 240, 255, rng.randrange(256)))
        i = rng.randrange(len(b) + 1)
        r = rng.randrange(6)
        if r < 3 and i < len(b):
            b[i] = x
        elif r == 3:
            b.insert(i, x)
        elif r == 4 and i < len(b):
            del b[i]
        else:
            b = b[:i] + [x] * rng.randrange(3)
    return b


def write(work, seed, kind, cs):
    """the case file of a suite"""
    rng = random.Random(seed + 1)
    p = work.path("cases.nd")
    out = []
    for c in cs:
        if kind == "rt":
            out.append({"o": "rt", "t": c["t"], "v": c["v"]})
        elif kind == "head":
            out.append({"o": "hrt", "h": header_of(c["h"])})
            out.append({"o": "hdec", "b": corrupt(rng, c["h"])})
        elif kind == "dec":
            out.append({"o": "dec", "t": c["t"], "b": corrupt(rng, c["b"])})
            out.append({"o": "ddec", "h": header_of(c["h"]), "b": corrupt(rng, c["b"])})
        elif kind == "re":
            out.append({"o": "hrt", "h": header_of(c["h"]), "b": c["h"]})
            if recodable(c["t"]):
                out.append({"o": "re", "t": c["t"], "b": c["b"]})
    with open(p, "w") as f:
        for j in out:
            f.write(json.dumps(j, separators=(",", ":")) + "\n")
    return p
