"""Which suites and which models decide which property, and which reasons of
the trace specifications count for it."""

# suites of harness: quick and thorough size
from itertools import combinations


def S(name, q, t, **kw):
    return dict(suite=name, q=q, t=t, **kw)

ACCEPTED_CUT = r"accepted a truncated|a truncated encoding was accepted|success reported after a failure|success reported before"
MISREAD = (r"were accepted|header accepted|not the value|not the body|not the header")

F = ["time", "num-traits", "num-bigint", "bigdecimal", "dlhn_derive"]
FULL = tuple(F)
# every set of the features that add types, with and without the macro in turn
FEATURES = [c + (("dlhn_derive",) if r % 2 else ()) for r in range(5) for c in combinations(F[:4], r)]
ALL_FEATURES = [c for r in range(6) for c in combinations(F, r) if c != FULL]


PARSER = "INVARIANTS Exact Refused Starved"


def G(kind, q, t):
    if kind == "channel":
        return dict(suite="chan", gen=kind, q=q, t=t)
    return dict(suite="re" if kind == "re" else "cases", gen=kind, q=q, t=t)


PLAN = {
    "C01": dict(suites=[S("ints", 6000, 60000), S("intd", 6000, 60000)], models=[("MC_Varint",)]),
    "C02": dict(suites=[S("rt", 6000, 50000), S("rtleaf", 1500, 10000), S("rle", 80, 300), S("std", 120, 800), S("huge", 1, 2), S("volume", 1, 2), S("bulk", 1, 4), G("rt", 3000, 15000)],
                models=[("MC_Wire", "INVARIANT RoundTrip"), ("MC_Deep",), ("MC_Writer", "INVARIANT Success")], custom=["typed"]),
    "C03": dict(suites=[S("source", 1200, 8000), S("hist", 150, 3000), S("huge", 1, 2), S("volume", 1, 2), S("bulk", 1, 3), G("channel", 2500, 25000)],
                models=[("MC_Channel",), ("MC_Parser", PARSER)], reasons=r"^(?!other bytes in this history)"),
    "C04": dict(suites=[S("trunc", 3000, 30000), S("dtrunc", 2000, 20000), S("rle", 20, 100), S("source", 600, 4000), S("bulk", 1, 3), G("parser", 4000, 40000)],
                models=[("MC_Wire", "INVARIANTS Truncation Header2"), ("MC_Parser", PARSER)], reasons=ACCEPTED_CUT),
    "C05": dict(suites=[S("sink", 1200, 8000), S("hfull", 0, 0), S("bulk", 1, 3), G("channel", 2500, 25000)],
                models=[("MC_Channel",), ("MC_Writer", "INVARIANT Prefix")], custom=["derived_sink"]),
    "C06": dict(suites=[S("any", 600, 6000), S("dec", 5000, 50000), S("decleaf", 1000, 10000), S("hdec", 2500, 25000),
                        S("ddec", 4000, 40000), S("time", 600, 6000), S("num", 60, 1500), G("dec", 2000, 15000), G("parser", 4000, 40000)],
                models=[("MC_Parser", "INVARIANTS Exact Refused Starved WorkPerByte\nPROPERTY Ends")], reasons=r"$^", custom=["probes"]),
    "C07": dict(suites=[S("hrt", 8000, 80000), S("hwide", 0, 0), G("head", 2000, 15000)], models=[("MC_Wire", "INVARIANT Header2"), ("MC_Header",)]),
    "C08": dict(suites=[S("hdec", 6000, 60000), S("hexh", 1, 1), G("head", 2000, 15000)],
                models=[("MC_Header",), ("MC_Parser", PARSER + " Again")]),
    "C09": dict(suites=[S("dyn", 6000, 50000), S("huge", 1, 2), S("volume", 1, 2), S("bulk", 1, 3)], models=[("MC_Wire", "INVARIANT Dynamic"), ("MC_Deep",)]),
    "C10": dict(suites=[S("val", 3000, 25000), S("ddec", 3000, 25000), S("bulk", 1, 3)], models=[("MC_Wire", "INVARIANTS Dynamic Conformance")],
                reasons=r"conform|does not validate|does not survive|valid body"),
    "C11": dict(suites=[], models=[("MC_Derive",)], custom=["derived"]),
    "C12": dict(suites=[S("stat", 120, 1200)], models=[("MC_Wire", "INVARIANTS Dynamic Header2")]),
    "C13": dict(suites=[S("num", 500, 5000)], models=[("MC_Num",)]),
    "C14": dict(suites=[S("time", 5000, 50000)], models=[("MC_Calendar",)]),
    "C15": dict(suites=[S("refuse", 5000, 50000), S("rt", 3000, 20000)], models=[("MC_Writer",)],
                reasons=r"cannot express|decode|another value|number of bytes"),
    "C16": dict(suites=[S("decleaf", 3000, 25000), S("dec", 6000, 50000), S("ddec", 4000, 40000), G("dec", 3000, 15000), G("parser", 6000, 60000)],
                models=[("MC_Wire", "INVARIANT Corruption"), ("MC_Parser", "INVARIANTS Exact Refused Again"), ("MC_Utf8",)], reasons=MISREAD),
    "C17": dict(suites=[S("mem", 5000, 50000), S("dmem", 5000, 50000)], models=[("MC_Parser", "INVARIANT Memory")], custom=["probes"]),
    "C18": dict(suites=[S("hist", 400, 6000), S("volume", 1, 2), S("rt", 1500, 10000), G("re", 2000, 10000)], models=[("MC_Wire", "INVARIANT Injective")],
                custom=["features"], reasons=r"^(?!not read back)"),
}

NOTES = {
    "*": "The specification is model-checked exhaustively within the bounds of its MC_ configurations; the real code is bound to it "
         "by TLC judging every recorded call, over enumerated small inputs, boundary values and seeded random ones. Trusts TLC, the "
         "harness's translation of values to and from JSON, and the sampling where the input space is not enumerated.",
}
