"""Declarations made by GenDerive.tla, compiled with the real derive macro."""
import json, os, random, re, subprocess
from lib import *

INT = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "f32": 4, "f64": 8}
# what the macro writes beside the types must not capture their names
INNER = {4: "W"}
LEAF = lambda k: {"k": k, "s": [], "n": 0}


def generate(work, seed, num):
    """simulates GenDerive and returns its declarations, without repetitions"""
    t = tlc(work, "GenDerive", workers=1, extra=("-simulate", f"num={num}", "-seed", str(seed), "-depth", "120"))
    if "The number of states generated" not in t.out or "Error:" in t.out:
        raise ToolError("GenDerive: " + t.error())
    out, seen = [], set()
    for l in t.out.splitlines():
        if l.startswith('"DECL '):
            j = json.loads(json.loads(l)[5:])
            key = json.dumps(j["d"], sort_keys=True)
            if key not in seen:
                seen.add(key)
                out.append(j)
    m = re.search(r"The number of states generated: (\d+)", t.out)
    return out, int(m.group(1))


def wide():
    """declarations whose counts need one and two bytes"""
    B, U = LEAF("bool"), LEAF("u8")
    no = lambda t: {"t": t, "skip": "no"}
    sk = lambda t: {"t": t, "skip": "skip"}
    st = lambda f, sh="tuple": {"d": "struct", "shape": sh, "f": f, "vs": []}
    var = lambda f, sh="tuple", s="no": {"shape": sh, "f": f, "skip": s}
    en = lambda vs: {"d": "enum", "shape": "", "f": [], "vs": vs}
    out = []
    for n in (127, 128, 129, 255, 256, 300):
        out.append({"d": st([no(B)] * n), "vals": [[1] * n]})
        out.append({"d": st(([no(U), sk(B)] * n)[:2 * n], "named"), "vals": [[[i % 256] for i in range(n)]]})
        out.append({"d": en([var([], "unit")] * n), "vals": [[n - 1, []], [0, []], [n // 2, []]]})
        out.append({"d": en([var([no(B)] * n), var([no(U), sk(B), no(U)], "named"), var([sk(B)] * 3)]),
                    "vals": [[0, [0] * n], [1, [[1], [2]]], [2, []]]})
    # skips that move the count across the boundary
    out.append({"d": st([no(B)] * 100 + [sk(B)] * 5 + [no(B)] * 27), "vals": [[1] * 127]})
    out.append({"d": st([no(B)] * 100 + [sk(B)] * 5 + [no(B)] * 28), "vals": [[0] * 128]})
    out.append({"d": en([var([], "unit")] * 127 + [var([], "unit", "skip")] * 3), "vals": [[126, []]]})
    out.append({"d": en([var([], "unit")] * 128 + [var([no(B)], "tuple", "skip")] * 3), "vals": [[127, []]]})
    # the known finding, in its smallest form
    out.append({"d": en([var([], "unit", "skip"), var([no(U)])]), "vals": [[1, [[7]]]]})
    return out


# ------------------------------------------------------------ types in Rust

SPELL = random.Random(7)


# the types of the fields of a declaration that a macro makes, or None
PASSED = None


def passed(t):
    """a field's type: as it is, or as an argument of the macro around it"""
    x = rust_type(t)
    if PASSED is None:
        return x
    PASSED.append(x)
    return f"$t{len(PASSED) - 1}"


def made(i, text):
    """the declaration as what a macro expands to, with the types of its fields passed"""
    ps = PASSED
    return f"macro_rules! mk{i} {{ ({', '.join(f'$t{k}:ty' for k in range(len(ps)))}) => {{\n{text}}} }}\nmk{i}!({', '.join(ps)});\n"


def rust_type(t):
    x = one_type(t)
    return f"({x})" if SPELL.random() < 0.03 else x


def one_type(t):
    k, s = t["k"], t["s"]
    if k == "decl":
        return inner_name(t["n"])
    one = lambda: rust_type(s[0])
    return {"unit": "()", "str": SPELL.choice(["String"] * 4 + ["std::string::String", "Text"]), "bytes": "serde_bytes::ByteBuf", "buint": "dlhn::BigUint",
            "bint": "dlhn::BigInt", "date": "dlhn::Date", "dt": "dlhn::DateTime"}.get(k) or (
        SPELL.choice(["Option"] * 4 + ["::std::option::Option", "core::option::Option", "Maybe"]) + f"<{one()}>" if k == "opt" else
        SPELL.choice(["Vec"] * 4 + ["std::vec::Vec", "Many"]) + f"<{one()}>" if k == "seq" else
        f"std::collections::BTreeMap<String, {one()}>" if k == "map" else
        "(" + "".join(rust_type(x) + ", " for x in s) + ")" if k == "tup" else k)


def inner_name(n):
    return INNER.get(n, f"Inner{n}")


FIELDS = ["f0", "_f1", "r#type", "writer", "value", "__W", "skip", "fields_count", "F8", "self_", "données", "_"*3]
VARIANTS = ["V0", "Skip", "None", "Some", "_Hidden", "Ok", "r#Type", "W", "__W", "Err", "Été"]


def name_of(pool, i, n):
    """a name for the i-th of n, of the kinds a macro might take for something else"""
    x = pool[(i + n) % len(pool)]
    return x if i < len(pool) else f"{x}{i}"


def lst(b):
    return "[" + ", ".join(map(str, b)) + "]"


def signed(b):
    return int.from_bytes(bytes(b), "little", signed=True)


def rust_value(t, v):
    k, s = t["k"], t["s"]
    if k == "decl":
        return decl_value(t["s"][0], v, inner_name(t["n"]), inner=True)
    if k in INT:
        return f"{k}::from_le_bytes({lst(v)})"
    if k == "unit":
        return "()"
    if k == "bool":
        return "true" if v else "false"
    if k == "str":
        return f"String::from_utf8(vec!{lst(v)}).unwrap()"
    if k == "bytes":
        return f"serde_bytes::ByteBuf::from(Vec::<u8>::from({lst(v)}))"
    if k == "buint":
        return f"dlhn::BigUint::from(num_bigint::BigUint::from_bytes_le(&{lst(v)}))"
    if k == "bint":
        return f"dlhn::BigInt::from(num_bigint::BigInt::from_signed_bytes_le(&{lst(v)}))"
    if k == "date":
        return f"dlhn::Date::from(time::Date::from_ordinal_date({v[0]}, {v[1]}).unwrap())"
    if k == "dt":
        ns = signed(v[0]) * 10**9 + signed(v[1])
        return f"dlhn::DateTime::from(time::OffsetDateTime::from_unix_timestamp_nanos({ns}).unwrap())"
    if k == "opt":
        return f"Some({rust_value(s[0], v[0])})" if v else "None"
    if k == "seq":
        return "vec![" + ", ".join(rust_value(s[0], x) for x in v) + "]"
    if k == "map":
        return "std::collections::BTreeMap::from([" + ", ".join(
            f"(String::from_utf8(vec!{lst(a)}).unwrap(), {rust_value(s[0], x)})" for a, x in v) + "])"
    if k == "tup":
        return "(" + "".join(rust_value(a, x) + ", " for a, x in zip(s, v)) + ")"
    raise ToolError("no Rust value for " + k)


def default(t):
    """some value of the type, for a skipped field"""
    k, s = t["k"], t["s"]
    if k == "decl":
        d = s[0]
        if d["d"] == "struct":
            return decl_value(d, [None] * 99, inner_name(t["n"]), inner=True)
        return inner_name(t["n"]) + "::" + name_of(VARIANTS, 0, len(d["vs"]))
    if k in INT:
        return rust_value(t, [1] * INT[k])
    if k in ("date",):
        return rust_value(t, [2001, 9])
    if k == "dt":
        return rust_value(t, [[0] * 8, [0] * 4])
    if k == "bool":
        return "true"
    if k == "tup":
        return "(" + "".join(default(a) + ", " for a in s) + ")"
    return rust_value(t, [])


def written(f):
    return f["skip"] in ("no", "de")


def fields(shape, fs, vals):
    it = iter(vals)
    xs = []
    for i, f in enumerate(fs):
        if written(f):
            v = next(it)
            e = default(f["t"]) if v is None else rust_value(f["t"], v)
        else:
            e = default(f["t"])
        xs.append((name_of(FIELDS, i, len(fs)) + ": " if shape == "named" else "") + e)
    if shape == "unit":
        return ""
    body = ", ".join(xs)
    return f" {{ {body} }}" if shape == "named" else f"({body})"


def decl_value(d, v, name, inner=False):
    if d["d"] == "struct":
        return name + fields(d["shape"], d["f"], v)
    i = int.from_bytes(bytes(v[0]), "little") if inner else v[0]
    var = d["vs"][i]
    vals = v[1]
    if inner:  # as a type of Wire: a bare value for one field, <<>> for none
        kept = [f for f in var["f"] if written(f)]
        vals = [] if not kept else [v[1]] if len(kept) == 1 else v[1]
    return name + "::" + name_of(VARIANTS, i, len(d["vs"])) + fields(var["shape"], var["f"], vals)


ATTR = {"skip": ["skip"], "ser": ["skip_serializing"], "de": ["skip_deserializing"]}


def attrs(rng, skip, plain=False, how=None):
    """A spelling of the attribute, and now and then others beside it; `how`
    is where a default value comes from, for what is read back too."""
    d = "default" if how is None else f'default = "{how}"'
    noise = [] if plain else [x for x in ['rename = "skip"', d, 'alias = "skip_serializing"',
                                          'rename(serialize = "skip_serializing_if")'] if rng.random() < 0.12]
    if how is not None and skip != "no" and d not in noise:
        noise.append(d)
    if sum("rename" in x for x in noise) > 1:
        noise = noise[1:]
    a = noise + (ATTR[skip] if skip != "no" else [])
    rng.shuffle(a)
    out = "" if rng.random() < 0.8 else "/// skip\n"
    if a and rng.random() < 0.5:
        one = f"serde({', '.join(a)}{',' if rng.random() < 0.3 else ''})"
        out += f"#[{one}] " if rng.random() < 0.8 else f"#[cfg_attr(all(), {one})] "
    else:
        out += "".join(f"#[serde({x})] " for x in a)
    if rng.random() < 0.1:
        out = "#[allow(dead_code)] " + out
    return out


def symmetric(x):
    """is what is written of it what is read, in that order?"""
    if isinstance(x, dict):
        if x.get("skip") in ("ser", "de") or "vs" in x and not aligned(x):
            return False
        return all(map(symmetric, x.values()))
    return all(map(symmetric, x)) if isinstance(x, list) else True


def aligned(d):
    w = [v["skip"] in ("no", "de") for v in d["vs"]]
    return w == sorted(w, reverse=True)


def fields_decl(rng, shape, fs, pub, how=None):
    p = "pub " if pub else ""
    if shape == "unit":
        return ""
    h = lambda i: None if how is None else f"{how}_{i}"
    if shape == "named":
        return " { " + ", ".join(attrs(rng, f["skip"], how=h(i)) + p + name_of(FIELDS, i, len(fs)) + ": " + passed(f["t"]) for i, f in enumerate(fs)) + " }"
    return "(" + ", ".join(attrs(rng, f["skip"], True, h(i)) + p + passed(f["t"]) for i, f in enumerate(fs)) + ")"


def defaults(fs, how):
    return "".join(f"fn {how}_{i}() -> {rust_type(f['t'])} {{ {default(f['t'])} }}\n" for i, f in enumerate(fs))


def decl_source(rng, d, name, typed=False):
    """the declaration; `typed`: to be read back as itself, without a header"""
    traits = "serde::Serialize, serde::Deserialize" if typed else "serde::Serialize, dlhn::SerializeHeader"
    head = f"#[derive({traits})]\n#[allow(dead_code)]\n"
    if typed:
        head += "".join(f"#[serde({x})]\n" for x in ["deny_unknown_fields", 'rename_all = "UPPERCASE"', 'rename = "X"', "bound = \"\""]
                        if rng.random() < 0.15)
    how = lambda k: f"df_{name.lower()}_{k}" if typed else None
    if d["d"] == "struct":
        f = fields_decl(rng, d["shape"], d["f"], True, how("s"))
        end = "" if d["shape"] == "named" else ";"
        return head + f"pub struct {name}{f}{end}\n" + (defaults(d["f"], how("s")) if typed else "")
    vs, more = [], ""
    # discriminants say nothing about the index
    plain, odd = all(v["shape"] == "unit" for v in d["vs"]), rng.random() < 0.5
    if d["vs"] and (rng.random() < 0.3 or odd and not plain):
        head += f"#[repr({rng.choice(['i32', 'u16', 'i64'])})]\n"
    for i, v in enumerate(d["vs"]):
        a = {"no": "", "skip": "#[serde(skip)] ", "ser": "#[serde(skip_serializing)] ", "de": "#[serde(skip_deserializing)] "}[v["skip"]]
        if rng.random() < 0.1:
            a = '#[serde(rename = "skip")] ' + a
        if typed and rng.random() < 0.1:
            a = f'#[serde(alias = "W{i}")] ' + a
        vs.append(a + name_of(VARIANTS, i, len(d["vs"])) + fields_decl(rng, v["shape"], v["f"], False, how(i)) +
                  (f" = {(len(d['vs']) - i) * 3}" if odd and i % 3 != 1 else ""))
        more += defaults(v["f"], how(i)) if typed else ""
    return head + f"pub enum {name} {{ " + ", ".join(vs) + " }\n" + more


TYPED = '''
fn one<T: serde::Serialize + serde::de::DeserializeOwned>(c: &mut harness::ctx::Ctx, d: &str, v: &str, x: T) {
    c.op(format!("\\"o\\":\\"drt\\",\\"d\\":{d},\\"v\\":{v}"), || {
        let mut b = Vec::new();
        if x.serialize(&mut dlhn::Serializer::new(&mut b)).is_err() {
            return ",\\"s\\":0".into();
        }
        let mut data = b.clone();
        data.extend([1, 2, 3]);
        let mut p = harness::io::Plain { data: &data, pos: 0 };
        let y = T::deserialize(&mut dlhn::Deserializer::new(&mut p));
        let mut o = format!(",\\"s\\":1,\\"b\\":{},\\"r\\":{},\\"n\\":{}", harness::suites::jb(&b), y.is_ok() as u8, p.pos);
        if let Ok(y) = y {
            let mut b = Vec::new();
            let s = y.serialize(&mut dlhn::Serializer::new(&mut b)).is_ok();
            o += &format!(",\\"s2\\":{},\\"b2\\":{}", s as u8, harness::suites::jb(&b));
        }
        o
    });
}
'''

HELPER = '''
fn one<T: serde::Serialize + dlhn::SerializeHeader>(c: &mut harness::ctx::Ctx, d: &str, v: &str, x: T) {
    c.op(format!("\\"o\\":\\"drv\\",\\"d\\":{d},\\"v\\":{v}"), || {
        let mut h = Vec::new();
        if T::serialize_header(&mut h).is_err() {
            return ",\\"h\\":[],\\"s\\":0".into();
        }
        let mut b = Vec::new();
        if x.serialize(&mut dlhn::Serializer::new(&mut b)).is_err() {
            return format!(",\\"h\\":{},\\"s\\":0", harness::suites::jb(&h));
        }
        let mut p = harness::io::Plain { data: &h, pos: 0 };
        let head = dlhn::DeserializeHeader::deserialize_header(&mut p);
        let mut data = b.clone();
        data.extend([1, 2, 3]);
        let mut p = harness::io::Plain { data: &data, pos: 0 };
        let y = head.ok().and_then(|t| dlhn::Body::deserialize(&t, &mut dlhn::Deserializer::new(&mut p)).ok());
        let (r, y) = match y {
            Some(y) => (1, harness::dynamic::jy(&y)),
            None => (0, "0".into()),
        };
        format!(",\\"h\\":{},\\"s\\":1,\\"b\\":{},\\"r\\":{r},\\"y\\":{y},\\"n\\":{}", harness::suites::jb(&h), harness::suites::jb(&b), p.pos)
    });
}
'''


SINK = '''
fn one<T: dlhn::SerializeHeader>(c: &mut harness::ctx::Ctx, r: &mut harness::gen::Rng) {
    harness::chan::raw(c, r, |mut w| T::serialize_header(&mut w).is_ok());
}
'''


def raw(s):
    return 'r##"' + s + '"##'


def source(seed, decls, typed=False, sink=False):
    global PASSED
    rng = random.Random(seed)
    inner = {}

    def collect(x):
        if isinstance(x, dict):
            if x.get("k") == "decl":
                inner[x["n"]] = x["s"][0]
            for y in x.values():
                collect(y)
        elif isinstance(x, list):
            for y in x:
                collect(y)
    collect(decls)
    o = ["#![allow(dead_code, unused_parens, clippy::all)]\n",
         "type Text = String;\ntype Maybe<T> = Option<T>;\ntype Many<T> = Vec<T>;\n",
         "#[global_allocator]\nstatic A: harness::alloc::Counting = harness::alloc::Counting;\n", TYPED if typed else SINK if sink else HELPER]
    for n, d in sorted(inner.items()):
        o.append(f"// type {inner_name(n)}\n" + decl_source(rng, d, inner_name(n), typed))
        if n == 1 and not typed:
            # a function that only looks like the one of the trait
            o.append("impl Inner1 { pub fn serialize_header<X: std::io::Write>(_: &mut X) -> std::io::Result<()> { Ok(()) } }\n")
    calls = []
    for i, j in enumerate(decls):
        # types of one name in different modules are still different types
        name = f"m{i}::Same" if i % 4 == 1 else f"D{i}"
        o.append(f"// type {name}\n")
        if i % 4 == 1:
            o.append(f"mod m{i} {{\nuse super::*;\n" + decl_source(rng, j["d"], "Same", typed) + "}\n")
        elif i % 4 == 3:
            PASSED = []
            text = decl_source(rng, j["d"], name, typed)
            o.append(made(i, text))
            PASSED = None
        else:
            o.append(decl_source(rng, j["d"], name, typed))
        dj = json.dumps(j["d"], separators=(",", ":"))
        done = set()
        body = ""
        if sink:
            calls.append(f"        one::<{name}>(c, &mut r);\n")
            continue
        for v in j["vals"]:
            vj = json.dumps(v, separators=(",", ":"))
            if vj in done:
                continue
            done.add(vj)
            body += f"    one(c, {raw(dj)}, {raw(vj)}, {decl_value(j['d'], v, name)});\n"
        o.append(f"fn run{i}(c: &mut harness::ctx::Ctx) {{\n{body}}}\n")
        calls.append(f"        run{i}(c);\n")
    o.append("fn main() {\n    harness::work(|c, _| {\n" + (f"        let mut r = harness::gen::Rng::new({seed}, \"dsink\");\n" if sink else "") + "".join(calls) + "    });\n}\n")
    return "".join(o)


TOML = '''[package]
name = "derived"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
harness = { path = "%s" }
dlhn = { path = "/repo/dlhn", features = ["time", "num-traits", "num-bigint", "bigdecimal", "dlhn_derive"] }
serde = { version = "1", features = ["derive", "rc"] }
serde_bytes = "0.11"
time = "0.3"
num-bigint = "0.4"

[profile.dev]
opt-level = 0
debug = 0
'''


def crate(work, name):
    d = work.path(name)
    os.makedirs(os.path.join(d, "src"))
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(TOML % HARNESS)
    shutil.copy(os.path.join(HARNESS, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    return d


def build_crate(d):
    env = cargo_env()
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(d, "Cargo.toml"),
                        "--target-dir", os.path.join(HARNESS, "target-derive")], env=env, capture_output=True, text=True)
    return r


class Refused(Exception):
    """the real macro gives up on declarations that serde's macros take"""


def compile_decls(work, seed, decls, typed=False, sink=False):
    d = crate(work, "derived")
    text = source(seed, decls, typed, sink)
    main = os.path.join(d, "src", "main.rs")
    with open(main, "w") as f:
        f.write(text)
    r = build_crate(d)
    if r.returncode != 0 and not typed:
        # the same without the macro under test: does the rest stand?
        names = re.findall(r"^// type (\S+)$", text, flags=re.M)
        with open(main, "w") as f:
            f.write(text.replace("#[derive(serde::Serialize, dlhn::SerializeHeader)]", "#[derive(serde::Serialize)]"))
            for n in names:
                f.write(f"impl dlhn::SerializeHeader for {n} {{ fn serialize_header<W: std::io::Write>(_: &mut W) -> std::io::Result<()> {{ Ok(()) }} }}\n")
        if build_crate(d).returncode == 0:
            raise Refused("".join(l[:400] + "\n" for l in r.stderr.splitlines() if not l.startswith("warning"))[:3000])
    if r.returncode != 0:
        raise BuildError("the generated declarations do not compile:\n" + r.stderr[-6000:])
    b = work.path("derived-bin")
    shutil.copy2(os.path.join(HARNESS, "target-derive", "debug", "derived"), b)
    return b


# --------------------------------------- what must not expand, and wide counts

REFUSED = {
    "a field of a struct that is skipped for some values":
        '#[derive(serde::Serialize, dlhn::SerializeHeader)] pub struct T { a: u8, #[serde(skip_serializing_if = "Option::is_none")] b: Option<u8> }',
    "a field of a tuple struct that is skipped for some values":
        '#[derive(serde::Serialize, dlhn::SerializeHeader)] pub struct T(u8, #[serde(skip_serializing_if = "Option::is_none")] Option<u8>);',
    "a field of a variant that is skipped for some values":
        '#[derive(serde::Serialize, dlhn::SerializeHeader)] pub enum T { A, B { a: u8, #[serde(default, skip_serializing_if = "Option::is_none")] b: Option<u8> } }',
    "a field of a tuple variant that is skipped for some values":
        '#[derive(serde::Serialize, dlhn::SerializeHeader)] pub enum T { A, B(u8, #[serde(skip_serializing_if = "Option::is_none")] Option<u8>) }',
}


def expand(d, text):
    """rustc's expansion of a crate (nothing is type-checked), or None"""
    with open(os.path.join(d, "src", "main.rs"), "w") as f:
        f.write(text + "\nfn main() {}\n")
    env = cargo_env()
    env["RUSTC_BOOTSTRAP"] = "1"
    try:
        r = subprocess.run(["cargo", "rustc", "--offline", "--quiet", "--manifest-path", os.path.join(d, "Cargo.toml"),
                            "--target-dir", os.path.join(HARNESS, "target-derive"), "--", "-Zunpretty=expanded"],
                           env=env, capture_output=True, text=True, timeout=240)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    return (r.stdout, "") if r.returncode == 0 else (None, r.stderr)


def wide_decl(k, n, name):
    body = f"pub struct {name}(" + "bool," * n + ");" if k == "tup" else \
           f"pub enum {name} {{" + ",".join(f"V{i}" for i in range(n)) + "}"
    return f"#[derive(dlhn::SerializeHeader)] {body}\n"


def collapse(lines):
    """keeps one of each long run of repeated statements; short runs are as
    likely to be bytes of a count"""
    out = []
    i = 0
    while i < len(lines):
        for p in range(1, 9):
            block = lines[i:i + p]
            j = i + p
            while block and lines[j:j + p] == block:
                j += p
            if j - i >= 64 * p:
                i = j
                out += block
                break
        else:
            out.append(lines[i])
            i += 1
    return out


def heads(d, decls):
    """The header bytes of declarations too wide to compile: their expansion
    is compiled with repeated statements written once, so that what comes
    before the elements is computed by the real expansion.  None if it cannot
    be had that way."""
    text, _ = expand(d, "".join(wide_decl(k, n, f"T{k}{n}") for k, n in decls))
    if text is None:
        return None
    text = "\n".join(collapse(text.splitlines()))
    calls = "".join(f'    {{ let mut b = Vec::new(); <T{k}{n} as dlhn::SerializeHeader>::serialize_header(&mut b).unwrap(); '
                    f'println!("{{:?}}", &b[..b.len().min(16)]); }}\n' for k, n in decls)
    text = re.sub(r"fn main\(\)\s*\{\s*\}", lambda _: "fn main() {\n" + calls + "}", text)
    with open(os.path.join(d, "src", "main.rs"), "w") as f:
        f.write("#![allow(dead_code)]\n" + text)
    env = cargo_env()
    env["RUSTC_BOOTSTRAP"] = "1"
    r = subprocess.run(["cargo", "run", "--offline", "--quiet", "--manifest-path", os.path.join(d, "Cargo.toml"),
                        "--target-dir", os.path.join(HARNESS, "target-derive")], env=env, capture_output=True, text=True, timeout=240)
    if r.returncode != 0:
        return None
    return [json.loads(l) for l in r.stdout.splitlines()]


def expansions(work):
    """operations about declarations too wide to compile, or refused"""
    d = crate(work, "expand")
    ops = []
    control, err = expand(d, "#[derive(serde::Serialize, dlhn::SerializeHeader)] pub struct T { a: u8 }")
    if control is None:
        raise BuildError("a plain declaration does not expand:\n" + err[-3000:])
    for what, text in REFUSED.items():
        e, _ = expand(d, text)
        ops.append({"o": "nodrv", "x": "ok", "what": what, "ok": 0 if e is None else 1})
    # the first two say whether the bytes before the elements can be had this way
    sizes = [(k, n) for n in (300, 8191, 8192, 16383, 16384, 16385, 65535) for k in ("tup", "enum")]
    got = heads(d, sizes)
    for k, n in [("tup", 65536), ("enum", 65536), ("enum", 65663)] + (sizes[2:] if got is None else []):
        e, err = expand(d, wide_decl(k, n, "T"))
        if err != "timeout":
            ops.append({"o": "wdrv", "x": "ok", "k": k, "c": n, "ok": 0 if e is None else 1, "head": []})
    if got is not None and all(h[:3] == [c, 128 + 300 % 64, 300 // 64] for h, c in zip(got[:2], (21, 24))):
        for (k, n), h in zip(sizes, got):
            ops.append({"o": "wdrv", "x": "ok", "k": k, "c": n, "ok": 1, "head": h})
    return ops
