"""C09: text and JSON forms of a quantity denote the same physical quantity, both ways."""
import itertools, json, re
from fractions import Fraction as F
import ref, exprmodel
from exprmodel import Reject
from lib import *
from c06 import ty

LEX = re.compile(r"\s*(?:([^\W\d]\w*)|(\d+)(?![\w])|([*./^()]))")


def lex(s):
    """tokens of a unit expression, in the lexical grammar of the macros"""
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        if out and out[-1] == "^":
            m = re.compile(r"\s*(-?\d+)(?!\w)").match(s, i)
            if m and not re.compile(r"\.(?![^\W\d])").match(s, m.end()):
                out.append(m.group(1)); i = m.end(); continue
        m = LEX.match(s, i)
        if not m:
            raise Reject()
        if m.group(2) is not None and re.compile(r"\.(?![^\W\d])").match(s, m.end()):
            raise Reject()  # a float
        out.append(m.group(1) or m.group(2) or m.group(3))
        i = m.end()
    return out


ATOMS = ref.atoms()
# exprmodel wants (dims, scale exps, cf); here the whole magnitude goes in cf, with pi apart
ETAB = {k: (a[0], (0, 0, 0, a[2]), a[1]) for k, a in ATOMS.items()}


def magnitude(unit):
    """(dims, magnitude in coherent SI, offset) of a unit expression or Reject"""
    u = unit.strip()
    if "//" in u or "/*" in u:
        raise Reject()
    if u in ATOMS:
        a = ATOMS[u]
        return a[0], ref.tofrac(a[1], a[2]), a[3] or F(0), a[4].rel_tol
    v = exprmodel.parse(lex(u), ETAB)
    # 10^n is (n,0,n,0) in the model
    m = ref.scale_value(v[1])
    return v[0], m[0] * ref.PI ** m[1] * (v[2] if v[2] is not None else F(0)), F(0), F(1, 10 ** 6) if re.search("yr|year|pc|uk", u) else F(0)


NUM = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?")


def read(s):
    """(value, unit string) of `value unit`, or Reject"""
    s = s.strip()
    m = NUM.match(s)
    if not m:
        raise Reject()
    u = s[m.end():].strip()
    if not u:
        raise Reject()
    return F(m.group()) , u


TARGETS = ["m", "km", "m/s", "1/s", "m^2", "kg", "g", "s", "min", "K", "N", "J", "Pa", "V", "Ω", "rad", "deg", "mol", "cd", "A", "L", "m/s^2", "m*s", "1", "rad/s", "F", "H", "T", "Wb", "S", "C", "W", "lx", "St", "1/m", "kg*m^2/s^3", "hect"]


def run(ck):
    # ---- A: serialization of every dimension shape and scale, and reading it back
    dims = []
    for i in range(8):
        for e in (1, -1, 2, -2, 3, -3, 7, -7) + ((15, -15, 31, 127, -127) if ck.thorough else ()):
            d = [0] * 8; d[i] = e; dims.append(tuple(d))
    for i, j in itertools.combinations(range(8), 2):
        for e, f in itertools.product((-2, -1, 1, 2), repeat=2):
            d = [0] * 8; d[i] = e; d[j] = f; dims.append(tuple(d))
    if ck.thorough:
        for i, j, k in itertools.combinations(range(8), 3):
            for e, f, g in itertools.product((-2, -1, 1, 3), repeat=3):
                d = [0] * 8; d[i] = e; d[j] = f; d[k] = g; dims.append(tuple(d))
    for u in ref.UNITS:
        if u.d not in dims:
            dims.append(u.d)
    dims += [(0,) * 8, (1, 2, -3, -1, 1, -1, 1, 1), (-1, -2, 3, 4, -1, 2, -3, -1)]
    dims = list(dict.fromkeys(dims))
    SC = [(0, 0, 0, 0), (3, 0, 3, 0), (-3, 0, -3, 0), (2, 1, 1, 0), (-2, -2, -1, 1), (-6, 0, -6, 0), (4, 2, 2, 0), (0, -2, 1, 0), (-1, 1, 0, -2), (30, 0, 30, 0), (-30, 0, -30, 0), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (0, 0, 0, -1)]
    tys = []  # (scale, dim, storage, brand, value)
    for n, d in enumerate(dims):
        for k in range(3 if ck.thorough else 2):
            tys.append((SC[(n * 2 + k * 3) % len(SC)], d, "f64", "()", "2.75"))
    for s in SC:
        for d in ((0, 1, 0, 0, 0, 0, 0, 0), (1, 0, 0, 0, 0, 0, 0, 0), (1, 2, -2, 0, 0, 0, 0, 0), (0, 0, -1, 0, 0, 0, 0, 1), (0,) * 8):
            for t, v in (("f64", "-0.1"), ("f32", "2.75"), ("i32", "-7"), ("u32", "7"), ("i8", "-7"), ("u8", "7"), ("i16", "-7"), ("u16", "7")):
                tys.append((s, d, t, "()", v))
            tys.append((s, d, "f64", "B1", "2.75"))
    special = ["0.0", "-0.0", "1.0", "1e300", "-1e300", "5e-324", "1e-300", "f64::MAX", "f64::MIN_POSITIVE", "0.1", "123456789.123456789", "f64::NAN", "f64::INFINITY", "f64::NEG_INFINITY"]
    for v in special:
        tys.append(((0, 0, 0, 0), (0, 1, 0, 0, 0, 0, 0, 0), "f64", "()", v))
        tys.append(((0, 0, 0, 0), (1, 1, -2, 0, 0, 0, 0, 0), "f64", "()", v))
    tys = list(dict.fromkeys(tys))
    CORE = f'whippyunits-core = {{ path = "{REPO}/whippyunits-core" }}'
    PM = f'whippyunits-proc-macros = {{ path = "{REPO}/proc-macros" }}'
    c = Crate("c09", deps=("whippyunits", 'serde = "1"', 'serde_json = "1"', CORE, PM))
    NB = 12
    progs = {}
    hdr = PROBE_SRC + """
#[allow(unused_imports)] use whippyunits::{unit, from_json, from_string, serialization::*};
#[derive(Clone, PartialEq)] pub struct B1;
fn rt<Q: serde::Serialize>(k: &str, q: &Q) { println!("{k}\\tser\\t{}", serde_json::to_string(&q).unwrap_or_else(|e| format!("ERR {e}"))); }
fn back<A, B, Br>(k: &str, q: Quantity<A, B, f64, Br>) where Quantity<A, B, f64, Br>: serde::Serialize + serde::de::DeserializeOwned {
    rt(k, &q);
    let s = serde_json::to_string(&q).unwrap_or_default();
    match serde_json::from_str::<Quantity<A, B, f64, Br>>(&s) { Ok(r) => println!("{k}\\tback\\t{}", r.unsafe_value.img()), Err(e) => println!("{k}\\tback\\tERR {e}") }
}
"""
    for b in range(NB):
        mine = list(enumerate(tys))[b::NB]
        blocks = [mine[j:j + 60] for j in range(0, len(mine), 60)]
        p = CaseProgram(hdr + "fn main() { quiet(); " + " ".join(f"f{j}();" for j in range(len(blocks))) + "}")
        for j, bl in enumerate(blocks):
            p.raw(f"fn f{j}() {{")
            for k, (s, d, t, br, v) in bl:
                base = ty(s, d, t)
                T = base if br == "()" else base[:-1] + f", {br}>"
                v = v if t[0] == "f" and not v.startswith("f64") else v
                call = ("back" if t == "f64" else "rt") + f'("{k}", {"" if t == "f64" else "&"}<{T}>::new({v}));'
                if br == "()" and (not CONFIG or "std" in CONFIG["features"]):
                    call += f' println!("{k}\\tfn\\t{{}}", serialize_to_json(&<{T}>::new({v})).unwrap_or_else(|e| format!("ERR {{e}}")));'
                p.case(("A", k), f'guard("{k}", || {{ {call} }});')
            p.raw("}")
        progs[f"b{b}"] = p
        c.bin(f"b{b}", p.src())
    # ---- B: reader
    p = CaseProgram(PROBE_SRC + """
#[allow(unused_imports)] use whippyunits::{unit, from_json, from_string, serialization::*};
fn kind(e: &SerializationError) -> &'static str { match e { SerializationError::DimensionMismatch { .. } => "DIM", _ => "ERR" } }
fn main() { quiet();
    use std::io::Read; let mut s = String::new(); std::io::stdin().read_to_string(&mut s).unwrap();
    let mut out = String::new();
    for l in s.lines() { let (mode, text) = l.split_once('\\t').unwrap(); let text = &text.replace("\\\\t", "\\t").replace("\\\\n", "\\n"); let text = text.as_str();
        let r = std::panic::catch_unwind(|| { let mut o = String::new();
            match mode { "s" => str_case(text, &mut o), "j" => json_case(text, &mut o), _ => few_case(mode, text, &mut o) } o });
        match r { Ok(o) => { out.push_str(&o); out.push('\\n'); } Err(_) => out.push_str("PANIC\\n") } }
    print!("{out}"); }
fn put(o: &mut String, r: Result<f64, SerializationError>) { match r { Ok(v) => o.push_str(&v.img()), Err(e) => o.push_str(kind(&e)) } o.push('\\t'); }
fn few_case(mode: &str, t: &str, o: &mut String) { match mode {
  "S" => { put(o, from_string!(t, m).map(|q| q.unsafe_value)); put(o, from_string!(t, m / s).map(|q| q.unsafe_value)); put(o, from_string!(t, 1/s).map(|q| q.unsafe_value)); put(o, from_string!(t, m^2, f64).map(|q| q.unsafe_value)); }
  _ => { put(o, from_json!(t, m).map(|q| q.unsafe_value)); put(o, from_json!(t, m / s).map(|q| q.unsafe_value));
         match serde_json::from_str::<unit!(m)>(t) { Ok(q) => o.push_str(&q.unsafe_value.img()), Err(_) => o.push_str("ERR") } o.push('\\t'); } } }
""")
    p.raw("fn str_case(t: &str, o: &mut String) {")
    for i, t in enumerate(TARGETS):
        p.case(("T", t), f"put(o, from_string!(t, {t}).map(|q| q.unsafe_value));")
    p.raw("}\nfn json_case(t: &str, o: &mut String) {")
    for i, t in enumerate(TARGETS):
        p.case(("J", t), f"put(o, from_json!(t, {t}).map(|q| q.unsafe_value));")
    p.raw("}")
    progs["reader"] = p
    c.bin("reader", p.src())
    ok, diags = c.build(timeout=850)
    if not ok:
        by, un = attribute(diags, progs)
        if not by:
            raise MachineryError("".join(d["rendered"] for d in un[:3]) + c.stderr[-1500:])
        for k, m in by.items():
            ck.violation(f"compile:{k}", f"does not compile: {tys[k[1]] if k[0] == 'A' else k}: {m[:1]}")
    ck.log("built")
    ev = 0
    units_seen = set()

    for b in progs:
        if b == "reader" or b not in c.exes:
            continue
        r = c.run(b)
        if r.returncode:
            raise MachineryError(r.stderr.decode()[-800:])
        for line in r.stdout.decode().splitlines():
            k, what, txt = line.split("\t", 2)
            s, d, t, br, v = tys[int(k)]
            key = f"{what}:{s}:{d}:{t}:{v}"
            ev += 1
            if what == "PANIC":
                ck.violation(key, f"panics: {txt}")
                continue
            vv = {"f64::MAX": 1.7976931348623157e308, "f64::MIN_POSITIVE": 2.2250738585072014e-308, "f64::NAN": float("nan"), "f64::INFINITY": float("inf"), "f64::NEG_INFINITY": float("-inf")}.get(v)
            x = vv if vv is not None else float(v)
            finite = x == x and abs(x) != float("inf")
            if what == "back":
                if not finite:
                    if txt[0] == "d" and bits_f64(int(txt[1:], 16)) == bits_f64(int(txt[1:], 16)) and abs(bits_f64(int(txt[1:], 16))) != float("inf"):
                        ck.violation(key, f"{v} comes back as a number")
                    continue
                if txt.startswith("ERR"):
                    ck.violation(key, f"written JSON cannot be read back: {txt}")
                    continue
                y = bits_f64(int(txt[1:], 16))
                if abs(F(y) - F(x)) > abs(F(x)) * F(1, 2 ** 49):
                    ck.violation(key, f"{v} comes back as {y!r}")
                continue
            if not finite:
                continue
            try:
                j = json.loads(txt)
                assert set(j) == {"value", "unit"}
            except Exception:
                ck.violation(key, f"not a value/unit object: {txt}")
                continue
            try:
                units_seen.add(j["unit"])
                dd, um, uoff, _ = magnitude(j["unit"])
            except Reject:
                ck.violation(key, f"unit string {j['unit']!r} is not a unit expression")
                continue
            if tuple(dd) != d:
                ck.violation(key, f"unit string {j['unit']!r} has dimension {dd} instead of {d}")
                continue
            fx = F(x) if t != "f32" else F(struct.unpack("<f", struct.pack("<f", x))[0])
            m = ref.scale_value(s)
            want = fx * m[0] * ref.PI ** m[1]
            if abs(F(j["value"]) * um + uoff - want) > abs(want) * F(1, 2 ** 49):
                ck.violation(key, f"written as {txt}, which is not {v} at scale {s} (= {float(want)!r} coherent units)")
    ck.log("A", ev, "unit strings", len(units_seen))
    nA = ev
    if "reader" not in c.exes:
        ck.finish(evaluations=ev, distinct_nontrivial=len(units_seen), rule="(stopped: the reader did not build)")
    # ---- inputs of the reader
    lines, wants = [], []  # wants: list of per-target expectation
    tm = [magnitude(t) for t in TARGETS]

    def expect(val, u, targets):
        try:
            d, m, off, tol = magnitude(u)
        except Reject:
            return ["ERR"] * len(targets)
        out = []
        for td, tmag, _, _ in targets:
            if td != d:
                out.append("DIM")
            else:
                w = (val * m + off) / tmag
                big = max(abs(val * m / tmag), abs(off / tmag))
                out.append((w, big * max(F(1, 2 ** 48), tol * 4)))
        return out

    def add(mode, text, w):
        lines.append(mode + "\t" + text.replace("\t", "\\t").replace("\n", "\\n"))
        wants.append((mode, text, w))
    sp = [k for k, a in ATOMS.items() if a[4].name != "lumen"]
    for u in sp:
        for v, form in (("2.5", "2.5 {}"), ("-40", "-40 {}"), ("1.5e-3", "1.5e-3{}"), ("7", " 7  {} ")) if not ck.thorough else (("2.5", "2.5 {}"), ("-40", "-40{}"), ("1.5e-3", "1.5e-3{}"), ("7", " 7  {} "), ("+.5", "+.5 {}"), ("3.", "3.{}"), ("1e3", "\t1e3\t{}\n"), ("0", "0 {}")):
            add("s", form.format(u), expect(F(v), u, tm))
        add("j", json.dumps({"value": 2.5, "unit": u}, ensure_ascii=False), expect(F("2.5"), u, tm))
        add("j", json.dumps({"unit": u, "value": -40}, ensure_ascii=False), expect(F(-40), u, tm))
    # compound strings in all spellings
    A = ["m", "ft", "s2", "min", "kg^-1", "10^3", "1", "deg", "(m*s)", "mi", "Ω"]
    for a, b in itertools.product(A, repeat=2):
        for op in ("*", "/", ".", " / ", " * ", " . "):
            e = f"{a}{op}{b}"
            for form in ("5 {}", "5{}"):
                s = form.format(e)
                try:
                    v, u = read(s)
                    w = expect(v, u, tm)
                except Reject:
                    w = ["ERR"] * len(tm)
                add("s", s, w)
            add("j", json.dumps({"value": 5, "unit": e}, ensure_ascii=False), expect(F(5), e, tm))
    for a, b, d in itertools.product(["m", "s", "ft2", "kg"], repeat=3):
        for o1, o2 in itertools.product("*/.", repeat=2):
            add("s", f"3 {a}{o1}{b}{o2}{d}", expect(F(3), f"{a}{o1}{b}{o2}{d}", tm))
    # every string over a small alphabet
    few = [magnitude(t) for t in ("m", "m/s", "1/s", "m^2")]
    alpha = "5.e- m/s2^"
    L = 3 if CONFIG else 6 if ck.thorough else 5
    for n in range(0, L + 1):
        for tup in itertools.product(alpha, repeat=n):
            s = "".join(tup)
            if "- " in s and "^" in s:
                continue  # `m^- 2`: no claim
            try:
                v, u = read(s)
                w = expect(v, u, few)
            except Reject:
                w = ["ERR"] * 4
            add("S", s, w)
    # broken JSON: every prefix, single deletion and single insertion
    docs = ['{"value": 5.0, "unit": "m"}', '{"value":-2.5e3,"unit":"km/s"}', '{"unit":"ft","value":7}', '{"x":[1,{"y":null}],"value":1,"unit":"m","z":true}']
    muts = set(docs)
    for d in docs:
        for i in range(len(d)):
            muts.add(d[:i]); muts.add(d[:i] + d[i + 1:])
        for i in range(len(d) + 1):
            for ch in '{}[]",:0.e-m/ 1sntf\\':
                muts.add(d[:i] + ch + d[i:])
                if ck.thorough and i < len(d):
                    muts.add(d[:i] + ch + d[i + 1:])
    two = [magnitude("m"), magnitude("m/s")]

    def nocst(x):
        raise ValueError(x)
    for s in sorted(muts):
        dup = []

        def hook(pairs):
            dup.append(len({k for k, _ in pairs}) != len(pairs))
            return dict(pairs)
        try:
            j = json.loads(s, parse_constant=nocst, object_pairs_hook=hook)
            if "\\" in s:
                continue
            isnum = lambda x: isinstance(x, (int, float)) and not isinstance(x, bool)
            if not isinstance(j, dict) or not isnum(j.get("value")) or not isinstance(j.get("unit"), str) or abs(j["value"]) == float("inf"):
                raise ValueError
            w = expect(F(j["value"]), j["unit"], two)
            w.append("ANY" if any(dup) else "ERR" if w[0] == "DIM" else w[0])
        except ValueError:
            w = ["ERR"] * 3
        add("J", s, w)
    ck.log("reader inputs", len(lines))
    r = c.run("reader", input=("\n".join(lines) + "\n").encode())
    if r.returncode:
        raise MachineryError(f"reader exit {r.returncode}: {r.stderr.decode()[-500:]}")
    res = r.stdout.decode().split("\n")[:-1]
    if len(res) != len(lines):
        raise MachineryError(f"{len(res)} answers to {len(lines)} inputs")
    acc = 0
    names = dict(s=TARGETS, j=TARGETS, S=["m", "m/s", "1/s", "m^2"], J=["m", "m/s", "serde m"])
    for (mode, text, w), line in zip(wants, res):
        if line == "PANIC":
            ck.violation(f"read:{text}", f"reading {text!r} panics")
            continue
        for t, want, g in zip(names[mode], w, line.split("\t")):
            ev += 1
            key = f"read:{text}:{t}"
            if want == "ANY":
                continue
            if isinstance(want, str):
                if g != want:
                    ck.violation(key, f"reading {text!r} as {t} gives {bits_f64(int(g[1:], 16)) if g[0] == 'd' else g}, should be {'a dimension mismatch' if want == 'DIM' else 'a format error'}")
                continue
            acc += 1
            if g[0] != "d":
                ck.violation(key, f"reading {text!r} as {t} fails ({g}), should be {float(want[0])!r}")
                continue
            x = bits_f64(int(g[1:], 16))
            if x != x or abs(x) == float("inf") or abs(F(x) - want[0]) > want[1]:
                ck.violation(key, f"reading {text!r} as {t} gives {x!r}, should be {float(want[0])!r}")
    ck.sample(wants[10][1]); ck.sample(wants[5000][1]); ck.sample(wants[-40][1]); ck.sample(sorted(units_seen)[:5])
    ck.assumptions.append("lumen is left out (known finding of C01); finite values; storage types the serializer accepts (lossless to f64); words inf and nan in place of a number are outside the property")
    ck.finish(evaluations=ev, distinct_nontrivial=len(lines) + len(units_seen), read_ok=acc, written=nA, exhaustive=True,
              rule="writer: every dimension with one exponent, all pairs of bases with exponents -2..2, the catalogue's, x a rota of 16 scales; storage types and brands; values at the limits. "
                   f"reader: every catalogue spelling x {len(TARGETS)} target units x formats, compound spellings, every string of length <= {L} over '{alpha}', every prefix/deletion/insertion of JSON documents")


if __name__ == "__main__":
    main(run, "C09", "exploration")
