"""C21: what the macros document for the editor is true of the units, types and factors they use."""
import json
from fractions import Fraction as F
import ref
from lib import *

DEPS = ("whippyunits",)
SUP = str.maketrans("-0123456789", "⁻⁰¹²³⁴⁵⁶⁷⁸⁹")
UNSUP = {chr(v): chr(k) for k, v in SUP.items()}
PREF = {p: (s, n) for s, _, n, p in ref.PREFIXES}
BY_PREFIX = {n: p for _, _, n, p in ref.PREFIXES}
ATOMS = ref.atoms()
NAMES = list(ATOMS)
ATOMIC = dict(Mass="M", Length="L", Time="T", Current="I", Temperature="Θ", Amount="N", Luminosity="J", Angle="A")
PROBE = """
use whippyunits::quantity::*;
trait Show { fn show() -> String; }
impl<const P2: i16, const P3: i16, const P5: i16, const PI: i16, const M: i16, const L: i16, const T: i16, const I: i16, const TH: i16, const N: i16, const J: i16, const A: i16, S: 'static, B: 'static> Show
    for Quantity<Scale<_2<P2>, _3<P3>, _5<P5>, _Pi<PI>>, Dimension<_M<M>, _L<L>, _T<T>, _I<I>, _\u0398<TH>, _N<N>, _J<J>, _A<A>>, S, B> {
    fn show() -> String { format!("{:?} {:?} {} {}", [P2, P3, P5, PI], [M, L, T, I, TH, N, J, A], std::any::type_name::<S>(), std::any::type_name::<B>()) }
}
fn of<Q: Show>(_: &Q) -> String { Q::show() }
#[allow(dead_code)]
fn out<Q: Show>(k: usize, w: &str, q: &Q) { println!("{k}\\t{w}\\t{}", of(q)); }
"""


def texts():
    """What the documentation of each catalogue spelling has to say."""
    t = {}
    for k, (_, _, _, _, u, p) in ATOMS.items():
        if not p:
            # the first symbol is the unit's own
            t[k] = {f"{u.name} ({u.symbols[0]})"}
        else:
            s, n = PREF[p]
            t[k] = {f"{n}{u.name} ({x}{u.symbols[0]}) - Prefix: {n} (10{str(p).translate(SUP)}), Base: {u.name}" for x in ([s, "µ"] if s == "u" else [s])}
    return t


def expand(c, src, args=("--bin", "exp")):
    c.bin("exp", src)
    c.write()
    w = os.path.join(c.dir, "rustc")
    write_if_changed(w, '#!/bin/sh\nRUSTC_BOOTSTRAP=1 exec "$@"\n')
    os.chmod(w, 0o755)
    p = subprocess.run(["cargo", "rustc", "--offline", "-q", *args, "--", "-Zunpretty=expanded"], cwd=c.dir, env=dict(ENV, RUSTC_WORKSPACE_WRAPPER=w),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)
    return p.stdout.decode(), p.stderr.decode()


def cut(txt, err, n, head):
    out = []
    at = [m.start() for m in (re.search(rf"{head % i}\b", txt) for i in range(n + 1)) if m]
    if len(at) != n + 1:
        raise MachineryError(f"{n + 1 - len(at)} expansions missing: " + err[-2000:])
    return [txt[a:b] for a, b in zip(at, at[1:])]


def unq(s):
    return re.sub(r"\\u\{([0-9a-f]+)\}", lambda m: chr(int(m[1], 16)), s).replace('\\"', '"').replace("\\\\", "\\")


def docs(body):
    """[(documentation, the name it is attached to, the type it points to)]"""
    r = []
    for m in re.finditer(r'((?:#\[doc\s*=\s*r?"(?:[^"\\]|\\.)*"\s*\]\s*|///[^\n]*\n\s*)+)((?:#\[(?!doc)[^\]]*\]\s*)*)(?:pub )?(type|trait|mod)\s+(?:r#)?([^\s:=<{]+)\s*(?:[=:]\s*(.*?))?\s*[;{]', body, re.S):
        d = [unq(a) if a else b.strip() for a, b in re.findall(r'#\[doc\s*=\s*r?"((?:[^"\\]|\\.)*)"\s*\]|///([^\n]*)\n', m[1])]
        r.append((" ".join(d), m[4], re.sub(r"\s+", "", m[5] or "")))
    return r


FORMS = [
    ("quantity", "let zz_q = ::whippyunits::quantity!(1.0, U);"),
    ("quantity T", "let zz_q = ::whippyunits::quantity!(1.0, U, f32);"),
    ("quantity B", "let zz_q = ::whippyunits::quantity!(1.0, U, f64, crate::Mark);"),
    ("unit", "let zz_q: ::whippyunits::unit!(U) = zz_any();"),
    ("unit T", "let zz_q: ::whippyunits::unit!(U, i32) = zz_any();"),
    ("value", "let zz_v = ::whippyunits::value!(::whippyunits::quantity!(1.0, U), U);"),
    ("value T", "let zz_v = ::whippyunits::value!(::whippyunits::quantity!(1.0, U), U, f64);"),
]
PAIRS = ["quantity!(1.0, A * B)", "quantity!(1.0, A / B)", "quantity!(1.0, A^2 * B^-1)", "quantity!(1.0, A * (B / A))", "quantity!(1.0, 1 / (A * B), f32)"]


def quiet(u):
    # units of their own magnitude, which `unit!` accepts
    return ref.factor235(u[1]) is not None and u[4].offset is None


def cases(ck, refused):
    """(key, body, names documented in it)"""
    out = []
    for f, tpl in FORMS:
        for k in NAMES:
            if (f, k) not in refused:
                out.append((f"{f} {k}", re.sub(r"\bU\b", k, tpl), [k] * tpl.count("U") if "value" in f else [k]))
    for i, k in enumerate(NAMES):
        j = NAMES[(i * 7 + 3) % len(NAMES)]
        for n, p in enumerate(PAIRS):
            if ck.thorough or i % len(PAIRS) == n:
                e = re.sub(r"\b[AB]\b", lambda m: k if m[0] == "A" else j, p)
                out.append((e, f"let zz_q = ::whippyunits::{e};", [k, j]))
    return out


def units(ck):
    want = texts()
    # what `unit!` refuses (C03 decides that it refuses what it should) has no documentation
    c = Crate("c21ref", deps=DEPS)
    lines = ["#![allow(unused)]", "fn main() {}", "struct Mark;"]
    at = {}
    for k in NAMES:
        lines.append(f"fn u_{len(lines)}(_: ::whippyunits::unit!({k})) {{}}")
        at[len(lines)] = k
    c.bin("exp", "\n".join(lines))
    ok, ds = c.build(check_only=True)
    refused = set()
    for d in ds:
        for s in d["spans"]:
            if s[1] in at:
                refused |= {("unit", at[s[1]]), ("unit T", at[s[1]])}
    if not ok and not refused:
        raise MachineryError("the units do not build: " + c.stderr[-2000:])
    for f, k in sorted(refused):
        if quiet(ATOMS[k]):
            # other checks decide what is refused; here it must not hide documentation
            ck.violation(f"{f} {k}: refused", "a storage unit is refused, so that nothing is documented")
    cs = cases(ck, refused)
    lines = ["#![allow(unused, non_camel_case_types)]", "fn main() {}", "#[derive(Clone, Copy, PartialEq)] pub struct Mark;", "fn zz_any<T>() -> T { loop {} }"]
    lines += [f"fn zz_{i}_zz() {{ {b} }}" for i, (_, b, _) in enumerate(cs)] + [f"fn zz_{len(cs)}_zz() {{}}"]
    txt, err = expand(Crate("c21exp", deps=DEPS), "\n".join(lines))
    bodies = cut(txt, err, len(cs), "fn zz_%d_zz")
    types = {}  # (type shown, macro's unit) pairs to compare
    judged = 0
    for (key, b, names), body in zip(cs, bodies):
        got = {}
        for d, n, t in docs(body):
            got.setdefault(n, []).append((d, t))
        for k in dict.fromkeys(names):
            if k not in got:
                ck.violation(f"{key}: nothing about {k}", body[:1500])
                continue
            for d, t in got[k]:
                judged += 1
                if d not in want[k]:
                    ck.violation(f"{key}: {k} documented as {d!r}", sorted(want[k]))
                types.setdefault((t, k), key)
        # the macro's own calls within (the kelvin a temperature is stored in) have to be true as well
        for k in set(got) - set(names):
            for d, t in got[k]:
                if k == "dimensionless" and t == "()":
                    continue
                if d not in want.get(k, ()):
                    ck.violation(f"{key}: {k} documented as {d!r}", body[:1500])
                else:
                    types.setdefault((t, k), key)
    return types, len(cs), judged


def shown_types(ck, types):
    """Each type a unit's documentation points to is the type of the unit's quantities."""
    lines, ix = ["#![allow(unused, non_camel_case_types, uncommon_codepoints)]", PROBE], []
    calls = []
    for (t, k), key in types.items():
        if t == "()":
            if ATOMS[k][0] != ref.ZERO:
                ck.violation(f"{key}: {k} points to no type", "the unit has a dimension")
            continue
        i = len(ix)
        ix.append((t, k, key))
        p = t if t.startswith("::") else "::" + t if t.startswith("whippyunits") else t
        lines.append(f"fn t_{i}() {{ println!(\"{i}\\tdoc\\t{{}}\", <{p} as Show>::show()); }}")
        lines.append(f"fn m_{i}() {{ out({i}, \"made\", &::whippyunits::quantity!(1.0, {k})); }}")
        calls.append(f"t_{i}(); m_{i}();")
    src = "\n".join(lines) + "\nfn main() {\n" + "\n".join(calls) + "\n}\n"
    c = Crate("c21ty", deps=DEPS)
    c.bin("ty", src)
    for _ in range(6):
        ok, ds = c.build()
        if ok:
            break
        ls = c.bins["ty"].split("\n")
        bad = {}
        for d in ds:
            for s in d["spans"]:
                m = re.match(r"fn t_(\d+)\(\)", ls[s[1] - 1])
                if m:
                    bad.setdefault(int(m[1]), d["msg"])
        if not bad:
            raise MachineryError("the types do not build: " + c.stderr[-2000:])
        for i, msg in bad.items():
            t, k, key = ix[i]
            ck.violation(f"{key}: {k} points to {t}, which is no quantity's type", msg)
        src = "\n".join(re.sub(r"^fn t_(\d+)\(\) \{.*", lambda m: f"fn t_{m[1]}() {{}}" if int(m[1]) in bad else m[0], x) for x in ls)
        c.bin("ty", src)
    else:
        raise MachineryError("the types do not build")
    got = {}
    for line in c.run("ty").stdout.decode().splitlines():
        i, w, s = line.split("\t")
        got.setdefault(int(i), {})[w] = s
    for i, (t, k, key) in enumerate(ix):
        g = got.get(i, {})
        if "doc" not in g:
            continue
        if g["doc"] != g["made"]:
            ck.violation(f"{key}: {k} points to {t}", f"that is {g['doc']}, but a quantity in {k} is {g['made']}")
    return len(ix)


def store(text):
    """The dimension and magnitude a storage unit's name stands for: `kilometer`, `10⁴ pascal`, `centi(meter³)`."""
    m = re.fullmatch(r"10([⁻⁰¹²³⁴⁵⁶⁷⁸⁹]*) (.+)", text)
    k = F(1)
    if m:
        k, text = F(10) ** int("".join(UNSUP[x] for x in m[1]) or "1"), m[2]
    m = re.fullmatch(r"([a-z]+)\((.+)\)", text)
    if m and m[1] in BY_PREFIX:
        k, text = k * F(10) ** BY_PREFIX[m[1]], m[2]
    d, v, pi = ref.ZERO, k, 0
    for part in re.split(r"[·*]", text):
        m = re.fullmatch(r"(.+?)([⁻⁰¹²³⁴⁵⁶⁷⁸⁹]*)", part.strip())
        if not m or m[1] not in ATOMS:
            return None
        e = int("".join(UNSUP[x] for x in m[2]) or "1")
        a = ATOMS[m[1]]
        d, v, pi = ref.dadd(d, ref.dmul(a[0], e)), v * a[1] ** e, pi + a[2] * e
    return d, v, pi


def library(ck):
    """The documentation of the library's own declarators: methods of nonstorage units, literals."""
    c = Crate("c21lib", deps=DEPS)
    # the library's own expansion: the flag is allowed for every crate of this build, so it has a place of its own
    env = dict(ENV, RUSTC_BOOTSTRAP="1", CARGO_TARGET_DIR=os.path.join(WORK, "target-c21"))
    c.bin("exp", "fn main() {}")
    c.write()
    p = subprocess.run(["cargo", "rustc", "--offline", "-q", "-p", "whippyunits", "--lib", "--", "-Zunpretty=expanded"], cwd=c.dir, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)
    txt = p.stdout.decode()
    if p.returncode or not txt:
        raise MachineryError("the library does not expand: " + p.stderr.decode()[-2000:])
    meths = []
    for m in re.finditer(r'#\[doc\s*=\s*"Storage unit: \*\*(.*?)\*\*<br>Conversion factor: \*\*(.*?)\*\*"\]\s*fn (\w+)\(self\)\s*->\s*([^;]*);', txt):
        meths.append(tuple(m.groups()))
    lits = []
    for m in re.finditer(r'#\[doc\s*=\s*"equivalent to: `default_declarators::quantity!\((.*?)\)`<br>"\]\s*(?:#\[[^\]]*\]\s*)*macro_rules!\s*(\S+)\s*\{(.*?)\}\s*pub use (\S+) as (\S+);', txt, re.S):
        lits.append(tuple(m.groups()))
    return meths, lits


def methods(ck, meths):
    """A declarator method's documentation against the value it makes, and that against the reference."""
    lines = ["#![allow(unused)]", PROBE, "use whippyunits::default_declarators::*;"]
    for i, (s, f, name, ty) in enumerate(meths):
        lines.append(f"fn m_{i}() {{ let q = 1.0f64.{name}(); println!(\"{i}\\t{{}}\\t{{:?}}\", of(&q), q.unsafe_value); }}")
    lines.append("fn main() { " + " ".join(f"m_{i}();" for i in range(len(meths))) + " }")
    c = Crate("c21meth", deps=DEPS)
    c.bin("meth", "\n".join(lines))
    ok, ds = c.build()
    if not ok:
        raise MachineryError("the methods do not build: " + c.stderr[-2000:] + (ds[0]["rendered"] if ds else ""))
    for line in c.run("meth").stdout.decode().splitlines():
        i, ty, v = line.split("\t")
        s, f, name, _ = meths[int(i)]
        a, b = re.match(r"(\[.*?\]) (\[.*?\])", ty).groups()
        got = store(s)
        if got is None:
            ck.violation(f"{name}: stored in {s!r}", "no unit of that name")
            continue
        sv, sp = ref.scale_value(json.loads(a))
        if (got[0], got[1], got[2]) != (tuple(json.loads(b)), sv, sp):
            ck.violation(f"{name}: stored in {s!r}", f"the quantity it makes has {ty}")
        if float(f) != float(v):
            ck.violation(f"{name}: conversion factor {f}", f"1.{name}() holds {v}")
    return len(meths)


def literals(ck, lits):
    """A literal's documentation against the call it expands to."""
    n = 0
    for doc, name, body, a, b in lits:
        d = [x.strip() for x in doc.split(",")]
        m = re.search(r"quantity\s*!\s*\(\s*\$\s*value\s+as\s+(\w+)\s*,\s*([^,()]+?)\s*,\s*(\w+)\s*(?:,[^()]*)?\)", body)
        n += 1
        if not m:
            continue
        t1, unit, t2 = m.groups()
        exp = b.removeprefix("r#")
        named = exp[:-len(d[2]) - 1] if len(d) > 2 and exp.endswith("_" + d[2]) else exp
        if d[0] != "value" or d[1] != unit.removeprefix("r#") or (len(d) > 2 and d[2] != t2) or d[1] != named:
            ck.violation(f"literal {b}: equivalent to quantity!({doc})", body.strip()[:300])
    return n


BASES = [("Kilogram", "Meter", "Second", "Ampere", "Kelvin", "Mole", "Candela", "Radian"), ("Gram", "Millimeter", "Millisecond", "Milliampere", "Millikelvin", "Millimole", "Millicandela", "Milliradian"),
         ("Megagram", "Kilometer", "Hour", "Kiloampere", "Kilokelvin", "Kilomole", "Kilocandela", "Turn"), ("Decagram", "Decameter", "Minute", "Decaampere", "Decakelvin", "Decamole", "Decacandela", "Degree"),
         ("Microgram", "Centimeter", "Day", "Microampere", "Microkelvin", "Micromole", "Microcandela", "Gradian")]
DIMNAME = list(ATOMIC)


def scales(ck):
    """Base units of a namespace: the text names them, in their places, and points to their types."""
    lines = ["#![allow(unused, non_camel_case_types, uncommon_codepoints)]", "fn main() {}"]
    sets = []
    for bs in BASES:
        sets.append(bs)
    # every prefix, and when thorough in every place
    ps = list(PREF.values())
    for r in range(len(ps) if ck.thorough else len(ps) // 8):
        sets.append(tuple((ps[(8 * r + r // 3 + j) % len(ps)][1] + x).capitalize() for j, x in enumerate(("gram", "meter", "second", "ampere", "kelvin", "mole", "candela", "radian"))))
    for i, bs in enumerate(sets):
        lines.append(f"mod zz_{i}_zz {{ ::whippyunits::define_unit_declarators!(loc{i}, {', '.join(bs)}); }}")
    lines.append(f"mod zz_{len(sets)}_zz {{}}")
    txt, err = expand(Crate("c21ns", deps=DEPS), "\n".join(lines))
    want = {}
    for i, body in enumerate(cut(txt, err, len(sets), "mod zz_%d_zz")):
        bs = sets[i]
        got = docs(body)
        al = [(d, n, t) for d, n, t in got if d.startswith("Scale identifier")]
        if [n for _, n, _ in al] != list(bs):
            ck.violation(f"namespace {bs}: documents {[n for _, n, _ in al]}", "not its base units")
        for (d, n, t), b, dm in zip(al, bs, DIMNAME):
            m = re.fullmatch(r"Scale identifier: (\S+) - Base unit for (\S+) dimension\. This will be used as the storage unit for all (\S+) quantities in the local scale\.", d)
            if not m or m.groups() != (b, dm, dm):
                ck.violation(f"namespace {bs}: {b} documented as {d!r}", f"it is the base unit of {dm}")
            want.setdefault((t, b), bs)
        txts = [d for d, n, t in got if n == f"loc{i}"]
        for d in txts:
            if "Base units: **" + ", ".join(bs) + "**" not in d:
                ck.violation(f"namespace {bs}: documented as {d!r}", "not its base units")
        if not txts:
            ck.violation(f"namespace {bs}: not documented", body[:500])
    return len(sets), want


def scale_types(ck, want):
    low = {}
    for k, a in ATOMS.items():
        low.setdefault(k.capitalize(), (k, a)) if a[4].name in k else None
    lines = ["#![allow(unused)]", PROBE]
    ix = list(want)
    for i, (t, b) in enumerate(ix):
        lines.append(f"fn t_{i}() {{ println!(\"{i}\\t{{}}\", <::{t} as Show>::show()); }}")
    lines.append("fn main() { " + " ".join(f"t_{i}();" for i in range(len(ix))) + " }")
    c = Crate("c21sty", deps=DEPS)
    c.bin("sty", "\n".join(lines))
    ok, ds = c.build()
    if not ok:
        raise MachineryError("the base units' types do not build: " + c.stderr[-2000:])
    for line in c.run("sty").stdout.decode().splitlines():
        i, s = line.split("\t")
        t, b = ix[int(i)]
        a, d = re.match(r"(\[.*?\]) (\[.*?\])", s).groups()
        k, w = low[b]
        if tuple(json.loads(d)) != w[0] or ref.scale_value(json.loads(a)) != (w[1], w[2]):
            ck.violation(f"namespace {want[t, b]}: {b} points to {t}", f"{s}, not {w[:3]}")
    return len(ix)


def dimensions(ck):
    names = [(n, s) for n, s in ATOMIC.items()]
    items = []
    for n, s in names:
        items += [(f"{n}", {n: n}), (f"{s}", {s: n})]
    for i, (n, s) in enumerate(names):
        for m, r in names[:i]:
            items += [(f"{n} * {m}^2", {n: n, m: m}), (f"{r} / {s}", {r: m, s: n}), (f"({s} / {m})^2, {n}", {s: n, m: m, n: n})]
    lines = ["#![allow(unused, non_camel_case_types)]", "fn main() {}"]
    lines += [f"mod zz_{i}_zz {{ ::whippyunits_proc_macros::define_generic_dimension!(Own, {e}); }}" for i, (e, _) in enumerate(items)] + [f"mod zz_{len(items)}_zz {{}}"]
    txt, err = expand(Crate("c21dim", deps=DEPS, extra_deps=f'whippyunits-proc-macros = {{ path = "{REPO}/proc-macros" }}'), "\n".join(lines))
    n = 0
    for (e, want), body in zip(items, cut(txt, err, len(items), "mod zz_%d_zz")):
        got = {k: (d, t) for d, k, t in docs(body) if k != "Own"}
        if set(got) != set(want):
            ck.violation(f"dimension {e}: documents {sorted(got)}", sorted(want))
        for k, (d, t) in got.items():
            n += 1
            w = want.get(k)
            if w and (not d.startswith(f"Atomic dimension: {w} ({ATOMIC[w]}) - ") or t != f"whippyunits::dimension_traits::{w}"):
                ck.violation(f"dimension {e}: {k} documented as {d!r}, {t}", w)
    return len(items), n


def run(ck):
    types, n_calls, n_docs = units(ck)
    ck.log(n_calls, "calls", n_docs, "docs", len(types), "types")
    n_types = shown_types(ck, types)
    ck.log("types")
    meths, lits = library(ck)
    ck.log(len(meths), len(lits))
    n_m, n_l = methods(ck, meths), literals(ck, lits)
    n_ns, want = scales(ck)
    n_st = scale_types(ck, want)
    n_dim, n_dd = dimensions(ck)
    ck.log(n_ns, n_st, n_dim, n_dd)
    if not meths or not lits:
        raise MachineryError("the library's expansion has no documentation of its declarators")
    for x in meths[:3] + lits[:2]:
        ck.sample([str(y).strip() for y in x[:3]])
    for (t, k), key in list(types.items())[:3]:
        ck.sample([key, k, t])
    ck.finish(evaluations=n_docs + n_types + n_m + n_l + n_st + n_dd, distinct_nontrivial=len(NAMES) * len(FORMS) + n_types + n_m + n_l + n_st + n_dd,
              calls=n_calls, documentation=n_docs, types=n_types, methods=n_m, literals=n_l, namespaces=n_ns, base_units=n_st, dimensions=n_dim, exhaustive=True,
              rule="every catalogue spelling in every form of quantity!, unit! and value!, alone and in compounds; the text against the reference, every type pointed to against the type of the quantity made; "
                   "every documented declarator method against the value and type it makes; every literal against the call it expands to; base units of every prefix (thorough: of every dimension and prefix); "
                   "every dimension name and symbol and pairs of them; non-trivial = the documentation of a name in a form, a type, method or literal")


if __name__ == "__main__":
    main(run, "C21", "exploration")
