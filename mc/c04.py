"""C04: an operation between quantities compiles exactly when dimension, scale, storage
type and brand allow it."""
import itertools, json
import ref
from lib import *
from c06 import ty

ALLT = ["f64", "f32", "i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"]
SAME = {  # operations that require identical types
    "add": "let _ = {a} + {b};", "sub": "let _ = {a} - {b};", "rem": "let _ = {a} % {b};",
    "add_assign": "let mut x = {a}; x += {b};", "sub_assign": "let mut x = {a}; x -= {b};", "rem_assign": "let mut x = {a}; x %= {b};",
    "lt": "let _ = {a} < {b};", "eq": "let _ = {a} == {b};", "ge": "let _ = {a} >= {b};", "partial_cmp": "let _ = {a}.partial_cmp(&{b});",
    "assign": "let mut _x = {a}; _x = {b};", "annotate": "let _x: {A} = {b};", "return": "let f = || -> {A} {{ {b} }}; f();", "array": "let _ = [{a}, {b}];",
}
MULT = {"mul": "let _ = {a} * {b};", "div": "let _ = {a} / {b};"}
RES = {"rescale": "let _x: {A} = rescale_{tb}({b});"}


def mkty(x):
    s, d, t, br = x
    base = ty(s, d, t)
    return base if br == "()" else base[:-1] + f", {br}>"


def mkval(x):
    return f"<{mkty(x)}>::new({'1.0' if x[2][0] == 'f' else '1'})"


def expect(op, a, b):
    if op in SAME:
        return a == b
    if op in MULT:
        return a[2] == b[2] and a[3] == b[3]
    if op == "rescale":
        return a[1] == b[1] and a[2] == b[2] and a[3] == b[3]


BASES = [((0, 0, 0, 0), (0, 1, 0, 0, 0, 0, 0, 0), "f64", "()"),
         ((3, 0, 3, 0), (1, 2, -2, 0, 0, 0, 0, 0), "f64", "()"),
         ((-2, -2, -1, 1), (0, 0, 0, 0, 0, 0, 0, 1), "i32", "()"),
         ((0, 0, 0, 0), (0,) * 8, "f64", "()"),
         ((-3, 1, 2, -1), (1, -2, 3, -1, 1, 2, -1, 1), "f32", "B1"),
         ((2, 1, 1, 0), (0, 0, -1, 0, 0, 0, 0, 0), "u16", "B2")]


def near(x, thorough):
    """x and everything that differs from it in one component."""
    s, d, t, br = x
    out = [x]
    for i in range(4):
        for e in ((1, -1) if not thorough else (1, -1, 2, -5)):
            v = list(s); v[i] += e
            out.append((tuple(v), d, t, br))
    for i in range(8):
        for e in ((1, -1) if not thorough else (1, -1, 2, -4)):
            v = list(d); v[i] += e
            out.append((s, tuple(v), t, br))
    for i in range(8):  # exponents moved to the neighbouring slot, sign flips
        v = list(d); v[i], v[(i + 1) % 8] = v[(i + 1) % 8], v[i]
        out.append((s, tuple(v), t, br))
        v = list(d); v[i] = -v[i]
        out.append((s, tuple(v), t, br))
    for i in range(4):
        v = list(s); v[i], v[(i + 1) % 4] = v[(i + 1) % 4], v[i]
        out.append((tuple(v), d, t, br))
    out.append((ref.dmul(s, -1), ref.dmul(d, -1), t, br))
    out.append((ref.dmul(s, -1), d, t, br))
    for u in ALLT:
        out.append((s, d, u, br))
    for b in ("()", "B1", "B2"):
        out.append((s, d, t, b))
    res = []
    for o in out:
        if o not in res:
            res.append(o)
    return res


# written with the user-level macros: (unit, identity class)
U = ["m", "km", "mm", "s", "min", "Hz", "rad/s", "rad", "deg", "rad^2", "kg", "g", "N", "kg*m/s^2", "J", "N*m", "W*s", "kg.m2/s2", "Pa", "J/m^3", "V", "W/A", "L", "dm^3", "h", "m/s", "km/h", "K", "mol", "cd", "lx", "C", "A*s",
     "g*km", "kg*m", "Mg", "1", "10^3"]


def unit_value(e, cache={}):
    import exprmodel
    import re
    if not cache:
        for k, a in ref.atoms().items():
            f = ref.factor235(a[1])
            if f is not None:
                cache[k] = (a[0], tuple(f) + (a[2],), ref.F(1))
    toks = re.findall(r"\d+|[^\W\d]+\d*|[*./^()]|-\d+", e)
    return exprmodel.parse(toks, cache)


def run(ck):
    cases = []  # key, op, expect, code
    for x in BASES:
        for y in near(x, ck.thorough):
            for group in (SAME, MULT, RES):
                for op, tpl in group.items():
                    for a, b in ((x, y), (y, x)) if (ck.thorough or op in ("add", "mul", "rescale", "lt")) else ((x, y),):
                        code = tpl.format(a=mkval(a), b=mkval(b), A=mkty(a), tb=b[2])
                        cases.append((f"{op}:{a}:{b}", expect(op, a, b), code))
    # scalars: a quantity combines with a bare number of its own storage type by * / %, never by + -
    for x in BASES:
        for t in ALLT:
            n = ("1.0" if t[0] == "f" else "1") + "_" + t
            for op, ok in (("*", 1), ("/", 1), ("%", 1), ("+", 0), ("-", 0), ("<", 0), ("==", 0)):
                cases.append((f"q{op}n:{x}:{t}", bool(ok) and t == x[2], f"let _ = {mkval(x)} {op} {n};"))
            for op, ok in (("*", 1), ("/", 1), ("+", 0), ("-", 0), ("%", 0)):
                cases.append((f"n{op}q:{x}:{t}", bool(ok) and t == x[2], f"let _ = {n} {op} {mkval(x)};"))
            for op, ok in (("*=", 1), ("/=", 1), ("%=", 1), ("+=", 0), ("-=", 0)):
                cases.append((f"q{op}n:{x}:{t}", bool(ok) and t == x[2], f"let mut x = {mkval(x)}; x {op} {n};"))
            cases.append((f"q=n:{x}:{t}", False, f"let _x: {mkty(x)} = {n};"))
            cases.append((f"n=q:{x}:{t}", False, f"let _x: {t} = {mkval(x)};"))
        # multiplying in place by a quantity would change the type
        for op in ("*=", "/="):
            cases.append((f"q{op}q:{x}", False, f"let mut x = {mkval(x)}; x {op} {mkval(x)};"))
        # negation
        for t in ALLT:
            y = (x[0], x[1], t, x[3])
            cases.append((f"neg:{y}", t[0] != "u", f"let _ = -{mkval(y)};"))
    # value! reads in a unit of the same dimension only; brand and storage type must be named
    q = [((0, 0, 0, 0), (0, 1, 0, 0, 0, 0, 0, 0), "f64", "()"), ((3, 0, 3, 0), (1, 2, -2, 0, 0, 0, 0, 0), "f64", "()"), ((0, 0, 0, 0), (0, 0, -1, 0, 0, 0, 0, 1), "f64", "()"), ((0, 0, 0, 0), (0, 0, 0, 0, 1, 0, 0, 0), "f64", "()")]
    vals = {"m": (0, 1, 0, 0, 0, 0, 0, 0), "km": (0, 1, 0, 0, 0, 0, 0, 0), "ft": (0, 1, 0, 0, 0, 0, 0, 0), "s": (0, 0, 1, 0, 0, 0, 0, 0), "J": (1, 2, -2, 0, 0, 0, 0, 0), "kcal" if False else "eV": (1, 2, -2, 0, 0, 0, 0, 0),
            "Hz": (0, 0, -1, 0, 0, 0, 0, 0), "rad/s": (0, 0, -1, 0, 0, 0, 0, 1), "deg/min": (0, 0, -1, 0, 0, 0, 0, 1), "K": (0, 0, 0, 0, 1, 0, 0, 0), "degC": (0, 0, 0, 0, 1, 0, 0, 0), "degF": (0, 0, 0, 0, 1, 0, 0, 0), "N*m": (1, 2, -2, 0, 0, 0, 0, 0), "m^2": (0, 2, 0, 0, 0, 0, 0, 0), "1": (0,) * 8, "rad": (0, 0, 0, 0, 0, 0, 0, 1)}
    for x in q:
        for u, d in vals.items():
            cases.append((f"value!:{x}:{u}", x[1] == d, f"let _: f64 = value!({mkval(x)}, {u});"))
            cases.append((f"value! f32:{x}:{u}", False, f"let _: f32 = value!({mkval(x)}, {u}, f32);"))
            if u not in ("eV", "ft", "degC", "degF"):
                cases.append((f"rescale!:{x}:{u}", x[1] == d, f"let _ = rescale!({mkval(x)}, {u});"))
                cases.append((f"rescale! i32:{x}:{u}", False, f"let _ = rescale!({mkval(x)}, {u}, i32);"))
        xb = x[:3] + ("B1",)
        cases.append((f"value! brand:{x}", False, f"let _: f64 = value!({mkval(xb)}, m);"))
    xb = q[0][:3] + ("B1",)
    cases.append(("value! brand ok", True, f"let _: f64 = value!({mkval(xb)}, km, f64, B1);"))
    cases.append(("value! other brand", False, f"let _: f64 = value!({mkval(xb)}, km, f64, B2);"))
    cases.append(("unbranded add", False, f"let _ = {mkval(xb)} + quantity!(1.0, m);"))
    cases.append(("branded quantity!", True, f"let _ = {mkval(xb)} + quantity!(1.0, m, f64, B1);"))
    # the same physical unit is the same type however it is spelled; different ones never mix
    uv = {u: unit_value(u) for u in U}
    for a, b in itertools.product(U, repeat=2):
        same = uv[a][:2] == uv[b][:2]
        sd = uv[a][0] == uv[b][0]
        cases.append((f"unit add:{a}|{b}", same, f"let _ = quantity!(1.0, {a}) + quantity!(1.0, {b});"))
        cases.append((f"unit annotate:{a}|{b}", same, f"let _x: unit!({a}) = quantity!(1.0, {b});"))
        cases.append((f"unit cmp:{a}|{b}", same, f"let _ = quantity!(1.0, {a}) <= quantity!(1.0, {b});"))
        cases.append((f"unit rescale:{a}|{b}", sd, f"let _x: unit!({a}) = rescale(quantity!(1.0, {b}));"))
    # an ambiguous target is refused
    cases.append(("rescale ambiguous", False, "let _ = rescale(quantity!(1.0, m));"))
    cases.append(("both rescaled", False, "let _ = rescale(quantity!(1.0, m)) + rescale(quantity!(1.0, mm));"))
    # parameters left out stand for zero exponents, f64 and no brand
    sc, dm = ["_2", "_3", "_5", "_Pi"], ["_M", "_L", "_T", "_I", "_\u0398", "_N", "_J", "_A"]
    for n in range(5):
        for j in range(9):
            for e in (1, -2):
                s, d = [0] * 4, [0] * 8
                if n:
                    s[n - 1] = e
                if j:
                    d[j - 1] = e
                for full in (False, True):
                    # the trailing zeros are left out, or every zero is written without its exponent
                    S = "Scale" + ("<" + ", ".join(x + (f"<{v}>" if v else "") for x, v in zip(sc, s[:4 if full else n])) + ">" if n or full else "")
                    D = "Dimension" + ("<" + ", ".join(x + (f"<{v}>" if v else "") for x, v in zip(dm, d[:8 if full else j])) + ">" if j or full else "")
                    whole = mkval((tuple(s), tuple(d), "f64", "()"))
                    cases.append((f"left out:{S}:{D}", True, f"let _: Quantity<{S}, {D}> = {whole};"))
                    cases.append((f"left out other:{S}:{D}", False, f"let _: Quantity<{S}, {D}> = {mkval((tuple(s), tuple(d), 'f32', '()'))};"))
                    d2 = list(d); d2[(j + n) % 8] += 1
                    cases.append((f"left out dim:{S}:{D}", False, f"let _: Quantity<{S}, {D}> = {mkval((tuple(s), tuple(d2), 'f64', '()'))};"))
                    cases.append((f"left out T:{S}:{D}", True, f"let _: Quantity<{S}, {D}, i32> = {mkval((tuple(s), tuple(d), 'i32', '()'))};"))
    keys = {}
    for i, (k, e, code) in enumerate(cases):
        keys[i] = (k, e, code)
    c = Crate("c04")
    NB = 16
    progs = {}
    for b in range(NB):
        p = CaseProgram("#![allow(unused)]\nuse whippyunits::quantity::*;\nuse whippyunits::api::*;\nuse whippyunits::{quantity, unit, value, rescale};\n"
                        "#[derive(Clone, PartialEq)] pub struct B1;\n#[derive(Clone, PartialEq)] pub struct B2;\nfn main() {}")
        for i in range(b, len(cases), NB):
            p.case(i, f"fn c{i}() {{ {cases[i][2]} }}")
        progs[f"m{b}"] = p
        c.bin(f"m{b}", p.src())
    ok, diags = c.build(check_only=True)
    by, un = attribute(diags, progs)
    un = [d for d in un if d["bin"] in progs]
    if un and not by or not diags and any(not e for _, e, _ in cases):
        if un:
            raise MachineryError(un[0]["rendered"])
    libfail = [d for d in diags if d["bin"] not in progs]
    if libfail:
        raise MachineryError(libfail[0]["rendered"])
    acc = 0
    for i, (k, e, code) in keys.items():
        acc += e
        if e and i in by:
            ck.violation(k, f"refused although the types agree: `{code}`: {by[i][:1]}")
        if not e and i not in by:
            ck.violation(k, f"accepted although the types differ: `{code}`")
    ck.sample(cases[100][2]); ck.sample(cases[-5][2])
    ck.finish(evaluations=len(cases), distinct_nontrivial=len(cases), must_compile=acc, must_be_refused=len(cases) - acc, exhaustive=True,
              rule="six base types x every type differing in one component (each of the 12 exponents +-1, sign flips, swapped neighbours, each storage type, each brand) x every operator, assignment, "
                   "annotation, comparison and rescale; scalars of all storage types; type parameters left out; all pairs of %d unit spellings. The compiler is the judge; each case is its own function" % len(U))


if __name__ == "__main__":
    main(run, "C04", "exploration")
