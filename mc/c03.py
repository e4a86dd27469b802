"""C03: every way of declaring a quantity in a unit gives the same type and the same stored number."""
import json
import math
from fractions import Fraction as F
import ref
from lib import *

IRREGULAR = dict(inch="inches", foot="feet", henry="henries", stone="stone", lux="lux", candela="candela", fahrenheit="fahrenheit", rankine="rankine",
                 psi="psi", horsepower="horsepower", torr="torr", bar="bar", celsius="celsius", kelvin="kelvin")
KEYWORDS = {"in", "as"}
V = 3.7
N = 29


def plural(n):
    return IRREGULAR.get(n, n + "s")


def storage(u):
    """Units whose magnitude is a product of powers of 2, 3, 5 and pi have a type of their own."""
    return ref.factor235(u.mag) is not None


def cases():
    """(group, form key, rust expression, storage type, value, atom)"""
    out = []
    atoms = ref.atoms()
    PREF = {p[0]: p for p in ref.PREFIXES}
    for sp, a in atoms.items():
        u = a[4]
        if u.name == "lumen":
            continue
        st, aff = storage(u), u.offset is not None
        g = sp
        sym = sp in ref.BY_SYM or any(sp == p + s for p in PREF for s in u.symbols) if u.prefixable else sp in ref.BY_SYM
        typed = ["f64", "f32", "i32", "i64", "u32", "u64"] if not u.prefixable or a[5] == 0 else ["f64", "i32"]
        out.append((g, "quantity!", f"quantity!({V}, {sp})", "f64", V, a))
        for t in typed:
            v = V if t[0] == "f" else N
            out.append((g, f"quantity!,{t}", f"quantity!({v}, {sp}, {t})", t, v, a))
        if st and not aff:
            out.append((g, "unit!", f"<unit!({sp})>::new({V})", "f64", V, a))
            for t in typed[1:]:
                v = V if t[0] == "f" else N
                out.append((g, f"unit!,{t}", f"<unit!({sp}, {t})>::new({v})", t, v, a))
        # literals exist for symbols (with their primary prefix symbol) and for names of non-storage and affine units
        lit = (sym or sp == u.name and (not st or aff)) and sp not in KEYWORDS and not (a[5] == -6 and sp[0] == "u")
        if lit:
            for t in ["f64", "f32"] if a[5] == 0 else ["f64"]:
                out.append((g, f"literal {t}", f"lit::float::{sp}_{t}!({V})", t, V, a))
            for t in ["i32", "i64", "u32", "u64"] if a[5] == 0 else ["i32"]:
                out.append((g, f"literal {t}", f"lit::integer::{sp}_{t}!({N})", t, N, a))
            out.append((g, "literal float", f"lit::float::{sp}!({V})", "f64", V, a))
            out.append((g, "literal int", f"lit::integer::{sp}!({N})", "i32", N, a))
            if sp[0] in "eE":
                continue  # `3eV` is not a Rust token: e starts an exponent
            out.append((g, "culit float", f"CULIT {V}{sp}", "f64", V, a))
            out.append((g, "culit int", f"CULIT {N}{sp}", "i32", N, a))
            out.append((g, "culit i64", f"CULIT {N}{sp}_i64", "i64", N, a))
    # methods and type aliases, by unit name; metric storage units take every prefix
    for u in ref.UNITS:
        if u.name == "lumen":
            continue
        st, aff = storage(u), u.offset is not None
        forms = [("", 0)]
        if st and not aff and u.system == "metric":
            forms += [(p[2], p[3]) for p in ref.PREFIXES]
        for pn, p10 in forms:
            name = pn + u.name
            a = (u.d, u.mag * F(10) ** p10, u.pi, u.offset, u, p10)
            meth = pn + plural(u.name)
            out.append((name, "method f64", f"({V}f64).{meth}()", "f64", V, a))
            if aff and st:
                # integers are lifted to f64 by the affine storage declarators
                out.append((name, "method i32", f"({N}i32).{meth}()", "f64", N, a))
            else:
                out.append((name, "method i32", f"({N}i32).{meth}()", "i32", N, a))
                if not st:
                    out.append((name, "method i64", f"({N}i64).{meth}()", "i64", N, a))
            if st and u.system == "metric":
                al = name[0].upper() + name[1:]
                if aff:
                    continue
                out.append((name, "alias", f"<{al}>::new({V})", "f64", V, a))
                out.append((name, "alias i32", f"<{al}<i32>>::new({N})", "i32", N, a))
    return out


def run(ck):
    cs = cases()
    ck.log("forms", len(cs))
    c = Crate("c03", deps=("whippyunits", 'culit = "0.6.0"'))
    NB = 16
    progs = {}
    hdr = PROBE_SRC + """
#[allow(unused_imports)] use whippyunits::{quantity, unit};
#[allow(unused_imports)] use whippyunits::default_declarators::*;
#[allow(unused_imports)] use whippyunits::default_declarators::literals as lit;
"""
    for b in range(NB):
        mine = list(enumerate(cs))[b::NB]
        blocks = [mine[j:j + 80] for j in range(0, len(mine), 80)]
        p = CaseProgram(hdr + "fn main() {" + " ".join(f"f{j}(); g{j}();" for j in range(len(blocks))) + "}")
        for j, bl in enumerate(blocks):
            p.raw(f"fn f{j}() {{")
            for k, x in bl:
                if not x[2].startswith("CULIT"):
                    p.case(str(k), f'showq("{k}", {x[2]});')
            p.raw(f"}}\n#[culit::culit(whippyunits::default_declarators::literals)]\nfn g{j}() {{")
            for k, x in bl:
                if x[2].startswith("CULIT"):
                    p.case(str(k), f'showq("{k}", {x[2][6:]});')
            p.raw("}")
        progs[f"b{b}"] = p
        c.bin(f"b{b}", p.src())
    ok, diags = c.build(timeout=850)
    if not ok:
        by, un = attribute(diags, progs)
        if not by:
            raise MachineryError("".join(d["rendered"] for d in un[:3]) + c.stderr[-1500:])
        for k, m in by.items():
            g, form, e, t, v, a = cs[int(k)]
            ck.violation(f"{g}:{form}", f"`{e}` does not compile: {m[:1]}")
    ck.log("built")
    got = {}
    for b in progs:
        if b not in c.exes:
            continue
        p = c.run(b)
        if p.returncode:
            raise MachineryError(p.stderr.decode()[-800:])
        for line in p.stdout.decode().splitlines():
            k, s, d, v, br = line.split("\t")
            got[int(k)] = (json.loads(s), json.loads(d), v, br)
    ev = 0
    groups = {}
    for k, (s, d, v, br) in got.items():
        g, form, e, t, val, a = cs[k]
        ev += 1
        dm, mag, pi, off, u, p10 = a
        key = f"{g}:{form}"
        if v[0] == "d":
            gt, x = "f64", bits_f64(int(v[1:], 16))
        elif v[0] == "s":
            gt, x = "f32", bits_f32(int(v[1:], 16))
        else:
            gt, x = v.split(":"); x = int(x)
        if gt != t or br != "()":
            ck.violation(key, f"`{e}` is stored as {gt} (brand {br}) instead of {t}")
            continue
        if tuple(d) != dm or s[3] != pi:
            ck.violation(key, f"`{e}` has dimension {d} and pi exponent {s[3]} instead of {dm}, {pi}")
            continue
        sc = ref.scale_value(s)[0]
        vv = F(val) if t != "f32" else F(struct.unpack("<f", struct.pack("<f", val))[0])
        want = (vv * mag + (off or 0)) / sc  # what the stored number should be
        st = storage(u) and off is None
        if t in ("f64", "f32"):
            tol = max(u.rel_tol, F(1, 2 ** (50 if t == "f64" else 22)))
            bad = F(x) != want if st else abs(F(x) - want) > tol * abs(want) * (4 if off is not None else 1)
        else:
            # an integer keeps the whole part (where the factor is not exact, within its accuracy)
            e_ = abs(want) * max(u.rel_tol, F(1, 2 ** 50)) * (4 if off is not None else 1)
            bad = x != want if st else not math.trunc(want - e_) <= x <= math.trunc(want + e_)
        if bad:
            ck.violation(key, f"`{e}` stores {x!r} at scale {s} instead of {float(want)!r}")
        groups.setdefault((g, t, val), {}).setdefault((tuple(s), tuple(d), v), []).append(form)
    for (g, t, val), m in groups.items():
        if len(m) > 1:
            ck.violation(f"{g}:{t}:forms", f"declaration forms of {val} {g} as {t} disagree: " + "; ".join(f"{f} -> {k[2]} scale {k[0]}" for k, f in m.items()))
    for i in (3, 900, 5000, 7000):
        ck.sample(dict(zip(("unit", "form", "expression"), cs[i % len(cs)][:3])))
    ck.assumptions.append("lumen is left out (known finding of C01); literals exist for symbols with primary prefix symbols (not the ASCII u for micro) and not for the keywords in, as; an i32 receiver of .celsius() is lifted to f64 by design")
    ck.finish(evaluations=ev, distinct_nontrivial=len(groups), exhaustive=True, forms=len(cs),
              rule="every catalogue spelling in every declaration form that exists for it (quantity! with 7 storage types, unit!, literal macros and culit literals with every suffix, declarator methods for every prefix, type aliases); "
                   "distinct = (unit, storage type, value) groups compared")


if __name__ == "__main__":
    main(run, "C03", "exploration")
