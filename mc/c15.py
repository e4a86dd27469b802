"""C15: local namespaces (define_unit_declarators!) store every quantity in the chosen base units."""
import json, math, re, struct
from fractions import Fraction as F
import ref
from c09 import magnitude
from c03 import plural, storage
from lib import *

BASES = ["gram", "meter", "second", "ampere", "kelvin", "mole", "candela", "radian"]
PRE = [("", "", 0)] + [(p[2], p[0], p[3]) for p in ref.PREFIXES]  # name, symbol, power
SI = ["g", "m", "s", "A", "K", "mol", "cd", "rad"]
ONE = F(1)


def e10(n):
    return (n, 0, n, 0)


def basis(i, k):
    """(scale name, exponents relative to the coherent scale kg, m, s ...)"""
    n, _, p = PRE[k % 25]
    s = n + BASES[i]
    return s[0].upper() + s[1:], e10(p - (3 if i == 0 else 0))


SPECIAL = {"Minute": (2, 1, 1, 0), "Hour": (4, 2, 2, 0), "Day": (7, 3, 2, 0), "Degree": (-2, -2, -1, 1), "Turn": (1, 0, 0, 1), "Gradian": (-3, 0, -2, 1)}


def namespaces():
    """name -> (brand or None, [8 scale names] or None, [8 exponent tuples])"""
    out = {}
    for k in range(25):  # latin square: every dimension meets every prefix
        bs = [basis(i, k + 3 * i) for i in range(8)]
        out[f"l{k}"] = (None, [b[0] for b in bs], [b[1] for b in bs])
    si = [basis(0, 0)] + [basis(i, 0) for i in range(1, 8)]
    kilo = next(j for j, p in enumerate(PRE) if p[0] == "kilo")
    centi = next(j for j, p in enumerate(PRE) if p[0] == "centi")
    si[0] = basis(0, kilo)

    def mk(brand, **ch):
        b = list(si)
        for k, v in ch.items():
            b[int(k[1])] = v if isinstance(v, tuple) else (v, SPECIAL[v])
        return (brand, [x[0] for x in b], [x[1] for x in b])
    out["si"] = mk(None)
    out["mn"] = mk(None, d2="Minute", d7="Degree", d1=basis(1, centi))
    out["hr"] = mk("BrandA", d2="Hour", d7="Turn", d0=basis(0, 0))
    out["dy"] = mk(None, d2="Day", d7="Gradian", d1=basis(1, kilo))
    out["br"] = mk("BrandB", d1=basis(1, kilo), d0=basis(0, centi), d3=basis(3, centi))
    out["bo"] = ("BrandC", None, None)
    if CONFIG:
        out = {k: out[k] for k in ("l3", "l17", "mn", "br", "bo")}
    return out


COMPOUNDS = ["m/s", "kg*m^2/s^2", "km/h", "rad/s", "deg/min", "ft*lb", "J/mol", "N*m^2/kg^2", "W/m^2", "m^-3", "mi/h", "cd/m^2", "C/kg", "V*A", "m^2/K", "g/cm^3", "kW*h", "rad^2/s^3", "K*mol/A", "min^2*ms", "1/s", "L/d", "eV*s", "psi*inch^2", "rot/min"]
# every base dimension with exponents of both signs, alone and among others
COMPOUNDS += [f"1/{x}" for x in SI] + [f"{x}^-2" for x in SI] + [f"{x}^3" for x in SI] + [f"{x}^2/{y}^3" for x, y in zip(SI, SI[3:] + SI[:3])]
IV = {"i32": 29000, "i64": 29000000000, "isize": 29000000000, "usize": 29000000000, "i8": 100, "i16": 29000, "i128": 29000000000, "u8": 200, "u16": 58000, "u32": 2900000000, "u64": 29000000000, "u128": 29000000000}


def lscale(bs, dims):
    return tuple(sum(dims[i] * bs[i][j] for i in range(8)) for j in range(4))


KW = {"in", "as"}  # Rust keywords, tried on their own


def cases(thorough):
    """(ns, form, expression, storage, value, unit)"""
    out = []
    spell = [(s, a) for s, a in ref.atoms().items() if a[4].name != "lumen"]
    plain = [s for s, a in spell if a[5] == 0 and s not in KW]
    pref = [s for s, a in spell if a[5] != 0 and s not in KW]
    for n, (ns, (brand, names, bs)) in enumerate(namespaces().items()):
        us = plain + COMPOUNDS
        us = us + (pref if thorough else pref[n::31])
        for j, u in enumerate(us):
            v = [2.5, -7.25, 1234.5][(j + n) % 3]
            out.append((ns, "quantity!", f"quantity!({v}, {u})", "f64", v, u))
            st = stored(u)
            forms = ["f64", "f32"] + (list(IV) if st else [])
            # one further storage type each in the quick tier
            for t in (forms if thorough or n >= 25 else [forms[(j + n) % len(forms)]]):
                w = v if t[0] == "f" else IV[t]
                out.append((ns, "quantity!", f"quantity!({w}, {u}, {t})", t, w, u))
        for i in range(8):
            for k, (pn, ps, p) in enumerate(PRE if bs else PRE[:1]):
                name = pn + BASES[i]
                u = ps + SI[i]
                out.append((ns, "method", f"({2.5 + i}f64).{pn + plural(BASES[i])}()", "f64", 2.5 + i, u))
                if thorough or (n + k + i) % 5 == 0:
                    for t in ("i32", "i64"):
                        out.append((ns, "method", f"({IV[t]}{t}).{pn + plural(BASES[i])}()", t, IV[t], u))
        for j, u in enumerate(plain + pref):
            if u[0] in "eE" or u not in SYMS or (_AT[u][5] == -6 and u[0] == "u"):
                continue
            if thorough or (j + n) % 12 == 0:
                out.append((ns, "literal", f"CULIT 2.5{u}", "f64", 2.5, u))
                st = stored(u)
                for suf, t in (("f64", "f64"), ("f32", "f32"), ("i32", "i32"), ("i64", "i64"), ("u32", "u32"), ("u64", "u64")):
                    if t[0] != "f" and not st:
                        continue
                    w = 2.5 if t[0] == "f" else IV[t]
                    out.append((ns, "literal", f"CULIT {w}{u}_{suf}", t, w, u))
                if st:
                    out.append((ns, "literal", f"CULIT {IV['i32']}{u}", "i32", IV["i32"], u))
    return out


def symset():
    s = set()
    for sp, a in ref.atoms(symbols_only=True).items():
        u = a[4]
        if a[5] == 0:
            if sp == u.symbols[0]:
                s.add(sp)
        elif any(sp == p[0] + x for p in ref.PREFIXES for x in u.symbols[:1]):
            s.add(sp)
    return s


SYMS = symset()
_ST = {}


def stored(u):
    """every unit of the expression has an exact type of its own (no affine, no nearest power of ten)"""
    if u not in _ST:
        ok = True
        for x in re.findall(r"[^\W\d]\w*", u):
            a = ref.atoms()[x] if x not in _AT else _AT[x]
            ok &= storage(a[4]) and a[4].offset is None
        _ST[u] = ok
    return _ST[u]


_AT = ref.atoms()


def trunc(x):
    return abs(x).__floor__() * (1 if x >= 0 else -1)


def judge(case, bs, brand, s, d, v, br):
    ns, form, e, t, val, u = case
    dm, mag, off, rtol = magnitude(u)
    wb = f"::{ns}::{brand}" if brand else "()"
    if (br != "()") if not brand else not br.endswith(wb):
        return f"has brand {br} instead of {wb}"
    if tuple(d) != dm:
        return f"has dimension {d} instead of {list(dm)}"
    if bs is None:
        own = None
    else:
        own = lscale(bs, dm)
        if tuple(s) != own:
            return f"is stored at scale {s} instead of the local base units' {list(own)}"
    if v[0] in "ds":
        gt, x = ("f64", bits_f64(int(v[1:], 16))) if v[0] == "d" else ("f32", bits_f32(int(v[1:], 16)))
    else:
        gt, x = v.split(":"); x = int(x)
    if gt != t:
        return f"is stored as {gt} instead of {t}"
    q, p = ref.scale_value(s)
    if t[0] == "f":
        sv = q * ref.PI ** p
        want = F(val) * mag / sv
        full = want + off / sv
        big = max(abs(want), abs(off / sv))
        lim = F(10) ** (280 if t == "f64" else 25)
        if not (1 / lim < abs(mag / sv) < lim):
            return "SKIP"
        tol = max(rtol, F(1, 2 ** (46 if t == "f64" else 19)))
        if math.isnan(x) or math.isinf(x) or abs(F(x) - full) > tol * big:
            return f"stores {x!r} instead of {float(full)!r}"
        return None
    want = trunc(exact_int(u, val, s))
    if x != want:
        return f"stores {x} instead of {want}"
    return None


def exact_int(u, val, s):
    """with pi as the documented 355/113"""
    dm, mag, off, _ = magnitude(u)
    # pi exponent of the unit: read off the magnitude by dividing exact factors away
    for k in range(-6, 7):
        r = mag / ref.PI ** k
        r = r.limit_denominator(10 ** 60)
        if ref.factor235(r) is not None:
            break
    else:
        raise MachineryError(u)
    q, p = ref.scale_value(s)
    return F(val) * r / q * F(355, 113) ** (k - p)


def representable(u, s):
    """the ratio's numerator and denominator (without common factors) fit i128, as in C07"""
    r = exact_int(u, 1, s)
    return max(r.numerator, r.denominator) < 2 ** 127


RANGE = {"i8": 7, "i16": 15, "i32": 31, "i64": 63, "i128": 127, "isize": 63, "u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64}


def fits(t, w):
    b = RANGE[t]
    return 0 <= w < 2 ** b if t[0] == "u" else -2 ** b <= w < 2 ** b


BAD = [("Foo", 1), ("Metre", 1), ("Newton", 0), ("Inch", 1), ("Pound", 0), ("meter", 1), ("Kilo", 1), ("Kilokilogram", 0), ("Milliday", 2), ("", 1)]


def run(ck):
    NS = namespaces()
    cs = cases(ck.thorough)
    ck.log("cases", len(cs))
    c = Crate("c15", deps=("whippyunits", 'culit = "0.6.0"'))
    progs = {}
    for ns, (brand, names, bs) in NS.items():
        args = ", ".join(([brand] if brand else []) + (names or []))
        for part in range(3 if ck.thorough else 1):
            mine = [(i, x) for i, x in enumerate(cs) if x[0] == ns]
            if ck.thorough:
                mine = mine[part::3]
            blocks = [mine[j:j + 60] for j in range(0, len(mine), 60)]
            p = CaseProgram("#![allow(unused)]\n" + PROBE_SRC + f"use whippyunits::define_unit_declarators;\nfn main() {{ quiet(); " + " ".join(f"f{j}(); g{j}();" for j in range(len(blocks))) + "}")
            p.case(("decl", ns), f"define_unit_declarators!({ns}, {args});")
            for j, bl in enumerate(blocks):
                p.raw(f"fn f{j}() {{ #[allow(unused_imports)] use {ns}::*;")
                for k, x in bl:
                    if not x[2].startswith("CULIT"):
                        body = f'showq("{k}", {x[2]});'
                        p.case(k, body if x[3][0] == "f" else f'guard("{k}", || {{ {body} }});')
                p.raw(f"}}\n#[culit::culit({ns}::literals)]\nfn g{j}() {{")
                for k, x in bl:
                    if x[2].startswith("CULIT"):
                        body = f'showq("{k}", {x[2][6:]});'
                        p.case(k, body if x[3][0] == "f" else f'guard("{k}", || {{ {body} }});')
                p.raw("}")
            progs[f"{ns}_{part}"] = p
            c.bin(f"{ns}_{part}", p.src())
    ok, diags = c.build(timeout=880)
    if not ok:
        by, un = attribute(diags, progs)
        if not by:
            raise MachineryError("".join(d["rendered"] for d in un[:3]) + c.stderr[-1500:])
        for k, m in by.items():
            if isinstance(k, tuple):
                ck.violation(f"namespace:{k[1]}", f"define_unit_declarators!({k[1]}, {NS[k[1]]}) does not compile: {m[:1]}")
            else:
                ck.violation(f"{cs[k][0]}:{cs[k][2]}", f"`{cs[k][2]}` in namespace {NS[cs[k][0]][1]} does not compile: {m[:1]}")
    ck.log("built")
    got = {}
    for b in progs:
        if b not in c.exes:
            continue
        p = c.run(b)
        if p.returncode:
            raise MachineryError(p.stderr.decode()[-800:])
        for line in p.stdout.decode().splitlines():
            f = line.split("\t")
            got[int(f[0])] = f[1:]
    ev = sk = pan = nt = 0
    for k, g in got.items():
        x = cs[k]
        ns, form, e, t, val, u = x
        brand, names, bs = NS[ns]
        ev += 1
        if g[0] == "PANIC":
            dm = magnitude(u)[0]
            s = lscale(bs, dm) if bs else None
            # the declared quantity itself always fits; the rescaled number must not
            if s is not None and not representable(u, s):
                sk += 1
            elif s is None or fits(t, trunc(exact_int(u, val, s))):
                ck.violation(f"{ns}:{e}", f"`{e}` in namespace {names} panics ({g[1]}) although the result fits")
            pan += 1
            continue
        m = judge(x, bs, brand, json.loads(g[0]), json.loads(g[1]), g[2], g[3])
        if m == "SKIP":
            sk += 1
        elif m:
            ck.violation(f"{ns}:{e}", f"`{e}` in namespace {names or 'brand only'} {m}")
        else:
            nt += 1
    if ok and len(got) != len(cs):
        raise MachineryError(f"{len(cs) - len(got)} cases gave no answer")
    # scale names that are not storage units of a base dimension
    c2 = Crate("c15bad")
    p = CaseProgram("use whippyunits::define_unit_declarators;\nfn main() {}")
    for j, (b, i) in enumerate(BAD):
        names = list(NS["si"][1]); names[i] = b
        if not b:
            names = names[:-1]
        p.case(b, f"define_unit_declarators!(n{j}, {', '.join(x for x in names if x)});")
    c2.bin("bad", p.src())
    ok2, diags = c2.build(check_only=True)
    by, un = attribute(diags, {"bad": p})
    for b, i in BAD:
        ev += 1
        if b not in by:
            ck.violation(f"bad:{b}", f"define_unit_declarators! accepts {b or 'seven base units'} as a base unit")
    # the spellings that are Rust keywords
    c3 = Crate("c15kw")
    p = CaseProgram(PROBE_SRC + f"whippyunits::define_unit_declarators!(si, {', '.join(NS['si'][1])});\nfn main() {{ k0(); k1(); }}")
    kws = [("in", F(254, 10000)), ("as", F(1, 10 ** 18))]
    for j, (k, m) in enumerate(kws):
        p.case(k, f'fn k{j}() {{ use si::*; showq("{k}", quantity!(2.0, {k})); }}')
    c3.bin("kw", p.src())
    ok3, diags = c3.build()
    by, un = attribute(diags, {"kw": p})
    if not ok3 and not by:
        raise MachineryError(c3.stderr[-1500:])
    for k in by:
        ck.violation(f"keyword:{k}", f"quantity!(2.0, {k}) in a local namespace does not compile: {by[k][:1]}")
    if ok3:
        for l in c3.run("kw").stdout.decode().splitlines():
            k, s, d, v, b = l.split("\t")
            ix = (1 if k == "in" else 2)
            if json.loads(s) != [0] * 4 or json.loads(d)[ix] != 1 or not abs(F(bits_f64(int(v[1:], 16))) / (2 * dict(kws)[k]) - 1) < F(1, 2 ** 46):
                ck.violation(f"keyword:{k}", f"quantity!(2.0, {k}) in a local namespace gives {l}")
    ev += 2
    for i in (0, 2000, 5000):
        ck.sample(dict(zip(("namespace", "form", "expression"), cs[i % len(cs)])))
    ck.assumptions.append("pi in integer rescaling is the documented 355/113; lumen is left out (known finding of C01); numbers whose rescaling factor is outside 1e+-280 (1e+-25 for f32) are not judged")
    ck.finish(evaluations=ev, distinct_nontrivial=nt, exhaustive=True, namespaces=len(NS), panics_on_overflow=pan, outside_range=sk,
              rule="31 namespaces (a Latin square in which every base dimension meets every SI prefix, time and angle in minute/hour/day and degree/turn/gradian, branded, brand-only) times every unprefixed catalogue spelling, "
                   "25 compounds, prefixed spellings (all of them in the thorough tier), every declarator method and culit literals; non-trivial = judged to be stored in the local base unit")


if __name__ == "__main__":
    main(run, "C15", "exploration")
