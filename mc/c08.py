"""C08: a number put in with quantity! (or a literal or method) and taken out with value! is
converted by the exact ratio of the two units, and by their zero points for temperature scales."""
import itertools, json
from fractions import Fraction as F
import ref
from lib import *

LUMEN = "lumen"
FV = "2.75"
INTS = ["i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"]


def storage(a):
    return ref.factor235(a[1]) is not None and a[3] is None


def units():
    """primary spelling of every unit with every prefix, by dimension"""
    by = {}
    at = ref.atoms()
    for u in ref.UNITS:
        if u.name == LUMEN:
            continue
        for sp in [u.symbols[0]] + ([p[0] + u.symbols[0] for p in ref.PREFIXES] if u.prefixable else []):
            a = at[sp]
            if a[4] is u:
                by.setdefault(u.d, []).append((sp, a))
    return by


def conv(v, a, b):
    """exact value of v a, expressed in b"""
    si = F(v) * ref.tofrac(a[1], a[2]) + (a[3] or 0)
    return (si - (b[3] or 0)) / ref.tofrac(b[1], b[2])


def run(ck):
    by = units()
    cs = []  # key, expr, kind, want, tol(abs)

    def add(key, expr, want, tol, t="f64"):
        cs.append((key, expr, t, want, tol))

    def ftol(v, a, b, eps):
        w = conv(v, a, b)
        mag = max(abs(w), abs((a[3] or 0) / ref.tofrac(b[1], b[2])), abs((b[3] or 0) / ref.tofrac(b[1], b[2])))
        return mag * max(eps, F(4) * (a[4].rel_tol if a[4] else 0), F(4) * (b[4].rel_tol if b[4] else 0)) * 8

    E64, E32 = F(1, 2 ** 52), F(1, 2 ** 23)
    for d, us in by.items():
        for (x, a), (y, b) in itertools.product(us, repeat=2):
            r = conv(1, (a[0], a[1], a[2], None, a[4], a[5]), (b[0], b[1], b[2], None, b[4], b[5]))
            add(f"{x}->{y}", f"value!(quantity!({FV}, {x}), {y})", conv(FV, a, b), ftol(FV, a, b, E64))
            if F(1, 10 ** 25) < r < F(10) ** 25 and (a[5] == b[5] == 0 or ck.thorough):
                add(f"{x}->{y}:f32", f"value!(quantity!({FV}, {x}, f32), {y}, f32)", conv(FV, a, b), ftol(FV, a, b, E32), "f32")
            if a[5] == b[5] == 0 or ck.thorough:
                add(f"{x}->{y}:neg", f"value!(quantity!(-40.0, {x}), {y})", conv(-40, a, b), ftol(-40, a, b, E64))
                add(f"{x}->{y}:brand", f"value!(quantity!({FV}, {x}, f64, B1), {y}, f64, B1)", conv(FV, a, b), ftol(FV, a, b, E64))
            # integers: each storage step may truncate once
            if F(1, 10 ** 4) < r < F(10) ** 4 and a[5] in (-3, 0, 3) and b[5] in (-3, 0, 3):
                for t in ("i32", "i64") if not ck.thorough else ("i32", "i64", "i128", "u32", "u64", "isize"):
                    for n in (57, 1200) + ((-57,) if t[0] == "i" else ()):
                        w = conv(n, a, b)
                        if t[0] == "u" and (w < 0 or F(n) * a[1] + (a[3] or 0) < 0):
                            continue
                        # scale of a's storage is within a factor 10 of a itself; truncations: into a's storage, into b's storage, into b
                        st = storage(a), storage(b)
                        tol = F(0)
                        if not st[0]:
                            tol += r * F(10)
                        if not st[1]:
                            tol += F(10) if b[3] is None and a[3] is None else 10
                        if a[2] != b[2]:  # pi is 355/113 in integer arithmetic
                            tol += abs(w) * F(1, 10 ** 7) + 1
                        exact = st == (True, True) and a[2] == b[2]
                        add(f"{x}->{y}:{t}:{n}", f"value!(quantity!({n}, {x}, {t}), {y}, {t})", w, (tol + 1) if not exact else None, t)
    # same unit in and out, every storage type
    for d, us in by.items():
        for x, a in us:
            if a[5]:
                continue
            for t in INTS:
                if storage(a):
                    add(f"{x}={x}:{t}", f"value!(quantity!(57, {x}, {t}), {x}, {t})", F(57), None, t)
        # powers of a single unit, written with implicit and explicit exponents
        for x, a in us:
            if a[5] not in (0, 3) or a[3] is not None or not x.isalpha():
                continue
            for n in (2, 3, -1, -2):
                w = F(FV)
                tol = abs(w) * E64 * 64
                sps = [f"{x}^{n}", f"({x})^{n}"] + ([f"{x}{n}"] if n > 0 else [f"1/{x}{-n}"])
                si = f"{x}^{n}"
                for s in sps[::2]:
                    add(f"{s}->{si}", f"value!(quantity!({FV}, {s}), {si})", w, tol)
                    add(f"{si}->{s}", f"value!(quantity!({FV}, {si}), {s})", w, tol)
                    base = "*".join(f"{ref.BASE_SYM[i]}^{e * n}" for i, e in enumerate(d) if e) or "1"
                    r = ref.tofrac(a[1], a[2]) ** n
                    if F(1, 10 ** 60) < r < F(10) ** 60:
                        add(f"{s}->SI", f"value!(quantity!({FV}, {s}), {base})", w * r, abs(w * r) * max(E64 * 64, 8 * a[4].rel_tol))
    # compound units with non-storage parts
    def atom(s):
        return ref.atoms()[s]
    L = ["m", "ft", "mi", "nmi", "in", "km"]; T = ["s", "min", "h", "wk", "yr"]; M = ["kg", "lb", "oz", "g"]; A = ["rad", "deg", "rot"]
    EN = ["J", "kWh", "cal", "ft_lb", "eV"]; V = ["L", "gal", "cup"]; X = ["m", "ft", "yd", "mi"]
    comp = []  # (family, expr, mag, pi, rel)

    def term(*ts):
        mag, pi, rel = F(1), 0, F(0)
        for s, n in ts:
            a = atom(s)
            mag *= a[1] ** n; pi += a[2] * n; rel += abs(n) * a[4].rel_tol
        return mag, pi, rel
    for l in L:
        for t in T:
            comp.append(("L/T", f"{l}/{t}", term((l, 1), (t, -1))))
            comp.append(("L/T2", f"{l}/{t}^2", term((l, 1), (t, -2))))
    for l in L:
        comp.append(("L2", f"{l}^2", term((l, 2))))
        comp.append(("L2", f"{l}2", term((l, 2))))
        comp.append(("L-1", f"1/{l}", term((l, -1))))
        comp.append(("L-1", f"{l}^-1", term((l, -1))))
        for m in M:
            comp.append(("ML", f"{m}*{l}", term((m, 1), (l, 1))))
            comp.append(("ML-3", f"{m}/{l}^3", term((m, 1), (l, -3))))
            comp.append(("ML/T2", f"{m}*{l}/min^2", term((m, 1), (l, 1), ("min", -2))))
    for a in A:
        for t in T:
            comp.append(("A/T", f"{a}/{t}", term((a, 1), (t, -1))))
            comp.append(("A/T", f"{a}*{t}^-1", term((a, 1), (t, -1))))
    for e in EN:
        for m in M:
            comp.append(("E/M", f"{e}/{m}", term((e, 1), (m, -1))))
        for t in T:
            comp.append(("E/T", f"{e}/{t}", term((e, 1), (t, -1))))
    for p in ("W", "hp", "kW"):
        comp.append(("E/T", p, term((p, 1))))
    for v in V:
        for l in X:
            comp.append(("V/L", f"{v}/{l}", term((v, 1), (l, -1))))
            comp.append(("V/L", f"({v}/({l}))", term((v, 1), (l, -1))))
    for l in ("acre", "hect"):
        comp.append(("V/L", l, term((l, 1))))
    for (f1, x, a), (f2, y, b) in itertools.product(comp, repeat=2):
        if f1 != f2:
            continue
        r = ref.tofrac(a[0], a[1]) / ref.tofrac(b[0], b[1])
        w = F(FV) * r
        tol = abs(w) * max(E64 * 32, 4 * (a[2] + b[2]))
        add(f"{x}->{y}", f"value!(quantity!({FV}, {x}), {y})", w, tol)
        if ck.thorough:
            add(f"{x}->{y}:f32", f"value!(quantity!({FV}, {x}, f32), {y}, f32)", w, max(tol, abs(w) * E32 * 16), "f32")
    if CONFIG:
        cs = cs[::4]
    ck.log("pairs", len(cs))
    c = Crate("c08")
    NB = 16
    progs = {}
    hdr = PROBE_SRC + "#[allow(unused_imports)] use whippyunits::{quantity, unit, value};\n#[derive(Clone, PartialEq)] pub struct B1;\n"
    for b in range(NB):
        mine = list(enumerate(cs))[b::NB]
        blocks = [mine[j:j + 60] for j in range(0, len(mine), 60)]
        p = CaseProgram(hdr + "fn main() { quiet(); " + " ".join(f"f{j}();" for j in range(len(blocks))) + "}")
        for j, bl in enumerate(blocks):
            p.raw(f"fn f{j}() {{")
            for k, x in bl:
                p.case(k, f'guard("{k}", || {{ let v: {x[2]} = {x[1]}; println!("{k}\\t{{}}", v.img()); }});')
            p.raw("}")
        progs[f"b{b}"] = p
        c.bin(f"b{b}", p.src())
    ok, diags = c.build(timeout=850)
    if not ok:
        by_, un = attribute(diags, progs)
        if not by_:
            raise MachineryError("".join(d["rendered"] for d in un[:3]) + c.stderr[-1500:])
        for k, m in by_.items():
            ck.violation(cs[k][0], f"`{cs[k][1]}` does not compile: {m[:1]}")
    ck.log("built")
    ev = 0
    worst = F(0)
    for b in progs:
        if b not in c.exes:
            continue
        p = c.run(b)
        if p.returncode:
            raise MachineryError(p.stderr.decode()[-800:])
        for line in p.stdout.decode().splitlines():
            f = line.split("\t")
            key, expr, t, want, tol = cs[int(f[0])]
            ev += 1
            if f[1] == "PANIC":
                ck.violation(key, f"`{expr}` panics: {f[2]}")
                continue
            v = f[1]
            x = bits_f64(int(v[1:], 16)) if v[0] == "d" else bits_f32(int(v[1:], 16)) if v[0] == "s" else int(v.split(":")[1])
            if x != x or x in (float("inf"), float("-inf")):
                ck.violation(key, f"`{expr}` gives {x}, should be {float(want):.17g}")
                continue
            if tol is None:
                w = abs(want).numerator // abs(want).denominator * (1 if want >= 0 else -1)
                if x != w:
                    ck.violation(key, f"`{expr}` gives {x}, should be {w}")
            elif abs(F(x) - want) > tol:
                ck.violation(key, f"`{expr}` gives {x!r}, should be {float(want):.17g}")
    for i in (1, 2000, 9000, len(cs) - 1):
        ck.sample(dict(case=cs[i % len(cs)][0], expression=cs[i % len(cs)][1], expected=float(cs[i % len(cs)][3])))
    ck.assumptions.append("lumen is left out (known finding of C01); affine units only on their own; integer storage: exact between units that are scales of their own, otherwise within the truncations of the documented storage scale (a factor 10 of the unit)")
    ck.finish(evaluations=ev, distinct_nontrivial=len({(c[0].split(":")[0]) for c in cs}), exhaustive=True,
              rule="every ordered pair of same-dimension units (primary symbol with every prefix), f64 and, near 1, f32, brands and integers; all pairs of compound spellings in %d families with non-storage parts" % len({f for f, _, _ in comp}))


if __name__ == "__main__":
    main(run, "C08", "exploration")
