"""C01: every spelling in the unit catalogue denotes the magnitude and dimension
its definition gives it, and nothing outside the catalogue is taken for a unit."""
import itertools, json, re, sys
from fractions import Fraction as F
import ref, exprdrv
from lib import *

EPS = F(1, 2 ** 51)


def judge(d, s, cf, off, atom):
    """d, s: exponents; value_si = (v*cf + off) * scale. -> error text or None"""
    dm, mag, pi, offset, u, p = atom
    if tuple(d) != dm:
        return f"dimension {tuple(d)} instead of {dm}"
    if s[3] != pi:
        return f"pi exponent {s[3]} instead of {pi}"
    sc = ref.scale_value(s)[0]
    e = ref.rel_err(sc * F(cf), mag)
    if e > max(u.rel_tol, EPS):
        return f"magnitude {float(sc * F(cf))!r} instead of {float(mag)!r} (x pi^{pi})"
    want = offset or F(0)
    if abs(sc * F(off) - want) > abs(want) * F(1, 10 ** 12):
        return f"zero point {float(sc * F(off))!r} instead of {float(want)!r}"
    return None


RUST_KW = set("""as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub
ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do
final macro override priv typeof unsized virtual yield try gen""".split())


def run(ck):
    atoms = ref.atoms()
    ck.assumptions.append("reference magnitudes are transcribed from the SI brochure / NIST SP 811 in mc/ref.py; "
                          "month = 30 d, year = mean solar year (1e-6), parsec to 1e-9, ton = long ton (documented as imperial)")
    drv = exprdrv.Driver()
    evals = 0
    # A. the runtime evaluator on the complete catalogue
    keys = list(atoms)
    for k, r in zip(keys, drv.eval(keys)):
        evals += 1
        if r[0] != "OK" or r[6]:
            ck.violation(k, f"catalogue unit `{k}` is not recognised: {r}")
            continue
        e = judge(r[1], r[2], r[3], r[4], atoms[k])
        if e:
            ck.violation(k, f"unit `{k}`: {e}")
    ck.sample(f"runtime evaluator: {keys[0]}, {keys[200]}, {keys[-1]}")
    ck.log("A: catalogue spellings", len(keys))
    # B. every short string over the letters of the catalogue is a unit iff the catalogue says so
    sym_letters = sorted({c for k in ref.BY_SYM for c in k} | {c for p in ref.PREFIXES for c in p[0]} | {"µ"})
    sym_letters = [c for c in sym_letters if not c.isdigit()]
    n = 4 if ck.thorough else 3
    alph = sym_letters if n == 3 else [c for c in sym_letters]
    accepted = 0
    total = 0
    for ln in range(1, n + 1):
        batch = ["".join(t) for t in itertools.product(alph, repeat=ln)]
        for i in range(0, len(batch), 500000):
            part = batch[i:i + 500000]
            for s, r in zip(part, drv.eval(part)):
                total += 1
                if r[0] == "OK" and not r[6]:
                    accepted += 1
                    if s not in atoms:
                        if s in ("dimensionless",):
                            continue
                        ck.violation("accepts:" + s, f"`{s}` is not a unit, yet is accepted as {r}")
                elif s in atoms and s not in ("",):
                    ck.violation(s, f"catalogue unit `{s}` is rejected: {r}")
    evals += total
    ck.log("B: strings", total, "accepted", accepted, "alphabet", len(alph))
    # C. the macros agree: quantity! on every spelling, unit! on every storage unit
    progs = {}
    cases = []
    for k, a in atoms.items():
        cases.append(("q:" + k, k, f'    showq("q:{k}", quantity!(1.0, {k}));'))
        u = a[4]
        if a[3] is None and ref.factor235(a[1]) is not None and k not in ref_nonstorage():
            cases.append(("u:" + k, k, f'    show::<unit!({k})>("u:{k}", 0i32);'))
    NB = 8
    for i, sh in enumerate(shard(cases, NB)):
        p = CaseProgram(PROBE_SRC + "\nuse whippyunits::{quantity, unit};\nfn main() {")
        for j in range(0, len(sh), 150):
            p.raw(f"f{j}();")
        p.raw("}")
        for j in range(0, len(sh), 150):
            p.raw(f"fn f{j}() {{")
            for key, k, text in sh[j:j + 150]:
                p.case(key, text)
            p.raw("}")
        progs[f"c{i}"] = p
    c = Crate("c01")
    for n_, p in progs.items():
        c.bin(n_, p.src())
    ok, diags = c.build()
    if not ok:
        by, un = attribute(diags, progs)
        if not by:
            raise MachineryError("macro harness does not build: " + "".join(d["rendered"] for d in un[:3]) + c.stderr[-1500:])
        for key, msgs in by.items():
            ck.violation(key.split(":", 1)[1], f"{key}: does not compile: {msgs[:2]}")
    else:
        seen = 0
        for b in progs:
            for line in c.run(b).stdout.decode().splitlines():
                key, s, d, v, br = line.split("\t")
                kind, k = key.split(":", 1)
                s, d = json.loads(s), json.loads(d)
                seen += 1
                a = atoms[k]
                if kind == "q":
                    val = F(bits_f64(int(v[1:], 16)))
                    if a[3] is None:
                        e = judge(d, s, val, 0, a)
                    else:
                        # 1.0 unit -> absolute value
                        sc = ref.scale_value(s)[0]
                        want = a[1] + a[3]
                        e = None if tuple(d) == a[0] and ref.rel_err(sc * val, want) < F(1, 10 ** 12) else \
                            f"1 {k} is {float(sc*val)!r} SI instead of {float(want)!r}"
                else:
                    e = judge(d, s, 1, 0, a)
                if e:
                    ck.violation(k, f"{'quantity!(1.0, '+k+')' if kind=='q' else 'unit!('+k+')'}: {e}")
        if seen != len(cases):
            raise MachineryError(f"macro harness reported {seen} of {len(cases)}")
        evals += seen
    ck.log("C: macro cases", len(cases))
    # D. prefixes on units that take none are rejected by the macros as well
    neg = []
    for sym, alts, name, p in ref.PREFIXES:
        for u in ref.UNITS:
            if u.prefixable:
                continue
            for t in [sym + s for s in u.symbols] + [name + u.name]:
                if t not in atoms:
                    neg.append(t)
    neg += ["zorg", "meterr", "kgg", "mm_", "Meter", "KG", "METER", "metre", "sec", "feet", "inches", "meters", "xyz"]
    neg = sorted(set(neg))
    c2 = Crate("c01n")
    progs2 = {}
    for i, sh in enumerate(shard(neg, 4)):
        p = CaseProgram(PROBE_SRC + "\nuse whippyunits::{quantity, unit};\nfn main() {")
        for t in sh:
            p.case(t, f"    let _ = quantity!(1.0, {t});")
        p.raw("}")
        progs2[f"n{i}"] = p
        c2.bin(f"n{i}", p.src())
    ok, diags = c2.build(check_only=True)
    by, un = attribute(diags, progs2)
    for t in neg:
        if t not in by:
            if un and not by:
                raise MachineryError("negative harness: " + un[0]["rendered"])
            ck.violation("accepts:" + t, f"quantity!(1.0, {t}) compiles although `{t}` is no unit")
    evals += len(neg)
    ck.log("D: non-units refused by the macro", len(neg))
    ck.sample(f"non-units: {neg[:5]}")
    ck.finish(evaluations=evals, distinct_nontrivial=len(keys) + accepted + len(cases) + len(neg),
              rule="A/C: every symbol, name and prefix x base spelling; B: every string of length <= %d over the %d letters of the "
                   "catalogue; D: every prefix on every unit that takes none. Non-trivial: catalogue entries, accepted strings, "
                   "macro cases and refused macro cases" % (n if n in (3, 4) else 3, len(alph)),
              exhaustive=True)


def ref_nonstorage():
    """Spellings whose unit has a 2/3/5 magnitude but which are not storage units (none of the
    reference's business how they are stored): those are only judged through quantity!."""
    return NONSTORAGE


NONSTORAGE = {k for k, u in list(ref.BY_SYM.items()) + list(ref.BY_NAME.items())
              if u.system != "metric" or u.name in ("calorie", "week", "year", "electron_volt", "atmosphere", "torr")} - {"degR", "rankine"}

if __name__ == "__main__":
    main(run, "C01", "exploration")
