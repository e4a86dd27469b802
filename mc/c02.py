"""C02: unit expressions mean what the documented algebra says, or are rejected."""
import itertools, json
from fractions import Fraction as F
import ref, exprdrv
from exprmodel import parse, Reject, mul, div, pw, ONE
from lib import *

Q = dict  # readability


def table():
    """Unit values as (dims, storage scale, cf): the storage scale of a unit that is not
    stored at its own scale is taken from the library (C01 has checked scale*cf)."""
    return ["m", "kg", "s", "ft", "min", "deg", "eV", "µm", "Ω", "in"]


def agree(r, v, txt=""):
    if r[0] != "OK":
        return f"rejected: {r}"
    if tuple(r[1]) != v[0]:
        return f"dimension {r[1]} instead of {v[0]}"
    # physical magnitude: scale * cf, exactly up to rounding of the factors
    if tuple(r[2]) != v[1]:
        return f"scale {r[2]} instead of {v[1]}"
    if v[2] == 1:
        rounded = any(u in txt for u in ("ft", "in", "eV"))  # e.g. in*in^-1
        if r[3] != 1.0 and not (rounded and abs(r[3] - 1.0) < 1e-14):
            return f"conversion factor {r[3]!r} instead of 1"
    else:
        if v[2] is None:
            return None
        want = float(v[2])
        if ref.rel_err(r[3], v[2]) > F(1, 10 ** 11):
            return f"conversion factor {r[3]!r} instead of {want!r}"
    return None


def run(ck):
    drv = exprdrv.Driver()
    names = table()
    base = {}
    atoms = ref.atoms()
    for n, r in zip(names, drv.eval(names)):
        if r[0] != "OK":
            ck.violation("atom:" + n, f"`{n}` is rejected: {r}")
            continue
        base[n] = (tuple(r[1]), tuple(r[2]), F(r[3]))
    ev = 0
    accepted = 0
    ck.sample("m * kg ^ -2 / ( s2 . ft )")

    def check(batch):
        nonlocal ev, accepted
        res = drv.eval([b[0] for b in batch])
        for (txt, toks), r in zip(batch, res):
            ev += 1
            try:
                v = parse(toks, base)
            except Reject:
                v = None
            if v is None:
                if r[0] == "OK":
                    ck.violation("accept:" + txt, f"`{txt}` is not a unit expression, yet evaluates to {r}")
                elif r[0] == "PANIC":
                    ck.violation("panic:" + txt, f"`{txt}` panics: {r[1]}")
                continue
            accepted += 1
            e = agree(r, v, txt)
            if e:
                ck.violation("expr:" + txt, f"`{txt}`: {e}")

    # 1. all token sequences up to a length, well-formed or not
    toks = ["m", "s2", "ft", "10", "1", "3", "*", ".", "/", "^", "2", "-3", "(", ")"]
    L = 6 if ck.thorough else 5
    for n in range(0, L + 1):
        batch = []
        for t in itertools.product(toks, repeat=n):
            batch.append((" ".join(t), list(t)))
            if len(batch) >= 400000:
                check(batch); batch = []
        if batch:
            check(batch)
    ck.log(f"1: token sequences <= {L}:", ev, "well-formed", accepted)
    n1 = ev

    # 2. all expression trees up to depth 2 (3 in the thorough tier), in several spellings
    units = [n for n in names if n in base]
    leaf = [([u], None) for u in units] + [(["10"], None), (["1"], None)]
    exps = [-3, -1, 0, 1, 2, 3]
    lvl1 = []
    for u in units:
        lvl1.append([u])
        for e in exps:
            lvl1.append([u, "^", str(e)])
            if e >= 0:
                lvl1.append([u + str(e)])
    lvl1 += [["10", "^", str(e)] for e in (-3, 6)] + [["1"], ["10"]]
    def paren(t):
        return ["("] + t + [")"]
    batch = []
    two = []
    for a in lvl1:
        for b in lvl1:
            for op in "*./":
                t = a + [op] + b
                two.append(t)
                batch.append((join(t), t))
    check(batch); batch = []
    # parenthesised powers of products, quotients of quotients
    small = [t for t in two if set(t) & {"m", "ft", "Ω", "in", "µm2"}]
    for t in two:
        for e in ("-2", "2", "3"):
            x = paren(t) + ["^", e]
            batch.append((join(x), x))
    check(batch); batch = []
    core = [["m"], ["ft", "^", "2"], ["s2"], ["10", "^", "3"], ["1"], ["min", "^", "-1"], ["kg"], ["deg"]]
    D3 = []
    for a, b, c_ in itertools.product(core, repeat=3):
        for o1, o2 in itertools.product("*./", repeat=2):
            D3 += [a + [o1] + b + [o2] + c_, paren(a + [o1] + b) + [o2] + c_, a + [o1] + paren(b + [o2] + c_)]
    for t in D3:
        batch.append((join(t), t))
    for a, b, c_, d_ in itertools.product(core if ck.thorough else core[:5], repeat=4):
        for ops in itertools.product("*/", repeat=3):
            t = a + [ops[0]] + b + [ops[1]] + c_ + [ops[2]] + d_
            batch.append((join(t), t))
            t = paren(a + [ops[0]] + b) + [ops[1]] + paren(c_ + [ops[2]] + d_)
            batch.append((join(t), t))
            t = a + [ops[0]] + paren(b + [ops[1]] + paren(c_ + [ops[2]] + d_))
            batch.append((join(t), t))
            if len(batch) > 400000:
                check(batch); batch = []
    check(batch); batch = []
    # exponent range: every exponent near the limits, nested
    for e in list(range(-33, 34)) + [s * x for x in (99, 100, 127, 128, 181, 182, 200, 255, 256, 1000, 16383, 16384, 32766, 32767, 32768, 32769, 40000, 65535, 65536, 70000, 2 ** 31 - 1, 2 ** 31, 2 ** 63) for s in (1, -1)]:
        for u in ("m", "ft", "s2", "10", "min"):
            for t in ([u, "^", str(e)], paren([u, "^", str(e)]) + ["^", "2"], paren(paren(["m", "^", "200"]) + ["^", str(e)]) + ["^", "-1"],
                      [u, "^", str(e), "*", u, "^", str(e)], [u, "^", str(e), "/", u, "^", str(-e)]):
                batch.append((join(t), t))
        if e >= 0:
            batch.append((f"m{e}", [f"m{e}"]))
            batch.append((f"10*m{e}", ["10", "*", f"m{e}"]))
    for n in range(0, 40):
        batch.append((str(n), [str(n)])); batch.append((f"{n}*m", [str(n), "*", "m"])); batch.append((f"{n}^2*m", [str(n), "^", "2", "*", "m"])); batch.append((f"m/{n}", ["m", "/", str(n)]))
    check(batch); batch = []
    ck.log("2: trees and spellings", ev - n1)
    # lexical spellings that are not expressions
    lex = ["", " ", "m^2s", "10m", "m^2.5", "m^", "^2", "m**2", "m²", "kg·m", "m s", "m 2", "m-2", "m^--2", "m^+2", "()", "(m", "m)",
           "m,s", "m;", "1.5*m", "0x10*m", "m^0x2", "m^1_0", "\"m\"", "'m'", "r#m", "r#m2", "m2s", "m2_2", "µm²", "m^(2)", "2m", "1e3*m", "_", "_2", "m_", "%", "[m]", "{m}", "m!", "kg m / s", "🦀", "m🦀", "𝛀", "é", "\\", "#", "$m", "m::s", "m->s", "m=s", "-m", "+m", "m+s", "m - s"]
    okx = {"m^0x2": (ref.dmul(base["m"][0], 2), base["m"][1], F(1)), "m^1_0": (ref.dmul(base["m"][0], 10), base["m"][1], F(1))}
    for s_, r in zip(lex, drv.eval(lex)):
        ev += 1
        if r[0] == "PANIC":
            ck.violation("panic:" + s_, f"`{s_}` panics: {r[1]}")
        elif r[0] == "OK" and s_ not in okx:
            ck.violation("accept:" + s_, f"`{s_}` is not a unit expression, yet evaluates to {r}")
    # 3. the macros evaluate the same algebra: all operator pairs over the unit alphabet
    exprs = []
    seen = set()
    pick = lvl1 if ck.thorough else [t for t in lvl1 if t[0][0] in "msfµΩ1i" ]
    for t in [a + [op] + b for a in pick for b in pick[:12] for op in "*./"] + [t for t in D3 if len(t) <= (99 if ck.thorough else 7)][:4000 if not ck.thorough else 99999]:
        s_ = join(t)
        if s_ not in seen:
            seen.add(s_); exprs.append((s_, t))
    import sys
    cases = []
    for s_, t in exprs:
        v = parse(t, base)
        if any(abs(x) > 100 for x in v[0] + v[1]):
            continue
        cases.append((s_, t, v))
    progs = {}
    c = Crate("c02")
    NB = 8
    for i, sh in enumerate(shard(cases, NB)):
        p = CaseProgram(PROBE_SRC + "\nuse whippyunits::{quantity, unit};\nfn main() {")
        for j in range(0, len(sh), 100):
            p.raw(f"f{j}();")
        p.raw("}")
        for j in range(0, len(sh), 100):
            p.raw(f"fn f{j}() {{")
            for s_, t, v in sh[j:j + 100]:
                p.case(s_, f'showq("q\\t{s_}", quantity!(1.0, {s_}));')
                if v[2] == 1 and "ft" not in t and "in" not in t and "eV" not in t and not any(x.startswith(("ft", "eV", "in")) for x in t):
                    p.case(s_, f'show::<unit!({s_})>("u\\t{s_}", 0i8);')
            p.raw("}")
        progs[f"m{i}"] = p
        c.bin(f"m{i}", p.src())
    ok, diags = c.build()
    mac = 0
    if not ok:
        by, un = attribute(diags, progs)
        if not by:
            raise MachineryError("macro harness does not build: " + "".join(d["rendered"] for d in un[:3]) + c.stderr[-1500:])
        for k, m in by.items():
            ck.violation("macro:" + k, f"`{k}` does not compile: {m[:2]}")
    else:
        vals = {s_: v for s_, t, v in cases}
        for b in progs:
            for line in c.run(b).stdout.decode().splitlines():
                kind, s_, s, d, x, br = line.split("\t")
                mac += 1
                v = vals[s_]
                cf = 1.0 if kind == "u" else bits_f64(int(x[1:], 16))
                e = agree(("OK", tuple(json.loads(d)), tuple(json.loads(s)), cf), v, s_)
                if e:
                    ck.violation("macro:" + s_, f"{kind} `{s_}`: {e}")
    ck.log("3: macro evaluations", mac)
    ev += mac
    ck.assumptions.append("affine units (degC, degF) inside compound expressions are outside the property: the documentation gives them no meaning")
    ck.finish(evaluations=ev, distinct_nontrivial=accepted + mac,
              rule=f"every token sequence of length <= {L} over {len(toks)} tokens (malformed ones must be rejected), every tree over the unit alphabet "
                   "to depth 2 plus all 3- and 4-operand shapes, exponents around every integer-width limit; the same algebra through quantity! and unit!. "
                   "Non-trivial: well-formed expressions",
              exhaustive=True)


def join(t):
    out = ""
    for i, x in enumerate(t):
        # a '.' after a number would lex as a float
        if x == "." and i and t[i - 1][-1].isdigit():
            out += " . "
        elif x == "." :
            out += "."
        else:
            if out.endswith(".") and x[0].isdigit():
                out += " "
            out += x
    return out


if __name__ == "__main__":
    main(run, "C02", "exploration")
