"""C06: float rescaling is multiplication by the exact scale ratio, to rounding."""
import itertools
from fractions import Fraction as F
import ref
from lib import *

# 60 digits of pi
PI = F(int("314159265358979323846264338327950288419716939937510582097494"), 10 ** 59)


def factor(d):
    return F(2) ** d[0] * F(3) ** d[1] * F(5) ** d[2] * PI ** d[3]


def pairs(thorough):
    deltas = set()
    for n in range(-60, 61):
        deltas.add((n, 0, n, 0))                        # every pair of SI prefixes
        deltas.add((n + 2, 1, n + 1, 0)); deltas.add((n - 4, -2, n - 2, 0))  # ... of minutes, per hour
    for i in range(4):
        top = 30 if i < 3 else 8
        for e in list(range(-top, top + 1)) + [s * x for x in (50, 99, 100, 101, 102, 150, 200) for s in (1, -1) if i < 3] + [s * x for x in (9, 10, 12) for s in (1, -1) if i == 3]:
            d = [0] * 4; d[i] = e; deltas.add(tuple(d))
    r = 3 if thorough else 2
    deltas |= set(itertools.product(range(-r, r + 1), repeat=4))
    for e in itertools.product((-7, 0, 7), (-7, 0, 7), (-7, 0, 7), (-2, 0, 2)):
        deltas.add(e)
    for e in ((101, 0, 101, 0), (-101, 0, -101, 0), (150, 0, -150, 0), (100, 100, 0, 0), (-120, 0, -120, 0), (120, 0, 120, 0)):
        deltas.add(e)
    out = []
    for k, d in enumerate(sorted(deltas)):
        lim = factor(d)
        if not (F(10) ** -280 < lim < F(10) ** 280):
            continue
        # the delta is realised from several absolute scales
        offs = [(0, 0, 0, 0), (3, 0, 3, 0), (-2, -2, -1, 1), (-7, 1, 4, -2)]
        for o in ([offs[k % 4]] if not thorough else offs):
            to = tuple(o); fr = tuple(a + b for a, b in zip(d, o))
            if max(map(abs, fr + to)) > 200:
                to = tuple(-(x // 2) for x in d); fr = tuple(a + b for a, b in zip(d, to))
            out.append((d, fr, to))
    return out


DIMS = [(0, 1, 0, 0, 0, 0, 0, 0), (1, 2, -3, -1, 0, 0, 0, 0), (0,) * 8, (0, 0, 0, 0, 0, 0, 0, 1), (-1, 3, -2, 0, 1, -1, 1, 2)]
V64 = [1.0, -1.0, 0.0, -0.0, 0.1, 1 / 3, 7.0, 123456789.123, 2.0 ** 53 - 1, 5e-7, -6.02214076e23, 1.7e20, 9.999999999999999e22, float("inf"), float("-inf"), float("nan")]
V32 = [1.0, -1.0, 0.0, -0.0, 0.1, 1 / 3, 7.0, 16777215.0, 12345.678, -1.5e-5, float("inf"), float("nan")]


def ty(s, d, t):
    return (f"Quantity<Scale<_2<{s[0]}>,_3<{s[1]}>,_5<{s[2]}>,_Pi<{s[3]}>>,Dimension<_M<{d[0]}>,_L<{d[1]}>,_T<{d[2]}>,_I<{d[3]}>,_Θ<{d[4]}>,_N<{d[5]}>,_J<{d[6]}>,_A<{d[7]}>>,{t}>")


def run(ck):
    ps = pairs(ck.thorough)
    c = Crate("c06")
    NB = 8
    hdr = PROBE_SRC + """
use whippyunits::quantity::*;
use whippyunits::api::*;
fn v64() -> Vec<f64> { vec![%s].into_iter().map(f64::from_bits).collect() }
fn v32() -> Vec<f32> { vec![%s].into_iter().map(f32::from_bits).collect() }
macro_rules! d { ($k:expr, $v:ident, $f:ident, $F:ty, $T:ty, $n:ty) => {{ let mut o = format!("{}", $k);
   for v in $v() { let r: $T = $f(<$F>::new(v)); o += &format!(" {:x}", r.unsafe_value.to_bits()); } println!("{o}"); }} }
fn main() {
""" % (",".join("0x%xu64" % f64_bits(v) for v in V64), ",".join("0x%xu32" % struct.unpack("<I", struct.pack("<f", v))[0] for v in V32))
    for i in range(NB):
        body = []
        mine = list(enumerate(ps))[i::NB]
        for j in range(0, len(mine), 50):
            body.append(f"f{j}();")
        body.append("}")
        for j in range(0, len(mine), 50):
            body.append(f"fn f{j}() {{")
            for k, (d, fr, to) in mine[j:j + 50]:
                dm = DIMS[k % len(DIMS)]
                for f, t, v in (("rescale", "f64", "v64"), ("rescale_f64", "f64", "v64"), ("rescale_f32", "f32", "v32")):
                    if f == "rescale_f64" and k % 3:
                        continue
                    body.append(f'd!("{k} {f}", {v}, {f}, {ty(fr, dm, t)}, {ty(to, dm, t)}, {t});')
            body.append("}")
        c.bin(f"m{i}", hdr + "\n".join(body))
    # user-level spelling: the macro and inferred targets
    users = [("m", "km", F(1, 1000)), ("km", "mm", F(10) ** 6), ("min", "s", F(60)), ("deg", "rad", PI / 180), ("h", "ms", F(3600000)), ("rad", "deg", 180 / PI), ("turn" if False else "rot", "deg", F(360)), ("kg * m^2 / s^2", "mJ", F(1000)), ("m / s", "km / h", F(36, 10)), ("kg", "mg", F(10) ** 6), ("L", "m^3", F(1, 1000)), ("day", "h", F(24))]
    src = PROBE_SRC + "use whippyunits::{quantity,unit,rescale};\nfn main() {\n"
    for a, b, f in users:
        for t in ("f64", "f32"):
            src += f'{{ let q = quantity!(7.5, {a}, {t}); let r: unit!({b}, {t}) = rescale!(q, {b}, {t}); println!("{t}|{a}|{b}|{{:x}}", r.unsafe_value.to_bits()); }}\n'
        src += f'{{ let r = rescale!(quantity!(7.5, {a}), {b}); println!("f64|{a}|{b}|{{:x}}", r.unsafe_value.to_bits()); }}\n'
    c.bin("users", src + "}\n")
    ok, diags = c.build()
    if not ok:
        raise MachineryError("".join(d["rendered"] for d in diags[:3]) + c.stderr[-1500:])
    ev = nt = 0
    worst = F(0)

    def cmp(key, v, r, f, d, u, tiny):
        nonlocal worst
        if v != v:
            return None if r != r else f"NaN became {r}"
        if v in (float("inf"), float("-inf")):
            return None if r == v else f"{v} became {r}"
        if v == 0:
            return None if r == 0 and (struct.pack("<d", r)[7] >> 7) == (struct.pack("<d", v)[7] >> 7) else f"{v!r} became {r!r}"
        want = F(v) * f
        if not (tiny < abs(want) < 1 / tiny):
            return None
        if r in (float("inf"), float("-inf")) or r != r:
            return f"{v!r} became {r!r} instead of {float(want)!r}"
        if d == (0, 0, 0, 0):
            return None if r == v else f"same scale, yet {v!r} became {r!r}"
        tol = u * (6 + abs(d[1]) + abs(d[2]) + 2 * abs(d[3]))
        e = abs(F(r) / want - 1)
        worst = max(worst, e / u)
        return None if e <= tol else f"{v!r} became {r!r} instead of {float(want)!r}"
    for i in range(NB):
        p = c.run(f"m{i}")
        if p.returncode:
            raise MachineryError(p.stderr.decode()[-500:])
        for line in p.stdout.decode().splitlines():
            k, fn, *rs = line.split(" ")
            d, fr, to = ps[int(k)]
            f = factor(d)
            f32 = fn.endswith("32")
            if f32 and not (F(10) ** -30 < f < F(10) ** 30):
                continue
            for v, r in zip(V32 if f32 else V64, rs):
                ev += 1
                if f32:
                    v = struct.unpack("<f", struct.pack("<f", v))[0]
                    r = bits_f32(int(r, 16)); u, tiny = F(1, 2 ** 24), F(10) ** -37
                else:
                    r = bits_f64(int(r, 16)); u, tiny = F(1, 2 ** 53), F(10) ** -300
                nt += d != (0, 0, 0, 0)
                e = cmp(k, v, r, f, d, u, tiny)
                if e:
                    ck.violation(f"{fn}:{fr}->{to}:{v!r}", f"{fn} from scale {fr} to {to} (exponents of 2,3,5,pi): {e}")
    uf = {(a, b): f for a, b, f in users}
    for line in c.run("users").stdout.decode().splitlines():
        t, a, b, r = line.split("|")
        ev += 1; nt += 1
        r = bits_f64(int(r, 16)) if t == "f64" else bits_f32(int(r, 16))
        want = F(15, 2) * uf[(a, b)]
        if abs(F(r) / want - 1) > F(1, 2 ** (50 if t == "f64" else 21)):
            ck.violation(f"rescale!:{a}->{b}:{t}", f"rescale!(7.5 {a}, {b}, {t}) = {r!r} instead of {float(want)!r}")
    ck.sample(ps[17]); ck.sample(ps[-5])
    ck.log("scale pairs", len(ps), "worst error in units of u:", float(worst))
    ck.assumptions.append("results are held to u*(6+|e3|+|e5|+2|epi|), u the unit roundoff, only where the ratio and the result are in the normal range of the storage type")
    ck.finish(evaluations=ev, distinct_nontrivial=nt, scale_pairs=len(ps), exhaustive=True,
              rule="every prefix-pair ratio 10^-60..10^60 (also times 60 and 1/3600), every single-prime ratio to 30 and around the table ends, the whole box of small exponents, "
                   "times a fixed alphabet of values including 0, -0, inf and NaN. Non-trivial: ratio is not 1")


if __name__ == "__main__":
    main(run, "C06", "exploration")
