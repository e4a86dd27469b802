"""C11: Display and Debug text names the quantity's value, unit, dimensions, storage type and brand."""
import itertools, math, re
from decimal import Decimal
from fractions import Fraction as F
import ref
from lib import *
from c06 import ty

SUP = {c: str(i) for i, c in enumerate("⁰¹²³⁴⁵⁶⁷⁸⁹")}
SUP["⁻"] = "-"
SUPRE = "[⁰¹²³⁴⁵⁶⁷⁸⁹⁻]+"
BRACKET_DIMS = ["mass", "length", "time", "current", "temperature", "amount", "luminosity", "angle"]
DIMNAME = {  # established names of derived dimensions
    "Area": "L2", "Volume": "L3", "Frequency": "T-1", "Force": "M L T-2", "Energy": "M L2 T-2", "Power": "M L2 T-3",
    "Pressure": "M L-1 T-2", "Electric Charge": "I T", "Electric Potential": "M L2 T-3 I-1",
    "Capacitance": "M-1 L-2 T4 I2", "Electric Resistance": "M L2 T-3 I-2", "Electric Conductance": "M-1 L-2 T3 I2",
    "Inductance": "M L2 T-2 I-2", "Magnetic Field": "M T-2 I-1", "Magnetic Flux": "M L2 T-2 I-1",
    "Illuminance": "L-2 J", "Volume Mass Density": "M L-3", "Linear Mass Density": "M L-1",
    "Dynamic Viscosity": "M L-1 T-1", "Kinematic Viscosity": "L2 T-1", "dimensionless": "", "Dimensionless": "",
}


def _pd(s):
    d = [0] * 8
    for w in s.split():
        m = re.fullmatch(r"([A-Z]+)(-?\d+)?", w)
        d[ref.DIMS.index(m[1])] = int(m[2] or 1)
    return tuple(d)


DIMNAME = {k: _pd(v) for k, v in DIMNAME.items()}
SYM = {s: (u.d, u.mag, u.pi) for u in ref.UNITS for s in u.symbols}
NAME = {u.name: (u.d, u.mag, u.pi) for u in ref.UNITS}
PSYM = {p: F(10) ** e for s, alts, n, e in ref.PREFIXES for p in [s] + alts + (["μ"] if n == "micro" else [])}
PNAME = {n: F(10) ** e for s, alts, n, e in ref.PREFIXES}


def sup(s):
    t = "".join(SUP[c] for c in s)
    if not re.fullmatch(r"-?\d+", t):
        raise Bad(f"unreadable exponent {s!r}")
    return int(t)


class Bad(Exception):
    pass


_atom = {}


def atom(w, verbose):
    k = (w, verbose)
    if k not in _atom:
        tab, pre = (NAME, PNAME) if verbose else (SYM, PSYM)
        r = tab.get(w)
        if r is None:
            for p in sorted(pre, key=len):
                if w.startswith(p) and w[len(p):] in tab:
                    d, m, pi = tab[w[len(p):]]
                    r = (d, m * pre[p], pi)
                    break
        _atom[k] = r
    if _atom[k] is None:
        raise Bad(f"unknown unit {w!r}")
    return _atom[k]


PART = re.compile(rf"([^\s⁰¹²³⁴⁵⁶⁷⁸⁹⁻·()]+)({SUPRE})?")


def compound(s, verbose):
    d, m, pi = ref.ZERO, F(1), 0
    if s == "":
        return d, m, pi
    for part in s.split("·"):
        x = PART.fullmatch(part)
        if not x:
            raise Bad(f"unreadable part {part!r}")
        e = sup(x[2]) if x[2] else 1
        ad, am, ap = atom(x[1], verbose)
        d, m, pi = ref.dadd(d, ref.dmul(ad, e)), m * am ** e, pi + ap * e
    return d, m, pi


def denote(s, verbose):
    """Printed unit -> (dims, magnitude, pi power, relative tolerance)."""
    f, tol = F(1), F(0)
    x = re.match(r"\((-?\d+(?:\.\d+)?)\)", s)
    if x:
        f, s = F(x[1]), s[x.end():]
        digits = len(x[1].replace(".", "").lstrip("0-"))
        # three significant figures are promised; more may be shown
        tol = F(1, 199)
    else:
        x = re.match(rf"10({SUPRE}) ", s)
        if x:
            f, s = F(10) ** sup(x[1]), s[x.end():]
    x = re.fullmatch(r"(\w*)\(([^()]*)\)", s)
    if x:
        pre = PNAME if verbose else PSYM
        if x[1] and x[1] not in pre:
            raise Bad(f"unknown prefix {x[1]!r}")
        d, m, pi = compound(x[2], verbose)
        return d, m * f * pre.get(x[1], 1), pi, tol
    d, m, pi = compound(s, verbose)
    return d, m * f, pi, tol


_den = {}


def cdenote(s, verbose):
    k = (s, verbose)
    if k not in _den:
        try:
            _den[k] = denote(s, verbose)
        except Bad as e:
            _den[k] = e
    r = _den[k]
    if isinstance(r, Bad):
        raise r
    return r


DBG = re.compile(r"(?P<u>.*?)(?: \((?P<n>[A-Za-z ]+)\))?(?: \[(?P<s>[235π][^\]]*)\])?(?: \[(?P<d>[a-z][^\]]*)\])?")


def brackets(s, names):
    out = dict.fromkeys(names, 0)
    for w in (s.split(", ") if s else []):
        x = re.fullmatch(rf"([a-z]+|[235π])({SUPRE})", w)
        if not x or x[1] not in out or out[x[1]]:
            raise Bad(f"unreadable bracket {s!r}")
        out[x[1]] = sup(x[2])
        if out[x[1]] == 0:
            raise Bad(f"zero exponent shown in {s!r}")
    return tuple(out[n] for n in names)


_val = {}


def unit_ok(u, verbose, d, sc):
    ud, um, upi, tol = cdenote(u, verbose)
    if ud != d:
        raise Bad(f"{u!r} has dimensions {ud}")
    k = (um, upi, sc, tol)
    if k not in _val:
        wm, wpi = ref.scale_value(sc)
        if upi == wpi:
            _val[k] = um == wm if not tol else abs(um / wm - 1) <= tol
        else:
            _val[k] = bool(tol) and abs(ref.tofrac(um, upi) / ref.tofrac(wm, wpi) - 1) <= tol
    if not _val[k]:
        raise Bad(f"{u!r} is {float(um):.6g}*pi^{upi} of the coherent unit")


def check_type(text, verbose, d, sc, storage, brand):
    x = re.fullmatch(r"Quantity<(.*)>", text)
    if not x:
        raise Bad("not Quantity<..>")
    tail = f", {storage}" + (f", {brand}" if brand else "")
    if not x[1].endswith(tail):
        raise Bad(f"does not end in {tail!r}")
    body = x[1][:-len(tail)]
    if not verbose:
        return unit_ok(body, False, d, sc)
    y = DBG.fullmatch(body)
    if y["n"] and DIMNAME.get(y["n"]) != d:
        raise Bad(f"dimension name {y['n']!r}")
    if brackets(y["s"] or "", ["2", "3", "5", "π"]) != tuple(sc):
        raise Bad(f"scale bracket {y['s']!r}")
    if brackets(y["d"] or "", BRACKET_DIMS) != tuple(d):
        raise Bad(f"dimension bracket {y['d']!r}")
    unit_ok(y["u"], True, d, sc)


def value_ok(text, v):
    """text shows v to five significant figures."""
    if v != v:
        return text == "NaN"
    if math.isinf(v):
        return text == ("inf" if v > 0 else "-inf")
    if not re.fullmatch(r"-?\d+(\.\d+)?", text):
        return False
    t, q = F(text), F(v)
    if q == 0:
        return t == 0
    mag = 0
    a = abs(q)
    mag = Decimal(a.numerator) / Decimal(a.denominator)
    e = mag.adjusted()
    # half a unit in the fifth significant place, plus rounding in binary arithmetic
    return abs(t - q) <= F(10) ** (e - 4) * F(501, 1000) + a * F(1, 10 ** 14)


DRIVER = r'''
use whippyunits::print::prettyprint::*;
use whippyunits_core::{dimension_exponents::DynDimensionExponents as D, scale_exponents::ScaleExponents as S};
use std::io::{Read, Write};
fn main() { std::panic::set_hook(Box::new(|_| {}));
 let mut s = String::new(); std::io::stdin().read_to_string(&mut s).unwrap();
 let mut o = std::io::BufWriter::new(std::io::stdout());
 let mut blocks = s.split("--\n");
 let ds: Vec<Vec<i16>> = blocks.next().unwrap().lines().map(|l| l.split(' ').map(|x| x.parse().unwrap()).collect()).collect();
 let ss: Vec<Vec<i16>> = blocks.next().unwrap().lines().map(|l| l.split(' ').map(|x| x.parse().unwrap()).collect()).collect();
 for d in &ds { for c in &ss { for verbose in [false, true] {
   let t = std::panic::catch_unwind(|| pretty_print_quantity_type(D(d[..].try_into().unwrap()), S(c[..].try_into().unwrap()), "f64", verbose, true, None));
   let _ = writeln!(o, "{}", t.unwrap_or("PANIC".into())); } } }
}'''


def dims(thorough):
    out = [ref.ZERO]
    rng = [-3, -2, -1, 1, 2, 3]
    for n in (1, 2):
        for idx in itertools.combinations(range(8), n):
            for es in itertools.product(rng + ([4, -4, 10, -12] if n == 1 else []), repeat=n):
                d = [0] * 8
                for i, e in zip(idx, es):
                    d[i] = e
                out.append(tuple(d))
    if thorough:
        for idx in itertools.combinations(range(8), 3):
            for es in itertools.product([-2, -1, 1, 2], repeat=3):
                d = [0] * 8
                for i, e in zip(idx, es):
                    d[i] = e
                out.append(tuple(d))
    out += [d for d in DIMNAME.values()] + [(1, 2, 3, 4, 5, 6, 7, 8), (-1,) * 8]
    out += [tuple(-x for x in d) for d in DIMNAME.values()] + [u.d for u in ref.UNITS]
    return list(dict.fromkeys(out))


def scales(thorough):
    out = [(e, 0, e, 0) for e in range(-36, 37)]
    for u in ref.UNITS:
        f = ref.factor235(u.mag)
        if f:
            for k in (-3, -2, -1, 1, 2, 3):
                for p in (0, -3, 3):
                    out.append((f[0] * k + p, f[1] * k, f[2] * k + p, u.pi * k))
    b = (-2, -1, 0, 1, 2) if thorough else (-1, 0, 1)
    out += list(itertools.product(b, repeat=4))
    out += [(40, 0, 0, 0), (-40, 0, 0, 0), (0, 30, 0, 0), (0, 0, -25, 0), (0, 0, 0, 7), (200, 0, 0, 0), (-300, 0, 0, 0), (100, 0, 100, 0)]
    return list(dict.fromkeys(out))


def run(ck):
    CORE = f'whippyunits-core = {{ path = "{REPO}/whippyunits-core" }}'
    c = Crate("c11", deps=("whippyunits", CORE))
    c.bin("types", DRIVER)
    # real values
    p = CaseProgram(PROBE_SRC + """
use whippyunits::quantity::*;
mod inner { #[derive(Clone, PartialEq)] pub struct Tag; }
fn main() { quiet();
""")
    Q = []
    D = [ref.ZERO] + [u.d for u in ref.UNITS] + [(0, 1, -2, 0, 0, 0, 0, 0), (0, 1, 1, 0, 0, 0, 0, 1), (1, 1, 0, 0, 0, 0, 0, 0), (2, 0, 0, 0, 0, 0, 0, 0), (0, -1, 0, 0, 0, 0, 0, 0)]
    D = list(dict.fromkeys(D))
    S = [(0, 0, 0, 0), (3, 0, 3, 0), (-6, 0, -6, 0), (2, 1, 1, 0), (-2, -2, -1, 1), (1, 0, 0, 0), (7, 0, 7, 0)]
    VALS = {"f64": ["0.0", "-0.0", "1.0", "5.0", "-2.5", "1234.5678", "0.000123456", "99999.6", "1e22", "1e-9", "9.99996", "0.99999999", "f64::NAN", "f64::INFINITY", "f64::NEG_INFINITY",
                    "f64::MAX", "f64::MIN_POSITIVE", "5e-324", "1e-305", "123456789.0", "1e300", "2.5e-310"],
            "f32": ["1.5", "f32::MAX", "f32::MIN_POSITIVE", "1e-45", "f32::INFINITY", "-0.1"],
            "i32": ["7", "-7", "0", "i32::MAX", "i32::MIN"], "u8": ["0", "255"], "i8": ["-128"], "i16": ["-32768", "12345"], "u16": ["65535"], "u32": ["4294967295"],
            "i64": ["i64::MAX", "i64::MIN", "1234567"], "u64": ["u64::MAX", "10"], "i128": ["i128::MAX"], "u128": ["u128::MAX"], "isize": ["-5"], "usize": ["100000"]}
    for d in D:
        for s in S:
            Q.append((d, s, "f64", "2.75", None))
    for st, vs in VALS.items():
        for v in vs:
            for d, s in (((0, 1, 0, 0, 0, 0, 0, 0), (0, 0, 0, 0)), ((1, 2, -2, 0, 0, 0, 0, 0), (-6, 0, -6, 0)), ((0, 1, -2, 0, 0, 0, 0, 0), (-2, -1, -1, 0)))[: 3 if ck.thorough else 2]:
                for br in (None, "inner::Tag"):
                    Q.append((d, s, st, v, br))
    for i, (d, s, st, v, br) in enumerate(Q):
        t = ty(s, d, st + (f", {br}" if br else ""))
        p.case(i, f"guard(\"{i}\", || {{ let q: {t} = <{t}>::new({v}); println!(\"{i}\\t{{}}\\t{{:?}}\\t{{}}\\t{{}}\\t{{}}\", q, q, std::any::type_name::<{br or '()'}>(), ({{ let x: {st} = {v}; x }}) as f64, format!(\"{{:e}}\", ({{ let x: {st} = {v}; x }}) as f64)); }});")
    p.raw("}")
    c.bin("vals", p.src())
    ok, diags = c.build()
    if not ok:
        by, un = attribute(diags, {"vals": p})
        if not by:
            raise MachineryError("".join(d["rendered"] for d in un[:3]) + c.stderr[-1500:])
        for k, m in by.items():
            ck.violation(f"compile:{Q[k]}", f"{Q[k]} does not compile: {m[:1]}")
        ck.finish(evaluations=0, distinct_nontrivial=0, rule="(the harness did not build)")
    ck.log("built")
    ds, ss = dims(ck.thorough), scales(ck.thorough)
    if CONFIG:
        ds, ss = ds[::40], ss[::4]
    n, distinct = 0, set()
    for chunk in shard(ds, max(1, len(ds) * len(ss) // 200000)):
        r = c.run("types", input=("".join(" ".join(map(str, d)) + "\n" for d in chunk) + "--\n" + "".join(" ".join(map(str, s)) + "\n" for s in ss)).encode())
        if r.returncode:
            raise MachineryError(r.stderr.decode()[-500:])
        it = iter(r.stdout.decode().splitlines())
        for d in chunk:
            for s in ss:
                for verbose in (False, True):
                    t = next(it)
                    n += 1
                    try:
                        check_type(t, verbose, d, s, "f64", None)
                    except Bad as e:
                        ck.violation(f"type:{d}:{s}:{'debug' if verbose else 'display'}", f"type dims={d} scale={s} is printed {t!r}: {e}")
                    distinct.add(t)
        ck.log("types", n)
    r = c.run("vals")
    got = {}
    for l in r.stdout.decode().splitlines():
        a = l.split("\t")
        got[int(a[0])] = a[1:]
    for i, (d, s, st, v, br) in enumerate(Q):
        a = got.get(i)
        key = f"value:{d}:{s}:{st}:{v}:{br}"
        if a is None or a[0] == "PANIC" or len(a) != 5:
            ck.violation(key, f"{Q[i]} printed {a}")
            continue
        val = float(a[4].replace("inf", "inf"))
        for verbose, t in ((False, a[0]), (True, a[1])):
            n += 1
            try:
                num, _, rest = t.partition(" ")
                if not value_ok(num, val):
                    raise Bad(f"value {val!r} shown as {num!r}")
                check_type(rest, verbose, d, s, st, a[2] if br else None)
            except Bad as e:
                ck.violation(key + (":debug" if verbose else ":display"), f"{Q[i]} is printed {t!r}: {e}")
    for i in (0, 7, 300, len(Q) - 1):
        ck.sample(f"{Q[i % len(Q)]} -> {got.get(i % len(Q))}")
    ck.finish(evaluations=n, distinct_nontrivial=len(distinct), exhaustive=True, types=len(ds) * len(ss), values=len(Q),
              rule="every dimension vector in the stated set x every scale in the stated set, in both renderings; and every listed value, storage type and brand through the real Display and Debug")


if __name__ == "__main__":
    main(run, "C11", "exploration")
