"""C14: erasing a dimensionless or angular quantity gives its value with the scale applied;
compound quantities lose only the angle; nothing else converts to a number."""
import itertools, json, math, struct
from fractions import Fraction as F
import ref
from lib import *
from c06 import ty
from c07 import T, factor, fits

ALL = ["f32", "f64"] + ["i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"]
ANG = ["f32", "f64", "i16", "i32", "i64", "i128", "isize"]
PAIRS = [("f32", "f64"), ("f64", "f32")] + [p for i in ("i32", "i64") for f in ("f32", "f64") for p in ((i, f), (f, i))]
Z = (0,) * 4
DEG = (-2, -2, -1, 1)
SC0 = [Z, (3, 0, 3, 0), (-3, 0, -3, 0), (2, 1, 1, 0), (-2, -1, -1, 0), (-2, 0, -2, 0), DEG, (6, 0, 6, 0)]


def smul(s, n):
    return tuple(x * n for x in s)


def dims(a, other=()):
    d = [0] * 8
    d[7] = a
    for i, v in other:
        d[i] = v
    return tuple(d)


def vals(t):
    if t[0] == "f":
        b = ["0.0", "-0.0", "1.0", "1.5", "-1.5", "0.999999", "2.75", "-300.25", "90.0", "65537.0", "1e10", "-1e10", "1e30", "16777217.0", f"{t}::NAN", f"{t}::INFINITY", f"{t}::NEG_INFINITY", f"{t}::MAX"]
        return b + (["9007199254740993.0", "1e300", "-3e200", "1e-300"] if t == "f64" else ["1e-38"])
    lo, hi = T[t]
    s = {0, 1, 2, 7, 57, 90, 100, 127, 128, 1000, 30000, 65536, 1000003, 2 ** 31, 2 ** 40 + 1, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 + 1, 2 ** 100 + 1, hi, hi - 1, hi // 2 + 1, hi // 1000, lo, lo + 1}
    s |= {-x for x in s}
    return [f"{v}" for v in sorted(s) if lo <= v <= hi]


def parse_img(s, t):
    """printed bit image -> Fraction | 'nan' | 'inf' | '-inf' | '-0'"""
    if s[0] in "ds":
        x = bits_f64(int(s[1:], 16)) if s[0] == "d" else bits_f32(int(s[1:], 16))
        if math.isnan(x):
            return "nan"
        if math.isinf(x):
            return "inf" if x > 0 else "-inf"
        if x == 0 and math.copysign(1, x) < 0:
            return "-0"
        return F(x)
    tt, v = s.split(":")
    assert tt == t, (s, t)
    return F(int(v))


FMAX = {"f64": F(2) ** 1024 * (1 - F(1, 2 ** 54)), "f32": F(2) ** 128 * (1 - F(1, 2 ** 25))}
EPS = {"f64": F(1, 2 ** 52), "f32": F(1, 2 ** 23)}
TINY = {"f64": F(1, 2 ** 1060), "f32": F(1, 2 ** 140)}


def trunc(x):
    return F(math.trunc(x))


def tiv(v):
    """source value image -> exact value or special"""
    return v


def judge(src, tgt, sc, v, got):
    """error text or None.  v: exact source value or special string; got: parsed image or 'PANIC'."""
    isf, itf = src[0] == "f", tgt[0] == "f"
    if v in ("nan", "inf", "-inf", "-0"):
        if got == "PANIC":
            return "panics"
        if itf:
            return None if got == v else f"gives {got}"
        w = {"nan": F(0), "-0": F(0), "inf": F(T[tgt][1]), "-inf": F(T[tgt][0])}[v]
        return None if got == w else f"gives {got}"
    if src == tgt and not isf:  # exact rational or panic
        w = trunc(v * factor(sc))
        lo, hi = T[src]
        if lo <= w <= hi:
            return None if got == w else f"gives {got}, not {w}"
        return None if got == "PANIC" else f"gives {got}, although the result does not fit"
    if got == "PANIC":
        return "panics"
    r = ref.tofrac(*ref.scale_value(sc))
    w = v * r
    e = F(0) if sc == Z else F(16, 2 ** 52)
    if src == tgt == "f32" and sc != Z:
        e = F(16, 2 ** 23)
    if itf:
        e2 = max(e, 2 * EPS[tgt]) if (src != tgt or sc != Z) else F(0)
        tol = abs(w) * e2 + (TINY[tgt] if e2 else 0)
        if got in ("inf", "-inf"):
            return None if abs(w) * (1 + e2) >= FMAX[tgt] and (w > 0) == (got == "inf") else f"gives {got}"
        if got == "-0":
            return None if abs(w) <= tol else "gives -0"
        if got == "nan":
            return "gives NaN"
        return None if abs(got - w) <= tol else f"gives {float(got)!r}, not {float(w)!r}"
    lo, hi = T[tgt]
    a, b = sorted((w * (1 - e), w * (1 + e)))
    a, b = (max(F(lo), min(F(hi), trunc(x))) for x in (a, b))
    if sc != Z and not isf and abs(v) > 2 ** 53:  # through double precision
        k = abs(w) * EPS["f64"] * 16
        a, b = max(F(lo), min(F(hi), trunc(w - k))), max(F(lo), min(F(hi), trunc(w + k)))
    return None if a <= got <= b else f"gives {got}, not {a if a == b else (a, b)}"


def run(ck):
    conv = []  # key, src type text, tgt text, src, tgt, scale
    axes = [smul(tuple(int(i == j) for j in range(4)), e) for i in range(4) for e in (1, -1)]
    rest = [tuple(o) for o in itertools.product((-1, 0, 1), repeat=4)]
    scs0 = list(dict.fromkeys(SC0 + axes + rest[:: (1 if ck.thorough else 7)]))
    for s, t in itertools.product(ALL, repeat=2):
        for sc in scs0:
            if s[0] != "f" and t == s and (not fits(sc) or abs(sc[3]) > 8):
                continue
            conv.append((f"1:{s}->{t}:{sc}", ty(sc, dims(0), s), t, s, t, sc))
    for s, t in [(a, a) for a in ANG] + PAIRS:
        for n in [x for x in range(-9, 10) if x]:
            for sc in dict.fromkeys((Z, smul(DEG, n), smul((1, 0, 0, 1), n), smul((-3, 0, -3, 0), n if abs(n) < 4 else 1), (3, 0, 3, 0), (0, 0, 0, 1), *(axes if s == t and abs(n) < 4 else ()))):
                if s[0] != "f" and t == s and (not fits(sc) or abs(sc[3]) > 8):
                    continue
                conv.append((f"rad^{n}:{s}->{t}:{sc}", ty(sc, dims(n), s), t, s, t, sc))
    # compound: angle dropped, everything else kept
    comp = []
    others = [()] + [((i, e),) for i in range(7) for e in (1, -2)] + [((0, 1), (1, 2), (2, -3), (3, -1), (4, 1), (5, -1), (6, 2)), ((1, 200), (2, -200))]
    for t in ANG:
        for n in [x for x in range(-9, 10) if x]:
            for k, o in enumerate(others):
                if not ck.thorough and k > 2 and (k + n) % 5:
                    continue
                sc = [Z, smul(DEG, n), (3, 1, -3, 2), (-6, 0, -6, 0)][(k + n) % 4]
                comp.append((f"comp:{t}:{n}:{o}:{sc}", ty(sc, dims(n, o), t), ty(sc, dims(0, o), t), t, sc, dims(0, o)))
    # refusals
    bad = []
    for t, a in itertools.product(("f64", "i32"), (0, 1)):
        for i in range(7):
            for e in (1, -1):
                bad.append((f"no:{t}:A{a}:{'MLTIHNJ'[i]}{e}", f"pub fn @(q: {ty(Z, dims(a, ((i, e),)), t)}) -> {t} {{ q.into() }}"))
        for sc in (Z, (3, 0, 3, 0)):
            bad.append((f"no:num2q:{t}:{a}:{sc}", f"pub fn @(x: {t}) -> {ty(sc, dims(a, ((1, 1),)), t)} {{ x.into() }}"))
    for n in (1, -2):
        q = ty(Z, dims(n, ((2, -1),)), "f64")
        for i in range(7):
            e = -1 if i == 2 else 0
            bad.append((f"no:comp-dim:{n}:{i}", f"pub fn @(q: {q}) -> {ty(Z, dims(0, ((2, -1), (i, e + 1))), 'f64')} {{ q.into() }}"))
            bad.append((f"no:comp-angle:{n}:{i}", f"pub fn @(q: {q}) -> {ty(Z, dims(n + (i - 3), ((2, -1),)), 'f64')} {{ q.into() }}")) if i != 3 and n + (i - 3) != 0 else None
        for i in range(4):
            sc = [0] * 4; sc[i] = 1
            bad.append((f"no:comp-scale:{n}:{i}", f"pub fn @(q: {q}) -> {ty(tuple(sc), dims(0, ((2, -1),)), 'f64')} {{ q.into() }}"))
        for t in ("f32", "i32"):
            bad.append((f"no:comp-type:{n}:{t}", f"pub fn @(q: {q}) -> {ty(Z, dims(0, ((2, -1),)), t)} {{ q.into() }}"))
        bad.append((f"no:comp-unbrand:{n}", f"pub fn @(q: {q[:-1]}, MyBrand>) -> {ty(Z, dims(0, ((2, -1),)), 'f64')} {{ q.into() }}"))
        bad.append((f"no:comp-brand:{n}", f"pub fn @(q: {q}) -> {ty(Z, dims(0, ((2, -1),)), 'f64')[:-1]}, MyBrand> {{ q.into() }}"))
        # an angle cannot appear out of nothing
        bad.append((f"no:add-angle:{n}", f"pub fn @(q: {ty(Z, dims(0, ((2, -1),)), 'f64')}) -> {q} {{ q.into() }}"))
    c = Crate("c14")
    hdr = PROBE_SRC + """
#[derive(Clone, PartialEq)] pub struct MyBrand;
macro_rules! c { ($k:literal, $q:ty, $t:ty, $v:ident) => { pub fn $k() {} }; }
"""
    NB = 8
    progs = {}
    allc = [("v",) + x for x in conv] + [("c",) + x for x in comp]
    for b in range(NB):
        p = CaseProgram(PROBE_SRC + """
#[derive(Clone, PartialEq)] pub struct MyBrand;
fn go<S: Copy + Img, Q, R>(k: &str, vs: &[S], mk: fn(S) -> Q, f: fn(Q) -> R, img: fn(R) -> String) {
    for &v in vs { let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| img(f(mk(v)))));
        println!("{}\\t{}\\t{}", k, v.img(), r.unwrap_or("PANIC".into())); } }
fn main() { quiet();
""")
        for t in ALL:
            p.raw(f"    let v_{t}: &[{t}] = &[{', '.join(vals(t))}];")
        for i, x in list(enumerate(allc))[b::NB]:
            p.raw(f"    k{i}(v_{x[4]});" if False else f"    k{i}(v_{x[4]});")
        p.raw("}")
        for i, x in list(enumerate(allc))[b::NB]:
            if x[0] == "v":
                p.case(i, f"fn k{i}(v: &[{x[4]}]) {{ go(\"{i}\", v, <{x[2]}>::new, |q| -> {x[3]} {{ q.into() }}, |r| r.img()) }}")
            else:
                p.case(i, f"fn k{i}(v: &[{x[4]}]) {{ go(\"{i}\", v, <{x[2]}>::new, |q| -> {x[3]} {{ q.into() }}, |r| {{ let q = r; format!(\"{{}} {{:?}} {{:?}}\", q.unsafe_value.img(), <{x[3]} as Probe>::S, <{x[3]} as Probe>::D) }}) }}")
        progs[f"p{b}"] = p
    for b, p in progs.items():
        c.bin(b, p.src())
    # the refusals get a crate of their own, since it must not build
    cb = Crate("c14b")
    pb = CaseProgram(PROBE_SRC + "\n#[derive(Clone, PartialEq)] pub struct MyBrand;\nfn main() {}\n")
    for i, (k, s) in enumerate(bad):
        pb.case(k, s.replace("@", f"b{i}"))
    pb.case("control", f"pub fn control(q: {ty(Z, dims(1), 'f64')}) -> f64 {{ q.into() }}")
    cb.bin("n", pb.src())
    ok, diags = c.build()
    if not ok:
        by, un = attribute(diags, progs)
        if not by:
            raise MachineryError("".join(d["rendered"] for d in un[:3]) + c.stderr[-1500:])
        for i, m in by.items():
            ck.violation(f"compile:{allc[i][1]}", f"erasing {allc[i][2]} into {allc[i][3]} does not compile: {m[:1]}")
    okb, dB = cb.build(check_only=True)
    byb, unb = attribute(dB, {"n": pb})
    if unb or "control" in byb:
        raise MachineryError(f"refusal crate: {[d['rendered'] for d in unb[:2]]} {byb.get('control')}")
    for k, s in bad:
        if k not in byb:
            ck.violation(f"accept:{k}", f"compiles although it must not: {s}")
    ev = nz = 0
    if ok:
        for b in progs:
            r = c.run(b)
            if r.returncode:
                raise MachineryError(f"exit {r.returncode} {r.stderr[-300:]}")
            for line in r.stdout.decode().splitlines():
                k, vi, got = line.split("\t")
                x = allc[int(k)]
                ev += 1
                if x[0] == "c":
                    want = f"{vi} {list(x[5])} {list(x[6])}"
                    if got != want:
                        ck.violation(f"{x[1]}:{vi}", f"erasing the angle of {x[2]} holding {vi} gives {got}, not {want}")
                    continue
                src, tgt, sc = x[4], x[5], x[6]
                v = parse_img(vi, src)
                g = "PANIC" if got == "PANIC" else parse_img(got, tgt)
                nz += 1 if sc != Z or src != tgt else 0
                e = judge(src, tgt, sc, v, g)
                if e:
                    ck.violation(f"{x[1]}:{vi}", f"erasing {x[2]} holding {float(v) if isinstance(v, F) and src[0]=='f' else v} into {tgt} {e}")
        ck.sample(f"{len(conv)} (type, scale, target) conversions, {len(comp)} compound erasures, {len(bad)} refusals")
        ck.sample("e.g. 90 deg f64 -> f64, i64 m/mm -> i32, rad^-3 i128 -> i128")
        if ev < len(allc) * 5:
            raise MachineryError("too few answers")
    ck.finish(evaluations=ev + len(bad), distinct_nontrivial=nz + len(bad), conversions=len(conv), compound=len(comp), refusals=len(bad),
              rule="one evaluation is one value converted at run time, or one conversion refused by the compiler; nontrivial when the scale or the storage type changes, or it must be refused")


main(run, "C14", "exploration")
