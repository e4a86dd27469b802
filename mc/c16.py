"""C16: a generic dimension admits exactly the quantities of the dimensions it names."""
import itertools
import ref, exprmodel
from exprmodel import Reject
from c06 import ty
from lib import *

D = ref.dim
NAMES = dict(Mass=D(M=1), Length=D(L=1), Time=D(T=1), Current=D(I=1), Temperature=tuple(int(i == 4) for i in range(8)), Amount=tuple(int(i == 5) for i in range(8)),
             Luminosity=D(J=1), Angle=tuple(int(i == 7) for i in range(8)))
SYM = dict(M="Mass", L="Length", T="Time", I="Current", Θ="Temperature", N="Amount", J="Luminosity", A="Angle")
DERIVED = dict(Area=D(L=2), Volume=D(L=3), Frequency=D(T=-1), Force=D(M=1, L=1, T=-2), Energy=D(M=1, L=2, T=-2), Power=D(M=1, L=2, T=-3), Pressure=D(M=1, L=-1, T=-2),
               Capacitance=D(M=-1, L=-2, T=4, I=2), Inductance=D(M=1, L=2, T=-2, I=-2), Illuminance=D(L=-2, J=1))
TAB = {k: (v, (0, 0, 0, 0), exprmodel.F(1)) for k, v in [*NAMES.items(), *DERIVED.items(), *((s, NAMES[n]) for s, n in SYM.items())]}
ALPHA = ["L", "T", "Mass", "Energy", "M2", "1", "2", "*", ".", "/", "^", "-", "(", ")"]
SMALL = ["L", "Time", "1", "2", "*", "/", "^", "-", "(", ")"]


def model(toks):
    """dimension vector or Reject"""
    # a negative exponent is one token of the model
    out = []
    i = 0
    while i < len(toks):
        if toks[i] == "-":
            if not (out and out[-1] == "^" and i + 1 < len(toks) and toks[i + 1].isdigit()):
                raise Reject()
            out.append("-" + toks[i + 1]); i += 2
            continue
        out.append(toks[i]); i += 1
    for j, t in enumerate(out):
        if t.isdigit() and t != "1" and not (j and out[j - 1] == "^"):
            raise Reject()
        # (1)^n, 1^n: a number takes at most one exponent, as any atom does
    v = exprmodel.parse(out, TAB)
    if any(v[1]):
        raise Reject()
    return v[0]


def balanced(toks):
    n = 0
    for t in toks:
        n += (t == "(") - (t == ")")
        if n < 0:
            return False
    return n == 0


def lexes(toks):
    """adjacent tokens that would merge are left out (2 . 1 is a float when glued; we always put blanks)"""
    return True


def expressions(thorough):
    seqs = []
    for n in range(1, 5 if thorough else 4):
        seqs += itertools.product(ALPHA, repeat=n)
    seqs += itertools.product(SMALL, repeat=4)
    if thorough:
        seqs += itertools.product(SMALL, repeat=5)
    seqs = [s for s in dict.fromkeys(seqs) if balanced(s)]
    ats = list(TAB)
    for a in ats:
        seqs += [(a,), (a, "^", "3"), (a, "^", "-", "4"), ("1", "/", a), ("(", a, "/", "T", ")", "^", "2")]
        if len(a) == 1:
            seqs += [(a + "2",), (a + "17",)]
    for a, b in itertools.product(list(NAMES), list(SYM)):
        seqs += [(a, op, b) for op in "*./"] + [(a, "^", "2", "/", b, "^", "3")]
    for a, b, c in itertools.product(("M", "Length", "T"), repeat=3):
        seqs += [(a, o1, b, o2, c) for o1, o2 in itertools.product("*./", repeat=2)]
        seqs += [(a, "^", "-", "2", o1, b, "2", o2, c, "^", "5") for o1, o2 in itertools.product("*./", repeat=2)] if False else []
    seqs += [("M", "*", "L", "^", "2", "/", "T", "^", "3", "/", "I"), ("M", ".", "L2", "/", "T2"), ("T", "^", "4", ".", "I", "^", "2", "/", "M", "/", "L", "^", "2"), ("L", "^", "200"), ("L", "^", "-", "200"), ("T", "^", "32767"),
             ("Foo",), ("length",), ("LENGTH",), ("Speed",), ("L", "/", "Foo"), ("m",), ("L", "^", "T"), ("L", "^", "40000"), ("L", "L"), ("2",), ("0",), ("L", "+", "T"), ("Meter",), ("L", "/"), ("/", "L")]
    return list(dict.fromkeys(seqs))


SC = [(0, 0, 0, 0), (3, 0, 3, 0), (-2, -2, -1, 1), (2, 1, 1, 0)]
ST = ["f64", "f32", "i32", "u8", "i128", "String"]


def neighbours(v):
    out = []
    for i in range(8):
        for s in (1, -1):
            w = list(v); w[i] += s
            out.append(tuple(w))
    out.append(tuple(-x for x in v)); out.append((0,) * 8)
    out.append(tuple(2 * x for x in v))
    out.append((v[1], v[0]) + v[2:]); out.append(v[:2] + (v[3], v[2]) + v[4:])
    return [w for w in dict.fromkeys(out) if w != v]


def run(ck):
    good, bad = [], []
    for s in expressions(ck.thorough):
        try:
            v = model(list(s))
        except Reject:
            bad.append(s)
            continue
        (good if max(map(abs, v)) <= 32767 else bad).append((s, v) if max(map(abs, v)) <= 32767 else s)
    # several alternatives
    multi = []
    dist = {}
    for s, v in good:
        dist.setdefault(v, s)
    vs = [v for v in dist if max(map(abs, v)) <= 6]
    for k in range(0, len(vs) - 4, 2):
        multi.append([(dist[v], v) for v in vs[k:k + 2 + k // 2 % 3]])
    traits = [[(s, v)] for s, v in good] + multi
    ck.log("traits", len(traits), "refusals", len(bad))
    NB = 16
    c = Crate("c16")
    progs = {}
    HDR = PROBE_SRC + """
use whippyunits::dimension_traits::define_generic_dimension;
struct P<T>(core::marker::PhantomData<T>);
trait No { const IS: bool = false; }
impl<T> No for P<T> {}
fn same<A, B>() -> bool where A: 'static, B: 'static { std::any::TypeId::of::<A>() == std::any::TypeId::of::<B>() }
"""
    ev = 0
    expect = {}
    for b in range(NB):
        mine = list(enumerate(traits))[b::NB]
        p = CaseProgram(HDR + "fn main() { " + " ".join(f"m{i}::go();" for i, _ in mine) + " at(); }")
        for i, alts in mine:
            tgt = []  # (type, expected)
            for j, (s, v) in enumerate(alts):
                for k in range(4 if len(alts) == 1 else 1):
                    tgt.append((ty(SC[(k + i) % 4], v, ST[(i + k) % 6]), 1))
            inside = {v for _, v in alts}
            for s, v in alts:
                for k, w in enumerate(neighbours(v)):
                    if w not in inside and max(map(abs, w)) <= 32767:
                        tgt.append((ty(SC[(k + i) % 4], w, ST[(i + k) % 6]), 0))
            expect[i] = [x for _, x in tgt]
            ev += len(tgt)
            ex = ", ".join(" ".join(s) for s, _ in alts)
            assoc = ty(SC[i % 4], alts[0][1], "f64")
            p.case(i, f"mod m{i} {{ use super::*; define_generic_dimension!(Tr, {ex}); impl<T: Tr> P<T> {{ const IS{i}: bool = true; }} trait No{i} {{ const IS{i}: bool = false; }} impl<T> No{i} for P<T> {{}} "
                   f"pub fn go() {{ let r: &[bool] = &[{', '.join(f'<P<{t}>>::IS{i}' for t, _ in tgt)}]; println!(\"{i} {{}} {{}}\", same::<<{assoc} as Tr>::Unit, {assoc}>(), r.iter().map(|b| if *b {{ '1' }} else {{ '0' }}).collect::<String>()); }} }}")
        # the predefined traits
        ts = list(NAMES)
        p.raw("fn at() {")
        if b == 0:
            for n, v in NAMES.items():
                cand = [v] + neighbours(v)
                p.raw(f"{{ use whippyunits::dimension_traits::{n} as Tr; impl<T: Tr> P<T> {{ const A{n}: bool = true; }} trait N2 {{ const A{n}: bool = false; }} impl<T> N2 for P<T> {{}} let r = [" +
                      ", ".join(f"<P<{ty(SC[k % 4], w, ST[k % 6])}>>::A{n}" for k, w in enumerate(cand)) + f"]; println!(\"{n} true {{}}\", r.iter().map(|b| if *b {{ '1' }} else {{ '0' }}).collect::<String>()); }}")
                expect[n] = [1] + [0] * (len(cand) - 1)
                ev += len(cand)
        p.raw("}")
        progs[f"g{b}"] = p
        c.bin(f"g{b}", p.src())
    ok, diags = c.build(timeout=850)
    if not ok:
        by, un = attribute(diags, progs)
        if not by:
            raise MachineryError("".join(d["rendered"] for d in un[:3]) + c.stderr[-1500:])
        for i, m in by.items():
            ck.violation("expr:" + "|".join(" ".join(s) for s, _ in traits[i]), f"define_generic_dimension!(Tr, {', '.join(' '.join(s) for s, _ in traits[i])}) does not compile or does not admit {traits[i][0][1]}: {m[:1]}")
    ck.log("built")
    seen = set()
    for b in progs:
        if b not in c.exes:
            continue
        p = c.run(b)
        if p.returncode:
            raise MachineryError(p.stderr.decode()[-800:])
        for line in p.stdout.decode().splitlines():
            k, same, bits = line.split(" ")
            k = int(k) if k.isdigit() else k
            seen.add(k)
            alts = traits[k] if isinstance(k, int) else [((k,), NAMES[k])]
            key = "expr:" + "|".join(" ".join(s) for s, _ in alts)
            if same != "true":
                ck.violation(key + ":Unit", "the trait's Unit type is not the quantity itself")
            got = [int(x) for x in bits]
            if got != expect[k]:
                n = next(i for i, (a, e) in enumerate(zip(got, expect[k])) if a != e)
                ck.violation(key, f"generic dimension {key[5:]} (dimension {[v for _, v in alts]}) {'admits' if got[n] else 'refuses'} candidate {n} (the first {sum(expect[k])} have the dimension, the others differ)")
    if ok and len(seen) != len(traits) + len(NAMES):
        raise MachineryError("missing answers")
    # refusals: each on its own line of a crate that is only checked
    c2 = Crate("c16b")
    pb = {}
    for b in range(4):
        p = CaseProgram("use whippyunits::dimension_traits::define_generic_dimension;\nfn main() {}")
        for i, s in list(enumerate(bad))[b::4]:
            p.case(i, f"mod m{i} {{ use super::*; define_generic_dimension!(Tr, {' '.join(s)}); }}")
        p.case("control", "mod control { use super::*; define_generic_dimension!(Tr, M * L / T ^ 2); }")
        pb[f"n{b}"] = p
        c2.bin(f"n{b}", p.src())
    ok2, diags = c2.build(check_only=True, timeout=850)
    by, un = attribute(diags, pb)
    if un:
        raise MachineryError("".join(d["rendered"] for d in un[:2]))
    if "control" in by:
        raise MachineryError("control does not compile")
    for i, s in enumerate(bad):
        ev += 1
        if i not in by:
            ck.violation("bad:" + " ".join(s), f"define_generic_dimension!(Tr, {' '.join(s)}) is accepted although it is not a dimension expression")
    for t in traits[5::400][:6]:
        ck.sample(" | ".join(" ".join(s) for s, _ in t))
    ck.finish(evaluations=ev, distinct_nontrivial=len(dist), exhaustive=True, traits=len(traits), refusals=len(bad),
              rule="every balanced token sequence of up to 3 (4 thorough) tokens over a 14-token alphabet and up to 4 (5) over a 10-token one, every name and symbol in 5 forms, all products and quotients of names and symbols, disjunctions of 2-4; "
                   "each trait is asked about its dimension at 4 scales and storage types and about 20 neighbouring dimensions; non-trivial = distinct dimension vectors")


if __name__ == "__main__":
    main(run, "C16", "exploration")
