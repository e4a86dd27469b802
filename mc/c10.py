"""C10: .fmt("unit") shows the quantity's value in that unit, or an error - never a wrong number."""
import itertools, json, re
from fractions import Fraction as F
import ref
from exprmodel import Reject
from lib import *
from c09 import magnitude, TARGETS, ATOMS

SRC = [(t, "f64", v) for t in TARGETS for v in ("2.75", "-40.0")] + \
      [(t, "f32", "2.75") for t in ("m", "km", "K", "deg", "kg")] + [(t, "i32", "-7") for t in ("m", "km", "K", "s", "g", "1")] + \
      [(t, s, "7") for t in ("m", "min") for s in ("i8", "u8", "i16", "u16", "u32")] + \
      [("m", "f64", v) for v in ("0.0", "1e-9", "123456789.125", "1e15", "0.5", "1.005")] + \
      [("K", "f64", v) for v in ("273.15", "0.0", "1000.0")]
BRAND = [("m", "f64", "2.75"), ("kg", "f64", "2.75")]
NONFIN = ["f64::NAN", "f64::INFINITY", "f64::NEG_INFINITY"]


def run(ck):
    CORE = f'whippyunits-core = {{ path = "{REPO}/whippyunits-core" }}'
    PM = f'whippyunits-proc-macros = {{ path = "{REPO}/proc-macros" }}'
    c = Crate("c10", deps=("whippyunits", CORE, PM))
    p = CaseProgram(PROBE_SRC + """
#[allow(unused_imports)] use whippyunits::{unit, quantity, from_string};
#[derive(Clone, PartialEq)] pub struct B1;
fn main() { quiet();
    use std::io::{Read, Write}; let mut s = String::new(); std::io::stdin().read_to_string(&mut s).unwrap();
    let mut o = std::io::BufWriter::new(std::io::stdout());
    for l in s.lines() { let (mode, text) = l.split_once('\\t').unwrap();
        match std::panic::catch_unwind(|| { let mut v = Vec::new(); match mode { "f" => few(text, &mut v), _ => all(text, &mut v) } v }) {
            Ok(v) => { let _ = writeln!(o, "{}", v.join("\\t")); } Err(_) => { let _ = writeln!(o, "PANIC"); } } } }
""")
    srcs = SRC + [s + ("B1",) for s in BRAND] + [("m", "f64", v) for v in NONFIN]
    p.raw("fn all(t: &str, v: &mut Vec<String>) {")
    for i, s in enumerate(srcs):
        br = ", B1" if len(s) == 4 else ""
        p.case(i, f"{{ let q = quantity!({s[2]}, {s[0]}, {s[1]}{br}); v.push(format!(\"{{}}\", q.fmt(t))); " + (f"v.push(format!(\"{{:.0}}\", q.fmt(t))); v.push(format!(\"{{:.3}}\", q.fmt(t)));" if i % 2 == 0 else "") + " }")
    p.raw("}\nfn few(t: &str, v: &mut Vec<String>) {")
    FEW = [("m", "f64", "2.75"), ("m/s", "f64", "2.75"), ("1/s", "f64", "2.75"), ("m^2", "f64", "2.75"), ("1", "f64", "2.75")]
    for i, s in enumerate(FEW):
        p.case(1000 + i, f"v.push(quantity!({s[2]}, {s[0]}).fmt(t).to_string());")
    p.raw("}")
    c.bin("a", p.src())
    ok, diags = c.build()
    if not ok:
        by, un = attribute(diags, {"a": p})
        if not by:
            raise MachineryError("".join(d["rendered"] for d in un[:3]) + c.stderr[-1500:])
        for k, m in by.items():
            s = (srcs + [None] * 1000 + FEW)[k] if k >= 1000 else srcs[k]
            ck.violation(f"compile:{s}", f"fmt does not compile for {s}: {m[:1]}")
        ck.finish(evaluations=0, distinct_nontrivial=0, rule="(the harness did not build)")
    lines = []
    for u, a in ATOMS.items():
        if a[4].name != "lumen":
            lines.append(("a", u))
    A = ["m", "ft", "s2", "min", "kg^-1", "10^3", "1", "deg", "(m*s)", "mi", "Ω", "N"]
    for a, b in itertools.product(A, repeat=2):
        for op in ("*", "/", ".", " / ", " * "):
            lines.append(("a", f"{a}{op}{b}"))
    for a, b, d in itertools.product(["m", "s", "ft2", "kg", "h"], repeat=3):
        for o1, o2 in itertools.product("*/.", repeat=2):
            lines.append(("a", f"{a}{o1}{b}{o2}{d}"))
    for u in ("m^2", "m2", "ft^2", "ft2", "s^-1", "min^-1", "m^-1", "ft^-1", "1/ft", "1/h", "mi/h", "km/h", "1", "10", "10^2", "kg*m/s^2", "lb*ft/s^2", "mmm", "", " ", "m m", "xyz", "kft", "mdegC", "m^", "^2", "m//s", "m/*s*/", "degc", "M", "2", "2*m", "0.5*m", "m^1.5", "m^x", "(m", "m)", "m:2", "\u00b2", "m²", "m·s"):
        lines.append(("a", u))
    toks = ["m", "s2", "ft", "10", "1", "3", "*", ".", "/", "^", "2", "-1", "(", ")"]
    L = 2 if CONFIG else 5 if ck.thorough else 4
    for n in range(0, L + 1):
        for t in itertools.product(toks, repeat=n):
            lines.append(("f", " ".join(t)))
    lines = list(dict.fromkeys(lines))
    r = c.run("a", input=("\n".join(f"{m}\t{t}" for m, t in lines) + "\n").encode())
    if r.returncode:
        raise MachineryError(f"exit {r.returncode}: {r.stderr.decode()[-500:]}")
    out = r.stdout.decode().split("\n")[:-1]
    if len(out) != len(lines):
        raise MachineryError(f"{len(out)} answers to {len(lines)} inputs")
    mags = {}
    for s in srcs + FEW:
        mags[s[0]] = magnitude(s[0])
    f32v = F(2.75)
    ev = shown = 0
    for (mode, u), line in zip(lines, out):
        if line == "PANIC":
            ck.violation(f"panic:{u}", f".fmt({u!r}) panics")
            continue
        try:
            tgt = magnitude(u)
        except Reject:
            tgt = None
        cols = line.split("\t")
        ci = 0
        for i, s in enumerate(srcs if mode == "a" else FEW):
            n = 3 if mode == "a" and i % 2 == 0 else 1
            got, ci = cols[ci:ci + n], ci + n
            ev += n
            key = f"{s}:{u}"
            sd, sm, so, st = mags[s[0]]
            if tgt is None or tgt[0] != sd:
                for g in got:
                    if not g.startswith("Error:"):
                        ck.violation(key, f"{s[2]} {s[0]} as {u!r} shows {g!r} although " + ("that is no unit" if tgt is None else "the dimensions differ"))
                    elif tgt is not None and not ("ismatch" in g and g.endswith(" " + u)):
                        ck.violation(key, f"{s[2]} {s[0]} as {u!r} shows {g!r}, not a dimension mismatch naming the unit")
                    elif tgt is None and "ismatch" in g:
                        ck.violation(key, f"{s[2]} {s[0]} as {u!r} shows {g!r} although that is no unit")
                continue
            if not got[0].endswith(" " + u):
                ck.violation(key, f"{s[2]} {s[0]} as {u!r} shows {got[0]!r}, not in the unit asked for")
                continue
            num = got[0][:len(got[0]) - len(u) - 1]
            if s[2] in NONFIN:
                # a non-finite value stays what it is
                w = {"f64::NAN": "NaN", "f64::INFINITY": "inf", "f64::NEG_INFINITY": "-inf"}[s[2]]
                if num != w:
                    ck.violation(key, f"{s[2]} {s[0]} as {u!r} shows {got[0]!r}")
                continue
            try:
                x = F(num)
            except ValueError:
                ck.violation(key, f"{s[2]} {s[0]} as {u!r} shows {got[0]!r}")
                continue
            shown += 1
            v = F(s[2])
            want = (v * sm + so - tgt[2]) / tgt[1]
            big = max(abs(want), abs(tgt[2] / tgt[1]))
            if abs(x - want) > big * max(F(1, 2 ** 47), 4 * tgt[3], 4 * st):
                ck.violation(key, f"{s[2]} {s[0]} as {u!r} shows {got[0]!r}, should be {float(want)!r}")
                continue
            fx = float(x)
            for g, pr in zip(got[1:], (0, 3)):
                if g != f"{fx:.{pr}f} {u}":
                    ck.violation(key + f":.{pr}", f"{s[2]} {s[0]} as {u!r} with {pr} decimals shows {g!r} instead of {fx:.{pr}f}")
    ck.sample(dict(source=SRC[0], unit=lines[0][1], shown=out[0].split("\t")[0])); ck.sample(lines[len(lines) // 2][1])
    ck.assumptions.append("lumen is left out (known finding of C01); width and alignment flags are not claimed")
    ck.finish(evaluations=ev, distinct_nontrivial=len(lines), shown=shown, exhaustive=True,
              rule=f"{len(srcs)} source quantities (every target unit of C09, storage types, brand, special values) x every catalogue spelling, compound spellings and every token sequence of length <= {L} over 14 tokens, three precisions")


if __name__ == "__main__":
    main(run, "C10", "exploration")
