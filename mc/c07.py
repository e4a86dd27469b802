"""C07: integer rescaling is exact rational arithmetic truncated toward zero, or a panic."""
import itertools
from fractions import Fraction as F
from lib import *
from c06 import ty, DIMS

T = {}
for w in (8, 16, 32, 64, 128):
    T[f"i{w}"] = (-2 ** (w - 1), 2 ** (w - 1) - 1)
    T[f"u{w}"] = (0, 2 ** w - 1)
T["isize"], T["usize"] = T["i64"], T["u64"]


def factor(d):
    return F(2) ** d[0] * F(3) ** d[1] * F(5) ** d[2] * F(355, 113) ** d[3]


def fits(d):
    """The ratio as a product of prime powers fits in i128 on either side."""
    n = m = 1
    for b, e in ((F(2), d[0]), (F(3), d[1]), (F(5), d[2]), (F(355, 113), d[3])):
        x = b ** e
        n *= x.numerator; m *= x.denominator
    return max(n, m) < 2 ** 127


def deltas(thorough):
    out = set()
    for n in range(-37, 38):
        out.add((n, 0, n, 0))
    for n in range(-6, 7):
        for k in ((2, 1, 1), (4, 2, 2), (7, 3, 2), (7, 3, 2)):
            for s in (1, -1):
                out.add((n + s * k[0], s * k[1], n + s * k[2], 0))
    r = 3 if thorough else 1
    out |= set(itertools.product(range(-r, r + 1), repeat=4))
    for i, top in enumerate((100, 70, 50, 8)):
        for e in range(-9 if i < 3 else -4, 10 if i < 3 else 5):
            d = [0] * 4; d[i] = e; out.add(tuple(d))
        for e in (top, -top, top // 2, -(top // 2)):
            d = [0] * 4; d[i] = e; out.add(tuple(d))
    for e in ((-2, -2, -1, 1), (2, 2, 1, -1), (1, 0, 0, 1), (-1, 0, 0, -1), (60, 0, -25, 0), (-60, 0, 25, 0), (-40, 40, 0, 0), (-63, 0, 54, 0), (63, 0, -54, 0), (-64, 40, 0, 0), (-100, 0, 54, 0), (100, -79, 0, 0),):
        out.add(e)
    return sorted(d for d in out if fits(d) and max(map(abs, d)) <= 100)


def run(ck):
    ds = deltas(ck.thorough)
    offs = [(0, 0, 0, 0), (3, 0, 3, 0), (-6, 0, -6, 0), (2, 1, 1, 0)]
    ps = []
    for k, d in enumerate(ds):
        o = offs[k % 4]
        fr = tuple(a + b for a, b in zip(d, o)); to = o
        if max(map(abs, fr)) > 200:
            fr, to = d, (0,) * 4
        ps.append((d, fr, to))
    c = Crate("c07", opt=1)
    NB = 8
    hdr = PROBE_SRC + """
use whippyunits::quantity::*;
use whippyunits::api::*;
use std::panic::catch_unwind;
use std::io::BufRead;
macro_rules! f { ($f:ident, $F:ty, $T:ty, $n:ty) => { { fn go(v: &str) -> String { let v: $n = v.parse().unwrap();
   match catch_unwind(move || { let r: $T = $f(<$F>::new(v)); r.unsafe_value }) { Ok(r) => r.to_string(), Err(_) => "!".into() } } go } } }
// every value of a narrow type; the reference quotient is computed here in i128
macro_rules! all { ($k:expr, $f:ident, $F:ty, $T:ty, $n:ty, $num:expr, $den:expr, $full:expr) => {{
   fn go() { let (mut ok, mut pan) = (0u64, 0u64);
     let mut outside = 0u64;
     for v in <$n>::MIN..=<$n>::MAX {
       let w = (v as i128) * ($num as i128) / ($den as i128);
       let inside = w >= <$n>::MIN as i128 && w <= <$n>::MAX as i128;
       if inside { let got = catch_unwind(|| { let r: $T = $f(<$F>::new(v)); r.unsafe_value });
           match got { Ok(r) if r as i128 == w => ok += 1, other => println!("BAD {} {} {} {:?} {}", $k, stringify!($f), v, other.ok(), w) } }
       else { outside += 1; if $full || outside % 97 == 1 { let got = catch_unwind(|| { let r: $T = $f(<$F>::new(v)); r.unsafe_value });
           match got { Err(_) => pan += 1, Ok(r) => println!("BAD {} {} {} {:?} overflow", $k, stringify!($f), v, Some(r)) } } }
     } println!("ALL {} {} {} {}", $k, stringify!($f), ok, pan); }
   go() }} }
"""
    names = list(T)
    for i in range(NB):
        mine = list(enumerate(ps))[i::NB]
        tbl, alls = [], []
        for k, (d, fr, to) in mine:
            dm = DIMS[k % len(DIMS)]
            for t in names:
                tbl.append((k, t, f'f!(rescale_{t}, {ty(fr, dm, t)}, {ty(to, dm, t)}, {t})'))
                if t in ("i8", "u8", "i16", "u16"):
                    f = factor(d)
                    if max(f.numerator, f.denominator) < 10 ** 30 and (t[1:] == "8" or ck.thorough or max(map(abs, d)) <= 6):
                        alls.append(f'all!("{k}", rescale_{t}, {ty(fr, dm, t)}, {ty(to, dm, t)}, {t}, {f.numerator}i128, {f.denominator}i128, {"true" if t[1:] == "8" else "false"});')
        src = hdr
        for j in range(0, len(alls), 40):
            src += f"fn a{j}() {{\n" + "\n".join(alls[j:j + 40]) + "\n}\n"
        src += "fn get(k: u32, t: &str) -> fn(&str) -> String { match (k, t) {\n"
        src += "\n".join(f'({k}, "{t}") => {e},' for k, t, e in tbl)
        src += '\n_ => panic!() } }\nfn main() { quiet();\n' + "".join(f"a{j}();\n" for j in range(0, len(alls), 40))
        src += """ let stdin = std::io::stdin();
   for l in stdin.lock().lines() { let l = l.unwrap(); let mut p = l.split(' '); let k: u32 = p.next().unwrap().parse().unwrap(); let t = p.next().unwrap();
     let f = get(k, t); let mut o = String::from("R"); for v in p { o.push(' '); o += &f(v); } println!("{o}"); } }
"""
        c.bin(f"m{i}", src)
    ok, diags = c.build()
    if not ok:
        raise MachineryError("".join(d["rendered"] for d in diags[:3]) + c.stderr[-1500:])
    ck.log("built;", len(ps), "scale pairs")
    ev = nt = 0
    import concurrent.futures as cf

    def vals(t, d):
        lo, hi = T[t]
        f = factor(d)
        s = {0, 1, 2, 3, 5, 7, 10, 100, 113, 355, 999, 1000, 1001, lo, lo + 1, hi, hi - 1, hi // 2, hi // 3, -1, -2, -7, -999, -1000, -1001, lo // 2, 0x55555555555555555555555555555555, 10 ** 18, 10 ** 18 + 1, -10 ** 18 - 1, 123456789012345678901234567890}
        for b in range(0, hi.bit_length() + 1, 1 if ck.thorough else 3):
            s |= {2 ** b, 2 ** b - 1, 2 ** b + 1, -2 ** b, -2 ** b - 1}
        for lim in (hi, lo):  # around the representability limits
            x = int(F(lim) / f)
            s |= {x + e for e in (-2, -1, 0, 1, 2)}
        for lim in (hi, lo):  # around the point where the product leaves the type
            x = int(F(lim, f.numerator))
            s |= {x + e for e in (-1, 0, 1)}
        for m in (1, 2, 3):
            x = int(F(m) / f)
            s |= {x + e for e in (-1, 0, 1)} | {-x + e for e in (-1, 0, 1)}
        return sorted(v for v in s if lo <= v <= hi)

    def drive(i):
        mine = list(enumerate(ps))[i::NB]
        plan = [(k, t, vals(t, ps[k][0])) for k, _ in mine for t in names]
        p = c.run(f"m{i}", input="".join(f"{k} {t} {' '.join(map(str, vs))}\n" for k, t, vs in plan).encode())
        return plan, p
    with cf.ThreadPoolExecutor(8) as ex:
        results = list(ex.map(drive, range(NB)))
    for plan, p in results:
        if p.returncode:
            raise MachineryError(p.stderr.decode()[-800:])
        lines = p.stdout.decode().splitlines()
        for l in lines:
            if l.startswith("BAD"):
                _, k, fn, v, got, w = l.split(" ")
                ck.violation(f"{fn}:{ps[int(k)][0]}:{v}", f"{fn} of {v} by ratio {factor(ps[int(k)][0])} gives {got}, exact truncated value {w}")
            elif l.startswith("ALL"):
                _, k, fn, a, b = l.split(" ")
                ev += int(a) + int(b); nt += int(a) + int(b)
        rs = [l[2:].split(" ") for l in lines if l.startswith("R")]
        assert len(rs) == len(plan)
        for (k, t, vs), out in zip(plan, rs):
            d = ps[k][0]
            f = factor(d)
            lo, hi = T[t]
            for v, r in zip(vs, out):
                ev += 1
                x = v * f.numerator
                w = abs(x) // f.denominator * (1 if x >= 0 else -1)
                nt += f != 1
                want = str(w) if lo <= w <= hi else "!"
                if r != want:
                    ck.violation(f"rescale_{t}:{d}:{v}", f"rescale_{t} of {v} by ratio {f} (exponents of 2,3,5,pi: {d}) gives {'a panic' if r == '!' else r}, exact truncated value {w}")
    # the user-level macro
    src = PROBE_SRC + "use whippyunits::{quantity,unit,rescale};\nfn main() {\n"
    us = [("m", "cm", F(100), 1), ("cm", "m", F(1, 100), 101), ("min", "s", F(60), 2), ("s", "min", F(1, 60), 119), ("kg", "g", F(1000), 0), ("km / h", "m / h", F(1000), 0), ("L", "m^3", F(1, 1000), 127), ("deg", "rot", F(1, 360), 127)]
    for a, b, f, v in us:
        for t in names:
            src += f'{{ let q = quantity!({v}, {a}, {t}); let r: unit!({b}, {t}) = rescale!(q, {b}, {t}); println!("{t}|{a}|{b}|{{}}", r.unsafe_value); }}\n'
    c2 = Crate("c07u"); c2.bin("users", src.replace("fn main() {", "fn main() { quiet();") + "}\n")
    # i8/u8 cannot hold 100*... ; the alphabet above was chosen so that all results fit
    ok, diags = c2.build()
    if not ok:
        raise MachineryError("".join(d["rendered"] for d in diags[:3]))
    um = {(a, b): (f, v) for a, b, f, v in us}
    p = c2.run("users")
    n = 0
    for line in p.stdout.decode().splitlines():
        t, a, b, r = line.split("|")
        f, v = um[(a, b)]
        ev += 1; nt += 1; n += 1
        if int(r) != int(v * f):
            ck.violation(f"rescale!:{a}->{b}:{t}", f"rescale!({v} {a}, {b}, {t}) = {r} instead of {int(v*f)}")
    if n != len(us) * len(names):
        ck.violation("rescale!:panic", f"rescale! panicked although the result fits: after {p.stdout.decode().splitlines()[-1:]}")
    ck.sample(ps[3]); ck.sample(ps[-3])
    ck.assumptions.append("pi is the documented rational 355/113; ratios whose numerator or denominator exceeds i128 are out of bounds")
    ck.finish(evaluations=ev, distinct_nontrivial=nt, scale_pairs=len(ps), exhaustive=True,
              rule="every value of i8/u8 (and of i16/u16 for small exponents, every pair in the thorough tier) for every ratio; for all 14 integer types powers of two, type limits, "
                   "representability limits and quotient steps +-2. Non-trivial: ratio is not 1")


if __name__ == "__main__":
    main(run, "C07", "exploration")
