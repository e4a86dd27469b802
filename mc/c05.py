"""C05: arithmetic on quantities is the storage type's arithmetic on the numbers and
exponent arithmetic on the unit, for every operator and along every operation sequence."""
import itertools, json
import ref
from lib import *
from c06 import ty

INTS = ["i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"]
BIN = [("+", "add"), ("-", "sub"), ("*", "mul"), ("/", "div"), ("%", "rem")]

HARNESS = PROBE_SRC + """
use whippyunits::quantity;
use std::panic::catch_unwind;
#[derive(Clone, PartialEq)] struct MyBrand;
// reference: the checked operation of the storage type itself
macro_rules! cmpi { ($n:ident, $t:ty, $lab:expr, $vals:expr, $other:expr, [$($mk:tt)*], [$($mk2:tt)*]) => { fn $n() {
  let vals: Vec<$t> = $vals; let others: Vec<$t> = $other; let (mut n, mut p) = (0u64, 0u64);
  macro_rules! one { ($op:expr, $a:expr, $b:expr, $want:expr, $got:expr) => {{
     let want: Option<$t> = $want; let got = catch_unwind(|| -> $t { $got }).ok();
     n += 1; if want.is_none() { p += 1; }
     if want != got { println!("BAD\\t{}\\t{}\\t{}\\t{}\\tgot {:?}, the numbers give {:?}", $lab, $op, $a, $b, got, want); } }} }
  for &a in &vals { for &b in &others {
     one!("q+q", a, b, a.checked_add(b), ($($mk)*(a) + $($mk)*(b)).unsafe_value);
     one!("q-q", a, b, a.checked_sub(b), ($($mk)*(a) - $($mk)*(b)).unsafe_value);
     one!("q%q", a, b, a.checked_rem(b), ($($mk)*(a) % $($mk)*(b)).unsafe_value);
     one!("q*q", a, b, a.checked_mul(b), ($($mk)*(a) * $($mk2)*(b)).unsafe_value);
     one!("q/q", a, b, a.checked_div(b), ($($mk)*(a) / $($mk2)*(b)).unsafe_value);
     one!("q*n", a, b, a.checked_mul(b), ($($mk)*(a) * b).unsafe_value);
     one!("q/n", a, b, a.checked_div(b), ($($mk)*(a) / b).unsafe_value);
     one!("q%n", a, b, a.checked_rem(b), ($($mk)*(a) % b).unsafe_value);
     one!("n*q", a, b, a.checked_mul(b), (a * $($mk)*(b)).unsafe_value);
     one!("n/q", a, b, a.checked_div(b), (a / $($mk)*(b)).unsafe_value);
     one!("q+=q", a, b, a.checked_add(b), { let mut x = $($mk)*(a); x += $($mk)*(b); x.unsafe_value });
     one!("q-=q", a, b, a.checked_sub(b), { let mut x = $($mk)*(a); x -= $($mk)*(b); x.unsafe_value });
     one!("q%=q", a, b, a.checked_rem(b), { let mut x = $($mk)*(a); x %= $($mk)*(b); x.unsafe_value });
     one!("q*=n", a, b, a.checked_mul(b), { let mut x = $($mk)*(a); x *= b; x.unsafe_value });
     one!("q/=n", a, b, a.checked_div(b), { let mut x = $($mk)*(a); x /= b; x.unsafe_value });
     one!("q%=n", a, b, a.checked_rem(b), { let mut x = $($mk)*(a); x %= b; x.unsafe_value });
     let (x, y) = ($($mk)*(a), $($mk)*(b));
     let got = (x < y, x <= y, x > y, x >= y, x == y, x != y, x.partial_cmp(&y));
     let want = (a < b, a <= b, a > b, a >= b, a == b, a != b, a.partial_cmp(&b));
     n += 7; if got != want { println!("BAD\\t{}\\tcompare\\t{}\\t{}\\tgot {:?}, the numbers give {:?}", $lab, a, b, got, want); }
  } }
  println!("N\\t{}\\t{}", n, p);
} } }
macro_rules! negi { ($n:ident, $t:ty, $lab:expr, $vals:expr, [$($mk:tt)*]) => { fn $n() { let vals: Vec<$t> = $vals; let mut n = 0u64;
  for a in vals { let want = a.checked_neg(); let got = catch_unwind(|| (-$($mk)*(a)).unsafe_value).ok(); n += 1;
    if want != got { println!("BAD\\t{}\\t-q\\t{}\\t\\tgot {:?}, the numbers give {:?}", $lab, a, got, want); } } println!("N\\t{}\\t0", n); } } }
macro_rules! cmpf { ($n:ident, $t:ty, $lab:expr, $vals:expr, [$($mk:tt)*], [$($mk2:tt)*]) => { fn $n() {
  let vals: Vec<$t> = $vals; let mut n = 0u64;
  macro_rules! one { ($op:expr, $a:expr, $b:expr, $want:expr, $got:expr) => {{
     let want: $t = $want; let got: $t = $got; n += 1;
     if !(want.to_bits() == got.to_bits() || (want.is_nan() && got.is_nan())) { println!("BAD\\t{}\\t{}\\t{:?}\\t{:?}\\tgot {:?}, the numbers give {:?}", $lab, $op, $a, $b, got, want); } }} }
  for &a in &vals { one!("-q", a, a, -a, (-$($mk)*(a)).unsafe_value);
   for &b in &vals {
     one!("q+q", a, b, a + b, ($($mk)*(a) + $($mk)*(b)).unsafe_value);
     one!("q-q", a, b, a - b, ($($mk)*(a) - $($mk)*(b)).unsafe_value);
     one!("q%q", a, b, a % b, ($($mk)*(a) % $($mk)*(b)).unsafe_value);
     one!("q*q", a, b, a * b, ($($mk)*(a) * $($mk2)*(b)).unsafe_value);
     one!("q/q", a, b, a / b, ($($mk)*(a) / $($mk2)*(b)).unsafe_value);
     one!("q*n", a, b, a * b, ($($mk)*(a) * b).unsafe_value);
     one!("q/n", a, b, a / b, ($($mk)*(a) / b).unsafe_value);
     one!("q%n", a, b, a % b, ($($mk)*(a) % b).unsafe_value);
     one!("n*q", a, b, a * b, (a * $($mk)*(b)).unsafe_value);
     one!("n/q", a, b, a / b, (a / $($mk)*(b)).unsafe_value);
     one!("q+=q", a, b, a + b, { let mut x = $($mk)*(a); x += $($mk)*(b); x.unsafe_value });
     one!("q-=q", a, b, a - b, { let mut x = $($mk)*(a); x -= $($mk)*(b); x.unsafe_value });
     one!("q%=q", a, b, a % b, { let mut x = $($mk)*(a); x %= $($mk)*(b); x.unsafe_value });
     one!("q*=n", a, b, a * b, { let mut x = $($mk)*(a); x *= b; x.unsafe_value });
     one!("q/=n", a, b, a / b, { let mut x = $($mk)*(a); x /= b; x.unsafe_value });
     one!("q%=n", a, b, a % b, { let mut x = $($mk)*(a); x %= b; x.unsafe_value });
     let (x, y) = ($($mk)*(a), $($mk)*(b));
     let got = (x < y, x <= y, x > y, x >= y, x == y, x != y, x.partial_cmp(&y));
     let want = (a < b, a <= b, a > b, a >= b, a == b, a != b, a.partial_cmp(&b));
     n += 7; if got != want { println!("BAD\\t{}\\tcompare\\t{:?}\\t{:?}\\tgot {:?}, the numbers give {:?}", $lab, a, b, got, want); }
  } }
  println!("N\\t{}\\t0", n);
} } }
"""

# (scale, dim) of the operands and of the multiplicative partner
SHAPES = [((0, 0, 0, 0), (0, 1, 0, 0, 0, 0, 0, 0), (3, 0, 3, 0), (0, 0, 1, 0, 0, 0, 0, 0)),
          ((-2, -2, -1, 1), (0, 0, 0, 0, 0, 0, 0, 1), (2, 1, 1, 0), (0, 0, -1, 0, 0, 0, 0, 0)),
          ((-6, 0, -6, 0), (1, 2, -3, -1, 1, -1, 2, -2), (1, -1, 2, -1), (-1, -2, 3, 1, -1, 1, -2, 2)),
          ((0, 0, 0, 0), (0,) * 8, (5, 0, 0, 0), (0,) * 8)]


def mk(s, d, t, brand=None):
    x = ty(s, d, t)
    return (x[:-1] + ", MyBrand>") if brand else x


def values_src(t, full):
    if full:
        return f"(<{t}>::MIN..=<{t}>::MAX).collect()"
    return (f"{{ let mut v: Vec<{t}> = vec![0, 1, 2, 3, 5, 7, 10, 100, <{t}>::MAX, <{t}>::MAX - 1, <{t}>::MAX / 2, <{t}>::MAX / 2 + 1, <{t}>::MAX / 3, <{t}>::MIN, <{t}>::MIN + 1, <{t}>::MIN / 2, "
            f"(0 as {t}).wrapping_sub(1), (0 as {t}).wrapping_sub(2), (0 as {t}).wrapping_sub(7), (0 as {t}).wrapping_sub(100)]; "
            f"let mut b = 0; while b < <{t}>::BITS {{ v.push(1 << b); v.push(((1 as {t}) << b).wrapping_sub(1)); b += {'1' if t in ('i16', 'u16') else '5'}; }} v.sort(); v.dedup(); v }}")


FV = {"f64": "vec![0.0, -0.0, 1.0, -1.0, 0.1, 0.3, 2.0, 3.0, -7.5, 1e300, -1e300, 1e-300, 5e-324, f64::MAX, f64::MIN_POSITIVE, f64::EPSILON, 9007199254740993.0, 1.0/3.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN]",
      "f32": "vec![0.0, -0.0, 1.0, -1.0, 0.1, 0.3, 2.0, 3.0, -7.5, 1e38, -1e38, 1e-38, 1e-45, f32::MAX, f32::MIN_POSITIVE, f32::EPSILON, 16777217.0, 1.0/3.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN]"}


def part_values(ck):
    bins = {}
    tot = []
    k = 0
    for t in INTS + ["f64", "f32"]:
        src = HARNESS
        calls = []
        for i, (s, d, s2, d2) in enumerate(SHAPES):
            br = i == 2
            m1, m2 = mk(s, d, t, br), mk(s2, d2, t, br)
            lab = f"{t} shape {i}"
            if t[0] == "f":
                src += f'cmpf!(c{i}, {t}, "{lab}", {FV[t]}, [<{m1}>::new], [<{m2}>::new]);\n'
            else:
                full = t in ("i8", "u8") and (i == 0 or ck.thorough)
                src += f'cmpi!(c{i}, {t}, "{lab}", {values_src(t, full)}, {values_src(t, full)}, [<{m1}>::new], [<{m2}>::new]);\n'
                if t[0] == "i":
                    src += f'negi!(n{i}, {t}, "{lab}", {values_src(t, t in ("i8", "i16"))}, [<{m1}>::new]);\n'
                    calls.append(f"n{i}();")
            calls.append(f"c{i}();")
        src += "fn main() { quiet(); " + " ".join(calls) + " }\n"
        bins[t] = src
    return bins


GEN = [("m", (0, 0, 0, 0), (0, 1, 0, 0, 0, 0, 0, 0)), ("km", (3, 0, 3, 0), (0, 1, 0, 0, 0, 0, 0, 0)), ("s", (0, 0, 0, 0), (0, 0, 1, 0, 0, 0, 0, 0)),
       ("min", (2, 1, 1, 0), (0, 0, 1, 0, 0, 0, 0, 0)), ("deg", (-2, -2, -1, 1), (0, 0, 0, 0, 0, 0, 0, 1)), ("A", (0, 0, 0, 0), (0, 0, 0, 1, 0, 0, 0, 0)),
       ("g", (-3, 0, -3, 0), (1, 0, 0, 0, 0, 0, 0, 0)), ("K", (0, 0, 0, 0), (0, 0, 0, 0, 1, 0, 0, 0)), ("mol", (0, 0, 0, 0), (0, 0, 0, 0, 0, 1, 0, 0)),
       ("cd", (0, 0, 0, 0), (0, 0, 0, 0, 0, 0, 1, 0))]


def part_types(ck):
    """BFS over quantity types: every sequence of * and / by generators, and inversion."""
    depth = 4 if ck.thorough else 3
    start = [(s, d) for _, s, d in GEN]
    seen = {x: 0 for x in start}
    frontier = list(start)
    trans = []
    for lev in range(1, depth):
        nxt = []
        for (s, d) in frontier:
            for n, gs, gd in GEN:
                for op, ns, nd in (("*", ref.dadd(s, gs), ref.dadd(d, gd)), ("/", ref.dsub(s, gs), ref.dsub(d, gd))):
                    trans.append((s, d, op, n, gs, gd, ns, nd))
                    if (ns, nd) not in seen:
                        seen[(ns, nd)] = lev
                        nxt.append((ns, nd))
            inv = (ref.dmul(s, -1), ref.dmul(d, -1))
            trans.append((s, d, "inv", "", None, None) + inv)
            if inv not in seen:
                seen[inv] = lev
                nxt.append(inv)
        frontier = nxt
    # each axis at each small exponent, against each axis
    for i in range(12):
        for j in range(12):
            for a in (-3, 1, 4):
                for b in (-2, 1, 5):
                    v = [0] * 12; v[i] = a
                    w = [0] * 12; w[j] = b
                    s, d, gs, gd = tuple(v[:4]), tuple(v[4:]), tuple(w[:4]), tuple(w[4:])
                    trans.append((s, d, "*", "axis", gs, gd, ref.dadd(s, gs), ref.dadd(d, gd)))
                    trans.append((s, d, "/", "axis", gs, gd, ref.dsub(s, gs), ref.dsub(d, gd)))
    return seen, trans


def run(ck):
    c = Crate("c05", opt=0)
    bins = part_values(ck)
    for t, s in bins.items():
        c.bin("v_" + t, s)
    seen, trans = part_types(ck)
    NB = 8
    prec = ["f64", "f32", "i32", "u8", "i128"]
    progs = {}
    for b in range(NB):
        p = CaseProgram(PROBE_SRC + "\n#[derive(Clone, PartialEq)] struct MyBrand;\nfn main() {")
        mine = list(enumerate(trans))[b::NB]
        for j in range(0, len(mine), 100):
            p.raw(f"f{j}();")
        p.raw("}")
        for j in range(0, len(mine), 100):
            p.raw(f"fn f{j}() {{")
            for k, (s, d, op, n, gs, gd, ns, nd) in mine[j:j + 100]:
                t = prec[k % len(prec)]
                br = k % 7 == 0
                lit = "1" + (".0" if t[0] == "f" else "")
                a = f"<{mk(s, d, t, br)}>::new({lit})"
                e = f"({lit} as {t}) / {a}" if op == "inv" else f"{a} {op} <{mk(gs, gd, t, br)}>::new({lit})"
                p.case(str(k), f'showq("{k}", {e});')
            p.raw("}")
        progs[f"t{b}"] = p
        c.bin(f"t{b}", p.src())
    ok, diags = c.build()
    if not ok:
        by, un = attribute(diags, progs)
        if not by:
            raise MachineryError("".join(x["rendered"] for x in un[:3]) + c.stderr[-1000:])
        for k, m in by.items():
            s, d, op, n, gs, gd, ns, nd = trans[int(k)]
            ck.violation(f"type:{s}{d}{op}{gs}{gd}", f"the operation does not compile: {m[:2]}")
        ck.finish(evaluations=len(trans), distinct_nontrivial=len(trans), exhaustive=True, rule="compile only")
    ev = pan = 0
    ck.log("built; type states", len(seen), "transitions", len(trans))
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda b: (b, c.run(b)), list(c.bins)))
    nt = 0
    for b, p in outs:
        if p.returncode:
            raise MachineryError(b + p.stderr.decode()[-500:])
        for line in p.stdout.decode().splitlines():
            if b[0] == "v":
                f = line.split("\t")
                if f[0] == "N":
                    ev += int(f[1]); pan += int(f[2]); nt += int(f[1])
                else:
                    ck.violation(f"{f[1]}:{f[2]}:{f[3]}:{f[4]}", f"{f[2]} on {f[1]} with {f[3]}, {f[4]}: {f[5]}")
            else:
                k, s, d, v, br = line.split("\t")
                tr = trans[int(k)]
                ev += 1; nt += 1
                if (tuple(json.loads(s)), tuple(json.loads(d))) != (tr[6], tr[7]):
                    ck.violation(f"type:{tr[0]}{tr[1]}{tr[2]}{tr[4]}{tr[5]}", f"scale {tr[0]} dim {tr[1]} {tr[2]} scale {tr[4]} dim {tr[5]} has type scale {s} dim {d}, expected {tr[6]} {tr[7]}")
                t = prec[int(k) % len(prec)]
                one = {"f64": "d3ff0000000000000", "f32": "s3f800000"}.get(t, t + ":1")
                if v != one or br.endswith("MyBrand") != (int(k) % 7 == 0):
                    ck.violation(f"type:{k}", f"storage type/brand/value lost: {v} {br}")
    ck.sample(trans[5]); ck.sample(trans[-1])
    ck.finish(evaluations=ev, distinct_nontrivial=nt, states=len(seen), transitions=len(trans), traces_validated_against_impl=len(trans), panics_expected=pan, exhaustive=True,
              rule="all pairs of i8/u8 values x every operator x several unit shapes (limits and powers of two for wider types, special values for floats), compared with the storage "
                   "type's own checked operation; breadth-first exploration of the types reachable from 10 units by * / and inversion, every axis against every axis")


if __name__ == "__main__":
    main(run, "C05", "model_checking")
