"""C22: the catalogue of whippyunits-core answers consistently: exponent algebra (run-time and
type-level), scale algebra, prefixes, and every look-up of a unit, prefix or dimension."""
import itertools, json, math
from fractions import Fraction as F
import ref
from lib import *
from c11 import DIMNAME

AX = ["Mass", "Length", "Time", "Current", "Temperature", "Amount", "Luminosity", "Angle"]
AXSYM = ["M", "L", "T", "I", "Θ", "N", "J", "A"]
SUP = str.maketrans("-0123456789", "⁻⁰¹²³⁴⁵⁶⁷⁸⁹")
UNSUP = {chr(v): chr(k) for k, v in SUP.items()}
DIMS = {k: v for k, v in DIMNAME.items() if k != "Dimensionless"}
for i, a in enumerate(AX):
    DIMS[a] = tuple(int(i == j) for j in range(8))
BYEXP = {v: k for k, v in DIMS.items()}
ATOMS = ref.atoms()
PNAMES = {n: p for _, _, n, p in ref.PREFIXES}
PSYMS = {x: n for s, alts, n, p in ref.PREFIXES for x in [s] + alts}
CAP = {n[0].upper() + n[1:] + u.name: (u, n) for n in PNAMES for u in ref.UNITS if u.prefixable}
PREF = {p: n for _, _, n, p in ref.PREFIXES}
MORE = {"slug": ("M", "14.593902937206364829"), "fathom": ("L", "1.8288"), "furlong": ("L", "201.168")}
DIMCONST = "MASS LENGTH TIME CURRENT TEMPERATURE AMOUNT LUMINOSITY ANGLE AREA VOLUME FREQUENCY FORCE ENERGY POWER PRESSURE ELECTRIC_CHARGE ELECTRIC_POTENTIAL CAPACITANCE ELECTRIC_RESISTANCE ELECTRIC_CONDUCTANCE INDUCTANCE MAGNETIC_FIELD MAGNETIC_FLUX ILLUMINANCE VOLUME_MASS_DENSITY LINEAR_MASS_DENSITY DYNAMIC_VISCOSITY KINEMATIC_VISCOSITY NONE".split()
UNITCONST = "GRAM GRAIN CARAT OUNCE TROY_OUNCE TROY_POUND POUND STONE SLUG TON METER INCH FOOT YARD FATHOM FURLONG MILE NAUTICAL_MILE ASTRONOMICAL_UNIT LIGHT_YEAR PARSEC SECOND MINUTE HOUR DAY WEEK MONTH YEAR AMPERE KELVIN CELSIUS RANKINE FAHRENHEIT MOLE RADIAN DEGREE GRADIAN TURN ARCMINUTE ARCSECOND HERTZ NEWTON JOULE NEWTON_METER ELECTRONVOLT ERG CALORIE FOOT_POUND KILOWATT_HOUR THERM WATT HORSEPOWER PASCAL TORR PSI BAR ATMOSPHERE COULOMB VOLT FARAD OHM SIEMENS HENRY TESLA GAUSS WEBER LUX LUMEN CANDELA STOKES HECTARE ACRE LITER GALLON_US GALLON_UK QUART_US QUART_UK PINT_US PINT_UK CUP_US CUP_UK FLUID_OUNCE_US FLUID_OUNCE_UK TABLESPOON_US TABLESPOON_UK TEASPOON_US TEASPOON_UK BUSHEL".split()

SRC = r'''
use std::io::{BufRead, Write};
use whippyunits_core::*;
use whippyunits_core::dimension_exponents::*;
use whippyunits_core::scale_exponents::ScaleExponents as S;
fn u(x: Option<(&'static Unit, &'static Dimension)>) -> String { x.map_or("-".into(), |(u, d)| format!("{}/{}", u.name, d.name)) }
fn up(x: Option<(&'static SiPrefix, &str)>) -> String { x.map_or("-".into(), |(p, b)| format!("{}/{}", p.name(), b)) }
fn ints(s: &str) -> Vec<i16> { s.split(',').map(|x| x.parse().unwrap()).collect() }
fn d8(s: &str) -> DynDimensionExponents { DynDimensionExponents(ints(s).try_into().unwrap()) }
fn s4(s: &str) -> S { S(ints(s).try_into().unwrap()) }
fn one(l: &str) -> String {
    let f: Vec<&str> = l.split('\t').collect();
    match f[0] {
        "U" => {
            let s = f[1];
            let strips: Vec<String> = SiPrefix::ALL.iter().flat_map(|p| [p.strip_prefix_name(s).map(|b| format!("n{}/{}", p.name(), b)), p.strip_prefix_symbol(s).map(|b| format!("s{}/{}", p.name(), b))]).flatten().collect();
            [u(Dimension::find_unit_by_name(s)), u(Dimension::find_unit_by_symbol(s)),
             Dimension::find_by_literal(s).map_or("-".into(), |(u, d, p)| format!("{}/{}/{}", u.name, d.name, p.map_or("", |p| p.name()))),
             get_unit_info(s).map_or("-".into(), |u| u.name.into()),
             Dimension::find_dimension(s).map_or("-".into(), |d| d.name.into()),
             Unit::multiple_to_base_unit(s).map_or("-".into(), |(u, p)| format!("{}/{}", u.name, p.map_or("", |p| p.name()))),
             Unit::find_base(s).map_or("-".into(), |u| u.name.into()),
             SiPrefix::from_symbol(s).map_or("-".into(), |p| p.name().into()),
             up(SiPrefix::strip_any_prefix_name(s)), up(SiPrefix::strip_any_prefix_symbol(s)),
             strips.join(" "), make_plural(s), CapitalizedFmt(s).to_string()].join("\t")
        }
        "D" => { let d = d8(f[1]);
            format!("{}\t{}\t{}\t{}\t{:?}\t{:?}", Dimension::find_dimension_by_exponents(d).map_or("-", |d| d.name), d.is_zero(),
                d.as_basis().map_or("-".into(), |b| format!("{b:?}")), d, (-d).0, d.value().0) }
        "A" => format!("{:?}", (d8(f[1]) + d8(f[2])).0),
        "M" => format!("{:?}", (d8(f[1]) * f[2].parse::<i16>().unwrap()).0),
        "S" => { let (a, b) = (s4(f[1]), s4(f[2])); let n: i16 = f[3].parse().unwrap();
            format!("{:?}\t{:?}\t{:?}\t{}\t{}", a.mul(b).0, a.neg().0, a.scalar_exp(n).0, a.log10().map_or("-".into(), |x| x.to_string()), a == b) }
        "C" => { let n: i16 = f[1].parse().unwrap();
            format!("{:?}\t{:?}\t{:?}\t{:?}\t{:?}\t{:?}", S::_2(n).0, S::_3(n).0, S::_5(n).0, S::_Pi(n).0, S::_6(n).0, S::_10(n).0) }
        "P" => { let n: i16 = f[1].parse().unwrap(); format!("{}\t{}", to_unicode_superscript(n, true), to_unicode_superscript(n, false)) }
        "I" => match syn::parse_str::<UnitExpr>(f[1]) { Err(_) => "ERR".into(), Ok(e) => e.collect_unit_identifiers().iter().map(|i| i.to_string()).collect::<Vec<_>>().join(",") },
        _ => unreachable!(),
    }
}
fn unit(tag: &str, u: &Unit) {
    println!("{tag}\t{}\t{}\t{:?}\t{:?}\t{}\t{}\t{}\t{}\t{}", u.name, u.symbols.join(" "), u.exponents.0, u.scale.0, u.conversion_factor.to_bits(), u.affine_offset.to_bits(), u.has_conversion(), u.has_affine_offset(), u.system.as_str());
}
fn statics() {
    for b in DimensionBasis::ALL { println!("basis\t{b:?}\t{:?}\t{}", b.exponents().0, b.symbol()); }
    for p in SiPrefix::ALL { println!("prefix\t{}\t{}\t{}\t{}", p.name(), p.symbol(), p.alternative_symbols().join(" "), p.factor_log10()); }
    for d in Dimension::ALL { println!("dim\t{}\t{}\t{:?}\t{}", d.name, d.symbol, d.exponents.0, d.units.iter().map(|u| u.name).collect::<Vec<_>>().join(" "));
        for x in d.units { unit("unit", x); println!("same\tthe exponents of {} and its dimension\t{}", x.name, x.exponents == d.exponents); }
        println!("same\tdimension {} found by its name\t{}", d.name, Dimension::find_dimension(d.name) == Some(d)); println!("same\tdimension {} found by its symbol\t{}", d.name, Dimension::find_dimension(d.symbol) == Some(d)); }
    println!("names\t{}", Dimension::names(Dimension::ALL).collect::<Vec<_>>().join(" "));
    println!("symbols\t{}", Dimension::symbols(Dimension::ALL).collect::<Vec<_>>().join(" "));
    println!("bases\t{}", Unit::BASES.map(|u| u.name).join(" "));
    println!("dimbases\t{}", Dimension::BASIS.map(|u| u.name).join(" "));
    for x in &Unit::BASES { println!("same\tbase unit {}\t{}", x.name, Dimension::find_unit_by_name(x.name).map(|x| x.0) == Some(x)); }
    for d in &Dimension::BASIS { println!("same\tbasis {}\t{}", d.name, Dimension::find_dimension(d.name) == Some(d)); }
%s
}
fn main() {
    if std::env::args().nth(1).is_some() { statics(); return; }
    std::panic::set_hook(Box::new(|_| {}));
    let lines: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).collect();
    let chunk = lines.len().div_ceil(8).max(1);
    let outs: Vec<String> = std::thread::scope(|sc| {
        let hs: Vec<_> = lines.chunks(chunk).map(|c| sc.spawn(move || {
            let mut o = String::new();
            for l in c { o.push_str(&std::panic::catch_unwind(|| one(l)).unwrap_or("PANIC".into()).replace('\n', " ")); o.push('\n'); }
            o
        })).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let so = std::io::stdout(); let mut so = so.lock();
    for o in outs { so.write_all(o.as_bytes()).unwrap(); }
}
'''

NUM = r'''
#![allow(unused)]
use core::ops::{Add, Sub, Neg};
use whippyunits_core::num::{N, Num};
use whippyunits_core::dimension_exponents::*;
use whippyunits_core::dimension_exponents as de;
fn chk(k: &str, got: i16, want: i16) { if got != want { println!("BAD\t{k}\t{got}\t{want}"); } }
macro_rules! add { ($a:literal $($b:literal)*) => { for (b, g) in [$(($b, <<N<$a> as Add<N<$b>>>::Output as Num>::N)),*] { chk(concat!(stringify!($a), " + "), g, $a + b); } for (b, g) in [$(($b, <<N<$a> as Sub<N<$b>>>::Output as Num>::N)),*] { chk(concat!(stringify!($a), " - "), g, $a - b); } } }
fn nums() { %s
    println!("done nums"); }
fn show<T: DimensionExponents>(k: usize, t: T) { println!("T\t{k}\t{:?}\t{}\t{}\t{:?}", t.value().0, t.is_zero(), t.as_basis().map_or("-".into(), |b| format!("{b:?}")), (DynDimensionExponents::LENGTH + t).0); }
fn types() { %s
    println!("done types"); }
fn main() { nums(); types(); }
'''


def consts():
    o = []
    for d in DIMCONST:
        o.append(f'    {{ let c = Dimension::{d}; let e = c.erase(); println!("dimconst\\t{d}\\t{{}}\\t{{:?}}\\t{{}}", e.name, e.exponents.0, Dimension::ALL.iter().any(|x| x == &e));'
                 f' println!("same\\ttyped and erased units of {d}\\t{{}}", c.units.len() == e.units.len() && c.units.iter().zip(e.units).all(|(a, b)| &a.erase() == b)); }}')
    for u in UNITCONST:
        o.append(f'    {{ let e = Unit::{u}.erase(); unit("const", &e); println!("listed\\t{u}\\t{{}}", Dimension::ALL.iter().flat_map(|d| d.units).filter(|x| x.name == e.name).all(|x| x == &e)); }}')
    return "\n".join(o)


class Drv:
    def __init__(self):
        self.c = Crate("c22", deps=("whippyunits-core", 'syn = { version = "2.0", features = ["full"] }'), opt=1)
        self.c.bin("c22", SRC.replace("%s", consts()))
        ok, diags = self.c.build()
        if not ok:
            raise MachineryError("the catalogue driver does not build: " + "".join(d["rendered"] for d in diags[:3]) + self.c.stderr[-1500:])

    def ask(self, lines):
        p = self.c.run("c22", input=("\n".join(lines) + "\n").encode())
        out = p.stdout.decode().split("\n")[:-1]
        if len(out) != len(lines):
            raise MachineryError(f"the driver answered {len(out)} of {len(lines)}: " + p.stderr.decode()[-500:])
        return [l.split("\t") for l in out]


def exps(s):
    return tuple(json.loads(s))


def magnitude(scale, cf):
    a, b, c, p = scale
    return F(2) ** a * F(3) ** b * F(5) ** c * F(cf), p


def judge_unit(ck, k, name, syms, d, scale, cf, off, conv, aff, u):
    """The record of a unit against its definition."""
    if not u:
        return
    m, p = magnitude(scale, cf)
    want = u.mag, u.pi
    if u.name != "lumen":  # recorded under C01
        if d != u.d:
            ck.violation(f"{k} {name}: dimensions {d}", list(u.d))
    if p != u.pi or abs(m - u.mag) > u.mag * (F(u.rel_tol) + F(1, 10 ** 15)):
        ck.violation(f"{k} {name}: one is {float(m)!r} pi^{p} in SI", [str(want[0]), want[1]])
    if u.offset is None:
        if off != 0:
            ck.violation(f"{k} {name}: has an affine offset {off}", 0)
    elif abs(F(off) * magnitude(scale, 1)[0] - u.offset) > abs(u.offset) / 10 ** 14:
        ck.violation(f"{k} {name}: affine offset {off}", str(u.offset))
    if conv != (cf != 1):
        ck.violation(f"{k} {name}: has_conversion {conv}", cf)
    if aff != (off != 0):
        ck.violation(f"{k} {name}: has_affine_offset {aff}", off)
    if set(syms) != set(u.symbols):
        ck.violation(f"{k} {name}: symbols {syms}", u.symbols)


def statics(ck, drv):
    p = drv.c.run("c22", args=("statics",))
    rows = [l.split("\t") for l in p.stdout.decode().splitlines()]
    if p.returncode:
        raise MachineryError("the driver died: " + p.stderr.decode()[-500:])
    by = {}
    for r in rows:
        by.setdefault(r[0], []).append(r[1:])
    n = len(rows)
    if [(a, exps(e), s) for a, e, s in by["basis"]] != [(a, DIMS[a], s) for a, s in zip(AX, AXSYM)]:
        ck.violation(f"DimensionBasis: {by['basis']}", AXSYM)
    want = {n_: (set([s] + alts), p_) for s, alts, n_, p_ in ref.PREFIXES}
    got = {}
    for nm, s, alts, lg in by["prefix"]:
        if nm in got:
            ck.violation(f"prefix {nm} is there twice", [s, alts, lg])
        got[nm] = (set([s] + alts.split()), int(lg))
    for nm in sorted(set(want) | set(got)):
        if want.get(nm) != got.get(nm):
            ck.violation(f"prefix {nm}: {got.get(nm)}", str(want.get(nm)))
    alld, sofar = {}, []
    for nm, sym, e, us in by["dim"]:
        alld[nm] = (sym, exps(e), us.split())
        if nm in DIMS and DIMS[nm] != exps(e):
            ck.violation(f"dimension {nm}: exponents {e}", list(DIMS[nm]))
        # the symbol spells the exponents out, in the symbols of the axes (an older spelling of two of them is around)
        d = [0] * 8
        for s, x in re.findall(r"(Cd|[MLTIΘθNJA])([⁻⁰¹²³⁴⁵⁶⁷⁸⁹]*)", sym):
            d[AXSYM.index({"Cd": "J", "θ": "Θ"}.get(s, s))] += int("".join(UNSUP[c] for c in x) or 1) if x else 1
        if tuple(d) != exps(e):
            ck.violation(f"dimension {nm}: symbol {sym}", e)
        sofar += us.split()
    for nm in DIMS:
        if nm not in alld and nm != "dimensionless":
            ck.violation(f"dimension {nm} is missing", list(DIMS[nm]))
    listed = {}
    for r in by["unit"]:
        nm, syms, e, sc, cf, off, conv, aff, sysn = r
        if nm in listed:
            ck.violation(f"unit {nm} is listed twice", r)
        listed[nm] = syms.split()
        judge_unit(ck, "unit", nm, syms.split(), exps(e), exps(sc), bits_f64(int(cf)), bits_f64(int(off)), conv == "true", aff == "true", ref.BY_NAME.get(nm))
        u = ref.BY_NAME.get(nm)
        if u and sysn.lower() != u.system and nm not in ("carat", "nautical_mile"):
            ck.violation(f"unit {nm}: system {sysn}", u.system)
    for u in ref.UNITS:
        if u.name not in listed:
            ck.violation(f"unit {u.name} is missing", None)
    seen = {}
    for nm, ss in listed.items():
        for s in ss + [nm]:
            if seen.setdefault(s, nm) != nm:
                ck.violation(f"{s} is both {seen[s]} and {nm}", None)
    for nm, ss, *rest in by["const"]:
        e, sc, cf, off, conv, aff, _ = rest
        u = ref.BY_NAME.get(nm)
        if not u and nm in MORE:
            ax, m = MORE[nm]
            u = ref.U(nm, ss.split(), DIMS["Mass" if ax == "M" else "Length"], F(m), rel_tol=F(1, 10 ** 12))
        judge_unit(ck, "constant", nm, ss.split(), exps(e), exps(sc), bits_f64(int(cf)), bits_f64(int(off)), conv == "true", aff == "true", u)
    for nm, y in by["listed"]:
        if y != "true":
            ck.violation(f"Unit::{nm} is not the unit that the catalogue lists under its name", None)
    for c, nm, e, y in by["dimconst"]:
        w = "dimensionless" if c == "NONE" else c.replace("_", " ").title()
        if nm != w or exps(e) != DIMS[w]:
            ck.violation(f"Dimension::{c} is {nm} {e}", [w, list(DIMS[w])])
        if y != "true" and c != "NONE":
            ck.violation(f"Dimension::{c} is not in the catalogue", nm)
    for what, y in by["same"]:
        if y != "true" and what != "the exponents of lumen and its dimension":
            ck.violation(what, "differ")
    if by["names"][0][0].split() != [r[0] for r in by["unit"]]:
        ck.violation("Dimension::names", by["names"][0][0])
    if by["symbols"][0][0].split() != [s for r in by["unit"] for s in r[1].split()]:
        ck.violation("Dimension::symbols", by["symbols"][0][0])
    if by["bases"][0][0].split() != "gram meter second ampere kelvin mole candela radian".split():
        ck.violation("Unit::BASES", by["bases"][0][0])
    if by["dimbases"][0][0].split() != AX:
        ck.violation("Dimension::BASIS", by["dimbases"][0][0])
    for u in ref.UNITS:  # only the first unit of a dimension takes prefixes
        for nm, (_, _, us) in alld.items():
            if u.name in us and (us[0] == u.name) != u.prefixable and u.name != "candela":
                ck.violation(f"unit {u.name}: place {us.index(u.name)} in {nm}", u.prefixable)
    return n, alld, listed


def strings(ck):
    out = dict.fromkeys(ATOMS)
    units, syms = [u.name for u in ref.UNITS], [s for u in ref.UNITS for s in u.symbols]
    pn, ps = list(PNAMES), list(PSYMS)
    for p in pn + [x.capitalize() for x in pn] + [x.upper() for x in pn] + [""]:
        for x in units + syms + [y.capitalize() for y in units] + [""]:
            for s in ("", "s"):
                out[p + x + s] = None
    for p in ps + [""]:
        for x in syms + units + [""]:
            for s in ("", "s", "ss"):
                out[p + x + s] = None
    for x in list(DIMS) + AXSYM + [p.lower() for p in DIMS] + pn + ps:
        out[x] = None
    for a, b in itertools.product(pn, pn):
        out[a + b + "meter"] = out[a + b] = None
    for a, b in itertools.product(ps, ps):
        out[a + b + "m"] = out[a + b] = None
    alpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZµΩΘθ_1°²⁻"
    for n in range(0, 4 if not ck.thorough else 4):
        for t in itertools.product(alpha, repeat=n):
            out["".join(t)] = None
    if ck.thorough:
        for t in itertools.product("aAcCdDeEfFgGhHkKlLmMnNopPqrsStTuUwWyYzZ", repeat=4):
            out["".join(t)] = None
    out.pop("dimensionless", None)
    return [s for s in out if "\t" not in s and "\n" not in s]


def judge_string(ck, s, r, alld):
    (nm, sy, lit, info, dim, mult, base, pre, anyn, anys, strips, plural, cap) = r
    v = ck.violation
    a = ATOMS.get(s)
    u = a and a[4]
    w = u.name if u and s == u.name else "-"
    if nm.split("/")[0] != w:
        v(f"find_unit_by_name({s!r}) = {nm}", w)
    w = ref.BY_SYM[s].name if s in ref.BY_SYM else "-"
    if sy.split("/")[0] != w:
        v(f"find_unit_by_symbol({s!r}) = {sy}", w)
    for got in (nm, sy):
        if got != "-" and got.split("/")[0] not in alld.get(got.split("/")[1], (0, 0, []))[2]:
            v(f"{s!r} was found in a dimension that does not list it", got)
    # a literal: itself, with a prefix, or a plural
    sing = s[:-1] if s.endswith("s") else None

    def spelled(x):
        if x in ATOMS:
            return (ATOMS[x][4].name, PREF.get(ATOMS[x][5], ""))
        if x in CAP:
            return (CAP[x][0].name, CAP[x][1])
    w = spelled(s)
    got = None if lit == "-" else (lit.split("/")[0], lit.split("/")[2])
    if w:
        if got != w:
            v(f"find_by_literal({s!r}) = {lit}", w)
    else:
        w = spelled(sing) if sing else None
        judged = not w or sing not in ref.BY_SYM and (sing in CAP or ATOMS[sing][4].name in sing)
        if got != w and (judged or got):
            v(f"find_by_literal({s!r}) = {lit}", w)
    if got and got[0] not in alld.get(lit.split("/")[1], (0, 0, []))[2]:
        v(f"find_by_literal({s!r}): {got[0]} in a dimension that does not list it", lit)
    w = u.name if u else "-"
    if info != w and not (s in CAP and info == CAP[s][0].name):
        v(f"get_unit_info({s!r}) = {info}", w)
    w = s if s in alld else next((k for k, x in alld.items() if x[0] == s), "-")
    if dim != w:
        v(f"find_dimension({s!r}) = {dim}", w)
    # a multiple of a base unit, by name
    low = s[:1].lower() + s[1:]
    b = ATOMS.get(low)
    w = "-"
    if b and b[4].name in low and b[4].prefixable and b[4].d in [DIMS[x] for x in AX] and not (s != low and low == b[4].name):
        if low == b[4].name or low == PREF.get(b[5], "?") + b[4].name:
            w = f"{b[4].name}/{PREF.get(b[5], '')}"
    if mult != w and not (mult == "-" and s != low and low == (b and b[4].name)):
        v(f"multiple_to_base_unit({s!r}) = {mult}", w)
    w = ref.BY_SYM[s].name if s in ref.BY_SYM and ref.BY_SYM[s].prefixable and ref.BY_SYM[s].d in [DIMS[x] for x in AX] else "-"
    if base != w:
        v(f"find_base({s!r}) = {base}", w)
    w = PSYMS.get(s, "-")
    if pre != w:
        v(f"SiPrefix::from_symbol({s!r}) = {pre}", w)
    byn = {f"{n}/{s[len(n):]}" for n in PNAMES if s.startswith((n, n[0].upper() + n[1:]))}
    bys = {f"{n}/{s[len(x):]}" for x, n in PSYMS.items() if s.startswith(x)}
    if set(strips.split(" ")) - {""} != {"n" + x for x in byn} | {"s" + x for x in bys} and " " not in s:
        v(f"the prefixes of {s!r} are {strips}", sorted(byn | bys))
    if (anyn not in byn) if byn else anyn != "-":
        v(f"strip_any_prefix_name({s!r}) = {anyn}", sorted(byn))
    bys = {x for x in bys if not x.endswith("/")}
    if (anys not in bys) if bys else anys != "-":
        v(f"strip_any_prefix_symbol({s!r}) = {anys}", sorted(bys))
    if cap != (s[:1].upper() + s[1:]) and s[:1] != "µ":
        v(f"CapitalizedFmt({s!r}) = {cap}", s[:1].upper() + s[1:])
    if s in ref.BY_NAME and s not in UNCHANGED:
        w = {"inch": "inches", "foot": "feet", "henry": "henries"}.get(s, s + "s")
        if plural != w:
            v(f"make_plural({s!r}) = {plural}", w)


# names whose plural is a matter of taste
UNCHANGED = {"stone", "lux", "candela", "fahrenheit", "rankine", "psi", "horsepower", "torr", "bar", "celsius", "kelvin", "hertz", "siemens", "stokes"}


def vectors(ck):
    vs = dict.fromkeys(itertools.product((-1, 0, 1), repeat=8))
    for d in DIMS.values():
        for i in range(8):
            for x in (-4, -3, -2, -1, 0, 1, 2, 3, 4):
                t = list(d); t[i] += x
                vs[tuple(t)] = None
        for i, j in itertools.combinations(range(8), 2):
            t = list(d); t[i], t[j] = t[j], t[i]
            vs[tuple(t)] = None
        for k in (-3, -2, -1, 2, 3):
            vs[ref.dmul(d, k)] = None
    for i in range(8):
        for x in (-32767, -1000, -200, -100, -17, 5, 10, 99, 200, 12345, 32767):
            t = [0] * 8; t[i] = x
            vs[tuple(t)] = None
            t[(i + 3) % 8] = 1 - abs(x) % 7
            vs[tuple(t)] = None
    return list(vs)


def algebra(ck, drv, alld):
    vs = vectors(ck)
    join = lambda v: ",".join(map(str, v))
    n = 0
    listed = {e: k for k, (_, e, _) in reversed(list(alld.items()))}
    for v, r in zip(vs, drv.ask([f"D\t{join(v)}" for v in vs])):
        n += 1
        if r == ["PANIC"]:
            ck.violation(f"exponents {v}: panic", None)
            continue
        dim, zero, basis, disp, neg, val = r
        w = BYEXP.get(v) if BYEXP.get(v) in alld else listed.get(v, "-")
        if dim != w:
            ck.violation(f"find_dimension_by_exponents({v}) = {dim}", w)
        if zero != str(not any(v)).lower():
            ck.violation(f"{v}.is_zero() = {zero}", None)
        w = next((a for a in AX if DIMS[a] == v), "-")
        if basis != w:
            ck.violation(f"{v}.as_basis() = {basis}", w)
        m = re.search(r"\[(.*)\]", disp)
        if exps("[" + m[1] + "]") != v if m else False:
            ck.violation(f"{v} prints as {disp}", None)
        if exps(neg) != ref.dmul(v, -1):
            ck.violation(f"-{v} = {neg}", None)
        if exps(val) != v:
            ck.violation(f"{v}.value() = {val}", None)
    small = [v for v in vs if max(map(abs, v)) <= 200]
    some = [v for v in DIMS.values()] + [(1, -2, 3, -4, 5, -6, 7, -8), (-100, 90, -80, 70, -60, 50, -40, 30), (11, 13, 17, 19, 23, 29, 31, 37)]
    pairs = [(a, b) for a in small for b in (some if ck.thorough else some[::4] + some[-3:])] + list(itertools.product(some, some))
    for (a, b), r in zip(pairs, drv.ask([f"A\t{join(a)}\t{join(b)}" for a, b in pairs])):
        n += 1
        if r == ["PANIC"] or exps(r[0]) != ref.dadd(a, b):
            ck.violation(f"{a} + {b} = {r[0]}", None)
    muls = [(a, k) for a in small for k in (-20, -7, -3, -2, -1, 0, 1, 2, 3, 5, 12, 100)]
    for (a, k), r in zip(muls, drv.ask([f"M\t{join(a)}\t{k}" for a, k in muls])):
        n += 1
        if r == ["PANIC"] or exps(r[0]) != ref.dmul(a, k):
            ck.violation(f"{a} * {k} = {r[0]}", None)
    ss = list(itertools.product(range(-3, 4), repeat=4)) + [(a, 0, a, 0) for a in range(-400, 401)] + [(a, 0, b, 0) for a in (-30, -6, 6, 30) for b in (-30, -6, 6, 30)] + [(300, -200, 150, -7), (-1000, 999, 2000, 11)]
    tt = [(1, 2, 3, 4), (-2, -2, -1, 1), (7, -11, 13, -17), (0, 0, 0, 0)]
    sc = [(a, b, k) for a in ss for b in tt for k in (-5, -1, 0, 1, 2, 3)]
    for (a, b, k), r in zip(sc, drv.ask([f"S\t{join(a)}\t{join(b)}\t{k}" for a, b, k in sc])):
        n += 1
        if r == ["PANIC"]:
            ck.violation(f"scales {a} {b} {k}: panic", None)
            continue
        lg = str(a[0]) if a[0] == a[2] and not a[1] and not a[3] else "-"
        if exps(r[0]) != ref.dadd(a, b) or exps(r[1]) != ref.dmul(a, -1) or exps(r[2]) != ref.dmul(a, k) or r[3] != lg or r[4] != str(a == b).lower():
            ck.violation(f"scales {a} {b} {k}: {r}", [ref.dadd(a, b), ref.dmul(a, -1), ref.dmul(a, k), lg])
    ns = list(range(-400, 401)) + [-32767, 32767]
    for k, r in zip(ns, drv.ask([f"C\t{k}" for k in ns])):
        n += 1
        w = [(k, 0, 0, 0), (0, k, 0, 0), (0, 0, k, 0), (0, 0, 0, k), (k, k, 0, 0), (k, 0, k, 0)]
        if r == ["PANIC"] or [exps(x) for x in r] != w:
            ck.violation(f"scale constructors of {k}: {r}", w)
    ns = range(-32768, 32768)
    for k, r in zip(ns, drv.ask([f"P\t{k}" for k in ns])):
        n += 1
        w = "ˀ" if k == -32768 else str(k).translate(SUP)
        if r != [w, "" if k == 1 else w]:
            ck.violation(f"to_unicode_superscript({k}) = {r}", w)
    return n, len(vs)


def idents(ck, drv):
    """Every identifier of an expression is collected, in every shape of it."""
    leaves = ["m", "kg", "s", "min"]
    level = [(l, [l]) for l in leaves] + [("1", [])]
    shapes = []
    for (a, x), (b, y) in itertools.product(level, level):
        for o in ("*", "/", "."):
            if o == "." and (a == "1" or b == "1"):
                continue
            shapes.append((f"{a}{o}{b}" if o == "." else f"{a} {o} {b}", x + y))
    base = level[:-1] + shapes
    for a, x in list(base):
        base.append((f"({a})^2", x))
        base.append((f"({a})^-3", x))
    for (a, x), (b, y) in itertools.product(base, base[:60]):
        shapes.append((f"({a}) / ({b})", x + y))
        shapes.append((f"({a}) * ({b})", x + y))
    shapes += base
    n = 0
    for (e, w), r in zip(shapes, drv.ask([f"I\t{e}" for e, _ in shapes])):
        if r == ["ERR"]:
            continue
        n += 1
        got = [x for x in r[0].split(",") if x and x != "dimensionless"]
        if sorted(got) != sorted(w):
            ck.violation(f"the identifiers of {e} are {got}", w)
    if n < len(shapes) // 2:
        raise MachineryError(f"only {n} of {len(shapes)} expressions parse")
    return n


def type_level(ck):
    full = list(range(-200, 201))
    rows = full if ck.thorough else [-200, -199, -101, -64, -7, -1, 0, 1, 2, 63, 100, 128, 199, 200]
    o, n = [], 0
    for a in rows:
        o.append(f"add!({a} {' '.join(map(str, full))});")
        n += 2 * len(full)
    if not ck.thorough:
        for a in full:
            if a not in rows:
                bs = sorted({-200, 200, -a, 0, 1, a})
                o.append(f"add!({a} {' '.join(map(str, bs))});")
                n += 2 * len(bs)
    o += [f'chk("-({a})", <<N<{a}> as Neg>::Output as Num>::N, {-a});' for a in full]
    n += len(full)
    # each in a function of its own, which keeps the functions short
    fns = "\n".join(f"fn n{i}() {{ {' '.join(o[i:i + 40])} }}" for i in range(0, len(o), 40))
    calls = " ".join(f"n{i}();" for i in range(0, len(o), 40))
    vs = [v for v in DIMS.values()] + [(1, -2, 3, -4, 5, -6, 7, -8), (2, 3, 5, 7, 11, 13, 17, 19), (-1, -1, -1, -1, 1, 1, 1, 1), (100, -100, 99, -99, 50, -50, 7, -7)]
    lit = lambda v: "whippyunits_core::dimension_exponents!([" + ",".join(map(str, v)) + "])"
    t, want = [], {}

    def case(code, v):
        t.append(f"show({len(want)}, {code});")
        want[len(want)] = (code, tuple(v))
    for a, v in [("Zero", ref.ZERO)] + [(x, DIMS[x]) for x in AX]:
        case(f"de::{a}::new()", v)
        case(f"<de::{a}>::default()", v)
        case(f"DynDimensionExponents::{a.upper()}", v)
        case(f"DynDimensionExponents(de::{a}::new().value_const().0)", v)
    case("<TypeDimensionExponents>::new()", ref.ZERO)
    # parameters that are left out count as zero
    g = ["_M", "_L", "_T", "_I", "_Θ", "_N", "_J", "_A"]
    for k in range(8):
        v = [2, -3, 4, -5, 6, -7, 8, -9]
        case(f"TypeDimensionExponents::<{', '.join(f'{g[i]}<{v[i]}>' for i in range(k + 1))}>::new()", v[:k + 1] + [0] * (7 - k))
        case(f"TypeDimensionExponents::<{', '.join(g[i] if i == k else f'{g[i]}<{v[i]}>' for i in range(8))}>::new()", [0 if i == k else v[i] for i in range(8)])
    for v in vs:
        case(f"<{lit(v)}>::new()", v)
    for i, (a, b) in enumerate(itertools.product(vs, vs)):
        if ck.thorough or i % 3 == 0 or a == b or a in vs[-4:] and b in vs[-4:]:
            case(f"<{lit(a)}>::new() + <{lit(b)}>::new()", ref.dadd(a, b))
            case(f"<{lit(a)}>::new() - <{lit(b)}>::new()", ref.dsub(a, b))
    tf = "\n".join(f"fn t{i}() {{ {' '.join(t[i:i + 60])} }}" for i in range(0, len(t), 60))
    tc = " ".join(f"t{i}();" for i in range(0, len(t), 60))
    c = Crate("c22num", deps=("whippyunits-core",))
    c.bin("c22num", NUM.replace("%s", calls, 1).replace("%s", tc, 1) + fns + "\n" + tf)
    ok, diags = c.build()
    if not ok:
        ours = [d for d in diags if d["bin"] == "c22num"]
        if not ours:
            raise MachineryError("the type-level driver does not build: " + c.stderr[-2000:])
        for d in ours[:10]:
            ck.violation("type-level arithmetic: " + d["msg"][:200], d["rendered"][:600])
        return n, len(want)
    p = c.run("c22num")
    out = p.stdout.decode()
    if "done types" not in out or "done nums" not in out:
        raise MachineryError("the type-level driver died: " + p.stderr.decode()[-800:])
    got = {}
    for l in out.splitlines():
        f = l.split("\t")
        if f[0] == "BAD":
            ck.violation(f"type-level {f[1]}: {f[2]}", f[3])
        elif f[0] == "T":
            got[int(f[1])] = (exps(f[2]), f[3], f[4], exps(f[5]))
    for k, (code, v) in want.items():
        w = (v, str(not any(v)).lower(), next((a for a in AX if DIMS[a] == v), "-"), ref.dadd(v, DIMS["Length"]))
        if got.get(k) != w:
            ck.violation(f"{code}: {got.get(k)}", w)
    return n, len(want)


def run(ck):
    drv = Drv()
    n_static, alld, listed = statics(ck, drv)
    ck.log("statics", n_static)
    ss = strings(ck)
    hits = 0
    for s, r in zip(ss, drv.ask([f"U\t{s}" for s in ss])):
        if r == ["PANIC"]:
            ck.violation(f"looking up {s!r} panics", None)
            continue
        if any(x != "-" for x in r[:10]):
            hits += 1
        judge_string(ck, s, r, alld)
    ck.log(len(ss), "strings")
    n_alg, n_vec = algebra(ck, drv, alld)
    n_id = idents(ck, drv)
    ck.log("algebra", n_alg, "identifiers", n_id)
    n_num, n_typ = type_level(ck)
    ck.log("type level", n_num, n_typ)
    for s in ("Megameter", "cd", "feet", "kJ"):
        ck.sample(s)
    ck.sample("N<-200> + N<200>")
    ck.sample("(-1, -2, 4, 2, 0, 0, 0, 0)")
    ck.finish(evaluations=n_static + 13 * len(ss) + n_alg + n_id + n_num + n_typ, distinct_nontrivial=hits + n_vec + n_num + n_typ,
              strings=len(ss), strings_found=hits, vectors=n_vec, algebra=n_alg, identifiers=n_id, type_level_sums=n_num, typed_exponents=n_typ, statics=n_static, exhaustive=True,
              rule="every name, symbol, prefix and combination of them (mixed, capitalised, plural, doubled) and every string of up to 3 letters (thorough: 4) through every look-up; every exponent vector of -1..1 and the named dimensions with their neighbours, swaps and multiples through every operation; "
                   "every i16 as a superscript; every unit, dimension, prefix and constant against the reference; type-level sums of -200..200 (thorough: all pairs); non-trivial = a string that some look-up knows, a vector, a type-level sum or type")


if __name__ == "__main__":
    main(run, "C22", "exploration")
