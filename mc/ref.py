"""Independent reference model of units of measure.

Nothing in this file is derived from the source of the library under test:
the magnitudes are the defining values of the SI brochure (9th ed.), NIST SP 811
and the international yard-and-pound agreement, written as exact rationals
times an integer power of pi.  Dimensions are ordered
(mass, length, time, current, temperature, amount, luminosity, angle).
"""
from fractions import Fraction as F
import math

DIMS = ["M", "L", "T", "I", "TH", "N", "J", "A"]
BASE_SYM = ["kg", "m", "s", "A", "K", "mol", "cd", "rad"]


def dim(**k):
    return tuple(k.get(d, 0) for d in DIMS)


ZERO = (0,) * 8


def dadd(a, b):
    return tuple(x + y for x, y in zip(a, b))


def dsub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def dmul(a, n):
    return tuple(x * n for x in a)


# prefix: (symbol, alternatives, name, log10)
PREFIXES = [
    ("q", [], "quecto", -30), ("r", [], "ronto", -27), ("y", [], "yocto", -24),
    ("z", [], "zepto", -21), ("a", [], "atto", -18), ("f", [], "femto", -15),
    ("p", [], "pico", -12), ("n", [], "nano", -9), ("u", ["µ"], "micro", -6),
    ("m", [], "milli", -3), ("c", [], "centi", -2), ("d", [], "deci", -1),
    ("da", [], "deca", 1), ("h", [], "hecto", 2), ("k", [], "kilo", 3),
    ("M", [], "mega", 6), ("G", [], "giga", 9), ("T", [], "tera", 12),
    ("P", [], "peta", 15), ("E", [], "exa", 18), ("Z", [], "zetta", 21),
    ("Y", [], "yotta", 24), ("R", [], "ronna", 27), ("Q", [], "quetta", 30),
]


class U:
    """A unit: value_si = (value * num * pi^p) (+ offset for affine units)."""

    def __init__(self, name, symbols, d, mag, pi=0, offset=None, prefixable=False,
                 rel_tol=0, system="metric"):
        self.name, self.symbols, self.d = name, symbols, d
        self.mag, self.pi = F(mag), pi
        self.offset = None if offset is None else F(offset)  # SI value of zero of the unit
        self.prefixable = prefixable
        self.rel_tol = rel_tol
        self.system = system

    def si(self):
        return self.mag, self.pi


_M = dim(M=1); _L = dim(L=1); _T = dim(T=1); _I = dim(I=1); _TH = dim(TH=1)
_N = dim(N=1); _J = dim(J=1); _A = dim(A=1)
_AREA = dim(L=2); _VOL = dim(L=3); _EN = dim(M=1, L=2, T=-2); _PW = dim(M=1, L=2, T=-3)
_PR = dim(M=1, L=-1, T=-2)

_ft = F("0.3048"); _in = F("0.0254"); _lb = F("0.45359237"); _g0 = F("9.80665")
_usgal = 231 * _in ** 3
_ukgal = F("0.00454609")

UNITS = [
    # mass (coherent unit: kilogram)
    U("gram", ["g"], _M, F(1, 1000), prefixable=True),
    U("grain", ["gr"], _M, F("0.00006479891"), system="imperial"),
    U("carat", ["ct"], _M, F("0.0002")),
    U("ounce", ["oz"], _M, _lb / 16, system="imperial"),
    U("troy_ounce", ["ozt"], _M, 480 * F("0.00006479891"), system="imperial"),
    U("troy_pound", ["lbt"], _M, 5760 * F("0.00006479891"), system="imperial"),
    U("pound", ["lb"], _M, _lb, system="imperial"),
    U("stone", ["st"], _M, 14 * _lb, system="imperial"),
    U("ton", ["t"], _M, 2240 * _lb, system="imperial"),
    # length
    U("meter", ["m"], _L, 1, prefixable=True),
    U("inch", ["in"], _L, _in, system="imperial"),
    U("foot", ["ft"], _L, _ft, system="imperial"),
    U("yard", ["yd"], _L, 3 * _ft, system="imperial"),
    U("mile", ["mi"], _L, 5280 * _ft, system="imperial"),
    U("nautical_mile", ["nmi"], _L, 1852, system="imperial"),
    U("astronomical_unit", ["AU"], _L, 149597870700, system="astronomical"),
    U("light_year", ["ly"], _L, 299792458 * 31557600, system="astronomical"),
    # exact pc = 648000/pi au; decimal to 16 digits
    U("parsec", ["pc"], _L, F("30856775814913673"), rel_tol=F(1, 10 ** 9), system="astronomical"),
    # time
    U("second", ["s"], _T, 1, prefixable=True),
    U("minute", ["min"], _T, 60),
    U("hour", ["h", "hr"], _T, 3600),
    U("day", ["d"], _T, 86400),
    U("week", ["wk"], _T, 7 * 86400),
    U("month", ["mo"], _T, 30 * 86400),
    # mean solar (tropical) year, 365.24219 d
    U("year", ["yr"], _T, F("31556925.2"), rel_tol=F(1, 10 ** 6)),
    U("ampere", ["A"], _I, 1, prefixable=True),
    U("kelvin", ["K"], _TH, 1, prefixable=True),
    U("celsius", ["degC"], _TH, 1, offset=F("273.15")),
    U("rankine", ["degR"], _TH, F(5, 9), system="imperial"),
    U("fahrenheit", ["degF"], _TH, F(5, 9), offset=F("459.67") * F(5, 9), system="imperial"),
    U("mole", ["mol"], _N, 1, prefixable=True),
    U("candela", ["cd"], _J, 1, prefixable=True),
    U("radian", ["rad"], _A, 1, prefixable=True),
    U("degree", ["deg"], _A, F(1, 180), pi=1),
    U("gradian", ["grad"], _A, F(1, 200), pi=1),
    U("turn", ["rot", "turn"], _A, 2, pi=1),
    U("arcminute", ["arcmin"], _A, F(1, 180 * 60), pi=1),
    U("arcsecond", ["arcsec"], _A, F(1, 180 * 3600), pi=1),
    # derived
    U("hectare", ["hect"], _AREA, 10000, prefixable=True),
    U("acre", ["acre"], _AREA, 43560 * _ft ** 2, system="imperial"),
    U("liter", ["L", "l"], _VOL, F(1, 1000), prefixable=True),
    U("gallon", ["gal", "gallon"], _VOL, _usgal, system="imperial"),
    U("quart", ["qrt"], _VOL, _usgal / 4, system="imperial"),
    U("pint", ["pnt"], _VOL, _usgal / 8, system="imperial"),
    U("cup", ["cup"], _VOL, _usgal / 16, system="imperial"),
    U("fluid_ounce", ["fl_oz"], _VOL, _usgal / 128, system="imperial"),
    U("tablespoon", ["tbsp"], _VOL, _usgal / 256, system="imperial"),
    U("teaspoon", ["tsp"], _VOL, _usgal / 768, system="imperial"),
    U("uk_gallon", ["uk_gal"], _VOL, _ukgal, system="imperial"),
    U("uk_quart", ["uk_qrt"], _VOL, _ukgal / 4, system="imperial"),
    U("uk_pint", ["uk_pnt"], _VOL, _ukgal / 8, system="imperial"),
    U("uk_cup", ["uk_cup"], _VOL, _ukgal / 16, system="imperial"),
    U("uk_fluid_ounce", ["uk_fl_oz"], _VOL, _ukgal / 160, system="imperial"),
    U("uk_tablespoon", ["uk_tbsp"], _VOL, _ukgal / 256, system="imperial"),
    U("uk_teaspoon", ["uk_tsp"], _VOL, _ukgal / 768, system="imperial", rel_tol=F(1, 10 ** 13)),
    U("bushel", ["bu"], _VOL, F("2150.42") * _in ** 3, system="imperial"),
    U("hertz", ["Hz"], dim(T=-1), 1, prefixable=True),
    U("newton", ["N"], dim(M=1, L=1, T=-2), 1, prefixable=True),
    U("joule", ["J"], _EN, 1, prefixable=True),
    U("electron_volt", ["eV"], _EN, F("1.602176634e-19")),
    U("erg", ["erg"], _EN, F(1, 10 ** 7)),
    U("newton_meter", ["Nm"], _EN, 1),
    U("calorie", ["cal"], _EN, F("4.184")),
    U("foot_pound", ["ft_lb"], _EN, _ft * _lb * _g0, system="imperial"),
    U("kilowatt_hour", ["kWh"], _EN, 3600000),
    U("therm", ["thm"], _EN, F("105505585.262"), system="imperial"),
    U("watt", ["W"], _PW, 1, prefixable=True),
    U("horsepower", ["hp"], _PW, 550 * _ft * _lb * _g0, system="imperial"),
    U("pascal", ["Pa"], _PR, 1, prefixable=True),
    U("torr", ["Torr"], _PR, F(101325, 760)),
    U("psi", ["psi"], _PR, _lb * _g0 / _in ** 2, system="imperial"),
    U("bar", ["bar"], _PR, 100000),
    U("atmosphere", ["atm"], _PR, 101325),
    U("coulomb", ["C"], dim(T=1, I=1), 1, prefixable=True),
    U("volt", ["V"], dim(M=1, L=2, T=-3, I=-1), 1, prefixable=True),
    U("farad", ["F"], dim(M=-1, L=-2, T=4, I=2), 1, prefixable=True),
    U("ohm", ["Ω"], dim(M=1, L=2, T=-3, I=-2), 1, prefixable=True),
    U("siemens", ["S"], dim(M=-1, L=-2, T=3, I=2), 1, prefixable=True),
    U("henry", ["H"], dim(M=1, L=2, T=-2, I=-2), 1, prefixable=True),
    U("tesla", ["T"], dim(M=1, T=-2, I=-1), 1, prefixable=True),
    U("gauss", ["G"], dim(M=1, T=-2, I=-1), F(1, 10000)),
    U("weber", ["Wb"], dim(M=1, L=2, T=-2, I=-1), 1, prefixable=True),
    U("lux", ["lx"], dim(L=-2, J=1), 1, prefixable=True),
    U("lumen", ["lm"], dim(J=1), 1),  # cd*sr, steradian dimensionless
    U("stokes", ["St"], dim(L=2, T=-1), F(1, 10000), prefixable=True),
]
BY_NAME = {u.name: u for u in UNITS}
BY_SYM = {s: u for u in UNITS for s in u.symbols}


def atoms(symbols_only=False):
    """Every spelling the catalogue defines -> (dims, mag, pi, offset, unit, prefix10).

    Exact symbols win over names, names over prefixed spellings."""
    out = {}
    for s, u in BY_SYM.items():
        out[s] = (u.d, u.mag, u.pi, u.offset, u, 0)
    if not symbols_only:
        for u in UNITS:
            out.setdefault(u.name, (u.d, u.mag, u.pi, u.offset, u, 0))
    for sym, alts, name, p in PREFIXES:
        for u in UNITS:
            if not u.prefixable:
                continue
            m = u.mag * (F(10) ** p)
            for ps in [sym] + alts:
                for s in u.symbols:
                    out.setdefault(ps + s, (u.d, m, u.pi, None, u, p))
            if not symbols_only:
                out.setdefault(name + u.name, (u.d, m, u.pi, None, u, p))
    return out


def factor235(q):
    """Exponents (a,b,c) with q = 2^a 3^b 5^c, or None."""
    q = F(q)
    ex = []
    n, d = q.numerator, q.denominator
    for p in (2, 3, 5):
        e = 0
        while n % p == 0:
            n //= p; e += 1
        while d % p == 0:
            d //= p; e -= 1
        ex.append(e)
    return tuple(ex) if n == 1 and d == 1 else None


def scale_value(s):
    """(2,3,5,pi exponents) -> (Fraction, pi exponent)"""
    return F(2) ** s[0] * F(3) ** s[1] * F(5) ** s[2], s[3]


# 60-digit pi for exact-ish comparisons
PI = F("3.14159265358979323846264338327950288419716939937510582097494459")


def tofrac(mag, pi):
    return mag * PI ** pi


def rel_err(got, want):
    got, want = F(got), F(want)
    if want == 0:
        return abs(got)
    return abs(got - want) / abs(want)
