"""Independent model of the documented unit-expression language.

expr   := term ('/' term)*            left associative
term   := power (('*' | '.') power)*
power  := atom ('^' integer)?
atom   := '(' expr ')' | number | unit [digits]         (digits: implicit exponent)
number := ('1' | '10') ('^' integer)?                    (so 10^2^3 is (10^2)^3)

A value of the model is (dims, (e2,e3,e5,epi), cf) with cf the exact rational left over
for units that are not stored at their own scale (None: too large to be represented, not compared)."""
from fractions import Fraction as F
import re
import ref

LIM = 32767


class Reject(Exception):
    pass


def chk(v):
    d, s, cf = v
    if any(abs(x) > LIM for x in d + s):
        raise Reject()
    return v


def cap(f):
    # beyond the range of f64 an f64 factor cannot be held to anything
    if f and abs(f.numerator.bit_length() - f.denominator.bit_length()) > 900:
        return None
    return f


def mul(a, b):
    return chk((ref.dadd(a[0], b[0]), ref.dadd(a[1], b[1]), cap(a[2] and b[2] and a[2] * b[2])))


def div(a, b):
    return chk((ref.dsub(a[0], b[0]), ref.dsub(a[1], b[1]), cap(a[2] and b[2] and a[2] / b[2])))


def pw(a, n):
    if abs(n) > LIM:
        raise Reject()
    d, s = ref.dmul(a[0], n), ref.dmul(a[1], n)
    chk((d, s, a[2]))
    if a[2] is None or a[2] == 1:
        return (d, s, a[2])
    if abs(n) > 200:
        return (d, s, None)
    return (d, s, cap(a[2] ** n))


ONE = (ref.ZERO, (0, 0, 0, 0), F(1))


def parse(toks, table):
    """toks: list of tokens; table: unit name -> value. Returns value or raises Reject."""
    pos = 0

    def peek():
        return toks[pos] if pos < len(toks) else None

    def take():
        nonlocal pos
        t = peek()
        pos += 1
        return t

    def atom():
        t = take()
        if t is None:
            raise Reject()
        if t == "(":
            v = expr()
            if take() != ")":
                raise Reject()
            return v, False
        if re.fullmatch(r"-?\d+", t):
            n = int(t)
            if n not in (1, 10):
                raise Reject()
            base = ONE if n == 1 else (ref.ZERO, (1, 0, 1, 0), F(1))
            if peek() == "^":
                take()
                t = take()
                if t is None or not re.fullmatch(r"-?\d+", t):
                    raise Reject()
                base = pw(base, int(t))
            return base, False
        m = re.fullmatch(r"([^\W\d]+)(\d+)?", t)
        if not m or m.group(1) not in table:
            raise Reject()
        v = table[m.group(1)]
        if m.group(2):
            v = pw(v, int(m.group(2)))
        return v, False

    def power():
        v, _ = atom()
        if peek() == "^":
            take()
            t = take()
            if t is None or not re.fullmatch(r"-?\d+", t):
                raise Reject()
            v = pw(v, int(t))
            # a number or unit takes a single exponent
        return v

    def term():
        v = power()
        while peek() in ("*", "."):
            take()
            v = mul(v, power())
        return v

    def expr():
        v = term()
        while peek() == "/":
            take()
            v = div(v, term())
        return v

    v = expr()
    if pos != len(toks):
        raise Reject()
    return v
