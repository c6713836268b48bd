"""High-precision evaluation of terms, used to confirm a difference found in double precision."""
import decimal
from decimal import Decimal as D

from . import num, dd
from .evalf import Bad, Env

CTX = decimal.Context(prec=70, Emax=10 ** 6, Emin=-10 ** 6)
decimal.setcontext(CTX)
PI = D("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798214808651")
ZERO, ONE = D(0), D(1)


def _sincos(x):
    decimal.setcontext(CTX)
    two = 2 * PI
    x = x - (x / two).to_integral_value() * two
    k = 8
    x = x / (1 << k)
    s, c, t, n = ZERO, ONE, ONE, 0
    term = x
    s = x
    i = 1
    x2 = x * x
    while abs(term) > D(10) ** -80:
        term = -term * x2 / ((i + 1) * (i + 2))
        s += term
        i += 2
    c = (1 - s * s).sqrt()
    for _ in range(k):
        s, c = 2 * s * c, c * c - s * s
    return s, c


def _atan(x):
    # reduce the argument by halving the angle, then series
    if abs(x) > 1:
        return (PI / 2 if x > 0 else -PI / 2) - _atan(1 / x)
    k = 0
    while abs(x) > D("0.05"):
        x = x / (1 + (1 + x * x).sqrt())
        k += 1
    s, t, n, x2 = x, x, 1, x * x
    while t and abs(t) > D(10) ** -80:
        t = -t * x2
        n += 2
        s += t / n
    return s * (1 << k)


def atan2(y, x):
    if x > 0:
        return _atan(y / x)
    if x < 0:
        return _atan(y / x) + (PI if y >= 0 else -PI)
    return ZERO if y == 0 else (PI / 2 if y > 0 else -PI / 2)


class C:
    __slots__ = ("re", "im")

    def __init__(self, re, im=ZERO):
        self.re, self.im = re, im

    def __add__(self, o):
        return C(self.re + o.re, self.im + o.im)

    def __sub__(self, o):
        return C(self.re - o.re, self.im - o.im)

    def __mul__(self, o):
        return C(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    def inv(self):
        n = self.re * self.re + self.im * self.im
        if n == 0 or abs(n) < D(10) ** -110:
            raise Bad("1/0")
        return C(self.re / n, -self.im / n)

    def pow(self, e):
        r = C(ONE)
        b = self if e >= 0 else self.inv()
        for _ in range(abs(e)):
            r = r * b
        return r

    def abs(self):
        return (self.re * self.re + self.im * self.im).sqrt()

    def conj(self):
        return C(self.re, -self.im)

    def sqrt(self):
        if abs(self.im) <= D(10) ** -55 * (1 + abs(self.re)):
            if self.re < 0:
                if self.re > D(10) ** -50 * -1:
                    return C(ZERO)
                raise Bad("sqrt")
            return C(self.re.sqrt())
        r = self.abs()
        a = ((r + self.re) / 2).sqrt()
        return C(a, self.im / (2 * a)) if a else C(ZERO, r.sqrt())


class HEnv:
    """same point as a double-precision Env"""

    def __init__(self, env):
        self.env = env
        self.cache = {}
        decimal.setcontext(CTX)

    def sym(self, a):
        n = a.args[0]
        if n == "pi":
            return C(PI)
        v = self.env.sym(a)
        v = complex(v)
        return C(D(v.real), D(v.imag))

    def atom(self, aid):
        v = self.cache.get(aid)
        if v is None:
            v = self.cache[aid] = self._atom(num._ATOMS[aid])
        return v

    def _atom(self, a):
        k = a.kind
        if k == "sym":
            return self.sym(a)
        if k == "I":
            return C(ZERO, ONE)
        if k == "sqrt":
            return self.poly(a.args[0]).sqrt()
        if k == "abs":
            return C(self.poly(a.args[0]).abs())
        if k == "inv":
            return self.poly(a.args[0]).inv()
        if k == "cj":
            x = a.args[0]
            if isinstance(x, num.Poly):
                return self.poly(x).conj()
            return self.atom(x.id if isinstance(x, num.Atom) else x).conj()
        if k == "atan2":
            return C(atan2(self.poly(a.args[0]).re, self.poly(a.args[1]).re))
        if k == "div0":
            raise Bad("1/0")
        if k == "Den":
            d, q = self.poly(a.args[0]), [self.poly(x) for x in a.args[1:]]
            return d + q[0] * q[0] - q[1] * q[1] - q[2] * q[2] - q[3] * q[3]
        if k.startswith("fn:") and k[3:] in ("exp", "log", "acos", "asin", "atan", "cosh", "sinh", "tanh", "pow", "floor", "ceil", "trunc",
                                             "round", "idiv") or k.startswith("fn:op"):
            raise NotImplementedError(k)
        v = complex(self.env.atom(a.id))
        return C(D(v.real), D(v.imag))

    def poly(self, p):
        s = C(ZERO)
        for m, c in p.d.items():
            f = num.Fraction(c)
            t = C(D(f.numerator) / D(f.denominator))
            for aid, e in m:
                a = num._ATOMS[aid]
                if a.kind == "E":
                    fe = num.Fraction(e)
                    x = self.poly(a.args[0])
                    y = x.re * fe.numerator / fe.denominator
                    sn, cs = _sincos(y)
                    t = t * C(cs, sn)
                elif isinstance(e, int):
                    t = t * self.atom(aid).pow(e)
                else:
                    raise NotImplementedError("power")
            s = s + t
        return s


def confirm(env, x, y, rel=D(10) ** -20):
    """True: the terms differ at the point; False: equal there; None: cannot tell"""
    try:
        h = HEnv(env)
        u, v = h.poly(x), h.poly(y)
        d = (u - v).abs()
        return d > rel * (u.abs() + v.abs() + D(10) ** -30)
    except NotImplementedError:
        return None
    except Bad:
        return None
    except (decimal.DecimalException, OverflowError, ValueError):
        return None
