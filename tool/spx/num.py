"""Exact term algebra used as the numeric abstract domain.

A numeric abstract value is a Laurent polynomial with rational coefficients over atoms:
inputs, the imaginary unit, square roots, phases exp(i*angle), reciprocals of polynomials and
opaque function applications.  Products are reduced with the defining relation of every atom
(I*I=-1, sqrt(P)^2=P, phase of atan2(y,x) = (x+iy)/sqrt(x^2+y^2), ...), so two expressions that are
algebraically equal usually have the same normal form; `is_zero` additionally clears denominators.
Rounding is ignored throughout: values are exact reals/complex numbers.
"""
from fractions import Fraction
import re

_ATOMS = []          # id -> Atom
_ATAB = {}           # key -> Atom


class Atom:
    __slots__ = ("id", "kind", "args", "real", "nonneg", "integer", "name", "positive")

    def __repr__(self):
        return show_atom(self)


def atom(kind, args, real=False, nonneg=False, integer=False, positive=False):
    key = (kind, args)
    a = _ATAB.get(key)
    if a is None:
        a = Atom()
        a.id = len(_ATOMS)
        a.kind, a.args, a.real = kind, args, real
        a.nonneg, a.integer, a.positive = nonneg or positive, integer, positive
        _ATOMS.append(a)
        _ATAB[key] = a
    return a


def atom_by_id(i):
    return _ATOMS[i]


IATOM = atom("I", ())
I_ID = IATOM.id


class Poly:
    """Immutable Laurent polynomial: dict monomial -> rational; monomial = tuple of (atom id, exponent)."""
    __slots__ = ("d", "_h", "_key")

    def __init__(self, d):
        self.d = d
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.d == o.d)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return show(self)

    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        if not o.d:
            return self
        if not self.d:
            return o
        if len(self.d) < len(o.d):
            self, o = o, self
        d = dict(self.d)
        for m, c in o.d.items():
            s = d.get(m, 0) + c
            if s:
                d[m] = s
            else:
                d.pop(m, None)
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        return mul(self, P(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return mul(self, inv(P(o)))

    def __rtruediv__(self, o):
        return mul(P(o), inv(self))

    def __pow__(self, n):
        return power(self, n)

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        return self.d.get((), 0)


ZERO = Poly({})
ONE = Poly({(): 1})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return Poly({(): x}) if x else ZERO
    if isinstance(x, Fraction):
        return Poly({(): _q(x)}) if x else ZERO
    if isinstance(x, Atom):
        return Poly({((x.id, 1),): 1})
    raise TypeError(x)


def _q(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


def sym(name, real=True, nonneg=False, integer=False, positive=False):
    return P(atom("sym", (name,), real, nonneg, integer, positive))


IMAG = P(IATOM)
PI = sym("pi", positive=True)
MAX_TERMS = 200000


class TooBig(Exception):
    pass


_REDUCE_KINDS = frozenset(["I", "sqrt", "E", "abs"])


def _mono_mul(a, b):
    """-> (monomial, needs_reduction)"""
    i = j = 0
    out = []
    red = False
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                if e.__class__ is Fraction and e.denominator == 1:
                    e = e.numerator
                out.append((x[0], e))
                if _ATOMS[x[0]].kind in _REDUCE_KINDS:
                    red = True
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out), red


def _reduce_mono(m):
    """Apply defining relations; -> Poly"""
    res = None
    keep = []
    coef = 1
    for aid, e in m:
        a = _ATOMS[aid]
        k = a.kind
        if k == "I":
            e %= 4
            if e >= 2:
                coef = -coef
                e -= 2
            if e:
                keep.append((aid, e))
        elif k == "sqrt":
            n, r = divmod(e, 2)
            if n:
                f = power(a.args[0], int(n))
                res = f if res is None else mul(res, f)
            if r:
                keep.append((aid, r))
        elif k == "abs":
            n, r = divmod(e, 2)
            if n:
                f = power(a.args[0], int(2 * n))
                res = f if res is None else mul(res, f)
            if r:
                keep.append((aid, r))
        elif k == "E" and a.args[0] == PI:
            n = e.__floor__() if isinstance(e, Fraction) else e
            r = e - n
            if n % 2:
                coef = -coef
            if r == Fraction(1, 2):
                res = IMAG if res is None else mul(res, IMAG)
            elif r:
                keep.append((aid, _q(r)))
        elif k == "E":
            ph = phase_of_atan2(a)
            if ph is not None:
                n = e.__floor__() if isinstance(e, Fraction) else e
                r = e - n
                if n:
                    f = power(ph, int(n)) if n > 0 else power(conj(ph), int(-n))
                    res = f if res is None else mul(res, f)
                if r:
                    keep.append((aid, _q(r)))
            else:
                keep.append((aid, e))
        else:
            keep.append((aid, e))
    base = Poly({tuple(keep): coef})
    if res is None:
        return base
    return mul(base, res)


def mul(a, b):
    if not a.d or not b.d:
        return ZERO
    if len(a.d) == 1:
        (m, c), = a.d.items()
        if not m:
            if c == 1:
                return b
            return Poly({k: v * c for k, v in b.d.items()})
    if len(b.d) == 1:
        (m, c), = b.d.items()
        if not m:
            if c == 1:
                return a
            return Poly({k: v * c for k, v in a.d.items()})
    if len(a.d) * len(b.d) > MAX_TERMS:
        raise TooBig()
    d = {}
    extra = []
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m, red = _mono_mul(m1, m2)
            c = c1 * c2
            if red:
                r = _reduce_mono(m)
                if len(r.d) == 1:
                    (m, cc), = r.d.items()
                    c = c * cc
                else:
                    for mm, cc in r.d.items():
                        s = d.get(mm, 0) + cc * c
                        if s:
                            d[mm] = s
                        else:
                            d.pop(mm, None)
                    continue
            s = d.get(m, 0) + c
            if s:
                d[m] = s
            else:
                d.pop(m, None)
    r = Poly(d)
    if len(d) > 1:
        r = tidy(r)
    return r


def _divexact(r, q):
    """exact multivariate division r/q for nonnegative integer exponents, or None"""
    lead = max(q.d, key=_order)
    lc = q.d[lead]
    ld = dict(lead)
    rem = dict(r.d)
    quo = {}
    n = 0
    while rem:
        n += 1
        if n > 400:
            return None
        m = max(rem, key=_order)
        dm = dict(m)
        for a, e in ld.items():
            f = dm.get(a, 0) - e
            if f < 0:
                return None
            if f:
                dm[a] = f
            else:
                dm.pop(a, None)
        c = _q(Fraction(rem[m]) / lc)
        qm = tuple(sorted(dm.items()))
        quo[qm] = quo.get(qm, 0) + c
        for m2, c2 in q.d.items():
            mm, red = _mono_mul(qm, m2)
            s = rem.get(mm, 0) - c * c2
            if s:
                rem[mm] = s
            else:
                rem.pop(mm, None)
    return Poly(quo)


def _order(m):
    # graded lexicographic
    return (sum(e for _, e in m), tuple((-a, e) for a, e in m))


def tidy(p):
    """cancel reciprocal atoms against their polynomial where the division is exact"""
    cand = None
    for m in p.d:
        for aid, e in m:
            if _ATOMS[aid].kind == "inv" and e > 0:
                if cand is None:
                    cand = set()
                cand.add(aid)
    if not cand:
        return p
    for aid in cand:
        q = _ATOMS[aid].args[0]
        if any(not isinstance(e, int) or e < 0 for m in q.d for _, e in m):
            continue
        for _ in range(8):
            groups = {}
            for m, c in p.d.items():
                e = 0
                mm = []
                for b, f in m:
                    if b == aid:
                        e = f
                    else:
                        mm.append((b, f))
                groups.setdefault(e, {})[tuple(mm)] = c
            k = max(groups)
            if k <= 0:
                break
            g = groups[k]
            if len(g) < 2:
                break
            # clear negative exponents by a common monomial shift
            low = {}
            for m in g:
                for b, f in m:
                    if f < low.get(b, 0):
                        low[b] = f
            gp = Poly(g)
            if low:
                sh = tuple(sorted((b, -f) for b, f in low.items()))
                gp = Poly({_mono_mul(m, sh)[0]: c for m, c in g.items()})
            if any(not isinstance(e, int) for m in gp.d for _, e in m if _ATOMS[_].kind != "E"):
                break
            t = _divexact(gp, q)
            if t is None:
                break
            if low:
                sh = tuple(sorted(low.items()))
                t = Poly({_mono_mul(m, sh)[0]: c for m, c in t.d.items()})
            d = dict(p.d)
            for m, c in g.items():
                full = tuple(sorted(m + ((aid, k),)))
                d.pop(full, None)
            for m, c in t.d.items():
                full = tuple(sorted(m + ((aid, k - 1),))) if k > 1 else m
                s = d.get(full, 0) + c
                if s:
                    d[full] = s
                else:
                    d.pop(full, None)
            p = Poly(d)
    return p


def power(a, n):
    if isinstance(n, Fraction) and n.denominator == 1:
        n = n.numerator
    if n == 0:
        return ONE
    if n < 0:
        return power(inv(a), -n)
    r = None
    b = a
    while n:
        if n & 1:
            r = b if r is None else mul(r, b)
        n >>= 1
        if n:
            b = mul(b, b)
    return r


def gcd_content(p):
    """positive rational content"""
    from math import gcd
    num = 0
    den = 1
    for c in p.d.values():
        c = Fraction(c)
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    return Fraction(num, den)


def _akey(aid):
    return aid


def split(p):
    """p = content * monomial * primitive (leading coefficient positive); monomial only over atoms
    whose integer powers may be negative or are common to all terms"""
    c = gcd_content(p)
    common = None
    for m in p.d:
        dm = dict(m)
        if common is None:
            common = dict(dm)
        else:
            for k in list(common):
                if k in dm:
                    e, f = common[k], dm[k]
                    common[k] = min(e, f)
                else:
                    if common[k] < 0:
                        pass
                    else:
                        del common[k]
            for k, f in dm.items():
                if k not in common and f < 0:
                    common[k] = f
    # re-validate: exponent common must be min over all monomials (0 if absent)
    for k in list(common):
        e = min(dict(m).get(k, 0) for m in p.d)
        if e:
            common[k] = e
        else:
            del common[k]
    com = tuple(sorted(common.items()))
    d = {}
    for m, v in p.d.items():
        dm = dict(m)
        for k, e in com:
            r = dm.get(k, 0) - e
            if r:
                dm[k] = _q(r) if isinstance(r, Fraction) else r
            else:
                dm.pop(k, None)
        d[tuple(sorted(dm.items()))] = _q(Fraction(v) / c)
    lead = max(d)
    if d[lead] < 0:
        c = -c
        d = {m: -v for m, v in d.items()}
    return c, com, Poly(d)


def _pow_atom(aid, e):
    """atom^e as reduced Poly for any integer/fractional e"""
    a = _ATOMS[aid]
    if a.kind in ("sqrt", "abs") and e < 0:
        base = a.args[0] if a.kind == "sqrt" else mul(a.args[0], a.args[0])
        n = -e
        # a^-n = a^(n%2) * base^-((n+n%2)/2)
        r = n % 2
        out = power(inv(base), int((n + r) // 2))
        if r:
            out = mul(out, P(a))
        return out
    if a.kind == "inv" and e < 0:
        return power(a.args[0], -e)
    return _reduce_mono(((aid, e),))


_INV = {}


def inv(p):
    if not p.d:
        return P(atom("div0", (), real=True))
    r = _INV.get(p)
    if r is not None:
        return r
    if len(p.d) == 1:
        (m, c), = p.d.items()
        r = P(_q(Fraction(1) / Fraction(c)))
        for aid, e in m:
            r = mul(r, _pow_atom(aid, -e))
    else:
        c, com, prim = split(p)
        r = P(_q(Fraction(1) / c))
        for aid, e in com:
            r = mul(r, _pow_atom(aid, -e))
        r = mul(r, P(atom("inv", (prim,), real=is_real(prim))))
    _INV[p] = r
    return r


def is_real(p):
    return conj(p) == p


_CONJ = {}


def conj(p):
    r = _CONJ.get(p)
    if r is not None:
        return r
    simple = True
    for m in p.d:
        for aid, e in m:
            a = _ATOMS[aid]
            if not a.real:
                simple = False
                break
        if not simple:
            break
    if simple:
        r = p
    else:
        r = ZERO
        for m, c in p.d.items():
            t = P(c) if not isinstance(c, Poly) else c
            plain = []
            for aid, e in m:
                a = _ATOMS[aid]
                if a.real:
                    plain.append((aid, e))
                elif a.kind == "I":
                    t = mul(t, P(-1) * IMAG if e % 2 else ONE)
                elif a.kind == "E":
                    t = mul(t, _reduce_mono(((aid, -e),)))
                else:
                    t = mul(t, power_any(conj_atom(a), e))
            if plain:
                t = mul(t, Poly({tuple(plain): 1}))
            r = r + t
    _CONJ[p] = r
    return r


def power_any(p, e):
    if isinstance(e, Fraction) and e.denominator != 1:
        raise TooBig()
    return power(p, int(e))


def conj_atom(a):
    if a.kind == "cj":
        return P(_ATOMS[a.args[0]])
    if a.kind == "inv":
        return inv(conj(a.args[0]))
    if a.kind == "sqrt":
        return sqrt(conj(a.args[0]))
    return P(atom("cj", (a.id,)))


def re_(p):
    return (p + conj(p)) * Fraction(1, 2)


def im_(p):
    return (p - conj(p)) * IMAG * Fraction(-1, 2)


# --- sign knowledge -------------------------------------------------------------------------
ASSUMED_NONNEG = set()     # extra polynomials assumed >= 0 (set by a check)


def assume_nonneg(p):
    ASSUMED_NONNEG.add(p)


def nonneg(p):
    if not p.d:
        return True
    if p in ASSUMED_NONNEG:
        return True
    for m, c in p.d.items():
        if c < 0:
            q = _diff_squares(p)
            return q is not None and nonneg(q)
        if not mono_nonneg(m):
            return False
    return True


def _diff_squares(p):
    """a^2 - b^2 when p = a - b with non-negative single terms a, b involving a square root"""
    if len(p.d) != 2:
        return None
    (m1, c1), (m2, c2) = p.d.items()
    if c1 < 0:
        m1, c1, m2, c2 = m2, c2, m1, c1
    if c1 < 0 or c2 > 0 or not mono_nonneg(m1) or not mono_nonneg(m2):
        return None
    if not any(_ATOMS[a].kind == "sqrt" for m in (m1, m2) for a, e in m):
        return None
    a, b = Poly({m1: c1}), Poly({m2: -c2})
    return mul(a, a) - mul(b, b)


def mono_nonneg(m):
    for aid, e in m:
        a = _ATOMS[aid]
        if a.nonneg:
            continue
        if a.real and (isinstance(e, int) and e % 2 == 0):
            continue
        if a.kind == "inv" and nonneg(a.args[0]):
            continue
        return False
    return True


def strictly_positive(p):
    """some term is strictly positive and all are nonnegative"""
    if not nonneg(p):
        return False
    for m, c in p.d.items():
        if c > 0 and all(_ATOMS[a].positive for a, e in m):
            return True
    q = _diff_squares(p)
    return q is not None and strictly_positive(q)


# --- elementary functions ---------------------------------------------------------------------
def _isqrt_rational(q):
    """q = r^2 * s with s squarefree-ish (integer); returns (r, s)"""
    q = Fraction(q)
    n = q.numerator * q.denominator
    r = Fraction(1, q.denominator)
    sgn = 1
    if n < 0:
        sgn, n = -1, -n
    f = 2
    s = 1
    k = 1
    lim = 100000
    while f * f <= n and f < lim:
        while n % (f * f) == 0:
            n //= f * f
            k *= f
        f += 1
    from math import isqrt
    t = isqrt(n)
    if t * t == n:
        k *= t
        n = 1
    return r * k, sgn * n


_SQRT = {}


def sqrt(p):
    r = _SQRT.get((p, len(ASSUMED_NONNEG)))
    if r is None:
        r = _sqrt(p)
        _SQRT[(p, len(ASSUMED_NONNEG))] = r
    return r


def _sqrt_atom(p):
    return P(atom("sqrt", (p,), real=nonneg(p) or is_real(p), nonneg=True))


def _sqrt(p):
    if not p.d:
        return ZERO
    if len(p.d) == 3 and any(_ATOMS[a].kind == "E" for m in p.d for a, e in m) and is_real(p):
        # squares of trigonometric functions
        for sg, f in ((1, ONE), (-1, IMAG)):
            q = perfect_square(p * sg)
            if q is not None:
                q = mul(q, f)
                if is_real(q):
                    return absval(q)
    c, com, prim = split(p)
    if c < 0 and nonneg(-prim) and prim != ONE:
        c, prim = -c, -prim
    if c < 0:
        # keep the sign inside
        inner_sign = -1
        c = -c
    else:
        inner_sign = 1
    r, s = _isqrt_rational(c)
    out = P(_q(r))
    rest = P(inner_sign)
    if s != 1:
        out = mul(out, _sqrt_atom(P(s)))
    # monomial factors
    sq = perfect_square(prim)
    if sq is not None and is_real(sq):
        out = mul(out, absval(sq))
        prim = ONE
    primnn = nonneg(prim)
    factors = []
    for aid, e in com:
        a = _ATOMS[aid]
        if a.kind == "E":
            factors.append((aid, e, False))
            continue
        n, odd = divmod(e, 2)
        if n:
            # even part: sqrt(a^(2n)) = |a|^n
            b = P(a) if a.nonneg else absval(P(a)) if a.real else None
            if b is None:
                factors.append((aid, e, False))
                continue
            out = mul(out, power(b, int(n)) if n > 0 else power(inv(b), int(-n)))
        if odd:
            factors.append((aid, odd, a.nonneg or (a.kind == "inv" and nonneg(a.args[0]))))
    unknown = [f for f in factors if not f[2]]
    nunknown = len(unknown) + (0 if (primnn or prim == ONE) else 1) + (1 if inner_sign < 0 else 0)
    if nunknown <= 1:
        # split: at most one factor of unknown sign
        for aid, e, known in factors:
            a = _ATOMS[aid]
            if a.kind == "inv":
                q = a.args[0]
                out = mul(out, mul(sqrt(q), power(P(a), 1)))
            else:
                out = mul(out, _sqrt_atom(Poly({((aid, e),): 1})))
        if prim != ONE:
            out = mul(out, _sqrt_atom(prim))
        if inner_sign < 0:
            out = mul(out, _sqrt_atom(P(-1)))
        return out
    inner = rest
    for aid, e, known in factors:
        inner = mul(inner, Poly({((aid, e),): 1}))
    inner = mul(inner, prim)
    return mul(out, _sqrt_atom(inner))


def perfect_square(p):
    """very small detector: p == q*q for a monomial or a two/three term real polynomial"""
    if p == ONE:
        return None
    if len(p.d) == 1:
        return None
    if len(p.d) == 3:
        # (a+b)^2 = a^2+2ab+b^2
        items = sorted(p.d.items(), key=lambda t: t[0])
        roots = []
        for m, c in items:
            if c > 0 and all(_ATOMS[a].kind == "E" or isinstance(e, int) and e % 2 == 0 for a, e in m):
                r, s = _isqrt_rational(c)
                if s == 1:
                    roots.append(Poly({tuple((a, _q(Fraction(e) / 2)) for a, e in m): _q(r)}))
        for i in range(len(roots)):
            for j in range(i + 1, len(roots)):
                for sg in (1, -1):
                    q = roots[i] + roots[j] * sg
                    if mul(q, q) == p:
                        return q
    return None


def absval(p):
    if nonneg(p):
        return p
    if nonneg(-p):
        return -p
    if not is_real(p):
        return sqrt(mul(p, conj(p)))
    c, com, prim = split(p)
    if c < 0:
        c = -c
    out = P(_q(c))
    for aid, e in com:
        a = _ATOMS[aid]
        if a.kind in ("I", "E"):
            continue
        if a.nonneg or (isinstance(e, int) and e % 2 == 0):
            out = mul(out, Poly({((aid, e),): 1}))
        else:
            b = P(atom("abs", (P(a),), real=True, nonneg=True))
            out = mul(out, power(b, int(e)) if e > 0 else power(inv(b), int(-e)))
    if prim != ONE:
        if nonneg(prim):
            out = mul(out, prim)
        else:
            out = mul(out, P(atom("abs", (prim,), real=True, nonneg=True)))
    return out


def expi(p):
    """exp(i*p) for a real polynomial p"""
    out = ONE
    for m, c in p.d.items():
        base = Poly({m: 1})
        a = atom("E", (base,))
        out = mul(out, _reduce_mono(((a.id, _q(c)),)))
    return out


_PH = {}


def phase_of_atan2(a):
    """E-atom of an atan2 angle -> (x+iy)/sqrt(x^2+y^2)"""
    if a.id in _PH:
        return _PH[a.id]
    r = None
    base = a.args[0]
    if len(base.d) == 1:
        (m, c), = base.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            t = _ATOMS[m[0][0]]
            if t.kind == "atan2":
                y, x = t.args
                rr = sqrt(mul(x, x) + mul(y, y))
                r = mul(x + mul(IMAG, y), inv(rr))
    _PH[a.id] = r
    return r


def cos(p):
    e = expi(p)
    return (e + conj(e)) * Fraction(1, 2)


def sin(p):
    e = expi(p)
    return mul(e - conj(e), IMAG) * Fraction(-1, 2)


def atan2(y, x):
    if not y.d:
        if not x.d or strictly_positive(x):
            return ZERO
        if strictly_positive(-x):
            return PI
    if not x.d:
        if strictly_positive(y):
            return PI * Fraction(1, 2)
        if strictly_positive(-y):
            return PI * Fraction(-1, 2)
    return P(atom("atan2", (y, x), real=True, nonneg=nonneg(y)))


def fn(name, *args, real=True, nonneg=False, integer=False):
    return P(atom("fn:" + name, tuple(args), real=real, nonneg=nonneg, integer=integer))


# --- queries ---------------------------------------------------------------------------------
def atoms_in(p, out=None, deep=True):
    if out is None:
        out = set()
    for m in p.d:
        for aid, e in m:
            if aid not in out:
                out.add(aid)
                if deep:
                    for x in _ATOMS[aid].args:
                        _deep(x, out)
    return out


def _deep(x, out):
    if isinstance(x, Poly):
        atoms_in(x, out)
    elif isinstance(x, tuple):
        for y in x:
            _deep(y, out)
    elif hasattr(x, "leaves_for_atoms"):
        for y in x.leaves_for_atoms():
            _deep(y, out)


def clear_inv(p):
    """multiply by denominators until none is left; zero iff p zero (denominators assumed nonzero)"""
    for _ in range(60):
        # pick an inv atom
        cand = {}
        for m in p.d:
            for aid, e in m:
                if _ATOMS[aid].kind == "inv" and e > 0:
                    cand[aid] = max(cand.get(aid, 0), e)
        if not cand:
            return p
        # innermost-last: choose the largest id (depends only on earlier ones)
        aid = max(cand)
        k = cand[aid]
        q = _ATOMS[aid].args[0]
        pw = [ONE]
        for _i in range(int(k)):
            pw.append(mul(pw[-1], q))
        r = ZERO
        groups = {}
        for m, c in p.d.items():
            e = 0
            mm = []
            for b, f in m:
                if b == aid:
                    e = f
                else:
                    mm.append((b, f))
            g = groups.setdefault(int(k - e), {})
            mt = tuple(mm)
            s = g.get(mt, 0) + c
            if s:
                g[mt] = s
            else:
                g.pop(mt, None)
        for j, g in groups.items():
            r = r + mul(Poly(g), pw[j])
        p = r
    return p


def is_zero(p):
    if not p.d:
        return True
    try:
        q = clear_inv(p)
    except TooBig:
        return None
    return not q.d


def equal(a, b):
    return a == b or is_zero(a - b)


def subst(p, mp, cache=None):
    """substitute atoms (id -> Poly), rebuilding composite atoms"""
    if cache is None:
        cache = {}
    r = ZERO
    for m, c in p.d.items():
        t = P(c)
        for aid, e in m:
            b = _subst_atom(aid, mp, cache)
            if b is None:
                f = Poly({((aid, e),): 1})
            else:
                if isinstance(e, Fraction):
                    a = _ATOMS[aid]
                    if a.kind == "E":
                        f = expi(mul(_subst_arg(a.args[0], mp, cache), P(e)))
                    else:
                        raise TooBig()
                else:
                    f = power(b, e) if e >= 0 else power(inv(b), -e)
            t = mul(t, f)
        r = r + t
    return r


def _subst_arg(x, mp, cache):
    if isinstance(x, Poly):
        return subst(x, mp, cache)
    if isinstance(x, tuple):
        return tuple(_subst_arg(y, mp, cache) for y in x)
    return x


def _subst_atom(aid, mp, cache):
    if aid in mp:
        return mp[aid]
    if aid in cache:
        return cache[aid]
    a = _ATOMS[aid]
    if not any(isinstance(x, (Poly, tuple)) for x in a.args):
        if a.kind == "cj":
            b = _subst_atom(a.args[0], mp, cache)
            cache[aid] = None if b is None else conj(b)
            return cache[aid]
        cache[aid] = None
        return None
    na = tuple(_subst_arg(x, mp, cache) for x in a.args)
    if na == a.args:
        cache[aid] = None
        return None
    k = a.kind
    if k == "sqrt":
        r = sqrt(na[0])
    elif k == "abs":
        r = absval(na[0])
    elif k == "inv":
        r = inv(na[0])
    elif k == "E":
        r = expi(na[0])
    elif k == "atan2":
        r = atan2(*na)
    else:
        r = P(atom(k, na, a.real, a.nonneg, a.integer, a.positive))
    cache[aid] = r
    return r


# --- display -----------------------------------------------------------------------------------
def show_atom(a):
    if a.kind == "sym":
        return str(a.args[0])
    if a.kind == "I":
        return "i"
    if a.kind == "E":
        return "e^i[%s]" % (a.args[0],)
    if a.kind == "inv":
        return "1/(%s)" % (a.args[0],)
    if a.kind == "cj":
        return "conj(%s)" % show_atom(_ATOMS[a.args[0]])
    k = a.kind[3:] if a.kind.startswith("fn:") else a.kind
    return "%s(%s)" % (k, ",".join(str(x) for x in a.args))


def show(p, limit=12):
    if not p.d:
        return "0"
    out = []
    for n, (m, c) in enumerate(sorted(p.d.items(), key=lambda t: str(t[0]))):
        if n >= limit:
            out.append("...(%d terms)" % len(p.d))
            break
        f = []
        for aid, e in m:
            s = show_atom(_ATOMS[aid])
            f.append(s if e == 1 else "%s^%s" % (s, e))
        cs = str(c)
        if f:
            if c == 1:
                out.append("*".join(f))
            elif c == -1:
                out.append("-" + "*".join(f))
            else:
                out.append(cs + "*" + "*".join(f))
        else:
            out.append(cs)
    return " + ".join(out).replace("+ -", "- ")


_NUMRE = re.compile(r"^([0-9]*\.?[0-9]*(?:[eE][+-]?[0-9]+)?)[fFlLuU]*$")


def parse_float(txt, fallback):
    t = txt.replace("'", "")
    m = _NUMRE.match(t)
    if m and m.group(1) not in ("", "."):
        s = m.group(1)
        if s.startswith("."):
            s = "0" + s
        s = re.sub(r"\.(?=[eE]|$)", ".0", s)
        v = Fraction(s)
    else:
        v = Fraction(fallback)
    return _q(v)
