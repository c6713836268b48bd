"""Amplitudes over a prime field: identities between polynomials in brackets, tested at random points.

An amplitude is a rational function of the spinors of the four legs (all counted as incoming), the masses, couplings
and widths.  Two such functions of degree below d that are not the same agree at a random point of the field with a
probability below d/PRIME; the degrees here stay below a few hundred.
"""
import random

from checks.brk import *

PRIME = 2305843009213693921


class Fp:
    """element of the field; integers, fractions and dyadic complex constants are converted"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v % PRIME

    @staticmethod
    def of(x):
        c = x.__class__
        if c is Fp:
            return x
        if c is int or c is bool:
            return Fp(x)
        if c is complex:
            return Fp.of(F(x.real)) + IUNIT * Fp.of(F(x.imag))
        x = F(x)
        return Fp(x.numerator * pow(x.denominator, -1, PRIME))

    def __add__(s, o):
        return Fp(s.v + (o.v if o.__class__ is Fp else Fp.of(o).v))
    __radd__ = __add__

    def __sub__(s, o):
        return Fp(s.v - Fp.of(o).v)

    def __rsub__(s, o):
        return Fp(Fp.of(o).v - s.v)

    def __mul__(s, o):
        return Fp(s.v * (o.v if o.__class__ is Fp else Fp.of(o).v))
    __rmul__ = __mul__

    def __truediv__(s, o):
        return Fp(s.v * pow(Fp.of(o).v, -1, PRIME))

    def __rtruediv__(s, o):
        return Fp(Fp.of(o).v * pow(s.v, -1, PRIME))

    def __neg__(s):
        return Fp(-s.v)

    def __pow__(s, n):
        return Fp(pow(s.v, n, PRIME))

    def __eq__(s, o):
        return s.v == Fp.of(o).v

    def __hash__(s):
        return s.v

    def __bool__(s):
        return s.v != 0


def root(a):
    """a square root or None (Tonelli and Shanks)"""
    a = a.v
    if a == 0:
        return Fp(0)
    if pow(a, (PRIME - 1) // 2, PRIME) != 1:
        return None
    q, s = PRIME - 1, 0
    while q % 2 == 0:
        q //= 2
        s += 1
    z = 2
    while pow(z, (PRIME - 1) // 2, PRIME) != PRIME - 1:
        z += 1
    m, c, t, r = s, pow(z, q, PRIME), pow(a, q, PRIME), pow(a, (q + 1) // 2, PRIME)
    while t != 1:
        i, u = 0, t
        while u != 1:
            u = u * u % PRIME
            i += 1
        b = pow(c, 1 << (m - i - 1), PRIME)
        m, c, t, r = i, b * b % PRIME, t * b * b % PRIME, r * b % PRIME
    return Fp(r)


IUNIT = root(Fp(-1))
ROOT2 = root(Fp(2))
ZERO, ONE = Fp(0), Fp(1)
UNITS = [ONE, -ONE, IUNIT, -IUNIT]


# ------------------------------------------------------------------------------------------ 2x2 matrices (rows)
def mul(a, b):
    return tuple(tuple(a[i][0] * b[0][j] + a[i][1] * b[1][j] for j in (0, 1)) for i in (0, 1))


def plus(*ms):
    return tuple(tuple(sum((m[i][j] for m in ms), ZERO) for j in (0, 1)) for i in (0, 1))


def times(a, s):
    return tuple(tuple(x * s for x in r) for r in a)


def det(a):
    return a[0][0] * a[1][1] - a[0][1] * a[1][0]


def adj(a):
    return ((a[1][1], -a[0][1]), (-a[1][0], a[0][0]))


def tr(a):
    return a[0][0] + a[1][1]


def row(a, m):
    return tuple(a[0] * m[0][j] + a[1] * m[1][j] for j in (0, 1))


def col(a, i):
    return (a[0][i], a[1][i])


def outer(x, y):
    return tuple(tuple(a * b for b in y) for a in x)


def vector(m):
    """four-vector v with sig(v, False) = m"""
    h = ONE / 2
    return [h * (m[0][0] + m[1][1]), -h * (m[0][1] + m[1][0]), -h * IUNIT * (m[0][1] - m[1][0]), h * (m[1][1] - m[0][0])]


class Leg:
    """spinors of a leg: angle and square columns by label (None: massless), momentum matrix"""

    def __init__(self, m, p, rnd):
        self.m, self.p = m, p
        if m:
            a, b, c = rnd(), rnd(), rnd()
            L = ((a, b), (c, (m + b * c) / a))
            R = times(mul(adj(p), L), -ONE / m)
            self.a = {1: col(L, 0), -1: col(L, 1)}
            self.s = {1: col(R, 0), -1: col(R, 1)}
        else:
            i = 0 if p[0][0] or p[0][1] else 1
            k = rnd()
            j = 0 if p[i][0] else 1
            a = (p[0][j] / p[i][j] * k, p[1][j] / p[i][j] * k)
            rho = tuple(x / k for x in p[i])
            # [i| = rho = -(col of |i])^T E
            self.a = {0: a}
            self.s = {0: (-rho[1], rho[0])}

    def langle(self, h):
        a = self.a[h]
        return (-a[1], a[0])

    def lsquare(self, h):
        s = self.s[h]
        return (s[1], -s[0])


class Kin:
    """random momenta with the given masses that add up to zero"""

    def __init__(self, masses, seed):
        r = random.Random(seed)

        def rnd():
            return Fp(r.randrange(1, PRIME))

        def matrix(m):
            a, b, c = rnd(), rnd(), rnd()
            return ((a, b), (c, (m * m + b * c) / a))
        while True:
            p1, p2 = matrix(masses[0]), matrix(masses[1])
            K = plus(p1, p2)
            A = adj(K)
            y, z = rnd(), rnd()
            # x w - y z = m3^2 and det K + tr(A p3) + m3^2 = m4^2
            d = masses[2] * masses[2] + y * z
            g = masses[3] * masses[3] - masses[2] * masses[2] - det(K) - A[0][1] * z - A[1][0] * y
            # A00 x + A11 w = g, x w = d
            q = root(g * g - 4 * A[0][0] * A[1][1] * d)
            if q is None or not A[0][0]:
                continue
            x = (g + q) / (2 * A[0][0])
            if not x:
                continue
            p3 = ((x, y), (z, d / x))
            p4 = times(plus(p1, p2, p3), -ONE)
            self.p = [p1, p2, p3, p4]
            self.legs = [Leg(m, p, rnd) for m, p in zip(masses, self.p)]
            self.rnd = rnd
            return

    def string(self, angle, left, inner, right):
        """bracket of all-incoming spinors; ends are (leg, label)"""
        v = self.legs[left[0]].langle(left[1]) if angle else self.legs[left[0]].lsquare(left[1])
        for i in inner:
            v = row(v, self.p[i] if angle else adj(self.p[i]))
            angle = not angle
        e = (self.legs[right[0]].a if angle else self.legs[right[0]].s)[right[1]]
        return v[0] * e[0] + v[1] * e[1]

    def square(self, i, j):
        return det(plus(self.p[i], self.p[j]))


class Value:
    """value of an amplitude at a point"""

    def __init__(self, kin, env):
        self.kin, self.env, self.memo = kin, env, {}

    def poly(self, p):
        if p.__class__ is not num.Poly:
            raise NoForm("value with cases")
        r = ZERO
        for m, co in p.d.items():
            t = self.const(co)
            for aid, n in m:
                x = self.memo.get(aid)
                if x is None:
                    x = self.memo[aid] = self.atom(num._ATOMS[aid])
                t = t * (x ** n if n >= 0 else ONE / x ** -n)
            r = r + t
        return r

    def const(self, c):
        return Fp.of(c)

    def atom(self, a):
        if a.kind == "Sp":
            angle, lu, ru, ids, lab = a.args
            legs, ms = [], []
            for x in ids:
                st = state(x)
                i = LEGID.get(tuple(st[1:]))
                if i is None:
                    raise NoForm("bracket of a particle that is not an external leg")
                if self.poly(st[0]) != self.kin.legs[i].m:
                    raise NoForm("mass of a leg")
                legs.append(i)
                ms.append(bool(st[0].d))
            labs = list(lab)
            if len(lab) != ms[0] + ms[-1] or not lu or not ru:
                raise NoForm("spin labels")
            left = (legs[0], labs.pop(0) if ms[0] else 0)
            right = (legs[-1], labs.pop(0) if ms[-1] else 0)
            ra = angle if len(ids) % 2 == 0 else not angle
            sign = 1
            if angle and legs[0] > 1:
                sign = -sign
            if ra and legs[-1] > 1:
                sign = -sign
            for i in legs[1:-1]:
                if i > 1:
                    sign = -sign
            return sign * self.kin.string(bool(angle), left, legs[1:-1], right)
        if a.kind == "Den":
            q = PAIRS.get(tuple(a.args[1:]))
            if q is None:
                raise NoForm("denominator")
            return self.poly(a.args[0]) + self.kin.square(*q)
        if a.kind == "Br":
            return self.kin.string(*a.args)
        if a.kind == "Prop":
            return self.poly(a.args[0]) + self.kin.square(*a.args[1])
        if a.kind == "Man":
            return self.kin.square(*a.args[0])
        if a.kind == "I":
            return IUNIT
        if a.kind == "sym":
            x = self.env.get(a.args[0])
            if x is None:
                raise NoForm("symbol %s" % a.args[0])
            return x
        if a.kind == "inv":
            return ONE / self.poly(a.args[0])
        if a.kind == "sqrt":
            x = self.poly(a.args[0])
            if x == 2:
                return ROOT2
            if x == self.env["#cw"] * self.env["#cw"]:
                return self.env["#cw"]
        raise NoForm("term of kind %s" % a.kind)


# ------------------------------------------------------------------------------------------ prediction
class Model(feyn.Model):
    def __init__(self, env, has, masses, only_photon):
        self.e, self.gs = env["echarge"], env["gscharge"]
        self.weak = "massW" in has and not only_photon
        self.sw, self.cw = env["sinW"], env["#cw"]
        self.mw = env["massW"]
        self.mz = self.mw / self.cw
        self.g, self.gp = self.e / self.sw, self.e / self.cw
        self.v = env["vev"]
        self.higgs = "massh" in has and not only_photon
        self.mh = env["massh"]
        self.mass = masses
        self.w = {k: -env[n] for k, n in smodel.WIDTHNAME.items()}


def environment(names, seed, widths):
    """random parameters; the relations of the model hold"""
    r = random.Random("env%s" % seed)

    def rnd():
        return Fp(r.randrange(1, PRIME))
    t = rnd()
    n = ONE + t * t
    env = {"sinW": 2 * t / n, "#cw": (ONE - t * t) / n}
    for x in sorted(set(names) | {"echarge", "gscharge", "massW", "massh", "widthZ", "widthW", "widthh"}):
        env.setdefault(x, rnd() if widths or not x.startswith("width") else ZERO)
    env.setdefault("gcharge", env["gscharge"])
    env["gscharge"] = env["gcharge"]
    env["vev"] = 2 * env["massW"] * env["sinW"] / env["echarge"]
    return env


def field(M, i, name, kin, label, ref):
    """leg i of the all-incoming process with the given label"""
    leg, p = kin.legs[i], kin.p[i]
    q = vector(p)
    ids = (i,)
    kind = name.rstrip("~+-")
    if kind == "h":
        return feyn.Field("h", q, ONE, ids=ids)
    if kind in smodel.BOSONS:
        if leg.m:
            pairs = {2: ((1, 1),), -2: ((-1, -1),), 0: ((1, -1), (-1, 1))}[label]
            m = plus(*[outer(leg.a[x], leg.lsquare(y)) for x, y in pairs])
            e = times(m, (ROOT2 if label else ONE) / leg.m)
        elif label > 0:
            k = leg.lsquare(0)
            a = leg.langle(0)
            e = times(outer(ref, k), ROOT2 / (a[0] * ref[0] + a[1] * ref[1]))
        else:
            s = leg.s[0]
            e = times(outer(leg.a[0], ref), ROOT2 / (ref[0] * s[0] + ref[1] * s[1]))
        e = vector(e)
        z = [ZERO] * 4
        d = [z, z, z, z, z]
        if kind == "A":
            d[feyn.W3], d[feyn.B] = feyn.scale(e, M.sw), feyn.scale(e, M.cw)
        elif kind == "Z":
            d[feyn.W3], d[feyn.B] = feyn.scale(e, M.cw), feyn.scale(e, -M.sw)
        elif kind == "g":
            d[feyn.G] = e
        else:
            s = 1 if name.endswith("+") else -1
            d[feyn.W1], d[feyn.W2] = feyn.scale(e, ONE / ROOT2), feyn.scale(e, s * IUNIT / ROOT2)
        return feyn.Field("V", q, d, ids=ids)
    anti = name.endswith("~")
    none = (ZERO, ZERO)
    if leg.m:
        a, s = (leg.langle(label), leg.lsquare(label)) if anti else (leg.a[label], leg.s[label])
        x = (a, tuple(-y for y in s)) if anti else (tuple(-y for y in a), s)
    elif anti:
        x = (none, tuple(-y for y in leg.lsquare(0)))
    else:
        x = (tuple(-y for y in leg.a[0]), none)
    zero = (none, none)
    d = (x, zero) if kind in feyn.UP else (zero, x)
    return feyn.Field("R" if anti else "F", q, d, feyn.FAMILY[kind], ids)


class Setting:
    """random parameters, momenta and reference spinors for one process"""

    def __init__(self, A, seed, widths):
        self.A = A
        names = A.X.params()
        self.env = env = environment(names, seed, widths)
        ms = {k: env[n] for k, n in smodel.MASSNAME.items() if n in names}
        if "massf" in names:
            ms.update({l.kind: env["massf"] for l in A.legs if l.fermion})
        self.model = Model(env, set(names), ms, A.short.endswith("QED"))
        flat = Value(None, env)
        self.kin = Kin([flat.poly(A.masses.get(i + 1, num.ZERO)) for i in range(4)], "%s/%s" % (A.short, seed))
        for i in range(4):
            for mu, x in enumerate(vector(self.kin.p[i])):
                env["k%d_%d" % (i + 1, mu)] = x if i < 2 else -x
        self.value = Value(self.kin, env)
        self.ref = [(self.kin.rnd(), self.kin.rnd()) for _ in range(4)]

    def prediction(self, labels):
        """{structure: value}"""
        f = [field(self.model, i, n, self.kin, labels[i], self.ref[i]) for i, n in enumerate(self.A.names)]
        return feyn.amplitude(self.model, f)


def decisive(A):
    """one function without cases: it has to be the whole amplitude"""
    return len(A.values) == 1 and all(v.__class__ is num.Poly for f in A.values.values() for v in f.values())
