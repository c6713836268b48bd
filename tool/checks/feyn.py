"""Tree-level two-to-two amplitudes of the Standard Model in unitary gauge, evaluated at a point.

Written from the Lagrangian: D = d - i g W^a tau^a/2 - i g' Y B - i gs G^a T^a, unitary gauge, diagonal quark mixing.
Gauge fields are kept in the basis (W1, W2, W3, B, G) so that only one cubic and one quartic vertex is needed.
Every amplitude is returned as {colour structure: value}.
"""
import itertools
import math
from fractions import Fraction as F

from checks import smodel

UP = {"u", "c", "t", "ne", "nm", "nl"}
FAMILY = {"u": "ud", "d": "ud", "c": "cs", "s": "cs", "t": "tb", "b": "tb", "e": "e", "ne": "e", "m": "m", "nm": "m", "l": "l", "nl": "l"}
DOWN_OF = {"ud": "d", "cs": "s", "tb": "b", "e": "e", "m": "m", "l": "l"}
UP_OF = {"ud": "u", "cs": "c", "tb": "t", "e": "ne", "m": "nm", "l": "nl"}
R2 = math.sqrt(2.0)
EPS3 = {(0, 1, 2): 1, (1, 2, 0): 1, (2, 0, 1): 1, (0, 2, 1): -1, (2, 1, 0): -1, (1, 0, 2): -1}
W1, W2, W3, B, G = range(5)


def dot(a, b):
    return a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3]


def vadd(a, b, s=1):
    return [a[i] + s * b[i] for i in range(4)]


def scale(a, s):
    return [s * x for x in a]


def sig(v, bar):
    """v.sigma (bar: v.sigmabar) as 2x2"""
    s = 1 if bar else -1
    return ((v[0] + s * v[3], s * (v[1] - 1j * v[2])), (s * (v[1] + 1j * v[2]), v[0] - s * v[3]))


def m2(m, x):
    return (m[0][0] * x[0] + m[0][1] * x[1], m[1][0] * x[0] + m[1][1] * x[1])


def r2(x, m):
    return (x[0] * m[0][0] + x[1] * m[1][0], x[0] * m[0][1] + x[1] * m[1][1])


def d2(x, y):
    return x[0] * y[0] + x[1] * y[1]


class Model:
    """couplings and masses; missing weak parameters mean that only photons and gluons are exchanged"""

    def __init__(self, e=0.0, gs=0.0, mw=None, sw=None, mh=None, vev=None, masses=None, only_photon=False, widths=None):
        self.e, self.gs = e, gs
        self.weak = mw is not None and not only_photon
        self.sw = sw if sw is not None else 0.5
        self.cw = math.sqrt(1 - self.sw ** 2)
        self.mw = mw if mw is not None else 1.0
        self.mz = self.mw / self.cw
        self.g, self.gp = e / self.sw, e / self.cw
        self.v = vev if vev is not None else (2 * self.mw / self.g if e else 1.0)
        self.higgs = (mh is not None) and not only_photon
        self.mh = mh if mh is not None else 1.0
        self.mass = masses or {}
        self.w = widths or {}

    def fm(self, fam):
        return (self.mass.get(UP_OF[fam], 0.0), self.mass.get(DOWN_OF[fam], 0.0))

    def q(self, fam):
        return (F(smodel.CHARGE[UP_OF[fam]], 3), F(smodel.CHARGE[DOWN_OF[fam]], 3))


class Field:
    """a leg or a combination of two legs, all momenta incoming"""
    __slots__ = ("kind", "q", "d", "fam", "ids")

    def __init__(self, kind, q, d, fam=None, ids=()):
        self.kind, self.q, self.d, self.fam, self.ids = kind, q, d, fam, ids


# ------------------------------------------------------------------------------------------------ external states
def root(p, m, bar):
    s = sig(p, bar)
    n = 1 / math.sqrt(2 * (p[0] + m))
    return ((n * (s[0][0] + m), n * s[0][1]), (n * s[1][0], n * (s[1][1] + m)))


def spinors(p, m, anti):
    """{double helicity: Dirac spinor} with (upper, lower) pairs: u or v"""
    a, b = root(p, m, False), root(p, m, True)
    k = math.sqrt(p[1] ** 2 + p[2] ** 2 + p[3] ** 2)
    ct, st = math.sqrt((1 + p[3] / k) / 2), math.sqrt(max((1 - p[3] / k) / 2, 0))
    ph = complex(p[1], p[2])
    ph = ph / abs(ph) if abs(ph) > 1e-12 * k else 1.0
    xi = {1: (ct, ph * st), -1: (-st * ph.conjugate() if ph != 1.0 else -st, ct)}
    out = {}
    for h in (1, -1):
        x = xi[-h] if anti else xi[h]
        lo, hi = m2(a, x), m2(b, x)
        out[h] = (lo, (-hi[0], -hi[1]) if anti else hi)
    return out


def barred(u):
    """u^dagger gamma0 as (pair multiplying the upper, pair multiplying the lower components)"""
    c = lambda x: (complex(x[0]).conjugate(), complex(x[1]).conjugate())
    return (c(u[1]), c(u[0]))


def polarisations(p, m):
    """{double helicity: vector}"""
    k = math.sqrt(p[1] ** 2 + p[2] ** 2 + p[3] ** 2)
    n = [p[i] / k for i in (1, 2, 3)]
    st = math.sqrt(n[0] ** 2 + n[1] ** 2)
    cp, sp = (n[0] / st, n[1] / st) if st > 1e-12 else (1.0, 0.0)
    th = [n[2] * cp, n[2] * sp, -st]
    ph = [-sp, cp, 0.0]
    out = {}
    for h in (2, -2):
        s = 1 if h > 0 else -1
        out[h] = [0j] + [-s * (th[i] + s * 1j * ph[i]) / R2 for i in range(3)]
    if m:
        out[0] = [k / m] + [p[0] / m * x for x in n]
    return out


def external(M, leg, p, i):
    """states of leg i as {double helicity: Field}"""
    outgoing = i >= 2
    q = scale(p, -1) if outgoing else list(p)
    ids = (i,)
    if leg.kind == "h":
        return {0: Field("h", q, 1.0, ids=ids)}
    if leg.boson:
        m = {"Z": M.mz, "W": M.mw}.get(leg.kind, 0.0)
        out = {}
        for h, e in polarisations(p, m).items():
            if outgoing:
                e = [complex(x).conjugate() for x in e]
            z = [0.0] * 4
            d = [z, z, z, z, z]
            if leg.kind == "A":
                d[W3], d[B] = scale(e, M.sw), scale(e, M.cw)
            elif leg.kind == "Z":
                d[W3], d[B] = scale(e, M.cw), scale(e, -M.sw)
            elif leg.kind == "g":
                d[G] = e
            else:
                s = (1 if leg.charge > 0 else -1) * (-1 if outgoing else 1)
                d[W1], d[W2] = scale(e, 1 / R2), scale(e, s * 1j / R2)
            out[h] = Field("V", q, d, ids=ids)
        return out
    m = M.mass.get(leg.kind, 0.0)
    fam = FAMILY[leg.kind]
    k = 0 if leg.kind in UP else 1
    zero = ((0, 0), (0, 0))
    out = {}
    for n, u in spinors(p, m, leg.anti).items():
        # incoming particle: u; outgoing antiparticle: v; both to the right of the vertex
        right = leg.anti == outgoing
        x = u if right else barred(u)
        d = (x, zero) if k == 0 else (zero, x)
        out[n] = Field("F" if right else "R", q, d, fam, ids)
    return out


# ------------------------------------------------------------------------------------------------ vertices
def couple(M, fam, V, gluon):
    """2x2 flavour matrices of vectors for left- and right-handed fermions"""
    qu, qd = M.q(fam)
    z = [0.0] * 4
    if gluon:
        g = scale(V[G], M.gs)
        return ((g, z), (z, g)), ((g, z), (z, g))
    g, gp = M.g, M.gp
    yl = qu - F(1, 2)
    uu = vadd(scale(V[W3], g / 2), scale(V[B], gp * yl))
    dd = vadd(scale(V[W3], -g / 2), scale(V[B], gp * yl))
    ud = vadd(scale(V[W1], g / 2), scale(V[W2], -1j * g / 2))
    du = vadd(scale(V[W1], g / 2), scale(V[W2], 1j * g / 2))
    return ((uu, ud), (du, dd)), ((scale(V[B], gp * qu), z), (z, scale(V[B], gp * qd)))


def add2(a, b):
    return (a[0] + b[0], a[1] + b[1])


def fv(M, f, v, gluon):
    """Gamma(V) psi"""
    L, R = couple(M, f.fam, v.d, gluon)
    out = []
    for i in (0, 1):
        up, lo = (0, 0), (0, 0)
        for j in (0, 1):
            lo = add2(lo, m2(sig(L[i][j], True), f.d[j][0]))
            up = add2(up, m2(sig(R[i][j], False), f.d[j][1]))
        out.append((up, lo))
    return Field("F", vadd(f.q, v.q), tuple(out), f.fam, f.ids + v.ids)


def rv(M, r, v, gluon):
    """psibar Gamma(V)"""
    L, R = couple(M, r.fam, v.d, gluon)
    out = []
    for j in (0, 1):
        up, lo = (0, 0), (0, 0)
        for i in (0, 1):
            up = add2(up, r2(r.d[i][1], sig(L[i][j], True)))
            lo = add2(lo, r2(r.d[i][0], sig(R[i][j], False)))
        out.append((up, lo))
    return Field("R", vadd(r.q, v.q), tuple(out), r.fam, r.ids + v.ids)


def fh(M, f, h):
    m = M.fm(f.fam)
    d = tuple(tuple(tuple(-m[i] / M.v * x * h.d for x in pair) for pair in f.d[i]) for i in (0, 1))
    return Field(f.kind, vadd(f.q, h.q), d, f.fam, f.ids + h.ids)


def sigvec(x, y, bar):
    """x sigma^mu y with upper index"""
    s = -1 if bar else 1
    return [x[0] * y[0] + x[1] * y[1], s * (x[0] * y[1] + x[1] * y[0]), s * (-1j * x[0] * y[1] + 1j * x[1] * y[0]), s * (x[0] * y[0] - x[1] * y[1])]


def rf_vector(M, r, f):
    """currents psibar Gamma_a^mu psi for W1, W2, W3, B, G"""
    lu = [[sigvec(r.d[i][1], f.d[j][0], True) for j in (0, 1)] for i in (0, 1)]
    rr = [[sigvec(r.d[i][0], f.d[j][1], False) for j in (0, 1)] for i in (0, 1)]
    qu, qd = M.q(f.fam)
    g, gp, yl = M.g, M.gp, qu - F(1, 2)
    out = [scale(vadd(lu[0][1], lu[1][0]), g / 2),
           scale(vadd(scale(lu[0][1], -1j), scale(lu[1][0], 1j)), g / 2),
           scale(vadd(lu[0][0], lu[1][1], -1), g / 2),
           [gp * (yl * (lu[0][0][k] + lu[1][1][k]) + qu * rr[0][0][k] + qd * rr[1][1][k]) for k in range(4)],
           [M.gs * (lu[0][0][k] + lu[1][1][k] + rr[0][0][k] + rr[1][1][k]) for k in range(4)]]
    return Field("V", vadd(r.q, f.q), out, ids=r.ids + f.ids)


def rf_scalar(M, r, f):
    m = M.fm(f.fam)
    s = sum(-m[i] / M.v * (d2(r.d[i][0], f.d[i][0]) + d2(r.d[i][1], f.d[i][1])) for i in (0, 1))
    return Field("h", vadd(r.q, f.q), s, ids=r.ids + f.ids)


def bracket(a, ka, b, kb):
    """cubic gauge vertex with two fields inserted, index of the third up"""
    kc = [-(ka[i] + kb[i]) for i in range(4)]
    ab = dot(a, b)
    x, y = dot(vadd(kb, kc, -1), a), dot(vadd(kc, ka, -1), b)
    return [ab * (ka[i] - kb[i]) + b[i] * x + a[i] * y for i in range(4)]


def vv_vector(M, a, b):
    z = [0.0] * 4
    out = [z, z, z, z, z]
    for (i, j, k), s in EPS3.items():
        if any(a.d[i]) and any(b.d[j]):
            out[k] = vadd(out[k], scale(bracket(a.d[i], a.q, b.d[j], b.q), -1j * M.g * s))
    return Field("V", vadd(a.q, b.q), out, ids=a.ids + b.ids)


def zpart(M, d):
    return vadd(scale(d[W3], M.cw), scale(d[B], -M.sw))


def apart(M, d):
    return vadd(scale(d[W3], M.sw), scale(d[B], M.cw))


def masses2(M, a, b):
    """M^2 V.V summed over the massive fields"""
    return M.mw ** 2 * (dot(a[W1], b[W1]) + dot(a[W2], b[W2])) + M.mz ** 2 * dot(zpart(M, a), zpart(M, b))


def vh_vector(M, a, h):
    z = scale(zpart(M, a.d), 2 * M.mz ** 2 / M.v * h.d)
    w = 2 * M.mw ** 2 / M.v * h.d
    return Field("V", vadd(a.q, h.q), [scale(a.d[W1], w), scale(a.d[W2], w), scale(z, M.cw), scale(z, -M.sw), [0.0] * 4], ids=a.ids + h.ids)


def vector_quartic(M, f):
    """four gauge bosons of SU(2)"""
    out = 0
    for a, b, c, d in itertools.product(range(3), repeat=4):
        s1 = sum(EPS3.get((a, b, e), 0) * EPS3.get((c, d, e), 0) for e in range(3))
        s2 = sum(EPS3.get((a, c, e), 0) * EPS3.get((b, d, e), 0) for e in range(3))
        s3 = sum(EPS3.get((a, d, e), 0) * EPS3.get((b, c, e), 0) for e in range(3))
        if not (s1 or s2 or s3):
            continue
        A, Bv, C, D = f[0].d[a], f[1].d[b], f[2].d[c], f[3].d[d]
        if not (any(A) and any(Bv) and any(C) and any(D)):
            continue
        g12, g13, g14, g23, g24, g34 = dot(A, Bv), dot(A, C), dot(A, D), dot(Bv, C), dot(Bv, D), dot(C, D)
        out -= M.g ** 2 * (s1 * (g13 * g24 - g14 * g23) + s2 * (g12 * g34 - g14 * g23) + s3 * (g12 * g34 - g13 * g24))
    return out


# ------------------------------------------------------------------------------------------------ joining
def den(M, q, m, who=None):
    return dot(q, q) - m * m + 1j * m * M.w.get(who, 0.0)


def join_vector(M, a, b):
    """exchange of W, Z and the photon between two currents"""
    q = a.q
    out = 0
    if M.weak:
        dw = den(M, q, M.mw, "W")
        for k in (W1, W2):
            out += (dot(a.d[k], b.d[k]) - dot(q, a.d[k]) * dot(q, b.d[k]) / M.mw ** 2) / dw
        za, zb = zpart(M, a.d), zpart(M, b.d)
        out += (dot(za, zb) - dot(q, za) * dot(q, zb) / M.mz ** 2) / den(M, q, M.mz, "Z")
    out += dot(apart(M, a.d), apart(M, b.d)) / dot(q, q)
    return out


def join_fermion(M, r, f):
    """psibar propagator psi; flow from f to r"""
    m = M.fm(f.fam)
    q = f.q
    out = 0
    for i in (0, 1):
        d = dot(q, q) - m[i] ** 2
        x = f.d[i]
        if not any(x[0]) and not any(x[1]):
            continue
        up = add2(m2(sig(q, False), x[1]), (m[i] * x[0][0], m[i] * x[0][1]))
        lo = add2(m2(sig(q, True), x[0]), (m[i] * x[1][0], m[i] * x[1][1]))
        out -= (d2(r.d[i][0], up) + d2(r.d[i][1], lo)) / d
    return out


def parity(seq):
    s = 1
    for i in range(len(seq)):
        for j in range(i + 1, len(seq)):
            if seq[i] > seq[j]:
                s = -s
    return s


def amplitude(M, f):
    """{structure: value} for four fields with incoming momenta"""
    out = {}

    def put(k, v):
        if v:
            out[k] = out.get(k, 0) + v
    kinds = "".join(sorted(x.kind for x in f))
    glu = [i for i, x in enumerate(f) if x.kind == "V" and any(x.d[G])]
    if len(glu) == 4:
        return gluons(M, f)
    if len(glu) == 2:
        return two_gluons(M, f, glu)
    one_glu = bool(glu)
    for i, j, k, l in ((0, 1, 2, 3), (0, 2, 1, 3), (0, 3, 1, 2)):
        a, b, c, d = f[i], f[j], f[k], f[l]
        # boson exchange between two pairs
        x, y = pair_bosons(M, a, b), pair_bosons(M, c, d)
        nf = sum(z.kind in "FR" for z in f)
        sign = 1
        if nf == 4 and x and y:
            order = [z for p in ((a, b), (c, d)) for z in sorted(p, key=lambda z: z.kind == "F")]
            sign = parity([z.ids[0] for z in order])
        tag = frozenset((frozenset((i, j)), frozenset((k, l)))) if nf == 4 else None
        for t in x:
            for u in y:
                if t.kind == "V" and u.kind == "V":
                    put(("1", tag), sign * join_vector(M, t, u))
                    if nf == 4 and M.gs:
                        put(("T", tag), sign * dot(t.d[G], u.d[G]) / dot(t.q, t.q))
                elif t.kind == "h" and u.kind == "h":
                    if M.higgs:
                        put(("1", tag), -sign * t.d * u.d / den(M, t.q, M.mh, "h"))
        # fermion exchange
        if nf == 2:
            for (p, q), (r, s) in (((a, b), (c, d)), ((c, d), (a, b))):
                F_ = absorb(M, p, q, "F", one_glu)
                R_ = absorb(M, r, s, "R", one_glu)
                if F_ is not None and R_ is not None and F_.fam == R_.fam:
                    put(("1", None), join_fermion(M, R_, F_))
    if kinds == "VVVV":
        put(("1", None), vector_quartic(M, f))
    elif kinds == "VVhh":
        v = [x for x in f if x.kind == "V"]
        put(("1", None), 2 * masses2(M, v[0].d, v[1].d) / M.v ** 2)
    elif kinds == "hhhh":
        put(("1", None), -3 * M.mh ** 2 / M.v ** 2)
    return out


def pair_bosons(M, a, b):
    """bosons two legs can merge into"""
    k = a.kind + b.kind
    if k in ("FR", "RF"):
        r, f = (a, b) if a.kind == "R" else (b, a)
        if r.fam != f.fam:
            return []
        return [rf_vector(M, r, f), rf_scalar(M, r, f)]
    if k == "VV":
        if any(a.d[G]) or any(b.d[G]):
            return []
        return [vv_vector(M, a, b), Field("h", vadd(a.q, b.q), 2 * masses2(M, a.d, b.d) / M.v, ids=a.ids + b.ids)]
    if k in ("Vh", "hV"):
        v, h = (a, b) if a.kind == "V" else (b, a)
        if any(v.d[G]):
            return []
        return [vh_vector(M, v, h)]
    if k == "hh":
        return [Field("h", vadd(a.q, b.q), -3 * M.mh ** 2 / M.v, ids=a.ids + b.ids)]
    return []


def absorb(M, a, b, kind, gluon):
    """fermion after absorbing a boson"""
    if b.kind == kind:
        a, b = b, a
    if a.kind != kind:
        return None
    if b.kind == "V":
        g = any(b.d[G])
        return (fv if kind == "F" else rv)(M, a, b, g)
    if b.kind == "h":
        return fh(M, a, b)
    return None


def two_gluons(M, f, glu):
    a, b = f[glu[0]], f[glu[1]]
    x = [z for z in f if z.kind == "F"]
    r = [z for z in f if z.kind == "R"]
    if len(x) != 1 or len(r) != 1:
        return {}
    x, r = x[0], r[0]
    br = scale(bracket(a.d[G], a.q, b.d[G], b.q), M.gs)
    s = dot(br, rf_vector(M, r, x).d[G]) / dot(vadd(a.q, b.q), vadd(a.q, b.q))
    ab = join_fermion(M, rv(M, r, a, True), fv(M, x, b, True))
    ba = join_fermion(M, rv(M, r, b, True), fv(M, x, a, True))
    return {("gg", "ab"): ab - s, ("gg", "ba"): ba + s}


def gluons(M, f):
    e = [x.d[G] for x in f]
    q = [x.q for x in f]
    out = {}
    g2 = M.gs ** 2

    def ch(i, j, k, l):
        return -g2 * dot(bracket(e[i], q[i], e[j], q[j]), bracket(e[k], q[k], e[l], q[l])) / dot(vadd(q[i], q[j]), vadd(q[i], q[j]))
    d = lambda i, j: dot(e[i], e[j])
    out[("f", 1)] = ch(0, 1, 2, 3) - g2 * (d(0, 2) * d(1, 3) - d(0, 3) * d(1, 2))
    out[("f", 2)] = ch(0, 2, 1, 3) - g2 * (d(0, 1) * d(2, 3) - d(0, 3) * d(1, 2))
    out[("f", 3)] = ch(0, 3, 1, 2) - g2 * (d(0, 1) * d(2, 3) - d(0, 2) * d(1, 3))
    return out


# ------------------------------------------------------------------------------------------------ squares
def colour(legs, a, b):
    """sum over colours of structure a times structure b"""
    q = sum(l.kind in smodel.QUARKS for l in legs)
    g = sum(l.kind == "g" for l in legs)
    if a[0] == "f":
        if a[1] == b[1]:
            return 72
        return -36 if {a[1], b[1]} == {1, 3} else 36
    if a[0] == "gg":
        return F(16, 3) if a[1] == b[1] else F(-2, 3)
    if q == 4:
        same = a[1] == b[1]
        n = (a[0] == "T") + (b[0] == "T")
        return {(True, 0): F(9), (True, 1): F(0), (True, 2): F(2), (False, 0): F(3), (False, 1): F(4), (False, 2): F(-2, 3)}[(same, n)]
    if q == 2:
        return 4 if g == 1 else 3
    return 1


def squared(M, legs, mom, fix):
    """sum over colours and over the spins not given in fix {leg: double helicity}"""
    return summed(M, legs, states(M, legs, mom), fix)


def states(M, legs, mom):
    return [external(M, l, mom[i], i) for i, l in enumerate(legs)]


def summed(M, legs, st, fix):
    ext = [[s[fix[i]]] if i in fix else list(s.values()) for i, s in enumerate(st)]
    tot = 0.0
    for f in itertools.product(*ext):
        a = amplitude(M, f)
        ks = list(a)
        for i in ks:
            for j in ks:
                c = colour(legs, i, j)
                if c:
                    tot += float(c) * (a[i] * complex(a[j]).conjugate()).real
    return tot
