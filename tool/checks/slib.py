"""Spinor products over particles whose spinors are opaque functions of the current mass and momentum.

Every particle accessor runs for its side effects and errors; the entries it returns are replaced by opaque
functions of (mass, momentum) that keep the linear relations between the brackets (C03 decides the values).
"""
import itertools

from checks.plib import *

SP = "spinas::sproduct"
SPINORS = ("rangle", "langle", "lsquare", "rsquare")


class Opaque:
    """entries of the accessors as functions of a (mass, momentum) tuple"""

    def __init__(self, mp):
        self.mp = tuple(mp)

    def R(self, J, k):
        return num.fn("R%d%d" % (J, k), *self.mp, real=False)

    def spinor(self, name, J, up=True):
        # J 0: massless
        if name == "rangle":
            if not up:
                return self.spinor(name, 1) if J == -1 else [-x for x in self.spinor(name, -1)]
            return [self.R(J, 0), self.R(J, 1)]
        if name == "langle":
            r = self.spinor("rangle", J, up)
            return [r[1], -r[0]]
        if name == "lsquare":
            if not up:
                return self.spinor(name, 1) if J == -1 else [-x for x in self.spinor(name, -1)]
            if J == 0:
                return [num.conj(x) for x in self.spinor("rangle", 0)]
            r = self.spinor("rangle", -J)
            return [num.conj(x) if J == 1 else -num.conj(x) for x in r]
        l = self.spinor("lsquare", J, up)
        return [l[1], -l[0]]

    def lmat(self):
        a, d = num.fn("L00", *self.mp), num.fn("L11", *self.mp)
        b = num.fn("L01", *self.mp, real=False)
        return [a, b, num.conj(b), d]

    def umat(self):
        a, b, cc, d = self.lmat()
        return [d, -b, -cc, a]

    def entries(self, name, args):
        if name == "lmat":
            return self.lmat()
        if name == "umat":
            return self.umat()
        if name in SPINORS:
            if not args:
                return self.spinor(name, 0)
            return self.spinor(name, args[0], args[1] if len(args) > 1 else True)
        if name.endswith("_matrix"):
            up = args[0] if args else True
            a, b = self.spinor(name[:-7], -1, up), self.spinor(name[:-7], 1, up)
            return [a[0], b[0], a[1], b[1]]


def lift(f, vals):
    """apply f to the leaves of gated values"""
    return dd.applyn(lambda *a: f(list(a)), list(vals))


class Products(Parts):
    def __init__(self, prog):
        Parts.__init__(self, prog)
        self.gp = self.S.need(PA + "::get_momentum", ["i"])
        self.gm = (self.S.find(PA + "::get_mass", []) or self.S.find(PA + "::mass", []))
        if not self.gm:
            raise AnalysisError("no mass accessor")
        self.gm = self.gm[0]
        self.upd = self.S.need(SP + "::update", [])
        self.v = [self.S.need(SP + "::v", k) for k in ([], ["i"], ["i", "i"])]
        I = self.S.I
        for n in SPINORS + tuple(x + "_matrix" for x in SPINORS) + ("lmat", "umat"):
            I.overrides[PA + "::" + n] = self.handler

    def handler(self, I, obj, args, fn):
        real = I.prog.functions.get(fn["key"])
        if real is None:
            return I.top("unknown accessor")
        vals = []
        types = real["_types"]
        for p, a in zip(real["params"], args):
            t = ptype(types[p["t"]])
            x = I.load(a) if t.k == "ref" else a
            vals.append(x)
        r = I.call_fn(real, obj, args)
        if I.st.pc is False:
            return r
        return self.opaque(I, obj, fn["q"].rsplit("::", 1)[1], vals, r)

    def mp(self, obj):
        return [self.S.call(self.gm, obj)] + [self.S.call(self.gp, obj, P(i)) for i in range(4)]

    def opaque(self, I, obj, name, vals, r):
        mp = self.mp(obj)
        ks = []
        for x in vals:
            if x.__class__ is bool:
                ks.append(x)
            elif x.__class__ is num.Poly and x.is_const() and x.const() in (1, -1):
                ks.append(int(x.const()))
            elif name in SPINORS and x.__class__ is num.Poly and x.is_const():
                return r    # outside the domain: an error was raised or must be judged by C04
            else:
                return I.top("accessor with unknown argument")
        n = 4 if name in ("lmat", "umat") or name.endswith("_matrix") else 2
        ent = []
        for k in range(n):
            ent.append(lift(lambda a, k=k: Opaque(a).entries(name, ks)[k] if all(z.__class__ is num.Poly for z in a)
                            else dd.Top("accessor"), mp))
        o = self.S.obj(M if n == 4 else V, "opaque")
        cf = self.S.need((M + "::cmatrix") if n == 4 else (V + "::cvector"), ["c"] * n)
        self.S.call(cf, o, *ent)
        return o

    def build(self, angle, L, R, mid, lu=None, ru=None, name="sp"):
        """construct; None when there is no such constructor"""
        ks = ["b", "pparticle"] + (["b"] if lu is not None else []) + ["pparticle"] * len(mid) + ["pparticle"] + (["b"] if ru is not None else [])
        f = self.S.find(SP + "::sproduct", ks)
        if not f:
            return None, None
        o = self.S.obj(SP, name)
        args = [angle, L] + ([lu] if lu is not None else []) + list(mid) + [R] + ([ru] if ru is not None else [])
        _, th = self.S.attempt(f[0], o, *args)
        return (o, f[0]), self.S.throw_cond(th)

    def part(self, n, massive):
        m = mass("m" + n) if massive else num.ZERO
        p = momentum(n, m)
        return self.fresh(m, p, n), [m] + p


def expected(angle, L, R, mid, jl, jr, lu, ru):
    """value of the product; L, R, mid are (mass, momentum) lists; jl, jr spin labels or 0"""
    v = Opaque(L).spinor("langle" if angle else "lsquare", jl, lu)
    lower = angle
    for p in mid:
        m = Opaque(p).lmat() if lower else Opaque(p).umat()
        v = [v[0] * m[0] + v[1] * m[2], v[0] * m[1] + v[1] * m[3]]
        lower = not lower
    r = Opaque(R).spinor("rangle" if lower else "rsquare", jr, ru)
    return v[0] * r[0] + v[1] * r[1]


def components(lm, rm):
    """(label, index of v, args, jl, jr) of every valid component"""
    J = (-1, 1)
    if lm and rm:
        return [("v(%d,%d)" % (a, b), 2, [P(a), P(b)], a, b) for a in J for b in J]
    if lm:
        return [("v(%d)" % a, 1, [P(a)], a, 0) for a in J]
    if rm:
        return [("v(%d)" % a, 1, [P(a)], 0, a) for a in J]
    return [("v()", 0, [], 0, 0)]


ALL_COMPONENTS = [("v()", 0, [])] + [("v(%d)" % a, 1, [P(a)]) for a in (-1, 1)] + \
    [("v(%d,%d)" % (a, b), 2, [P(a), P(b)]) for a in (-1, 1) for b in (-1, 1)]
