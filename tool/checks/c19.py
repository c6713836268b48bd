"""C19: units, couplings and helicity weight of every term of every amplitude.

A type inference: every input and bracket has a grade (mass dimension, power of the couplings, helicity weight of
each leg), products add grades, sums need equal ones.  Where an amplitude is not homogeneous the scaling relations
are tried at a point, and only a relation that fails there is reported.
"""
import cmath

from checks.confirm import *
from fractions import Fraction as F

LAM, KAP, PHI = 1.7, 1.3, 0.37


class Rotated(AmpEnv):
    """the spinors of one leg turned by a phase about the spin axis (massive) or by a helicity phase (massless)"""
    leg = None

    def spinor(self, sid, name, lab):
        v = Phys.spinor(self, sid, name, lab)
        st = state(sid)
        if name in ("lmat", "umat") or self.leg is None or list(st[1:]) != [sym("k%d_%d" % (self.leg, mu)) for mu in range(4)]:
            return v
        if lab:
            wt = lab[0] if (len(lab) < 2 or lab[1]) else -lab[0]
        else:
            wt = 1 if "square" in name else -1
        f = cmath.exp(1j * PHI * wt)
        return [f * x for x in v]


def clone(e, cls, change):
    vals = dict(e.used)
    vals.update(e.vals)
    n = cls(e.seed, {k: change(k, v) for k, v in vals.items()})
    n.amps = e.amps
    return n


class Mixed(Exception):
    """terms of different grade are added"""


NIL = (F(0),) * 6
LEGID = {tuple(sym("k%d_%d" % (i, mu)) for mu in range(4)): i for i in (1, 2, 3, 4)}


def gadd(a, b, n=1):
    return tuple(x + n * y for x, y in zip(a, b))


def unit(dim=0, coupling=0):
    return (F(dim), F(coupling)) + NIL[2:]


class Grades:
    """grade of terms: (mass dimension, power of the couplings, weight of leg 1..4)"""

    def __init__(self):
        self.memo = {}

    def poly(self, p):
        """grade of a term, None for zero"""
        g = None
        for m in p.d:
            t = NIL
            for aid, n in m:
                t = gadd(t, self.atom(aid), n)
            if g is None:
                g = t
            elif g != t:
                raise Mixed("terms of grade %s and %s are added" % (self.show(g), self.show(t)))
        return g

    def show(self, g):
        return "(dimension %s, couplings %s, weights %s)" % (g[0], g[1], " ".join(map(str, g[2:])))

    def atom(self, aid):
        g = self.memo.get(aid)
        if g is None:
            g = self.memo[aid] = self.new(num._ATOMS[aid])
        return g

    def end(self, sid, square, lab, upper):
        st = state(sid)
        leg = LEGID.get(tuple(st[1:]))
        if leg is None:
            raise Mixed("bracket of a particle that is not an external leg")
        wt = (lab if upper else -lab) if lab is not None else (1 if square else -1)
        return tuple(F(wt) if i == leg + 1 else F(0) for i in range(6))

    def new(self, a):
        k = a.kind
        if k == "I":
            return NIL
        if k == "sym":
            n = str(a.args[0])
            if n == "vev":
                return unit(1, -1)
            if n.startswith(("mass", "width")) or re.match(r"^k[1-4]_[0-3]$", n):
                return unit(1)
            if n in ("echarge", "gscharge", "gcharge"):
                return unit(0, 1)
            if n in ("sinW", "pi"):
                return NIL
            raise Mixed("input %s" % n)
        if k == "Den":
            want = [unit(2)] + [unit(1)] * 4
            for x, g in zip(a.args, want):
                if self.poly(x) not in (None, g):
                    raise Mixed("propagator denominator of grade %s" % self.show(self.poly(x)))
            return unit(2)
        if k == "Sp":
            angle, lu, ru, ids, lab = a.args
            massive = [bool(state(ids[0])[0].d), bool(state(ids[-1])[0].d)]
            if len(lab) != sum(massive):
                raise Mixed("number of spin labels")
            labs = list(lab)
            ll = labs.pop(0) if massive[0] else None
            rl = labs.pop(0) if massive[1] else None
            right = angle if len(ids) % 2 == 0 else not angle
            for x in ids[1:-1]:
                if any(self.poly(y) not in (None, unit(1)) for y in state(x)[1:]):
                    raise Mixed("momentum inside a bracket")
            return gadd(gadd(unit(len(ids) - 1), self.end(ids[0], not angle, ll, lu)), self.end(ids[-1], not right, rl, ru))
        if k == "Spin":
            name, _, lab, sid = a.args
            if name in ("lmat", "umat"):
                return unit(1)
            return gadd(unit(F(1, 2)), self.end(sid, "square" in name, lab[0] if lab else None, len(lab) < 2 or lab[1]))
        if k in ("sqrt", "inv"):
            g = self.poly(a.args[0])
            return tuple(x / 2 for x in g) if k == "sqrt" else tuple(-x for x in g)
        raise Mixed("term of kind %s" % k)


def units(k, v):
    if k.startswith(("mass", "width", "vev")) or re.match(r"^k[1-4]_[0-3]$", k):
        return v * LAM
    return v


def couplings(k, v):
    if k in ("echarge", "gscharge", "gcharge"):
        return v * KAP
    if k == "vev":
        return v / KAP
    return v


def power(r, base):
    """n with r = base^n, or None"""
    if abs(r.imag) > 1e-6 * abs(r) or r.real <= 0:
        return None
    n = cmath.log(r).real / cmath.log(base).real
    return int(round(n)) if abs(n - round(n)) < 1e-5 else None


def one(c, prog, cls):
    X = Process(prog, cls)
    legs = smodel.legs(X.short)
    if legs is None:
        c.undecided("units", X.short, "legs of the process not known")
        return
    o = X.build(X.params())
    X.momenta(o, "")
    D = X.domain(o)
    A = {}
    for f in X.amps():
        for d in sorted(D.get(f["key"], {})):
            A[(f["q"].rsplit("::", 1)[1], d)] = X.amp(o, f, d)
    where = {f["q"].rsplit("::", 1)[1]: w(f) for f in X.amps()}
    if not A:
        c.undecided("units", X.short, "no amplitude")
        return
    with_label = [i for i, l in enumerate(legs) if states(l) != (None,)]
    for name in sorted({k[0] for k in A}):
        V = {k: v for k, v in A.items() if k[0] == name}
        if not by_grade(c, X, legs, with_label, name, V):
            at_a_point(c, X, legs, with_label, name, V, where[name])


def label(legs, with_label, k, i):
    """the helicity label of leg i, as a weight"""
    lab = k[1][with_label.index(i)]
    if legs[i].kind in ("A", "g"):
        return 2 if lab > 0 else -2      # only the sign of the label of a massless vector counts
    return lab


def gluons(legs):
    return any(l.kind == "g" for l in legs)


def by_grade(c, X, legs, with_label, name, V):
    """decides all relations from the grades of the terms; False when that is not possible"""
    G = Grades()
    got = {}
    try:
        for k, v in V.items():
            if v.__class__ is not num.Poly or (with_label and len(k[1]) != len(with_label)):
                return False
            g = G.poly(v)
            if g is not None:
                got[k] = g
    except Mixed:
        return False
    dims = {g[0] for g in got.values()}
    if len(dims) > 1 or {g[1] for g in got.values()} - {2} or (dims - {0} and not gluons(legs)):
        return False
    for i in range(4):
        s = set()
        for k, g in got.items():
            n = g[2 + i]
            if i not in with_label:
                s.add(n)
                continue
            lab = label(legs, with_label, k, i)
            if abs(n) != abs(lab):
                return False
            if lab:
                s.add(n / lab)
        if len(s) > 1:
            return False
    inst = "%s::%s" % (X.short, name)
    if not got:
        c.count("amplitude functions that vanish", 1)
        return True
    c.count("amplitudes", len(got))
    c.count("terms", sum(len(V[k].d) for k in got))
    c.ok("units", inst)
    c.ok("couplings", inst)
    for leg in (1, 2, 3, 4):
        c.ok("helicity weight", "%s, leg %d" % (inst, leg))
    return True


def at_a_point(c, X, legs, with_label, name, A, where):
    inst = "%s::%s" % (X.short, name)
    e, M, mom = point(X, legs, 1, True)
    e.amps = None
    try:
        base = {k: e.dd_value(v) for k, v in A.items()}
        u = clone(e, AmpEnv, units)
        scaled = {k: u.dd_value(v) for k, v in A.items()}
        g = clone(e, AmpEnv, couplings)
        coupled = {k: g.dd_value(v) for k, v in A.items()}
        turned = {}
        for leg in (1, 2, 3, 4):
            t = clone(e, Rotated, lambda k, v: v)
            t.leg = leg
            turned[leg] = {k: t.dd_value(v) for k, v in A.items()}
    except (evalf.Bad, OverflowError) as err:
        c.undecided("units", inst, str(err))
        return
    at = chk.show_env(e, [param(n) for n in X.params()])
    ks = [k for k in A if abs(base[k]) > 1e-9 * max(abs(x) for x in base.values())]
    if not ks:
        c.count("amplitude functions that vanish", 1)
        return
    for rule, other, b in (("units", scaled, LAM), ("couplings", coupled, KAP)):
        ref, bad = None, None
        for k in ks:
            n = power(other[k] / base[k], b)
            if n is None:
                bad = "%s: %s becomes %s, which is no power of the factor %g, at %s" % (k[1], chk._fmt(base[k]), chk._fmt(other[k]), b, at)
            elif ref is None:
                ref = (n, k)
            elif n != ref[0]:
                bad = "%s scales with power %d, %s with power %d of the factor, at %s" % (k[1], n, ref[1][1], ref[0], at)
            if bad:
                break
        # numerators without their denominators have a dimension of their own
        if not bad and rule == "couplings" and ref[0] != 2:
            bad = "power %d of the couplings instead of 2" % ref[0]
        if not bad and rule == "units" and ref[0] != 0 and not gluons(legs):
            bad = "mass dimension %d instead of 0" % ref[0]
        if bad:
            c.violation(rule, inst, where, bad)
        else:
            c.ok(rule, inst, points=True)
    for leg in (1, 2, 3, 4):
        ref, bad = None, None
        i = leg - 1
        for k in ks:
            if len(k[1]) != len(with_label):
                break
            r = turned[leg][k] / base[k]
            n = cmath.phase(r) / PHI
            if abs(abs(r) - 1) > 1e-6 or abs(n - round(n)) > 1e-5:
                bad = "helicities %s: the terms carry different weights, at %s" % (k[1], at)
                break
            n = int(round(n))
            lab, s = 1, n
            if i in with_label:
                lab = label(legs, with_label, k, i)
                s = 0 if lab == 0 else n / float(lab)
                if (lab == 0 and n) or (lab and s not in (1, -1)):
                    bad = "helicities %s: weight %d for label %d" % (k[1], n, lab)
                    break
            if lab:
                if ref is None:
                    ref = s
                elif ref != s:
                    bad = "helicities %s: weight %d for label %d, other labels have the opposite sign" % (k[1], n, lab)
                    break
        if bad:
            c.violation("helicity weight", "%s, leg %d" % (inst, leg), where, bad)
        else:
            c.ok("helicity weight", "%s, leg %d" % (inst, leg), points=True)


def body(c):
    prog = ir.load(("source", "SM"))
    cl = classes(prog)
    c.count("process classes", len(cl))
    c.assume("particles and spinor products behave as established by C01, C02, C03 and C09")
    chk.parallel(c, cl, lambda c, cls: one(c, prog, cls))
    c.floor("units", 138)
    c.floor("couplings", 138)
    c.floor("helicity weight", 550)
