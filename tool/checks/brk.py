"""Amplitudes as polynomials in brackets of the all-incoming process.

Brackets of the four legs are brought to a normal form with the exact relations of spinors: reversal, the equation of
motion of each leg and momentum conservation.  Outgoing legs are crossed (p -> -p, |p> -> -|p>, |p] -> |p]), so that
two processes that are crossings of each other become polynomials in the same brackets.
"""
from fractions import Fraction as F

from checks.confirm import *

LEGID = {tuple(sym("k%d_%d" % (i, mu)) for mu in range(4)): i - 1 for i in (1, 2, 3, 4)}
PAIRS = {}
for _i, _j in itertools.combinations((1, 2, 3, 4), 2):
    _s = 1 if (_i in (1, 2)) == (_j in (1, 2)) else -1
    for _o in (1, -1):
        PAIRS[tuple((sym("k%d_%d" % (_i, mu)) + sym("k%d_%d" % (_j, mu)) * P(_s)) * P(_o) for mu in range(4))] = (_i - 1, _j - 1)


class NoForm(Exception):
    """the value is not a polynomial in brackets of the external legs"""


class Form:
    """normal form of the amplitudes of one process; slot[i] is the place of leg i in the all-incoming process"""

    def __init__(self, slot):
        self.slot = slot
        self.mass = {}
        self.memo = {}
        self.strings = {}

    # ---- strings of spinors: (angle, left, inner, right), ends are (slot, label)
    def string(self, angle, left, inner, right):
        k = (angle, left, inner, right)
        r = self.strings.get(k)
        if r is None:
            r = self.strings[k] = self.string1(*k)
        return r

    def string1(self, angle, left, inner, right):
        n = len(inner)
        m = self.mass
        if n and inner[0] == left[0]:
            return m[left[0]] * self.string(not angle, left, inner[1:], right)
        if n and inner[-1] == right[0]:
            return -m[right[0]] * self.string(angle, left, inner[:-1], right)
        for i in range(n - 1):
            if inner[i] == inner[i + 1]:
                return m[inner[i]] * m[inner[i]] * self.string(angle, left, inner[:i] + inner[i + 2:], right)
        rest = [i for i in range(4) if i not in (left[0], right[0])]
        top = rest[-1]
        if top in inner:
            i = inner.index(top)
            r = num.ZERO
            for j in range(4):
                if j != top:
                    r = r - self.string(angle, left, inner[:i] + (j,) + inner[i + 1:], right)
            return r
        if n > 1:
            # move a momentum of an end next to it
            for i in range(1, n):
                if inner[i] == left[0]:
                    a, b = inner[i - 1], inner[i]
                    return (self.dot2(a, b) * self.string(angle, left, inner[:i - 1] + inner[i + 1:], right)
                            - self.string(angle, left, inner[:i - 1] + (b, a) + inner[i + 1:], right))
            for i in range(n - 1):
                if inner[i] == right[0]:
                    a, b = inner[i], inner[i + 1]
                    return (self.dot2(a, b) * self.string(angle, left, inner[:i] + inner[i + 2:], right)
                            - self.string(angle, left, inner[:i] + (b, a) + inner[i + 2:], right))
        if n == 0:
            if left == right:
                return num.ZERO
            if left[0] == right[0]:
                # <+ -> = m, [+ -] = -m
                return m[left[0]] * P((1 if angle else -1) * left[1])
            if left[0] > right[0]:
                return -self.string(angle, right, inner, left)
        elif n == 1:
            if not angle:
                return self.string(True, right, inner, left)
        elif n % 2 == 0 and left > right:
            return -self.string(angle, right, inner[::-1], left)
        elif n % 2 and not angle:
            return self.string(True, right, inner[::-1], left)
        return P(num.atom("Br", (angle, left, inner, right)))

    def dot2(self, a, b):
        """twice the product of two momenta"""
        return P(num.atom("Man", (channel(a, b),), real=True)) - self.mass[a] * self.mass[a] - self.mass[b] * self.mass[b]

    # ---- terms
    def leg(self, sid):
        st = state(sid)
        i = LEGID.get(tuple(st[1:]))
        if i is None:
            raise NoForm("bracket of a particle that is not an external leg")
        s = self.slot[i]
        if self.mass.setdefault(s, st[0]) != st[0]:
            raise NoForm("two masses of one leg")
        return i, s

    def atom(self, aid):
        r = self.memo.get(aid)
        if r is None:
            r = self.memo[aid] = self.new(num._ATOMS[aid])
        return r

    def new(self, a):
        if a.kind == "Sp":
            angle, lu, ru, ids, lab = a.args
            legs = [self.leg(x) for x in ids]
            lm, rm = bool(state(ids[0])[0].d), bool(state(ids[-1])[0].d)
            labs = list(lab)
            if len(lab) != lm + rm or not lu or not ru:
                raise NoForm("spin labels")
            left = (legs[0][1], labs.pop(0) if lm else 0)
            right = (legs[-1][1], labs.pop(0) if rm else 0)
            ra = angle if len(ids) % 2 == 0 else not angle
            sign = 1
            if angle and legs[0][0] > 1:
                sign = -sign
            if ra and legs[-1][0] > 1:
                sign = -sign
            for i, s in legs[1:-1]:
                if i > 1:
                    sign = -sign
            return self.string(bool(angle), left, tuple(s for i, s in legs[1:-1]), right) * P(sign)
        if a.kind == "Den":
            q = PAIRS.get(tuple(a.args[1:]))
            if q is None:
                raise NoForm("denominator")
            return P(num.atom("Prop", (a.args[0], channel(self.slot[q[0]], self.slot[q[1]]))))
        if a.kind in ("sym", "I"):
            if re.match(r"^k[1-4]_[0-3]$", str(a.args[0] if a.args else "")):
                raise NoForm("component of a momentum")
            return P(a)
        if a.kind in ("sqrt", "inv"):
            for x in num.atoms_in(a.args[0]):
                if num._ATOMS[x].kind in ("Sp", "Den", "Spin") or str(num._ATOMS[x].args[:1]).startswith("('k"):
                    raise NoForm("root or quotient of kinematics")
            return P(a)
        raise NoForm("term of kind %s" % a.kind)

    def poly(self, p):
        if p.__class__ is not num.Poly:
            raise NoForm("value with cases")
        # masses of all legs first: they enter the equations of motion
        for m in p.d:
            for aid, n in m:
                a = num._ATOMS[aid]
                if a.kind == "Sp":
                    for x in a.args[3]:
                        self.leg(x)
        r = num.ZERO
        for m, co in p.d.items():
            t = P(co)
            for aid, n in m:
                t = t * num.power(self.atom(aid), n)
            r = r + t
        return r


def channel(a, b):
    k = tuple(sorted((a, b)))
    o = tuple(i for i in range(4) if i not in k)
    return min(k, o)


# ------------------------------------------------------------------------------------------ processes
PHASES = [P(1), P(-1), num.IMAG, -num.IMAG]


def incoming(short):
    """names of the four legs counted as incoming, antifermions with a tilde"""
    out = []
    for i, l in enumerate(smodel.legs(short)):
        x = l.incoming() if i > 1 else l
        if x.boson:
            out.append(x.kind + (("+" if x.charge > 0 else "-") if x.kind == "W" else ""))
        else:
            out.append(x.kind + ("~" if x.anti else ""))
    return out


class Amps:
    """all helicity amplitudes of a process: {function: {labels: value}}"""

    def __init__(self, prog, cls):
        self.X = X = Process(prog, cls)
        self.cls, self.short = cls, X.short
        self.legs = smodel.legs(X.short)
        self.names = incoming(X.short)
        self.with_label = [i for i, l in enumerate(self.legs) if states(l) != (None,)]
        o = X.build(X.params())
        X.momenta(o, "")
        D = X.domain(o)
        self.values, self.where = {}, {}
        for f in X.amps():
            n = f["q"].rsplit("::", 1)[1]
            for d in sorted(D.get(f["key"], {})):
                if len(d) == len(self.with_label):
                    self.values.setdefault(n, {})[d] = X.amp(o, f, d)
                    self.where[n] = w(f)
        self.masses = leg_masses([v for f in self.values.values() for v in f.values()])
        self.forms = {}
        self.cases = []
        self.general()

    def general(self):
        """amplitudes with cases: the case of points in general position stands for the amplitude, others() judges the rest"""
        gated = [(fn, d, v) for fn, f in self.values.items() for d, v in f.items() if v.__class__ is dd.Ite]
        if not gated or conditions([v for _, _, v in gated]) is None:
            return
        e = physical(0, self.masses)
        try:
            got = [(fn, d, v, e.dd(v)) for fn, d, v in gated]
        except (evalf.Bad, OverflowError):
            return
        if all(x.__class__ is num.Poly for _, _, _, x in got):
            self.cases = got
            for fn, d, v, x in got:
                self.values[fn][d] = x

    def others(self):
        """do the other cases have the values of the general one: ('equal',) | ('differ', text, function) | ('unknown', why)"""
        todo = []
        for fn, d, v, x in self.cases:
            rest = [l for l in dd.leaves(v) if not (l.__class__ is num.Poly and num.equal(l, x))]
            if rest:
                todo.append((fn, d, v, x, rest))
        if not todo:
            return ("equal",)
        met = set()
        for e in regions(self.X, self.masses, [v for _, _, v, _, _ in todo]):
            for fn, d, v, x, rest in todo:
                try:
                    l = e.dd(v)
                    if l not in rest:
                        continue
                    if l.__class__ is not num.Poly:
                        return ("unknown", "value %r" % (l,))
                    a, b = e.poly(l), e.poly(x)
                    sc = e.scale(l) + e.scale(x)
                except (evalf.Bad, OverflowError):
                    continue
                met.add((fn, d, l))
                if abs(a - b) > 1e-6 * (abs(a) + abs(b)) + 1e-8 * sc + 1e-10:
                    return ("differ", "%s(%s) = %s where %s is right at %s" % (
                        fn, ",".join(map(str, d)), chk._fmt(a), chk._fmt(b),
                        chk.show_env(e, [param(n) for n in self.X.params()] + [sym("k%d_%d" % (i, mu)) for i in (1, 2, 3, 4) for mu in range(4)])), fn)
        if any((fn, d, l) not in met for fn, d, _, _, rest in todo for l in rest):
            return ("unknown", "no physical point for a case")
        chk.at_points.used = True
        return ("equal",)

    def zero(self):
        return not any(l.__class__ is not num.Poly or l.d for f in self.values.values() for v in f.values() for l in dd.leaves(v))

    def form(self, perm):
        """{function: {labels by slot: [normal form of every case]}} with leg i at place perm[i]"""
        r = self.forms.get(perm)
        if r is not None:
            return r
        B = Form(perm)
        for i in range(4):
            B.mass[perm[i]] = self.masses.get(i + 1, num.ZERO)
        r = {}
        for fn, vals in self.values.items():
            for d, v in vals.items():
                key = [None] * 4
                for x, i in zip(d, self.with_label):
                    key[perm[i]] = (2 if x > 0 else -2) if self.legs[i].kind in ("A", "g") else x
                r.setdefault(fn, {})[tuple(key)] = [B.poly(l) for l in dd.leaves(v)]
        self.forms[perm] = r
        self.B = B
        return r


def same(x, y, massless=(), phases=PHASES, equal=num.equal):
    """do two sets of amplitudes agree up to a constant phase that depends only on the labels of massless vectors"""
    if set(x) != set(y):
        return False
    left = {}
    for k in x:
        g = tuple(k[i] for i in massless)
        cs = left.get(g, range(4))
        cs = [c for c in cs if all(equal(a, b * phases[c]) for a in x[k] for b in y[k])]
        if not cs:
            return False
        left[g] = cs
    return True
