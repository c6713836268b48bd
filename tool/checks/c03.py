"""C03: documented components of momentum matrices, spinors and generators, as exact terms."""
from spx import ir, num, dd, chk
from spx.num import P, sym
from spx.dd import Ptr, and_, not_, or_
from checks.plib import *

H = num.Fraction(1, 2)


class Doc:
    """the documented values as terms of the momentum"""

    def __init__(self, m, p):
        E, p1, p2, p3 = p
        i = num.IMAG
        self.m, self.p = m, p
        pxy = num.sqrt(p1 * p1 + p2 * p2)
        pm = num.sqrt(p1 * p1 + p2 * p2 + p3 * p3)
        th, ph = num.atan2(pxy, p3), num.atan2(p2, p1)
        self.c = num.cos(th * H)
        self.s = num.sin(th * H) * num.expi(ph)
        self.sc = num.conj(self.s)
        self.ep, self.em = num.sqrt(E + pm), num.sqrt(E - pm)
        self.E, self.pm = E, pm
        self.cth, self.sth = num.cos(th), num.sin(th)
        self.eph, self.emh = num.expi(ph), num.expi(-ph)

    def quantity(self, name, args):
        """entries, or None when there is no documented value (misuse is C04's business)"""
        E, p1, p2, p3 = self.p
        i = num.IMAG
        c, s, sc, ep, em = self.c, self.s, self.sc, self.ep, self.em
        massive = bool(self.m.d)
        if name in ("mass", "get_mass"):
            return [self.m]
        if name == "get_momentum":
            return [self.p[int(args[0].const())]]
        if name == "umat":
            return [E - p3, -(p1 - i * p2), -(p1 + i * p2), E + p3]
        if name == "lmat":
            return [E + p3, p1 - i * p2, p1 + i * p2, E - p3]
        if name in ("rangle", "langle", "lsquare", "rsquare"):
            if not args:
                if massive:
                    return None
                return {"rangle": [ep * c, ep * s], "lsquare": [ep * c, ep * sc],
                        "langle": [ep * s, -ep * c], "rsquare": [ep * sc, -ep * c]}[name]
            if not massive:
                return None
            up = args[1] if len(args) > 1 else True
            return self.spin(name, int(args[0].const()), up)
        if name.endswith("_matrix"):
            if not massive:
                return None
            up = args[0] if args else True
            a = self.spin(name[:-7], -1, up)
            b = self.spin(name[:-7], 1, up)
            return [a[0], b[0], a[1], b[1]]
        if name.startswith("lorentz_j") or name.startswith("spin_j"):
            return self.generator(name)
        return None

    def spin(self, name, J, up):
        c, s, sc, ep, em = self.c, self.s, self.sc, self.ep, self.em
        if name == "rangle":
            t = {(-1, 1): [ep * c, ep * s], (1, 1): [-em * sc, em * c], (-1, 0): [-em * sc, em * c], (1, 0): [-ep * c, -ep * s]}
        elif name == "langle":
            t = {(-1, 1): [ep * s, -ep * c], (1, 1): [em * c, em * sc], (-1, 0): [em * c, em * sc], (1, 0): [-ep * s, ep * c]}
        elif name == "lsquare":
            t = {(-1, 1): [em * s, -em * c], (1, 1): [ep * c, ep * sc], (-1, 0): [ep * c, ep * sc], (1, 0): [-em * s, em * c]}
        else:
            t = {(-1, 1): [-em * c, -em * s], (1, 1): [ep * sc, -ep * c], (-1, 0): [ep * sc, -ep * c], (1, 0): [em * c, em * s]}
        return t[(J, 1 if up else 0)]

    def generator(self, name):
        one = num.ONE
        ct, st, ph, mh = self.cth, self.sth, self.eph, self.emh
        if name.startswith("spin_"):
            z = num.ZERO
            return {"spin_j3_lu": [-one * H, z, z, one * H], "spin_jp_lu": [z, z, -ph, z], "spin_jm_lu": [z, -mh, z, z],
                    "spin_j3_ul": [one * H, z, z, -one * H], "spin_jp_ul": [z, ph, z, z], "spin_jm_ul": [z, z, mh, z]}.get(name)
        # prefactors: half the ratio of sqrt(E-P) and sqrt(E+P); massless limit 0 or 1
        if self.m.d:
            lo = H * self.em / self.ep
            hi = H * self.ep / self.em
        else:
            lo, hi = num.ZERO, num.ONE
        j3 = [H * ct, H * st * mh, H * st * ph, -H * ct]
        j3t = [H * ct, H * st * ph, H * st * mh, -H * ct]
        neg = lambda l: [-x for x in l]
        mul = lambda k, l: [k * x for x in l]
        up_lu = [st, -(ct - 1) * mh, -(ct + 1) * ph, -st]
        dn_lu = [st, -(ct + 1) * mh, -(ct - 1) * ph, -st]
        up_ul = [-st, (ct + 1) * ph, (ct - 1) * mh, st]
        dn_ul = [-st, (ct - 1) * ph, (ct + 1) * mh, st]
        return {
            "lorentz_j3_lu": neg(j3), "lorentz_jp_lu": mul(lo, up_lu), "lorentz_jm_lu": mul(hi, dn_lu),
            "lorentz_j3_ul": j3t, "lorentz_jp_ul": mul(lo, up_ul), "lorentz_jm_ul": mul(hi, dn_ul),
            "lorentz_j3_lu_dot": j3t, "lorentz_jp_lu_dot": mul(hi, up_ul), "lorentz_jm_lu_dot": mul(lo, dn_ul),
            "lorentz_j3_ul_dot": neg(j3), "lorentz_jp_ul_dot": mul(hi, up_lu), "lorentz_jm_ul_dot": mul(lo, dn_lu),
        }.get(name)


def regions():
    """general position and the degenerate directions"""
    a = sym("pz", positive=True)
    z = num.ZERO
    out = []
    for mn in ("massless", "massive"):
        m = z if mn == "massless" else mass("m")
        out.append((mn, m, momentum("p", m)))
        for d, sp in (("along +z", (z, z, a)), ("along -z", (z, z, -a)), ("along +x", (a, z, z)), ("along -x", (-a, z, z)),
                      ("along +y", (z, a, z)), ("along -y", (z, -a, z))):
            out.append((mn + " " + d, m, [num.sqrt(m * m + a * a)] + list(sp)))
    m = mass("m")
    out.append(("massive at rest", m, [m, z, z, z]))
    return out


def body(c):
    prog = ir.load(("source",))
    qs = quantities(prog)
    c.count("quantities (methods x arguments)", len(qs))
    c.assume("exact arithmetic; the momentum is exactly on shell")
    for tag, m, p in regions():
        X = Parts(prog)
        D = Doc(m, p)
        o = X.fresh(m, p)
        if X.S.I.st.pc is False:
            c.violation("on-shell particle accepted", tag, "source/particle.cpp:67", "an on-shell momentum is rejected")
            continue
        for lab, f, args in qs:
            name = f["q"].rsplit("::", 1)[1]
            if name == "dot":
                want = None
                mo = mass("mo")
                po = momentum("o", mo)
                want = [p[0] * po[0] - p[1] * po[1] - p[2] * po[2] - p[3] * po[3]]
            else:
                want = D.quantity(name, args)
            if want is None:
                continue
            snap = X.S.save()
            v, th = X.ask(o, f, args)
            got = X.read(v) if th is not True else []
            X.S.restore(snap)
            if th is True:
                c.violation("documented value", "%s [%s]" % (lab, tag), w(f), "raises an error")
                continue
            res = ("equal",) if len(got) == len(want) else ("unknown", "shape of the result")
            for k, (x, y) in enumerate(zip(got, want)):
                r = chk.compare(x, y, under=not_(th), names=("returned", "documented"))
                if r[0] == "differ":
                    res = ("differ", "entry %d: %s" % (k, r[1]))
                    break
                if r[0] == "unknown":
                    res = r
            c.judge("documented value", "%s [%s]" % (lab, tag), w(f), res, "wrong value")
        # momentum matrix built from a bare four-vector
        if tag in ("massless", "massive"):
            for up in (True, False):
                f = X.S.find(M + "::cmatrix", ["pr", "b"])
                if f:
                    q = [sym("k%d" % i) for i in range(4)]
                    mm = X.S.new(M, ["pr", "b"], X.S.array(q), up)
                    want = Doc(num.ZERO, q)
                    i = num.IMAG
                    wv = [q[0] - q[3], -(q[1] - i * q[2]), -(q[1] + i * q[2]), q[0] + q[3]] if up else \
                        [q[0] + q[3], q[1] - i * q[2], q[1] + i * q[2], q[0] - q[3]]
                    got = X.read(mm)
                    res = ("equal",)
                    for x, y in zip(got, wv):
                        r = chk.compare(x, y)
                        if r[0] != "equal":
                            res = r
                            break
                    c.judge("documented value", "cmatrix(momentum, %s)" % ("upper" if up else "lower"), w(f[0]), res, "wrong value")
    consistency(c)
    c.floor("documented value", 300)


def consistency(c):
    """the documented values themselves satisfy the defining identities (checked on the terms)"""
    m = mass("m")
    p = momentum("p", m)
    D = Doc(m, p)
    um, lm = D.quantity("umat", []), D.quantity("lmat", [])

    def outer(a, b):
        return [a[i] * b[j] for i in range(2) for j in range(2)]

    def add(a, b):
        return [x + y for x, y in zip(a, b)]
    # |i>^I [i|_I = p  (up to the index order of the conventions)
    pairs = [("rangle", "lsquare", lm), ("langle", "rsquare", None)]
    s = add(outer(D.spin("rangle", -1, True), D.spin("lsquare", -1, False)), outer(D.spin("rangle", 1, True), D.spin("lsquare", 1, False)))
    ok = all(num.equal(x, y) or num.equal(x, -y) for x, y in zip(s, lm))
    if ok:
        c.ok("documented identities", "|i>^I [i|_I rebuilds the momentum matrix")
    else:
        c.undecided("documented identities", "completeness", "not established on the terms")
    for n in ("rangle", "langle", "lsquare", "rsquare"):
        a = D.spin(n, -1, False)
        b = D.spin(n, 1, True)
        a2 = D.spin(n, 1, False)
        b2 = D.spin(n, -1, True)
        if all(num.equal(x, y) for x, y in zip(a, b)) and all(num.equal(x, -y) for x, y in zip(a2, b2)):
            c.ok("documented identities", "lowering of " + n)
        else:
            c.undecided("documented identities", "lowering of " + n, "not established")
