"""C21: test kinematics and random draws as exact terms."""
from checks.plib import *
from spx import evalf

PR = "spinas::process"


def reference(m, pin, cost):
    """two-to-two kinematics in the centre-of-mass frame"""
    e1, e2 = num.sqrt(pin * pin + m[0] * m[0]), num.sqrt(pin * pin + m[1] * m[1])
    w_ = e1 + e2
    s = w_ * w_
    a, b = m[2] + m[3], m[2] - m[3]
    pout = num.sqrt(num.mul(s - a * a, s - b * b)) * num.inv(P(2) * w_)
    e3 = num.sqrt(pout * pout + m[2] * m[2])
    e4 = num.sqrt(pout * pout + m[3] * m[3])
    sint = num.sqrt(num.ONE - cost * cost)
    return [[e1, num.ZERO, num.ZERO, pin], [e2, num.ZERO, num.ZERO, -pin],
            [e3, pout * sint, num.ZERO, pout * cost], [e4, -pout * sint, num.ZERO, -pout * cost]]


def kin_env(env):
    if "Pin" not in env.vals:
        env.set("Pin", 5.0 + (env.seed % 17) * 0.37)
    if "cost" not in env.vals:
        env.set("cost", -0.97 + (env.seed % 23) * 0.0877)


def inv(p):
    return p[0] * p[0] - p[1] * p[1] - p[2] * p[2] - p[3] * p[3]


def kinematics(c, prog):
    S = Session(prog)
    fi = S.need(PR + "::set_test_initializations", ["r"] * 10)
    fm = S.need(PR + "::set_test_momenta", ["pr"] * 4 + ["r"] * 7)
    for mask in range(16):
        S = Session(prog)
        m = [mass("m%d" % (i + 1)) if mask >> i & 1 else num.ZERO for i in range(4)]
        pin, cost = sym("Pin", positive=True), sym("cost")
        o = S.new(PR, [])
        out = [S.box(dd.Undef("output %s" % n), ptype("long double")) for n in ("En1", "En2", "Pout", "En3", "En4")]
        _, th1 = S.attempt(fi, o, *(m + [pin] + out))
        e1, e2, pout, e3, e4 = [S.I.load(x) for x in out]
        arr = [S.array([dd.Undef("p%d[%d]" % (i, k)) for k in range(4)], name="p%d" % i) for i in range(4)]
        _, th2 = S.attempt(fm, o, *(arr + [e1, e2, pin, e3, e4, pout, cost]))
        p = [[S.I.load(Ptr(a.obj, (k,))) for k in range(4)] for a in arr]
        lab = "massive legs " + ("".join(str(i + 1) for i in range(4) if mask >> i & 1) or "none")
        s = chk.sat(or_(S.throw_cond(th1), S.throw_cond(th2)), env_fn=kin_env)
        if s[0] == "yes":
            c.violation("test kinematics", lab + ", errors", w(fm), s[1])
        ref = reference(m, pin, cost)
        for i in range(4):
            for mu in range(4):
                r = chk.compare(p[i][mu], ref[i][mu], env_fn=kin_env, names=("got", "kinematics"))
                c.judge("test kinematics", "%s, momentum %d, component %d" % (lab, i + 1, mu), w(fm), r, "wrong momentum")
            r = chk.compare(dd.applyn(lambda *x: inv(x) if all(y.__class__ is num.Poly for y in x) else dd.Top("value"), p[i]),
                            m[i] * m[i], env_fn=kin_env)
            c.judge("on shell", "%s, momentum %d" % (lab, i + 1), w(fm), r, "invariant square is not the mass squared")
        for mu in range(4):
            r = chk.compare(dd.applyn(lambda *x: x[0] + x[1] - x[2] - x[3] if all(y.__class__ is num.Poly for y in x) else dd.Top("value"),
                                      [p[i][mu] for i in range(4)]), num.ZERO, env_fn=kin_env)
            c.judge("momentum conservation", "%s, component %d" % (lab, mu), w(fm), r, "total momentum changes")
    c.floor("test kinematics", 256)
    c.floor("on shell", 64)
    c.floor("momentum conservation", 64)


class Draws:
    """sample values of the random draws made during a run"""

    def __init__(self, S):
        self.d = []
        for v, data, where in S.I.draws:
            a = [num._ATOMS[x] for x in num.atoms_in(v)]
            self.d.append((a[0].args[0], a[0].integer, data))

    def env(self, mode):
        def f(env):
            for k, (n, integer, data) in enumerate(self.d):
                if n in env.vals:
                    continue
                lo, hi = [env.poly(P(x)).real if x.__class__ is num.Poly else float(x) for x in data[1:3]]
                u = evalf._h("draw", n, env.seed) if mode == "any" else mode
                v = lo + (hi - lo) * u
                env.set(n, float(min(int(hi), int(lo + (hi - lo + 1) * u))) if integer else v)
        return f

    def bounded(self):
        return all(len(d[2]) >= 3 for d in self.d)


RANGES = ((-10.0, 10.0), (0.0, 50.0), (2.0, 7.0), (-400.0, 1000.0))


def spans(c, rule, inst, f, val, D, lo="begin", hi="end", integer=False):
    """val lies in the range for every draw and reaches both ends"""
    if val.__class__ is not num.Poly:
        c.undecided(rule, inst, "value %r" % (val,))
        return
    if not D.bounded():
        c.undecided(rule, inst, "draw without known bounds")
        return
    for a, b in RANGES:
        got = []
        for i, mode in enumerate([0.0, 1.0] + ["any"] * 30):
            env = evalf.Env(1000 + i)
            env.set(lo, a)
            env.set(hi, b)
            try:
                D.env(mode)(env)
                v = env.poly(val).real
            except (evalf.Bad, OverflowError):
                continue
            got.append(v)
            if v < a - 1e-9 * (b - a) or v > b + 1e-9 * (b - a):
                c.violation(rule, inst, w(f), "value %.6g outside the requested range [%g, %g]" % (v, a, b))
                return
            if integer and v != int(v):
                c.violation(rule, inst, w(f), "value %.6g is not an integer" % v)
                return
        if not got:
            c.undecided(rule, inst, "no sample")
            return
        if min(got) > a + 0.01 * (b - a) or max(got) < b - 0.01 * (b - a):
            c.violation(rule, inst, w(f), "values only reach [%.6g, %.6g] of the requested range [%g, %g]" % (min(got), max(got), a, b))
            return
    c.ok(rule, inst)


def random_values(c, prog):
    U = "spinas::"
    b, e = sym("begin"), sym("end")
    S = Session(prog)
    f = S.need(U + "choose_random_ldouble", ["r", "r"])
    v = S.call(f, None, b, e)
    spans(c, "random range", "choose_random_ldouble", f, v, Draws(S))
    S = Session(prog)
    f = S.need(U + "choose_random_int", ["i", "i"])
    v = S.call(f, None, sym("begin", integer=True), sym("end", integer=True))
    spans(c, "random range", "choose_random_int", f, v, Draws(S), integer=True)
    S = Session(prog)
    f = S.need(U + "choose_random_cdouble", ["r", "r"])
    v = S.call(f, None, b, e)
    if v.__class__ is Ptr:
        v = S.I.load(v)
    D = Draws(S)
    for nm, x in (("real part", S.I.num1("real", v)), ("imaginary part", S.I.num1("imag", v))):
        spans(c, "random range", "choose_random_cdouble, " + nm, f, x, D)
    if len(D.d) < 2:
        c.violation("random range", "choose_random_cdouble, independence", w(f), "the two parts are not drawn independently")
    for nm, massive in (("choose_random_momentum", True), ("choose_random_massless_momentum", False)):
        S = Session(prog)
        f = S.need(U + nm, ["pr", "r", "r"])
        p = S.array([dd.Undef("p[%d]" % k) for k in range(4)], name="p")
        r, th = S.attempt(f, None, p, b, e)
        D = Draws(S)
        q = [S.I.load(Ptr(p.obj, (k,))) for k in range(4)]
        for k in (1, 2, 3):
            spans(c, "random range", "%s, component %d" % (nm, k), f, q[k], D)
            for j in range(1, k):
                if q[k].__class__ is num.Poly and q[j].__class__ is num.Poly and num.equal(q[k], q[j]):
                    c.violation("random range", "%s, components %d and %d" % (nm, j, k), w(f), "always equal")

        def env_fn(env):
            env.set("begin", -10.0)
            env.set("end", 10.0 + env.seed % 7)
            D.env("any")(env)
        want = num.ZERO if not massive else (r * r if r.__class__ is num.Poly else dd.Top("mass"))
        iv = inv(q) if all(x.__class__ is num.Poly for x in q) else dd.Top("momentum")
        c.judge("random momentum on shell", nm, w(f), chk.compare(iv, want, env_fn=env_fn, names=("invariant square", "mass squared")),
                "wrong energy")
        if q[0].__class__ is num.Poly:
            neg = dd.lt0(q[0])
            s = chk.sat(neg, env_fn=env_fn)
            if s[0] == "no":
                c.ok("random momentum energy", nm)
            elif s[0] == "yes":
                c.violation("random momentum energy", nm, w(f), "negative energy")
            else:
                c.undecided("random momentum energy", nm, s[1])
        if massive and r.__class__ is num.Poly:
            for i in range(30):
                env = evalf.Env(i)
                env_fn(env)
                if env.poly(r).real < -1e-12:
                    c.violation("random momentum energy", nm + ", mass", w(f), "negative mass")
                    break
            else:
                c.ok("random momentum energy", nm + ", mass")
    c.floor("random range", 10)
    c.floor("random momentum on shell", 2)
    c.floor("random momentum energy", 3)


def frames(c, prog):
    for nm, kind_ in (("rotate_random_test_momenta", "rotation"), ("boost_random_test_momenta", "boost")):
        S = Session(prog)
        f = S.need(PR + "::" + nm, ["pr"] * 4)
        o = S.new(PR, [])
        p = [sym("p%d" % k) for k in range(4)]
        arr = [S.array(p, name="arr%d" % i) for i in range(4)]
        _, th = S.attempt(f, o, *arr)
        D = Draws(S)
        got = [[S.I.load(Ptr(a.obj, (k,))) for k in range(4)] for a in arr]
        pc = S.I.st.pc
        ok = D.bounded()
        if not ok:
            c.undecided("frame change", nm, "draw without known bounds")
            continue

        def env_fn(env):
            D.env("any")(env)
        for i in range(1, 4):
            for k in range(4):
                r = chk.compare(got[i][k], got[0][k], under=pc, env_fn=env_fn, names=("momentum %d" % (i + 1), "momentum 1"))
                c.judge("frame change", "%s, momenta 1 and %d, component %d" % (nm, i + 1, k), w(f), r, "transformed differently")

        def invd(v):
            return dd.applyn(lambda *x: inv(x) if all(y.__class__ is num.Poly for y in x) else dd.Top("value"), v)
        c.judge("frame change", nm + ", invariant square", w(f), chk.compare(invd(got[0]), inv(p), under=pc, env_fn=env_fn), "not kept")
        if kind_ == "rotation":
            c.judge("frame change", nm + ", energy", w(f), chk.compare(got[0][0], p[0], under=pc, env_fn=env_fn), "not kept")
        r = chk.compare(got[0][1], p[1], under=pc, env_fn=env_fn)
        if r[0] == "equal":
            c.violation("frame change", nm + ", effect", w(f), "the momenta never change")
        elif r[0] == "differ":
            c.ok("frame change", nm + ", effect")
        else:
            c.undecided("frame change", nm + ", effect", r[1])
        bad = None
        for i in range(600):
            env = evalf.Env(i)
            env_fn(env)
            try:
                if env.dd(pc) is not True:
                    continue
            except (evalf.Bad, OverflowError):
                continue
            try:
                for k in range(4):
                    x = env.dd(got[0][k])
                    if x.__class__ is num.Poly:
                        env.poly(x)
            except evalf.Bad as e:
                if "sqrt" in str(e):
                    bad = env
                    break
        if bad:
            c.violation("frame change", nm + ", real", w(f), "square root of a negative number, e.g. a velocity above light speed: %s" % (
                {n: round(bad.vals[n], 4) for n, _, _ in D.d if n in bad.vals},))
        else:
            c.ok("frame change", nm + ", real")
    c.floor("frame change", 28)


def body(c):
    prog = ir.load(("source",))
    c.assume("draws of std::uniform_*_distribution lie between the bounds given; kinematics above threshold")
    kinematics(c, prog)
    random_values(c, prog)
    frames(c, prog)
