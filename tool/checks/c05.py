"""C05: the refusal condition of momenta as a boolean term, and real-valued derived quantities."""
from spx import evalf
from checks.plib import *

TOL = 10 ** 9     # in units of the machine epsilon
EPS = 2.0 ** -40  # value given to the machine epsilon at sample points


def spec(p, m):
    eps = sym("eps", positive=True)
    d = num.absval(p[0] * p[0] - p[1] * p[1] - p[2] * p[2] - p[3] * p[3] - m * m)
    return dd.lt0(eps * TOL - d)


def points(names, mname, massless):
    """momenta on and around the mass shell: (label, env)"""
    tol = TOL * EPS
    spat = [(0.3, -0.7, 0.2), (0.0, 0.0, 0.0), (1.5, 2.5, -3.5), (0.0, 0.0, -4.0), (12.0, 3.0, 4.0), (30.0, 0.0, 0.0)]
    offs = [0.0, 0.5, -0.5, 0.97, -0.97, 1.03, -1.03, 2.0, -2.0, 30.0, -30.0, 1e4, -1e4]
    for s in spat:
        for m in ((0.0,) if massless else (0.5, 3.0, 40.0)):
            p2 = s[0] ** 2 + s[1] ** 2 + s[2] ** 2
            for o in offs:
                e2 = p2 + m * m + o * tol
                if e2 < 0:
                    continue
                for sg in (1, -1):
                    v = dict(zip(names, (sg * e2 ** 0.5,) + s))
                    v["eps"] = EPS
                    if mname:
                        v[mname] = m
                    env = evalf.Env(7, v)
                    yield "E=%.10g p=%s m=%g (p^2-m^2 = %g tolerances)" % (sg * e2 ** 0.5, s, m, o), env, abs(o) > 1, o, sg


def body(c):
    prog = ir.load(("source",))
    names = ["a0", "a1", "a2", "a3"]
    p = [sym(n) for n in names]
    np_ = 0
    c.assume("exact arithmetic apart from the explicit tolerance; machine epsilon symbolic and positive")
    for massless in (True, False):
        m = num.ZERO if massless else sym("am", nonneg=True)
        tag = "massless" if massless else "massive"
        for route in ("constructor", "set_momentum", "set_mass then set_momentum", "set_mass then update", "particle(mass) then set_momentum",
                      "after a refused momentum", "set_momentum after many requests"):
            X = Parts(prog)
            upd = X.S.find(PA + "::update", [])
            roots = []
            m0 = mass("m0")
            q0 = momentum("q", m0)
            if route == "constructor":
                f = X.S.need(PA + "::particle", ["pr", "r"])
                o = X.S.obj(PA, "o")
                X.S.I.sqrt_hook = lambda I, x: roots.append((I.st.pc, x, I.where()))
                _, th = X.S.attempt(f, o, X.S.array(p), m)
            elif route == "set_mass then update":
                if not upd:
                    continue
                f = upd[0]
                # momentum p given together with mass 'm0', then the mass changes to m
                b = sym("bm", nonneg=True)
                o = X.S.new(PA, ["pr", "r"], X.S.array(p), b)
                pre = X.S.I.st.pc
                del X.S.I.throws[:]
                X.S.I.st.pc = True
                X.S.call(X.setm, o, m)
                X.S.I.sqrt_hook = lambda I, x: roots.append((I.st.pc, x, I.where()))
                _, th = X.S.attempt(f, o)
            else:
                f = X.setp
                if route.startswith("particle(mass)"):
                    if not X.S.find(PA + "::particle", ["r"]):
                        continue
                    o = X.S.new(PA, ["r"], m)
                elif route == "set_mass then set_momentum":
                    o = X.fresh(m0, q0)
                    X.S.call(X.setm, o, m)
                elif route == "after a refused momentum":
                    o = X.fresh(m0, q0)
                    X.S.call(X.setm, o, m)
                    X.S.attempt(X.setp, o, X.S.array([q0[0] + 1, q0[1], q0[2], q0[3]]))
                elif route == "set_momentum after many requests":
                    o = X.fresh(m, momentum("q", m))
                    for l, g, a in quantities(prog):
                        X.S.maybe(dd.boolsym("b:" + l), g, o, *X.vals(a))
                else:
                    o = X.fresh(m, momentum("q", m))
                X.S.I.sqrt_hook = lambda I, x: roots.append((I.st.pc, x, I.where()))
                _, th = X.S.attempt(f, o, X.S.array(p))
            X.S.I.sqrt_hook = None
            th = X.S.throw_cond(th)
            inst = "%s, %s" % (route, tag)
            res = None
            bad_root = None
            got = 0
            for lab, env, want, off, sg in points(names, None if massless else "am", massless):
                if massless is False and route == "set_mass then update":
                    env.set("bm", env.vals["am"])
                try:
                    r = env.dd(th)
                except evalf.Bad:
                    continue
                if r.__class__ is not bool:
                    continue
                got += 1
                if r != want and res is None:
                    res = ("differ", "%s: %s" % (lab, "refused although within the tolerance" if r else "accepted although off shell"))
                if not r and not want and sg > 0 and off <= 1 and bad_root is None:
                    for pc, x, wh in roots:
                        try:
                            if not env.dd(pc):
                                continue
                            v = env.poly(x)
                            sc = env.scale(x)
                        except evalf.Bad:
                            continue
                        if v.real < -1e-13 * max(sc, 1) - 1e-300 and v.real < 0:
                            bad_root = "%s: square root of %.4g (%s)" % (lab, v.real, wh)
                            break
            np_ += got
            if got < 40:
                c.undecided("refused exactly off shell", inst, "the refusal condition could not be evaluated")
            else:
                c.judge("refused exactly off shell", inst, w(f), res or ("equal",), "wrong verdict")
            if bad_root:
                c.violation("real square roots for accepted momenta", inst, w(f), bad_root)
            elif roots:
                c.ok("real square roots for accepted momenta", inst)
            # exact form of the condition
            eq = chk.compare(th, spec(p, m))
            if eq[0] == "equal":
                c.ok("refusal condition identical to the documented one", inst)
        # values that are not numbers
        for k in range(5):
            for route in ("constructor", "set_momentum"):
                X = Parts(prog)
                q = momentum("q", m)
                vals = list(q)
                mm = m
                if k < 4:
                    vals[k] = dd.NAN
                else:
                    mm = dd.NAN
                if route == "constructor":
                    f = X.S.need(PA + "::particle", ["pr", "r"])
                    o = X.S.obj(PA, "o")
                    _, th = X.S.attempt(f, o, X.S.array(vals), mm)
                else:
                    f = X.setp
                    o = X.fresh(m, q)
                    X.S.call(X.setm, o, mm)
                    _, th = X.S.attempt(f, o, X.S.array(vals))
                th = X.S.throw_cond(th)
                inst = "%s, %s is not a number, %s" % (route, "p[%d]" % k if k < 4 else "mass", tag)
                if th is True:
                    c.ok("not-a-number refused", inst)
                else:
                    s = chk.sat(not_(th))
                    if s[0] == "yes":
                        c.violation("not-a-number refused", inst, w(f), "accepted")
                    elif s[0] == "no":
                        c.ok("not-a-number refused", inst)
                    else:
                        c.undecided("not-a-number refused", inst, s[1])
    c.count("shell points evaluated on the refusal condition", np_)
    c.floor("refused exactly off shell", 10)
    c.floor("not-a-number refused", 16)
    c.floor("real square roots for accepted momenta", 8)
