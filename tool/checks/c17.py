"""C17: reads of values that were never set, in every class and process."""
from checks.proc import *
from checks.slib import SP as _SP  # noqa: F401

UT = "spinas::"


def judge(c, rule, inst, where, events, kinds={"undef": "reads a value that was never set"}, maybe=()):
    """one obligation: no read of an unset value (or other event of these kinds) can happen"""
    und = None
    for e in events:
        if e[0] not in kinds and e[0] not in maybe:
            continue
        r = ("yes", "") if e[3] is True else chk.sat(e[3])
        if r[0] == "yes" and e[0] in kinds:
            c.violation(rule, inst, str(e[2]), "%s: %s" % (kinds[e[0]], e[1]))
            return
        if r[0] != "no":
            und = "%s possible at %s" % (e[1], e[2])
    if und:
        c.undecided(rule, inst, und)
    else:
        c.ok(rule, inst)


def unset(v):
    return [l for l in dd.leaves(v) if l.__class__ is dd.Undef]


# ------------------------------------------------------------------------------------------ processes
def process(c, prog, cls):
    X = Process(prog, cls)
    ev = X.I.events

    def stage(rule, what, where):
        judge(c, rule, "%s, %s" % (X.short, what), where, ev)
        del ev[:]
    for ct in X.ctors:
        o = X.S.obj(cls, "proc")
        X.S.call(ct, o, *[param(n) for n in X.pnames(ct)])
        stage("construction", "constructor with %d parameters" % len(ct["params"]), w(ct))
    o = X.build(X.params())
    del ev[:]
    if X.setp is None:
        c.undecided("use", X.short, "no set_momenta")
        return
    X.momenta(o, "")
    stage("use", "momenta", w(X.setp))
    D = X.domain(o)
    del ev[:]
    bad = None
    for k, v in evaluate(X, o, D).items():
        if unset(v):
            bad = bad or "%s is %r" % (label(X, k), unset(v)[0])
    if bad:
        c.violation("use", X.short + ", amplitude value", w(X.setp), bad)
    stage("use", "amplitudes", w(X.setp))
    for key in [f["key"] for f in X.amps()]:
        X.I.overrides[key] = lambda I, obj, args, fn: X._rec({}, I, args, fn)
    for f in X.amp2s():
        v = X.S.call(f, o)
        n = f["q"].rsplit("::", 1)[1]
        if unset(v):
            c.violation("use", "%s, value of %s" % (X.short, n), w(f), "is %r" % (unset(v)[0],))
        stage("use", n, w(f))
    for key in [f["key"] for f in X.amps()]:
        del X.I.overrides[key]
    for m in X.members():
        f = prog.functions.get(m["key"])
        if f is not None and X.fkinds(f) == ["pr"] * 4 and ptype(f["_types"][f["ret"]]).k == "flt":
            o2 = X.build(X.params())
            del ev[:]
            v = X.S.call(f, o2, *[X.S.array([sym("k%d_%d" % (i, mu)) for mu in range(4)], name="mom") for i in (1, 2, 3, 4)])
            stage("use", m["n"] + " at given momenta", w(f))
    for f in X.sm:
        o3 = X.build(X.params())
        del ev[:]
        X.S.call(f, o3, *[param(n, "'") for n in X.pnames(f)])
        X.momenta(o3, "")
        evaluate(X, o3, {k: dict(list(v.items())[:2]) for k, v in D.items()})
        stage("use", "after a mass update", w(f))


# ------------------------------------------------------------------------------------------ library
def particles(c, prog):
    """every constructor, every quantity, with and without later updates"""
    qs = quantities(prog)
    c.count("particle quantities", len(qs))
    m1 = mass("m1")
    for cn in ("default", "mass", "zero mass", "momentum and mass", "momentum, massless"):
        for later in ("as built", "mass set", "momentum set"):
            X = Parts(prog)
            S = X.S
            m0 = num.ZERO if "zero" in cn or "massless" in cn or cn == "default" else mass("m0")
            if cn == "default":
                f = S.find(PA + "::particle", [])
                args = []
            elif "momentum" in cn:
                f = S.find(PA + "::particle", ["pr", "r"])
                args = [S.array(momentum("p", m0), name="p"), m0]
            else:
                f = S.find(PA + "::particle", ["r"])
                args = [m0]
            if not f:
                c.undecided("particle", cn, "no such constructor")
                continue
            o = S.obj(PA, "particle")
            del S.I.events[:]
            S.attempt(f[0], o, *args)
            judge(c, "particle", "%s, construction" % cn, w(f[0]), S.I.events)
            if later == "mass set":
                S.attempt(X.setm, o, m1)
            elif later == "momentum set":
                # on the mass shell of the mass it has
                S.attempt(X.setp, o, S.array(momentum("k", m0), name="p"))
            judge(c, "particle", "%s, %s" % (cn, later), w(X.setm), S.I.events)
            base = S.save()
            rest = None
            if cn == "mass" and later == "as built":
                rest = X.fresh(m0, [m0, num.ZERO, num.ZERO, num.ZERO], "at rest")
                base = S.save()
            for lab, q, a in qs:
                S.restore(base)
                del S.I.events[:]
                v, th = X.ask(o, q, a)
                got = X.read(v) if th is not True and v.__class__ is Ptr else [v]
                judge(c, "particle", "%s, %s, %s" % (cn, later, lab), w(q), S.I.events)
                if rest is not None:
                    v2, th2 = X.ask(rest, q, a)
                    want = X.read(v2) if th2 is not True and v2.__class__ is Ptr else [v2]
                    ok = and_(not_(th), not_(th2))
                    r = ("equal",)
                    for x, y in zip(got, want):
                        rr = chk.compare(x, y, under=ok, names=("built from the mass", "built at rest"))
                        if rr[0] != "equal":
                            r = rr
                            break
                    c.judge("particle at rest", lab, w(q), r, "differs from a particle built with the momentum (m,0,0,0)")
            ta = S.find(PA + "::test_angles", [])
            if ta:
                S.restore(base)
                del S.I.events[:]
                S.attempt(ta[0], o)
                judge(c, "particle", "%s, %s, test_angles" % (cn, later), w(ta[0]), S.I.events)


def products(c, prog):
    from checks import slib
    X = slib.Products(prog)
    I = X.S.I
    parts = {k: X.part("%s%d" % ("a" if k[1] else "z", k[0]), k[1]) for k in itertools.product(range(8), (False, True))}
    base = X.S.save()
    for N in range(7):
        for angle, lu, ru, lm, rm in itertools.product((True, False), (None, True, False), (None, True, False), (False, True), (False, True)):
            if (lu is False and not lm) or (ru is False and not rm):
                continue
            X.S.restore(base)
            mids = [parts[(k, k % 2 == 0)] for k in range(2, 2 + N)]
            L, R = parts[(0, lm)], parts[(1, rm)]
            del I.events[:]
            r, th = X.build(angle, L[0], R[0], [m[0] for m in mids], lu, ru)
            if r is None:
                continue
            o, f = r
            for lab, k, args, jl, jr in slib.components(lm, rm):
                X.S.attempt(X.v[k], o, *args)
            X.S.attempt(X.upd, o)
            for lab, k, args, jl, jr in slib.components(lm, rm):
                X.S.attempt(X.v[k], o, *args)
            judge(c, "spinor product", "%d inner momenta, %s, %s, %s, left %s, right %s" % (N, angle, lu, ru, lm, rm), w(f), I.events)


GEN = {"r": lambda S, n: sym("x%d" % n), "c": lambda S, n: sym("z%d" % n, real=False),
       "pr": lambda S, n: S.array([sym("y%d_%d" % (n, i)) for i in range(4)]),
       "pc": lambda S, n: S.array([sym("w%d_%d" % (n, i), real=False) for i in range(2)], t="std::complex<long double>"),
       "b": None, "i": None}


def algebra(c, prog):
    """matrices, vectors and propagators: every constructor, then every public method and operator"""
    for cls in (M, V, "spinas::propagator"):
        short = cls.rsplit("::", 1)[1]
        rec = prog.records.get(cls)
        if rec is None:
            raise AnalysisError("class %s not found" % short)
        fs = [prog.functions[m["key"]] for m in rec["methods"] if m["key"] in prog.functions]
        ctors = [f for f in fs if f.get("ctor")]
        for ct in ctors:
            kt = [kind(ptype(ct["_types"][p["t"]])) for p in ct["params"]]
            if short in kt:
                continue
            for f in fs:
                if f.get("ctor") or f.get("access", 0) != 0:
                    continue
                kf = [kind(ptype(f["_types"][p["t"]])) for p in f["params"]]
                for flags in itertools.product((0, 1), repeat=(kt + kf).count("b") + (kt + kf).count("i")):
                    S = Session(prog)
                    it = iter(flags)

                    def arg(k, n):
                        if k == "b":
                            return bool(next(it))
                        if k == "i":
                            return P(next(it))
                        if k in (short, "cmatrix", "cvector"):
                            o = S.obj("spinas::" + k, "other")
                            g = S.find("spinas::%s::%s" % (k, k), ["c"] * (4 if k == "cmatrix" else 2))
                            if not g:
                                return None
                            S.call(g[0], o, *[sym("o%d_%d" % (n, i), real=False) for i in range(len(g[0]["params"]))])
                            return o
                        return GEN[k](S, n) if GEN.get(k) else None
                    o = S.obj(cls, short)
                    a = [arg(k, 10 + i) for i, k in enumerate(kt)]
                    b = [arg(k, 30 + i) for i, k in enumerate(kf)]
                    if any(x is None for x in a + b):
                        continue
                    S.attempt(ct, o, *a)
                    v, _ = S.attempt(f, o, *b)
                    for get in fs:
                        if get["q"].endswith("::get") and not get.get("ctor"):
                            for ij in itertools.product((0, 1), repeat=len(get["params"])):
                                S.attempt(get, o, *[P(x) for x in ij])
                    judge(c, "algebra", "%s(%s), %s(%s) %s" % (short, ",".join(kt), f["q"].rsplit("::", 1)[1], ",".join(kf), flags), w(f), S.I.events)


def spins(c, prog):
    """spin-state expansion: all labels are set for every combination"""
    S = Session(prog)
    PRC = "spinas::process"
    for n in range(1, 7):
        f = S.find(PRC + "::get_spinor_spins", ["i", "i", "i"] * n + ["i"])
        g = S.find(PRC + "::get_num_spin_loops", ["i"] * n)
        h = S.find(PRC + "::get_spin_normalization", ["i"] * n)
        if not f or not g or not h:
            continue
        for ds in itertools.product((-2, 0, 2), repeat=n):
            if n > 3 and sum(1 for x in ds if x == 0) > 3:
                continue
            T = Session(prog)
            o = T.obj(PRC, "process")
            k = T.call(g[0], o, *[P(x) for x in ds])
            T.call(h[0], o, *[P(x) for x in ds])
            if k.__class__ is not num.Poly or not k.is_const():
                c.undecided("spin states", "%s" % (ds,), "number of loops")
                continue
            bad = None
            for i in range(int(k.const())):
                outs, args = [], []
                for x in ds:
                    a, b = Ptr(T.I.alloc("int", "a")), Ptr(T.I.alloc("int", "b"))
                    outs += [a, b]
                    args += [P(x), a, b]
                T.call(f[0], o, *(args + [P(i)]))
                for q in outs:
                    if unset(T.I.load(q)):
                        bad = bad or "a spin label is not set in step %d" % i
            if bad:
                c.violation("spin states", "%s" % (ds,), w(f[0]), bad)
            else:
                judge(c, "spin states", "%s" % (ds,), w(f[0]), T.I.events)


def kinematics(c, prog):
    S0 = Session(prog)
    for q, ks in (("rotate_momentum", ["pr", "pr", "r"]), ("boost_momentum", ["pr", "pr"]), ("choose_random_momentum", ["pr", "r", "r"]),
                  ("choose_random_massless_momentum", ["pr", "r", "r"]), ("choose_random_cdouble", ["r", "r"]),
                  ("choose_random_ldouble", ["r", "r"]), ("choose_random_int", ["i", "i"])):
        f = S0.find(UT + q, ks)
        if not f:
            continue
        S = Session(prog)
        args = []
        out = None
        for n, k in enumerate(ks):
            if k == "pr":
                vals = [sym("a%d_%d" % (n, i)) for i in range(3 if n == 1 else 4)]
                if q.startswith("choose") and n == 0:
                    o = S.I.alloc("long double[4]", "out")
                    out = Ptr(o, (0,))
                    args.append(out)
                    continue
                args.append(S.array(vals))
            elif k == "r":
                args.append(sym("b%d" % n))
            else:
                args.append(P(0 if n == 0 else 9))
        v, th = S.attempt(f[0], None, *args)
        judge(c, "kinematics", q, w(f[0]), S.I.events)
        if out is not None:
            for i in range(4):
                if unset(S.I.load(Ptr(out.obj, (i,)))):
                    c.violation("kinematics", "%s, component %d" % (q, i), w(f[0]), "is never set")
                else:
                    c.ok("kinematics", "%s, component %d" % (q, i))


JOBS = [particles, products, algebra, spins, kinematics]


def body(c):
    prog = ir.load(("source", "SM"))
    cl = classes(prog)
    c.count("process classes", len(cl))
    c.assume("processes: particles and spinor products behave as established by C01, C02 and C09")
    jobs = JOBS + cl
    chk.parallel(c, jobs, lambda c, j: j(c, prog) if callable(j) else process(c, prog, j))
    c.floor("construction", 135)
    c.floor("use", 600)
    c.floor("particle", 500)
    c.floor("particle at rest", 30)
    c.floor("spinor product", 200)
    c.floor("algebra", 100)
    c.floor("spin states", 300)
    c.floor("kinematics", 8)
