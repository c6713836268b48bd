"""Points at which a process disagrees with the tree-level prediction (checks/feyn.py).

Used after an exact comparison has failed: a process is reported only with a point at which its squared amplitude or
the modulus of a helicity amplitude is not the predicted one.
"""
from checks.c22 import *
from checks import feyn

NOWIDTH = {"widthZ": 0.0, "widthW": 0.0, "widthh": 0.0}
POINTS = 3
MORE = 40
# a width spoils the cancellation between the diagrams of these processes, so that there is no single tree-level
# prediction with a width; without widths they are compared like the others, and widths enter propagators only
SCHEME = set("AAWW AWAW AWWh AWZW AWud AZWW AhWW AnWe WWWW WWWW2 ZWZW ZZWW enAW hWWh hZZh hhWW hhZZ udAW".split())


def point(X, legs, seed, widths):
    """sample point with all parameters and momenta in general position, and the model at this point"""
    e = AmpEnv(seed, {} if widths else dict(NOWIDTH))
    h = lambda *x: evalf._h("prediction", seed, *x)
    e.set("sinW", 0.3 + 0.4 * h("sinW"))
    names = set(X.params())
    if seed >= POINTS:
        # other regions: small and large masses, angles and energies
        for n in sorted(names):
            if n.startswith("mass"):
                e.set(n, 10 ** (2.5 * h("m", n) - 1.5))
        e.set("sinW", 0.05 + 0.9 * h("sinW"))

    def val(n):
        return e.poly(param(n)).real if n in names else None
    ms = {k: val(n) for k, n in smodel.MASSNAME.items() if n in names}
    if "massf" in names:
        for l in legs:
            if l.fermion:
                ms[l.kind] = val("massf")
    M = feyn.Model(e=val("echarge") or 0.0, gs=val("gscharge") or val("gcharge") or 0.0, mw=val("massW"), sw=val("sinW"), mh=val("massh"),
                   vev=val("vev"), masses=ms, only_photon=X.short.endswith("QED"),
                   widths={k: val(n) or 0.0 for k, n in smodel.WIDTHNAME.items()})
    mm = {"Z": M.mz, "W": M.mw, "h": M.mh}
    m = [0.0] + [mm.get(l.kind, 0.0) if l.boson else ms.get(l.kind, 0.0) for l in legs]
    W = 1.2 * max(m[1] + m[2], m[3] + m[4]) + 0.7 + h("W")
    if seed >= POINTS:
        W *= 10 ** (h("W2") * 1.2)
    mom = two_body(W, m, h)
    for i in range(4):
        for mu in range(4):
            e.set("k%d_%d" % (i + 1, mu), mom[i][mu])
    return e, M, mom


def one(c, prog, cls):
    X = Process(prog, cls)
    legs = smodel.legs(X.short)
    if legs is None:
        c.undecided("prediction", X.short, "legs of the process not known")
        return
    o = X.build(X.params())
    X.momenta(o, "")
    by = {f["q"].rsplit("::", 1)[1]: f for f in X.amps()}
    base = X.S.save()
    memo = {}

    def amps(name, d):
        k = (name, tuple(d))
        if k not in memo:
            X.S.restore(base)
            memo[k] = X.amp(o, by[name], d)
        return memo[k]
    pts = {}
    for f in X.amp2s():
        name = f["q"].rsplit("::", 1)[1]
        inst = "%s::%s" % (X.short, name)
        fix = fixed(name, legs)
        if f["params"] or fix is None:
            continue
        calls = {}
        X.S.restore(base)
        for g in X.amps():
            X.I.overrides[g["key"]] = lambda I, obj, args, fn: X._rec(calls, I, args, fn)
        try:
            v = X.S.call(f, o)
        finally:
            for g in X.amps():
                del X.I.overrides[g["key"]]
        wrong = False
        for widths in (False, True):
            rule = "prediction" if not widths else "prediction with widths"
            if widths and (X.short in SCHEME or not any(n.startswith("width") for n in X.params())):
                continue
            ev, bad, und = 0, None, None
            used = {(prog.functions[k]["q"].rsplit("::", 1)[1], d) for k, ds in calls.items() for d in ds}
            gated = v.__class__ is not num.Poly or any(amps(*u).__class__ is not num.Poly for u in used)
            for s in range(POINTS + (MORE if gated else 0)):
                k = (s, widths)
                if k not in pts:
                    pts[k] = point(X, legs, s, widths)
                    pts[k][0].amps = amps
                e, M, mom = pts[k]
                try:
                    x = e.dd(v)
                    if x.__class__ is not num.Poly:
                        und = "value %r" % (x,)
                        continue
                    a = e.poly(x)
                except (evalf.Bad, OverflowError) as err:
                    und = str(err)
                    continue
                b = feyn.squared(M, legs, mom, fix) * float(average(legs, fix) * colour_average(legs))
                ev += 1
                if abs(a - b) > 1e-6 * (abs(a) + abs(b)):
                    bad = "%s, prediction %s at %s" % (chk._fmt(a), chk._fmt(complex(b)), chk.show_env(e, [param(n) for n in X.params()] + [sym("k%d_%d" % (i, mu)) for i in (1, 2, 3, 4) for mu in range(4)]))
                    break
            if bad:
                c.violation(rule, inst, w(f), bad)
                wrong = True
            elif und or not ev:
                c.undecided(rule, inst, und)
            else:
                c.ok(rule, inst)
        if name == "amp2" and not wrong:
            helicities(c, X, legs, f, v, pts)


def helicities(c, X, legs, f, v, pts):
    """every helicity combination on its own; labels of outgoing legs are opposite to their helicity"""
    rule, inst = "helicity amplitudes", X.short
    fm = forms(v)
    if fm is None:
        c.undecided(rule, inst, "not a sum of products of two amplitudes")
        return
    with_label = [i for i, l in enumerate(legs) if states(l) != (None,)]
    av = float(average(legs, {}) * colour_average(legs))
    for s in range(2):
        if (s, False) not in pts:
            return
        e, M, mom = pts[(s, False)]
        st = feyn.states(M, legs, mom)
        rows = []
        try:
            for d, form in fm.items():
                if len(d) != len(with_label):
                    c.undecided(rule, inst, "arguments of the amplitude")
                    return
                a = 0
                for (x, y), co in form.items():
                    A, B = (e.dd_value(e.amps(n, d)) for n in (x, y))
                    a += e.poly(co) * A * B.conjugate()
                fix = {i: h * (1 if i < 2 else -1) for i, h in zip(with_label, d)}
                if any(h not in st[i] for i, h in fix.items()):
                    if abs(a) > 1e-9:
                        rows.append((d, a, 0.0))
                    continue
                rows.append((d, a, feyn.summed(M, legs, st, fix) * av))
        except (evalf.Bad, OverflowError) as err:
            c.undecided(rule, inst, str(err))
            return
        big = max([abs(b) for _, _, b in rows] + [0])
        bad = [r for r in rows if abs(r[1] - r[2]) > 1e-6 * (abs(r[1]) + abs(r[2])) + 1e-9 * big]
        c.count("helicity amplitudes", len(rows))
        if bad:
            d, a, b = bad[0]
            where = [g for g in X.amps() if not g["q"].endswith("2")]
            c.violation(rule, inst, w((where or [f])[0]), "helicities (%s): %s, prediction %s at %s (%d of %d differ)" % (
                ",".join(map(str, d)), chk._fmt(complex(a)), chk._fmt(complex(b)),
                chk.show_env(e, [param(n) for n in X.params()] + [sym("k%d_%d" % (i, mu)) for i in (1, 2, 3, 4) for mu in range(4)]), len(bad), len(rows)))
            return
    c.ok(rule, inst)


def deviation(prog, cls):
    """(where, text) of a disagreement with the prediction, or None"""
    c = chk.Check("", "")
    one(c, prog, cls)
    chk.at_points.take()
    return (c.viol[0]["where"], c.viol[0]["rule"] + ": " + c.viol[0]["detail"]) if c.viol else None
