"""C09: the value of a bracket string as a product of opaque spinors and momentum matrices."""
from checks.slib import *


def body(c):
    prog = ir.load(("source",))
    c.assume("spinors and momentum matrices of the particles are arbitrary functions of mass and momentum (their values are C03)")
    X = Products(prog)
    parts = {}
    for k in range(8):
        for ms in (False, True):
            parts[(k, ms)] = X.part("%s%d" % ("a" if ms else "z", k), ms)
    ctors = 0
    base = X.S.save()
    for N in range(7):
        for angle in (True, False):
            for lu in (None, True, False):
                for ru in (None, True, False):
                    for lm in (False, True):
                        for rm in (False, True):
                            if (lu is False and not lm) or (ru is False and not rm):
                                continue
                            X.S.restore(base)
                            mids = [parts[(k, k % 2 == 0)] for k in range(2, 2 + N)]
                            L, R = parts[(0, lm)], parts[(1, rm)]
                            r, th = X.build(angle, L[0], R[0], [m[0] for m in mids], lu, ru)
                            if r is None:
                                continue
                            ctors += 1
                            o, f = r
                            inst = "N=%d %s left %s%s, right %s%s" % (
                                N, "angle" if angle else "square", "massive" if lm else "massless",
                                "" if lu is None else " upper" if lu else " lower", "massive" if rm else "massless",
                                "" if ru is None else " upper" if ru else " lower")
                            if th is not False:
                                if th is True or chk.sat(th)[0] == "yes":
                                    c.violation("constructed", inst, w(f), "construction raises an error")
                                else:
                                    c.undecided("constructed", inst, "construction may raise an error")
                                continue
                            for lab, k, args, jl, jr in components(lm, rm):
                                snap = X.S.save()
                                v, th = X.S.attempt(X.v[k], o, *args)
                                th = X.S.throw_cond(th)
                                X.S.restore(snap)
                                if th is True:
                                    c.violation("product value", inst + " " + lab, w(X.v[k]), "raises an error")
                                    continue
                                want = expected(angle, L[1], R[1], [m[1] for m in mids], jl, jr, lu is not False, ru is not False)
                                res = chk.compare(v, want, under=not_(th), names=("returned", "product of the parts"))
                                c.judge("product value", inst + " " + lab, w(X.v[k]), res, "wrong product")
    c.count("constructor and end combinations", ctors)
    # repeated particles
    for N, pat in ((1, (0, 0, 0)), (2, (0, 0, 1, 1)), (2, (0, 1, 0, 1)), (3, (0, 1, 0, 1, 0))):
        for angle in (True, False):
            for ms in (False, True):
                X.S.restore(base)
                ps = [parts[(k, ms)] for k in pat]
                r, th = X.build(angle, ps[0][0], ps[-1][0], [p[0] for p in ps[1:-1]])
                if r is None:
                    continue
                for lab, k, args, jl, jr in components(ms, ms):
                    snap = X.S.save()
                    v, th = X.S.attempt(X.v[k], r[0], *args)
                    th = X.S.throw_cond(th)
                    X.S.restore(snap)
                    want = expected(angle, ps[0][1], ps[-1][1], [p[1] for p in ps[1:-1]], jl, jr, True, True)
                    res = chk.compare(v, want, under=not_(th), names=("returned", "product of the parts"))
                    c.judge("product value with repeated particles", "%s %s %s %s" % (pat, "angle" if angle else "square", "massive" if ms else "massless", lab),
                            w(X.v[k]), res, "wrong product")
    c.floor("product value", 300)
