"""C23: comparisons evaluated with a not-a-number entry."""
from checks.plib import *
from checks.c06 import Alg


def body(c):
    prog = ir.load(("source",))
    c.assume("arithmetic on a value that is not a number gives such a value, ordered comparisons with it are false")
    n = 0
    for cls, short, size in ((M, "cmatrix", 4), (V, "cvector", 2)):
        for op, want in (("==", False), ("!=", True)):
            A0 = Alg(prog)
            fs = A0.S.find(cls + "::operator" + op, [short]) or A0.S.find("spinas::operator" + op, [short, short])
            if not fs:
                raise AnalysisError("operator%s of %s not found" % (op, short))
            for f in fs:
                for side in ("left", "right", "both", "same object"):
                    for k in range(size):
                        A = Alg(prog)
                        e = [sym("e%d" % i, real=False) for i in range(size)]
                        z = list(e)
                        z[k] = dd.NAN
                        a = A.S.new(cls, ["c"] * size, *(z if side != "right" else e))
                        b = a if side == "same object" else A.S.new(cls, ["c"] * size, *(z if side != "left" else e))
                        v, th = A.S.attempt(f, a, b) if f.get("cls") else A.S.attempt(f, None, a, b)
                        inst = "%s %s, entry %d not a number, %s" % (short, op, k, side)
                        r = chk.compare(v, want, names=("returned", "required"))
                        c.judge("comparison operators", inst, w(f), r, "wrong verdict")
                        n += 1
    # determinant
    A0 = Alg(prog)
    dets = A0.S.find(M + "::get_det", []) + A0.S.find("spinas::det", ["cmatrix"])
    if not dets:
        raise AnalysisError("determinant not found")
    for f in dets:
        for k in range(4):
            A = Alg(prog)
            z = [sym("e%d" % i, real=False) for i in range(4)]
            z[k] = dd.NAN
            a = A.S.new(M, ["c"] * 4, *z)
            v, th = A.S.attempt(f, a) if f.get("cls") else A.S.attempt(f, None, a)
            th = A.S.throw_cond(th)
            inst = "%s, entry %d not a number" % (f["q"], k)
            s = chk.sat(not_(th))
            if s[0] == "no":
                c.ok("determinant", inst)
            elif s[0] == "yes":
                c.violation("determinant", inst, w(f), "no error is reported")
            else:
                c.undecided("determinant", inst, s[1])
    # angle self-check
    X = Parts(prog)
    ta = X.S.find(PA + "::test_angles", [])
    if not ta:
        raise AnalysisError("test_angles not found")
    for massive in (False, True):
        for k in range(4):
            X = Parts(prog)
            m = mass("m") if massive else num.ZERO
            p = momentum("p", m)
            o = X.fresh(m, p)
            q = list(p)
            q[k] = dd.NAN
            X.S.attempt(X.setp, o, X.S.array(q))
            g = X.S.call(X.S.need(PA + "::get_momentum", ["i"]), o, P(k))
            if g is not dd.NAN:
                c.ok("angle self-check", "momentum %d is not kept" % k)
                continue
            v, th = X.S.attempt(ta[0], o)
            r = chk.compare(v, False, names=("returned", "required"))
            c.judge("angle self-check", "p[%d] not a number, %s" % (k, "massive" if massive else "massless"), w(ta[0]), r, "reports success")
        # and it succeeds on proper momenta
        X = Parts(prog)
        m = mass("m") if massive else num.ZERO
        o = X.fresh(m, momentum("p", m))
        v, th = X.S.attempt(ta[0], o)
        r = chk.compare(v, True, names=("returned", "required"))
        c.judge("angle self-check succeeds on a proper momentum", "massive" if massive else "massless", w(ta[0]), r, "reports failure")
    try:
        from checks import c20
        c20.nan_rule(c, prog)
    except ImportError:
        pass
    c.floor("comparison operators", 40)
    c.floor("determinant", 4)
    c.floor("angle self-check", 8)
