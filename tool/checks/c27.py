"""C27: amplitudes with external bosons against the diagrams of the Standard Model, as rational functions over a prime field."""
from checks.modp import *

POINTS = 2


def labels(A, d):
    out = [None] * 4
    for x, i in zip(d, A.with_label):
        out[i] = (2 if x > 0 else -2) if A.legs[i].kind in ("A", "g") else x
    return out


def expected(A, S, lab):
    """the values an amplitude may have; several colour structures have to agree with each other first"""
    b = S.prediction(lab)
    if not b:
        return ZERO
    if len(b) == 1:
        return next(iter(b.values()))
    return coloured(A, S, b)


def coloured(A, S, b):
    """common numerator of amplitudes ordered by colour, or None"""
    sq = S.kin.square
    if all(k[0] == "gg" for k in b):
        i, j = [n for n, x in enumerate(A.names) if x == "g"]
        f = [n for n, x in enumerate(A.names) if x != "g" and not x.endswith("~")][0]
        m2 = S.kin.legs[f].m * S.kin.legs[f].m
        s = sq(i, j)
        x, y = b.get(("gg", "ab"), ZERO) * s * (sq(j, f) - m2), b.get(("gg", "ba"), ZERO) * s * (sq(i, f) - m2)
        return x if x == -y or x == y else None
    if all(k[0] == "f" for k in b):
        f = [b.get(("f", n), ZERO) for n in (1, 2, 3)]
        s, t, u = sq(0, 1), sq(0, 2), sq(0, 3)
        x, y, z = (f[0] + f[1]) * s * t, (f[1] + f[2]) * t * u, (f[0] - f[2]) * s * u
        return x if x * x == y * y == z * z else None
    return None


def compare(A, fn, widths):
    """None if all helicities agree up to a phase that depends only on the labels of photons and gluons, else a reason"""
    left = {}
    for seed in range(POINTS):
        S = Setting(A, seed, widths)
        for d, v in sorted(A.values[fn].items()):
            lab = labels(A, d)
            want = expected(A, S, lab)
            if want is None:
                return "colour structures of the prediction not comparable"
            got = [S.value.poly(l) for l in dd.leaves(v)]
            g = tuple(lab[i] for i, l in enumerate(A.legs) if l.kind in ("A", "g"))
            cs = [c for c in left.get(g, range(4)) if all(x == want * UNITS[c] for x in got)]
            if not cs:
                return "%s%s differs from the prediction" % (fn, d)
            left[g] = cs
    return None


def one(c, prog, cls):
    A = Amps(prog, cls)
    if A.zero():
        c.undecided("prediction", A.short, "vanishes (C24)")
        return
    with_width = A.short not in SCHEME
    for fn in sorted(A.values):
        inst = "%s::%s" % (A.short, fn)
        rule = "prediction" if with_width else "prediction without widths"
        c.count("amplitudes", len(A.values[fn]))
        try:
            why = compare(A, fn, with_width)
        except (NoForm, ZeroDivisionError, ValueError) as err:
            why = str(err)
        if why is None:
            r = A.others()
            if r[0] == "equal" or r[0] == "differ" and r[2] != fn:
                c.ok(rule, inst, points=True)
            elif r[0] == "differ":
                c.violation(rule, inst, A.where[fn], r[1])
            else:
                c.undecided(rule, inst, r[1])
            continue
        d = deviation(prog, cls)
        if d:
            c.violation(rule, inst, d[0], "%s; %s" % (why, d[1]))
        elif "differs" in why and decisive(A):
            c.violation(rule, inst, A.where[fn], why + " by a factor that is not a constant phase")
        else:
            c.undecided(rule, inst, why)


def body(c):
    prog = ir.load(("source", "SM"))
    cl = [x for x in classes(prog) if not all(l.fermion for l in smodel.legs(x.rsplit("::", 1)[1]) or [])]
    c.count("process classes", len(cl))
    c.assume("particles and spinor products behave as established by C01, C02, C03 and C09")
    c.assume("identities of rational functions are tested at %d random points of a field with %d elements: two different functions "
             "of degree below 1000 pass with a probability below 1e-15" % (POINTS, PRIME))
    chk.parallel(c, cl, lambda c, cls: one(c, prog, cls))
    c.floor("prediction", 74)
    c.floor("prediction without widths", 16)
