"""C02: after update() every component equals that of a newly built product, whatever happened before."""
from checks.slib import *
from checks.c06 import assign, copy_construct


def warm(X, o, tag):
    for lab, k, args in ALL_COMPONENTS:
        X.S.maybe(dd.boolsym("%s:%s" % (tag, lab)), X.v[k], o, *args)


def judge(c, X, rule, inst, o, fr, lm, rm):
    for lab, k, args, jl, jr in components(lm, rm):
        snap = X.S.save()
        v, th = X.S.attempt(X.v[k], o, *args)
        th = X.S.throw_cond(th)
        X.S.restore(snap)
        u, tu = X.S.attempt(X.v[k], fr, *args)
        tu = X.S.throw_cond(tu)
        X.S.restore(snap)
        if tu is True:
            continue
        under = not_(tu)
        if th is True:
            c.violation(rule, "%s %s" % (inst, lab), w(X.v[k]), "raises an error that a newly built product does not raise")
            continue
        r = chk.compare(v, u, under=and_(under, not_(th)), names=("after the history", "newly built"))
        if r[0] != "differ" and th is not False:
            s = chk.sat(and_(th, under))
            if s[0] == "yes":
                r = ("differ", "raises an error when %s" % s[1])
            elif s[0] == "unknown":
                r = s
        c.judge(rule, "%s %s" % (inst, lab), w(X.v[k]), r, "stale or wrong component")


def change(X, parts, new, which):
    for k in which:
        X.set(parts[k], new[k][0], new[k][1:])


def copies(c, prog):
    """a product copied or assigned (processes assign every product once) answers like the source and is updated like it"""
    for N, angle, a, b in itertools.product((0, 1, 3), (True, False), itertools.product((False, True), repeat=2), ((True, True), (False, True))):
        X = Products(prog)
        # index positions that differ from the defaults of the destination, where the source has one
        pos = (False if a[0] else None, False if a[1] and N != 1 else None)

        def particles(tag, ms, n):
            out = []
            for k in range(n + 2):
                m = mass("m%s%d" % (tag, k)) if (ms[k] if k < 2 else k % 2 == 0) else num.ZERO
                out.append(X.fresh(m, momentum("%s%d_" % (tag, k), m), "%s%d" % (tag, k)))
            return out
        pa, pb = particles("a", a, N), particles("b", b, {0: 1, 1: 0, 3: 2}[N])
        ra, tha = X.build(angle, pa[0], pa[1], pa[2:], *pos, "src")
        rb, thb = X.build(not angle, pb[0], pb[1], pb[2:], None, None, "dst")
        if ra is None or rb is None or tha is not False or thb is not False:
            continue
        src, dst = ra[0], rb[0]
        warm(X, src, "src")
        warm(X, dst, "dst")
        cp = X.S.obj(SP, "cp")
        copy_construct(X.S, SP, cp, src)
        assign(X.S, SP, src, src)
        assign(X.S, SP, dst, src)
        fr, th = X.build(angle, pa[0], pa[1], pa[2:], *pos, "fresh")
        inst = "N=%d %s %s%s to %s%s" % (N, "angle" if angle else "square", "mM"[a[0]], "mM"[a[1]], "mM"[b[0]], "mM"[b[1]])
        for o, tag in ((dst, "assigned"), (cp, "copied"), (src, "assigned to itself")):
            judge(c, X, "copies", "%s, %s" % (inst, tag), o, fr[0], *a)
        for k in range(N + 2):
            m = mass("mc%d" % k) if (a[k] if k < 2 else k % 2 == 0) else num.ZERO
            X.set(pa[k], m, momentum("c%d_" % k, m))
        fr, th = X.build(angle, pa[0], pa[1], pa[2:], *pos, "fresh2")
        for o, tag in ((dst, "assigned"), (cp, "copied")):
            X.S.call(X.upd, o)
            judge(c, X, "copies", "%s, %s, updated" % (inst, tag), o, fr[0], *a)


def body(c):
    prog = ir.load(("source",))
    c.assume("histories: construction, any subset of evaluations (also invalid ones), new masses and momenta for all or a single particle, "
             "any subset of evaluations, update, any subset of evaluations, and a second round back to the first momenta")
    c.assume("spinors and momentum matrices of the particles are arbitrary functions of mass and momentum")
    cases = 0
    for N in (0, 1, 2, 3, 6):
        for angle in (True, False):
            for a in itertools.product((False, True), repeat=2):
                for b in itertools.product((False, True), repeat=2):
                    if N > 1 and a != b and N != 6:
                        continue
                    ups = [(None, None)]
                    if a == b and N <= 1:
                        ups += [u for u in ((False, None), (None, False), (False, False)) if (u[0] is None or a[0]) and (u[1] is None or a[1])]
                    for lu, ru in ups:
                        X = Products(prog)
                        old, new, parts = [], [], []
                        for k in range(N + 2):
                            m0 = [a[0], a[1]][k] if k < 2 else k % 2 == 0
                            m1 = [b[0], b[1]][k] if k < 2 else k % 2 == 1
                            mo = mass("mq%d" % k) if m0 else num.ZERO
                            mn = mass("mp%d" % k) if m1 else num.ZERO
                            old.append([mo] + momentum("q%d_" % k, mo))
                            new.append([mn] + momentum("p%d_" % k, mn))
                            parts.append(X.fresh(old[k][0], old[k][1:], "part%d" % k))
                        r, th = X.build(angle, parts[0], parts[1], parts[2:], lu, ru, "o")
                        if r is None or th is not False:
                            continue
                        o = r[0]
                        cases += 1
                        base0 = "N=%d %s %s%s->%s%s" % (N, "angle" if angle else "square", "mM"[a[0]], "mM"[a[1]], "mM"[b[0]], "mM"[b[1]]) + \
                            ("" if lu is None else " left lower") + ("" if ru is None else " right lower")
                        snap0 = X.S.save()
                        sets = [("all", list(range(N + 2)))]
                        if a == b:
                            sets += [("only %s" % ("left" if k == 0 else "right" if k == 1 else "inner %d" % (k - 2)), [k]) for k in range(N + 2)]
                        for tag, which in sets:
                            X.S.restore(snap0)
                            warm(X, o, "before")
                            change(X, parts, new, which)
                            warm(X, o, "between")
                            X.S.call(X.upd, o)
                            fr, th = X.build(angle, parts[0], parts[1], parts[2:], lu, ru, "fresh")
                            if th is not False:
                                continue
                            inst = "%s, %s changed" % (base0, tag)
                            judge(c, X, "fresh after update", inst, o, fr[0], *b)
                            warm(X, o, "after")
                            judge(c, X, "unaffected by other evaluations", inst, o, fr[0], *b)
                            # and back
                            change(X, parts, old, which)
                            X.S.call(X.upd, o)
                            fr, th = X.build(angle, parts[0], parts[1], parts[2:], lu, ru, "fresh2")
                            if th is False:
                                judge(c, X, "fresh after second update", inst, o, fr[0], *a)
    copies(c, prog)
    c.count("products and mass patterns", cases)
    c.floor("fresh after update", 200)
    c.floor("unaffected by other evaluations", 200)
    c.floor("copies", 100)
