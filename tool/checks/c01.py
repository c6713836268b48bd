"""C01: quantities of a particle are functions of the current mass and momentum only."""
from spx import ir, num, dd, chk
from spx.num import P, sym
from spx.dd import Ptr, and_, not_, or_
from spx.interp import ptype, sym_default
from checks.plib import *


from checks.c06 import assign, copy_construct


def answers(X, o, qs):
    out = {}
    for lab, f, args in qs:
        snap = X.S.save()
        v, th = X.ask(o, f, args)
        # entries are read where the call returned
        ent = X.read(v) if th is not True else []
        out[lab] = (ent, th)
        X.S.restore(snap)
    return out


def warm(X, o, qs, tag, rev=False):
    for lab, f, args in (reversed(qs) if rev else qs):
        X.S.maybe(dd.boolsym("%s:%s" % (tag, lab)), f, o, *X.vals(args))


def compare_all(c, X, rule, tag, got, want, qs):
    for lab, f, args in qs:
        ge, gt = got[lab]
        we, wt = want[lab]
        under = and_(not_(wt), not_(gt))
        if under is False:
            continue
        res = ("equal",)
        for i, (a, b) in enumerate(zip(ge, we)):
            r = chk.compare(a, b, under=under, names=("after the history", "newly created"))
            if r[0] == "differ":
                res = ("differ", "entry %d: %s" % (i, r[1]))
                break
            if r[0] == "unknown":
                res = r
        c.judge(rule, "%s [%s]" % (lab, tag), w(f), res, "stale or wrong answer")


def angles(c, X, o, tag):
    """the particle's own check of its angles and energy succeeds"""
    f = X.S.find(PA + "::test_angles", [])
    if not f:
        return
    snap = X.S.save()
    v, th = X.S.attempt(f[0], o)
    X.S.restore(snap)
    c.judge("angle check", tag, w(f[0]), chk.compare(v, True, under=not_(X.S.throw_cond(th)), names=("returned", "expected")), "wrong answer")


def body(c):
    prog = ir.load(("source",))
    qs = quantities(prog)
    c.count("quantities (methods x arguments)", len(qs))
    c.assume("exact arithmetic; momenta on shell")
    c.assume("histories: construction, any subset of requests (both orders), new mass and momentum, any subset of requests, twice over")
    names = {"0": num.ZERO}
    cases = [("massless", "massless"), ("massless", "massive"), ("massive", "massless"), ("massive", "massive")]
    for a, b in cases:
        for rev in (False, True):
            X = Parts(prog)
            m0 = num.ZERO if a == "massless" else mass("m0")
            m1 = num.ZERO if b == "massless" else mass("m1")
            q0, q1 = momentum("q", m0), momentum("p", m1)
            fr = X.fresh(m1, q1)
            want = answers(X, fr, qs)
            o = X.fresh(m0, q0, "o")
            warm(X, o, qs, "before", rev)
            X.set(o, m1, q1)
            got = answers(X, o, qs)
            tag = "%s, then %s%s" % (a, b, ", requests reversed" if rev else "")
            compare_all(c, X, "fresh after update", tag, got, want, qs)
            warm(X, o, qs, "after", rev)
            got = answers(X, o, qs)
            compare_all(c, X, "unaffected by other requests", tag, got, want, qs)
            angles(c, X, o, tag)
            # back again with only a new momentum
            q2 = momentum("r", m1)
            X.set(o, None, q2)
            fr2 = X.fresh(m1, q2)
            compare_all(c, X, "fresh after momentum change", tag, answers(X, o, qs), answers(X, fr2, qs), qs)
            angles(c, X, o, tag + ", momentum changed")
            # events of uninitialised reads along these histories belong to C17
    # built from the mass alone, momentum given later
    for a in ("massless", "massive"):
        X = Parts(prog)
        m1 = num.ZERO if a == "massless" else mass("m1")
        q1 = momentum("p", m1)
        want = answers(X, X.fresh(m1, q1), qs)
        if X.S.find(PA + "::particle", ["r"]):
            o = X.S.new(PA, ["r"], m1, name="o")
            X.set(o, None, q1)
            compare_all(c, X, "fresh after construction", "particle(mass), " + a, answers(X, o, qs), want, qs)
        if X.S.find(PA + "::particle", []):
            o = X.S.new(PA, [], name="o")
            X.set(o, m1, q1)
            compare_all(c, X, "fresh after construction", "particle(), " + a, answers(X, o, qs), want, qs)
        # changing the momentum argument afterwards does not matter: the particle keeps its own copy
        arr = X.S.array(q1)
        o = X.S.new(PA, ["pr", "r"], arr, m1, name="o")
        for i in range(4):
            X.S.I.write1(arr.obj, (i,), sym("z%d" % i))
        compare_all(c, X, "own copy of the momentum", a, answers(X, o, qs), want, qs)
        # a copied particle answers alike, independently of the original
        src = X.fresh(m1, q1, "src")
        warm(X, src, qs, "src")
        cp = X.S.obj(PA, "cp")
        copy_construct(X.S, PA, cp, src)
        m2 = mass("m2")
        X.set(src, m2, momentum("s", m2))
        compare_all(c, X, "copies are independent", a, answers(X, cp, qs), want, qs)
        # assigned to a particle that was in use
        for b in ("massless", "massive"):
            X = Parts(prog)
            m1 = num.ZERO if a == "massless" else mass("m1")
            q1 = momentum("p", m1)
            want = answers(X, X.fresh(m1, q1), qs)
            m0 = num.ZERO if b == "massless" else mass("m0")
            dst, src = X.fresh(m0, momentum("q", m0), "dst"), X.fresh(m1, q1, "src")
            warm(X, dst, qs, "dst")
            warm(X, src, qs, "src")
            assign(X.S, PA, dst, src)
            tag = "%s assigned to %s" % (a, b)
            compare_all(c, X, "assignment", tag, answers(X, dst, qs), want, qs)
            angles(c, X, dst, tag)
            q2 = momentum("r", m1)
            X.set(dst, None, q2)
            compare_all(c, X, "assignment", tag + ", new momentum", answers(X, dst, qs), answers(X, X.fresh(m1, q2), qs), qs)
            assign(X.S, PA, src, src)
            compare_all(c, X, "assignment", tag + ", source assigned to itself", answers(X, src, qs), want, qs)
    # inductive step: any contents whatsoever before the update
    inductive(c, prog, qs)
    c.floor("fresh after update", 100)
    c.floor("unaffected by other requests", 100)
    c.floor("assignment", 300)


def inductive(c, prog, qs):
    done = 0
    for b in ("massless", "massive"):
        X = Parts(prog)
        m1 = num.ZERO if b == "massless" else mass("m1")
        q1 = momentum("p", m1)
        want = answers(X, X.fresh(m1, q1), qs)
        o = X.S.obj(PA, "old")
        X.S.I.objs[o.obj].default = sym_default("old", X.S.I, ptype(PA))
        X.set(o, m1, q1)
        got = answers(X, o, qs)
        for lab, f, args in qs:
            ge, gt = got[lab]
            we, wt = want[lab]
            under = and_(not_(wt), not_(gt))
            if under is False:
                continue
            rs = [chk.compare(x, y, under=under) for x, y in zip(ge, we)]
            if all(r[0] == "equal" for r in rs):
                done += 1
    c.counts["quantities proved fresh from arbitrary earlier contents"] = done
