"""C11: propagator denominators as terms of the latest mass and width."""
from checks.plib import *
from checks.c06 import assign, copy_construct

PR = "spinas::propagator"


def body(c):
    prog = ir.load(("source",))
    c.assume("exact arithmetic")
    S = Session(prog)
    den = S.need(PR + "::denominator", ["pr"])
    sm, sw = S.need(PR + "::set_mass", ["r"]), S.need(PR + "::set_width", ["r"])
    k = [sym("k%d" % i) for i in range(4)]
    z = num.ZERO

    def want(m, wd, q):
        return q[0] * q[0] - q[1] * q[1] - q[2] * q[2] - q[3] * q[3] - m * m - num.IMAG * m * wd

    m0, w0, m1, w1 = sym("m0"), sym("w0"), sym("m1"), sym("w1")

    def history(name, steps, m, wd):
        """steps after construction; the value of the denominator afterwards"""
        for q, qn in ((k, "any momentum"), ([k[0], z, z, z], "at rest"), ([k[0], z, z, k[0]], "light-like")):
            for ev in (False, True):
                S = Session(prog)
                o = steps(S, ev)
                arr = S.array(q)
                v, th = S.attempt(den, o, arr)
                th = S.throw_cond(th)
                inst = "%s%s, %s" % (name, ", with evaluations in between" if ev else "", qn)
                if th is not False:
                    c.violation("denominator", inst, w(den), "may raise an error")
                    continue
                c.judge("denominator", inst, w(den), chk.compare(v, want(m, wd, q), names=("returned", "exact")), "wrong denominator")
                v2, _ = S.attempt(den, o, arr)
                c.judge("evaluation changes nothing", inst, w(den), chk.compare(v2, v, names=("second", "first")), "second evaluation differs")
                for i in range(4):
                    c.judge("evaluation changes nothing", inst + ", momentum[%d]" % i, w(den), chk.compare(S.I.read1(arr.obj, (i,)), q[i]), "momentum changed")

    def ev_(S, o, ev, n):
        if ev:
            S.maybe(dd.boolsym("e%d" % n), den, o, S.array([sym("h%d_%d" % (n, i)) for i in range(4)]))

    def seq(ctor, *ops):
        def go(S, ev):
            o = S.new(PR, ["r", "r"], *ctor) if ctor else S.new(PR, [])
            ev_(S, o, ev, 0)
            for i, (f, x) in enumerate(ops):
                S.call(f, o, x)
                ev_(S, o, ev, i + 1)
            return o
        return go
    history("default", seq(None), z, z)
    history("default, mass set", seq(None, (sm, m1)), m1, z)
    history("default, width set", seq(None, (sw, w1)), z, w1)
    history("default, mass and width set", seq(None, (sm, m1), (sw, w1)), m1, w1)
    history("default, width and mass set", seq(None, (sw, w1), (sm, m1)), m1, w1)
    history("mass and width given", seq((m0, w0)), m0, w0)
    history("mass given, no width", seq((m0, z)), m0, z)
    history("mass changed", seq((m0, w0), (sm, m1)), m1, w0)
    history("width changed", seq((m0, w0), (sw, w1)), m0, w1)
    history("both changed", seq((m0, w0), (sm, m1), (sw, w1)), m1, w1)
    history("both changed, width first", seq((m0, w0), (sw, w1), (sm, m1)), m1, w1)
    history("mass changed twice", seq((m0, w0), (sm, m1), (sm, sym("m2"))), sym("m2"), w0)
    history("mass set to zero", seq((m0, w0), (sm, z)), z, w0)
    history("width set to zero", seq((m0, w0), (sw, z)), m0, z)
    history("mass to zero and back", seq((m0, w0), (sm, z), (sm, m0)), m0, w0)

    def assigned(own):
        def go(S, ev):
            o = S.new(PR, ["r", "r"], m0, w0)
            ev_(S, o, ev, 0)
            src = o if own else S.new(PR, ["r", "r"], m1, w1)
            ev_(S, src, ev, 1)
            assign(S, PR, o, src)
            return o
        return go
    history("assigned from another", assigned(False), m1, w1)
    history("assigned from itself", assigned(True), m0, w0)
    # copies
    S = Session(prog)
    o = S.new(PR, ["r", "r"], m0, w0)
    cp = S.obj(PR, "cp")
    copy_construct(S, PR, cp, o)
    S.call(sm, o, m1)
    S.call(sw, o, w1)
    v = S.call(den, cp, S.array(k))
    c.judge("copies keep their own values", "copy, then original changed", w(den), chk.compare(v, want(m0, w0, k)), "copy follows the original")
    c.floor("denominator", 60)
