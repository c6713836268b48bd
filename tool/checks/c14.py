"""C14: amplitudes after setting momenta depend on these momenta and the parameters only."""
from checks.proc import *


def leg_of(vals):
    """which external momentum a particle carries"""
    for i in (1, 2, 3, 4):
        if list(vals) == [sym("k%d_%d" % (i, mu)) for mu in range(4)]:
            return i
    return None


PAIRS = {}
for _i, _j in itertools.combinations((1, 2, 3, 4), 2):
    _s = 1 if (_i in (1, 2)) == (_j in (1, 2)) else -1
    for _o in (1, -1):
        PAIRS[tuple((sym("k%d_%d" % (_i, mu)) + sym("k%d_%d" % (_j, mu)) * P(_s)) * P(_o) for mu in range(4))] = (_i, _j)


def one(c, prog, cls):
    X = Process(prog, cls)
    if X.setp is None:
        c.undecided("fresh momenta", X.short, "no set_momenta")
        return
    o = X.build(X.params())
    X.momenta(o, "")
    D = X.domain(o)
    want = evaluate(X, o, D)
    names = set(X.params())
    where = w(X.setp)
    # what the amplitudes of a new object depend on
    legs, mass_of, bad = set(), {}, None
    for k, v in want.items():
        for l in dd.leaves(v):
            if l.__class__ is dd.Undef:
                bad = bad or "%s reads %r" % (label(X, k), l)
        for a in blocks(v).values():
            if a.kind == "Den":
                q = tuple(a.args[1:])
                if q not in PAIRS:
                    bad = bad or "%s uses a propagator denominator at momentum (%s)" % (label(X, k), ", ".join(map(repr, q)))
                continue
            for i in (a.args[3] if a.kind == "Sp" else (a.args[3],)):
                s = state(i)
                leg = leg_of(s[1:])
                if leg is None:
                    bad = bad or "%s uses a spinor of momentum (%s)" % (label(X, k), ", ".join(map(repr, s[1:])))
                else:
                    legs.add(leg)
                    if mass_of.setdefault(leg, s[0]) != s[0]:
                        bad = bad or "%s uses leg %d with mass %r and %r" % (label(X, k), leg, s[0], mass_of[leg])
    inst = X.short + ", first momenta"
    if bad:
        c.violation("momenta of the amplitude", inst, where, bad)
    else:
        c.ok("momenta of the amplitude", inst)
    for leg in legs:
        c.ok("legs", "%s, leg %d" % (X.short, leg))
    # a second set of momenta after everything was evaluated at the first
    Z = Process(prog, cls)
    o = Z.build(Z.params())
    Z.momenta(o, "old")
    evaluate(Z, o, D)
    Z.momenta(o, "")
    got = evaluate(Z, o, D)
    compare_all(c, "fresh momenta", Z, got, want, "second momenta", "left from earlier momenta", ("second momenta", "new object"))
    # order of evaluation before the second set must not matter either: evaluate only some
    Z = Process(prog, cls)
    o = Z.build(Z.params())
    Z.momenta(o, "old")
    part = {k: dict(list(v.items())[::3]) for k, v in D.items()}
    evaluate(Z, o, part)
    Z.momenta(o, "mid")
    Z.momenta(o, "")
    got = evaluate(Z, o, D, reverse=True)
    compare_all(c, "fresh momenta", Z, got, want, "third momenta", "left from earlier momenta", ("third momenta", "new object"))


def body(c):
    prog = ir.load(("source", "SM"))
    cl = classes(prog)
    c.count("process classes", len(cl))
    c.assume("particles and spinor products behave as established by C01, C02 and C09")
    chk.parallel(c, cl, lambda c, cls: one(c, prog, cls))
    c.floor("momenta of the amplitude", 135)
    c.floor("fresh momenta", 270)
    c.floor("legs", 400)
