"""C13: amplitudes after a mass update against those of a newly built process."""
from checks.proc import *


# updates of single parameters other than masses
UPDATES = {"set_v": ["vev"]}


def mapping(X, f, suffix):
    """new parameter values by constructor parameter name, and the arguments of the mass update"""
    names = X.pnames(X.ctor)
    args, new = [], {}
    for n in UPDATES.get(f["q"].rsplit("::", 1)[1]) or X.pnames(f):
        if n not in names:
            return None, None
        v = param(n, suffix)
        new[n] = v
        args.append(v)
    return new, args


def one(c, prog, cls):
    X = Process(prog, cls)
    for f in X.sm + [g for n in UPDATES for g in X.methods(n)]:
        rule = "mass update" if f in X.sm else "parameter update"
        new, args = mapping(X, f, "'")
        if new is None or len(args) != len(f["params"]):
            c.undecided(rule, X.short, "parameter names of the update and the constructor differ")
            continue
        c.count("processes with a " + rule)
        Y = Process(prog, cls)
        vals = Y.params()
        vals.update(new)
        o = Y.build(vals)
        Y.momenta(o, "")
        D = Y.domain(o)
        want = evaluate(Y, o, D)
        # updated before any use
        Z = Process(prog, cls)
        o = Z.build(Z.params())
        Z.S.call(f, o, *args)
        Z.momenta(o, "")
        got = evaluate(Z, o, D)
        compare_all(c, rule, Z, got, want, rule + " before use", "stale value", ("after the update", "newly built"))
        # used, updated, used, updated again
        Z = Process(prog, cls)
        o = Z.build(Z.params())
        Z.momenta(o, "old")
        evaluate(Z, o, D)
        mid, margs = mapping(X, f, "''")
        Z.S.call(f, o, *margs)
        Z.momenta(o, "older")
        evaluate(Z, o, D)
        Z.S.call(f, o, *args)
        Z.momenta(o, "")
        got = evaluate(Z, o, D)
        compare_all(c, rule, Z, got, want, rule + " after use", "stale value", ("after the update", "newly built"))


def body(c):
    prog = ir.load(("source", "SM"))
    cl = classes(prog)
    c.count("process classes", len(cl))
    c.assume("particles and spinor products behave as established by C01, C02 and C09")
    chk.parallel(c, cl, lambda c, cls: one(c, prog, cls))
    c.floor("mass update", 2 * 130)
    c.floor("parameter update", 4)
