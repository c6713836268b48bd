"""C15: amplitudes evaluated again, in another order and after squared amplitudes."""
from checks.proc import *


def one(c, prog, cls):
    X = Process(prog, cls)
    o = X.build(X.params())
    X.momenta(o, "")
    D = X.domain(o)
    first = evaluate(X, o, D)
    again = evaluate(X, o, D, reverse=True)
    compare_all(c, "repeated evaluation", X, again, first, "second time, other order", "the value changed", ("second", "first"))
    # squared amplitudes in between: amplitudes opaque, their own effect is covered above
    calls = {}
    keys = [f["key"] for f in X.amps()]
    for key in keys:
        X.I.overrides[key] = lambda I, obj, args, fn: X._rec(calls, I, args, fn)
    v1 = {f["key"]: X.S.call(f, o) for f in X.amp2s()}
    v2 = {f["key"]: X.S.call(f, o) for f in reversed(X.amp2s())}
    for key in keys:
        del X.I.overrides[key]
    for f in X.amp2s():
        r = chk.compare(v2[f["key"]], v1[f["key"]], names=("second", "first"))
        c.judge("repeated squared amplitude", "%s::%s" % (X.short, f["q"].rsplit("::", 1)[1]), w(f), r, "the value changed")
    after = evaluate(X, o, D)
    compare_all(c, "repeated evaluation", X, after, first, "after squared amplitudes", "the value changed", ("after", "before"))
    # and from a fresh object in reverse order
    Y = Process(prog, cls)
    o = Y.build(Y.params())
    Y.momenta(o, "")
    rev = evaluate(Y, o, D, reverse=True)
    compare_all(c, "repeated evaluation", Y, rev, first, "reverse order first", "the value depends on the order", ("reverse order", "given order"))


def body(c):
    prog = ir.load(("source", "SM"))
    cl = classes(prog)
    c.count("process classes", len(cl))
    c.assume("particles and spinor products behave as established by C01, C02 and C09")
    chk.parallel(c, cl, lambda c, cls: one(c, prog, cls))
    c.floor("repeated evaluation", 400)
    c.floor("repeated squared amplitude", 141)
