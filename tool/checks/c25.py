"""C25: squared amplitudes that take the momenta themselves against setting the momenta first."""
from checks.proc import *


def one(c, prog, cls):
    X = Process(prog, cls)
    for m in X.members():
        f = prog.functions.get(m["key"])
        if f is None or X.fkinds(f) != ["pr"] * 4 or ptype(f["_types"][f["ret"]]).k != "flt":
            continue
        plain = [g for g in X.methods(m["n"]) if not g["params"]]
        if not plain or X.setp is None:
            continue
        for hist in ("new object", "after other momenta", "after other masses and momenta"):
            vals = []
            for first in (True, False):
                W = Process(prog, cls)
                o = W.build(W.params())
                if hist != "new object":
                    W.momenta(o, "old")
                    W.S.call(plain[0], o)
                    W.S.call(f, o, *[W.S.array([sym("k%dold_%d" % (i, mu)) for mu in range(4)], name="mom") for i in (1, 2, 3, 4)])
                if hist.startswith("after other masses"):
                    for g in W.sm:
                        W.S.call(g, o, *[param(n, "'") for n in W.pnames(g)])
                if first:
                    W.momenta(o, "")
                    vals.append(W.S.call(plain[0], o))
                else:
                    vals.append(W.S.call(f, o, *[W.S.array([sym("k%d_%d" % (i, mu)) for mu in range(4)], name="mom") for i in (1, 2, 3, 4)]))
            c.judge("one-call form", "%s::%s, %s" % (X.short, m["n"], hist), w(f),
                    agree(vals[1], vals[0], leg_masses(vals), ("at given momenta", "after set_momenta")), "differs")


def body(c):
    prog = ir.load(("source", "SM"))
    cl = classes(prog)
    c.count("process classes", len(cl))
    c.assume("particles and spinor products behave as established by C01, C02, C03 and C09")
    chk.parallel(c, cl, lambda c, cls: one(c, prog, cls))
    c.floor("one-call form", 9)
