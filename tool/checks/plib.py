"""Particles seen through their public interface."""
import itertools

from spx import ir, num, dd, chk
from spx.num import P, sym
from spx.dd import Ptr, and_, not_, or_
from spx.sess import Session, kind
from spx.interp import ptype, sym_default
from spx.ir import AnalysisError

PA, M, V = "spinas::particle", "spinas::cmatrix", "spinas::cvector"
# not quantities: they change the particle or only print
NOT_QUANTITY = {"update", "usage", "set_mass", "set_momentum", "test_angles"}


def momentum(n, mass):
    """general on-shell momentum with symbolic spatial part"""
    p = [sym("%s%d" % (n, i)) for i in (1, 2, 3)]
    e = num.sqrt(mass * mass + p[0] * p[0] + p[1] * p[1] + p[2] * p[2])
    return [e] + p


def mass(n):
    return sym(n, positive=True)


def quantities(prog):
    """(label, function, arguments) for every public non-void method, arguments enumerated"""
    r = prog.records.get(PA)
    if r is None:
        raise AnalysisError("class particle not found")
    out = []
    for m in sorted(r["methods"], key=lambda m: m["key"]):
        f = prog.functions.get(m["key"])
        if f is None or f.get("ctor") or f.get("access", 0) != 0 or m["n"] in NOT_QUANTITY:
            continue
        rt = ptype(f["_types"][f["ret"]])
        if rt.k == "void" or m["n"].startswith("operator"):
            continue
        ks = [kind(ptype(f["_types"][p["t"]])) for p in f["params"]]
        doms = []
        for k in ks:
            if k == "i":
                doms.append([P(i) for i in range(4)] if m["n"] == "get_momentum" else [P(-1), P(1)])
            elif k == "b":
                doms.append([True, False])
            elif k == "particle":
                doms.append(["other"])
            else:
                doms = None
                break
        if doms is None:
            continue
        for a in itertools.product(*doms):
            lab = "%s(%s)" % (m["n"], ",".join({True: "upper", False: "lower"}.get(x, repr(x)) if x.__class__ is bool else str(x) for x in a))
            out.append((lab, f, list(a)))
    return out


class Parts:
    def __init__(self, prog):
        self.prog = prog
        self.S = Session(prog)
        self.setm = self.S.need(PA + "::set_mass", ["r"])
        self.setp = self.S.need(PA + "::set_momentum", ["pr"])
        self.mget = self.S.need(M + "::get", ["i", "i"])
        self.vget = self.S.need(V + "::get", ["i"])
        m = mass("mo")
        self.other = self.fresh(m, momentum("o", m), "other")

    def fresh(self, m, p, name="fresh"):
        return self.S.new(PA, ["pr", "r"], self.S.array(p, name="p"), m, name=name)

    def other_particle(self):
        return self.other

    def set(self, o, m, p):
        if m is not None:
            self.S.call(self.setm, o, m)
        if p is not None:
            self.S.call(self.setp, o, self.S.array(p, name="p"))

    def vals(self, args):
        return [self.other_particle() if a == "other" else a for a in args]

    def read(self, v):
        """entries of a returned object"""
        if v.__class__ is Ptr:
            t = self.S.I.type_at(v.obj, v.path)
            if t is not None and t.name == M:
                return [self.S.call(self.mget, v, P(i), P(j)) for i in range(2) for j in range(2)]
            if t is not None and t.name == V:
                return [self.S.call(self.vget, v, P(i)) for i in range(2)]
        return [v]

    def ask(self, o, f, args):
        """(entries, condition under which an error is raised), state continues on all paths"""
        v, th = self.S.attempt(f, o, *self.vals(args))
        return v, self.S.throw_cond(th)


def w(f):
    return "%s:%d" % (ir.rel(f["file"]), f["line"])
