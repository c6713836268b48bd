"""Convenience layer: drives the abstract interpreter through a class's public interface."""
from . import num, dd
from .num import Poly, P
from .dd import Ptr, ite, and_, or_, not_
from .interp import Interp, State, ptype, T, SCALAR, sym_default, Limit
from .ir import AnalysisError


def kind(t):
    """coarse kind of a parameter type: r real, c complex, i int, b bool, pX pointer to X, class name"""
    if t.k == "ref":
        t = t.elem
    if t.k == "ptr":
        return "p" + kind(t.elem)
    if t.k == "arr":
        return "p" + kind(t.elem)
    return {"flt": "r", "cplx": "c", "int": "i", "bool": "b", "str": "s", "stream": "o", "fnobj": "f", "vec": "v"}.get(
        t.k, t.name.rsplit("::", 1)[-1] if t.name else t.k)


class Session:
    def __init__(self, prog, models=None):
        self.I = Interp(prog, models)
        self.prog = prog

    # ---- lookup
    def find(self, qname, kinds=None, const=None):
        c = []
        for k in self.prog.byname.get(qname, ()):
            f = self.prog.functions[k]
            ks = [kind(ptype(f["_types"][p["t"]])) for p in f["params"]]
            if kinds is None or ks == list(kinds):
                if const is None or bool(f.get("const")) == const:
                    c.append(f)
        return c

    def need(self, qname, kinds=None):
        c = self.find(qname, kinds)
        if not c:
            # inherited or renamed parameter kinds
            raise AnalysisError("anchor %s(%s) not found" % (qname, ",".join(kinds) if kinds is not None else "..."))
        return c[0]

    # ---- values
    def box(self, v, t):
        o = self.I.alloc(t, "arg")
        self.I.write1(o, (), v)
        return Ptr(o)

    def array(self, vals, t="long double", name="arr"):
        o = self.I.alloc("%s[%d]" % (t, len(vals)), name)
        for i, v in enumerate(vals):
            self.I.write1(o, (i,), v)
        return Ptr(o, (0,))

    def obj(self, cls, name):
        return Ptr(self.I.alloc(ptype(cls), name))

    def args(self, fn, vals):
        out = []
        types = fn["_types"]
        for p, v in zip(fn["params"], vals):
            t = ptype(types[p["t"]])
            if t.k == "ref" and not any(x.__class__ is Ptr for x in dd.leaves(v)):
                out.append(self.box(v, t.elem))
            elif t.k not in SCALAR and t.k != "ref" and v.__class__ is Ptr:
                # class by value: copy
                o = Ptr(self.I.alloc(t, "argcopy"))
                self.I.copy_obj(o, v, t)
                out.append(o)
            else:
                out.append(v)
        return out

    def call(self, fn, this, *vals):
        """call; afterwards the state continues only where the call returned normally"""
        if isinstance(fn, str):
            fn = self.need(fn)
        if this is not None and fn.get("virt"):
            fn = self.prog.functions.get(self.I.resolve_virtual({"key": fn["key"], "q": fn["q"]}, this), fn)
        v = self.I.call_fn(fn, this, self.args(fn, vals))
        rt = ptype(fn["_types"][fn["ret"]]) if not fn.get("ctor") else ptype("void")
        if rt.k == "ref" and rt.elem.k in SCALAR and self.I.st.pc is not False:
            v = self.I.load(v)
        return v

    def new(self, cls, kinds, *vals, name=None):
        f = self.need(cls + "::" + cls.rsplit("::", 1)[-1], kinds)
        o = self.obj(cls, name or cls)
        self.call(f, o, *vals)
        return o

    def attempt(self, fn, this, *vals):
        """call with exceptions caught: returns (value, throws); the state continues on all paths"""
        I = self.I
        n = len(I.throws)
        base = I.st.pc
        v = self.call(fn, this, *vals)
        th = I.throws[n:]
        del I.throws[n:]
        for t in th:
            x = State(dict(t.mem), t.pc)
            I.st = I.merge(I.st, x) if I.st.pc is not False else x
        return v, th

    def throw_cond(self, th):
        c = False
        for t in th:
            c = or_(c, t.pc)
        return c

    def maybe(self, b, fn, this, *vals):
        """if (b) call, exceptions caught; used to build arbitrary prior histories"""
        I = self.I
        self_ = self
        st0 = I.st
        s1 = st0.fork(and_(st0.pc, b))
        s2 = st0.fork(and_(st0.pc, not_(b)))
        I.st = s1
        self.attempt(fn, this, *vals)
        I.st = I.merge(I.st, s2)

    def save(self):
        s = self.I.st.fork()
        return (s, len(self.I.throws), len(self.I.events))

    def restore(self, snap):
        s, nt, ne = snap
        self.I.st = s.fork()
        self.I.steps = 0
        del self.I.throws[nt:]
        del self.I.events[ne:]
