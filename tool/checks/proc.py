"""Standard Model processes with particles and spinor products as opaque building blocks.

A particle keeps its current mass and momentum, a spinor product remembers which particles it is made of and,
per component, the value computed since its last update.  That is exactly the behaviour C01, C02 and C09
establish for the classes themselves.
"""
import itertools
import re

from checks.plib import *
from checks import smodel
from spx.interp import T, SCALAR
from spx.dd import ite
from spx import evalf

SP, PG, PR = "spinas::sproduct", "spinas::propagator", "spinas::process"

_STATE = {}
_STATES = []


def state_id(vals):
    """interned (mass, p0..p3)"""
    k = tuple(vals)
    i = _STATE.get(k)
    if i is None:
        i = len(_STATES)
        _STATE[k] = i
        _STATES.append(k)
    return i


def state(i):
    return _STATES[i]


class ParticleModel:
    def __init__(self, P_):
        self.P = P_

    def construct(self, I, loc, fn, args):
        self.set(I, loc, [num.ZERO] * 5)
        kinds = self.P.kinds(fn)
        for k, a in zip(kinds, args):
            if k == "r":
                self.store(I, loc, 0, self.P.value(I, a))
                if len(kinds) == 1:
                    self.store(I, loc, 1, self.P.value(I, a))
            elif k == "pr":
                for i in range(4):
                    self.store(I, loc, 1 + i, I.load(self.P.elem(a, i)))
            elif k == "particle":
                I.copy_obj(loc, a, T("cls", name=PA))
            else:
                return I.top("particle constructor")

    def set(self, I, loc, vals):
        for k, v in enumerate(vals):
            self.store(I, loc, k, v)

    def store(self, I, loc, k, v):
        I.store(I.sub(loc, "#%d" % k), v)

    def get(self, I, loc):
        return [I.load(I.sub(loc, "#%d" % k)) for k in range(5)]

    def call(self, I, obj, fn, args):
        n = fn["q"].rsplit("::", 1)[1]
        if n == "set_mass":
            self.store(I, obj, 0, self.P.value(I, args[0]))
            return dd.VOID
        if n == "set_momentum":
            for i in range(4):
                self.store(I, obj, 1 + i, I.load(self.P.elem(args[0], i)))
            return dd.VOID
        if n == "mass" or n == "get_mass":
            return self.get(I, obj)[0]
        if n == "get_momentum":
            i = self.P.value(I, args[0])
            if i.__class__ is num.Poly and i.is_const():
                return self.get(I, obj)[1 + int(i.const())]
        if n == "dot":
            a, b = self.get(I, obj), self.get(I, args[0])
            r = I.arith("*", a[1], b[1])
            for k in (2, 3, 4):
                r = I.arith("-", r, I.arith("*", a[k], b[k]))
            return r
        if n.startswith("operator="):
            I.copy_obj(obj, args[0], T("cls", name=PA))
            return obj
        if n == "update":
            return dd.VOID
        if n in ("langle", "rangle", "lsquare", "rsquare", "lmat", "umat"):
            vals = [self.P.value(I, a) for a in args]
            if not all(v.__class__ is bool or v.__class__ is num.Poly and v.is_const() for v in vals):
                return I.top("spinor label")
            lab = tuple(v if v.__class__ is bool else int(v.const()) for v in vals)
            m = n.endswith("mat")
            cls, size = (M, 4) if m else (V, 2)
            st = self.get(I, obj)
            ent = [dd.applyn(lambda *x, k=k: self.entry(n, k, lab, x), st) for k in range(size)]
            o = Ptr(I.alloc(ptype(cls), "spinor"))
            f = [I.prog.functions[x] for x in I.prog.byname[cls + "::" + cls.rsplit("::", 1)[1]]]
            f = [x for x in f if [kind(ptype(x["_types"][p["t"]])) for p in x["params"]] == ["c"] * size][0]
            I.call_fn(f, o, self.P.S.args(f, ent))
            return o
        return I.top("particle." + n)

    def entry(self, n, k, lab, st):
        bad = [x for x in st if x.__class__ is not num.Poly]
        if bad:
            return bad[0]
        return num.P(num.atom("Spin", (n, k, lab, state_id(st)), real=False))


class ProductModel:
    def __init__(self, P_):
        self.P = P_

    def construct(self, I, loc, fn, args):
        if loc.__class__ is not Ptr:
            return I.top("gated product")
        kinds = self.P.kinds(fn)
        self.clear(I, loc)
        if not kinds:
            I.store(I.sub(loc, "#desc"), dd.Undef("spinor product without particles"))
            return
        if kinds == ["sproduct"]:
            I.copy_obj(loc, args[0], T("cls", name=SP))
            return
        parts, flags, angle = [], [], None
        for k, a in zip(kinds, args):
            if k == "pparticle":
                parts.append(a)
                flags.append(None)
            elif k in ("b", "i"):
                v = self.P.value(I, a)
                if v.__class__ is num.Poly and v.is_const():
                    v = bool(v.const())
                if v.__class__ is not bool:
                    return I.top("product constructor")
                if not parts:
                    angle = v
                else:
                    flags[-1] = v
            else:
                I.store(I.sub(loc, "#desc"), dd.Top("product constructor"))
                return
        if angle is None or any(p.__class__ is not Ptr for p in parts):
            I.store(I.sub(loc, "#desc"), dd.Top("product constructor"))
            return
        for p in parts:
            if any(x.__class__ is dd.Undef for x in self.P.models[PA].get(I, p)):
                I.event("undef", "spinor product built on a particle that is not constructed yet")
        lu = True if flags[0] is None else flags[0]
        ru = True if flags[-1] is None else flags[-1]
        I.store(I.sub(loc, "#desc"), dd.Obj("prod", (angle, lu, ru, tuple(parts))))

    def clear(self, I, loc):
        I._own(loc.obj)
        m = I.st.mem[loc.obj]
        n = len(loc.path)
        for p in [p for p in m if p[:n] == loc.path and len(p) > n and str(p[n]).startswith("#c")]:
            I.write1(loc.obj, p, dd.Undef("not computed"))

    def call(self, I, obj, fn, args):
        n = fn["q"].rsplit("::", 1)[1]
        if obj.__class__ is not Ptr:
            return I.top("gated product")
        if n == "update":
            self.clear(I, obj)
            return dd.VOID
        if n.startswith("operator="):
            I.copy_obj(obj, args[0], T("cls", name=SP))
            return obj
        if n == "v":
            vals = [self.P.value(I, a) for a in args]
            if not all(v.__class__ is num.Poly and v.is_const() for v in vals):
                bad = [v for v in vals if not (v.__class__ is num.Poly and v.is_const())][0]
                if bad.__class__ is dd.Undef:
                    I.event("undef", "spin label %r" % (bad,))
                return I.top("spin label")
            lab = tuple(int(v.const()) for v in vals)
            key = "#c" + ",".join(map(str, lab))
            old = I.load(I.sub(obj, key)) if (obj.path + (key,)) in I.st.mem.get(obj.obj, {}) else dd.Undef("not computed")
            if old.__class__ is not dd.Undef and old.__class__ is not dd.Ite:
                return old
            d = I.load(I.sub(obj, "#desc"))
            if d.__class__ is not dd.Obj:
                if d.__class__ is dd.Undef:
                    I.event("undef", "product without particles evaluated")
                return d
            angle, lu, ru, parts = d.data
            sts = []
            for p in parts:
                sts += self.P.models[PA].get(I, p)
            v = dd.applyn(lambda *x: self.entry(angle, lu, ru, lab, x), sts)
            if self.P.on_v:
                self.P.on_v(I, obj, d.data, lab, v)
            if old.__class__ is dd.Ite:
                v = dd.apply1(lambda o: v if o.__class__ is dd.Undef else o, old)
            I.store(I.sub(obj, key), v)
            return v
        return I.top("product." + n)

    def entry(self, angle, lu, ru, lab, x):
        bad = [y for y in x if y.__class__ is not num.Poly]
        if bad:
            return bad[0]
        ids = tuple(state_id(x[5 * i:5 * i + 5]) for i in range(len(x) // 5))
        return num.P(num.atom("Sp", (angle, lu, ru, ids, lab), real=False))


class Process:
    """one process class in one analysed world"""

    def __init__(self, prog, cls):
        self.prog, self.cls = prog, cls
        self.models = {PA: ParticleModel(self), SP: ProductModel(self)}
        self.S = Session(prog, self.models)
        self.I = self.S.I
        self.on_v = None
        self.rec = prog.records[cls]
        short = cls.rsplit("::", 1)[-1]
        self.short = short if "::" in cls else smodel.EXAMPLES.get(cls, short)
        # the constructor with parameters
        cs = [f for f in self.methods(short) if f["params"] and not (len(f["params"]) == 1 and kind(ptype(f["_types"][f["params"][0]["t"]])) == short)]
        if not cs:
            raise AnalysisError("no constructor of %s" % short)
        self.ctor = cs[0]
        self.ctors = cs
        self.sm = self.methods("set_masses")
        mm = [f for f in self.methods("set_momenta") if self.fkinds(f) == ["pr"] * 4]
        self.setp = mm[0] if mm else None
        self.dens = {}
        self.I.overrides[PG + "::denominator"] = self.denominator
        self.den0 = self.S.need(PG + "::denominator", ["pr"])

    # ---- lookups
    def methods(self, name):
        for c in lineage(self.prog, self.cls):
            fs = self.prog.byname.get(c + "::" + name, ()) if c != PR else ()
            if fs:
                return [self.prog.functions[k] for k in fs]
        return []

    def members(self):
        """member functions, inherited ones last and only where they are not redefined"""
        seen = set()
        for c in lineage(self.prog, self.cls):
            if c == PR or c not in self.prog.records:
                continue
            ms = [m for m in self.prog.records[c]["methods"] if m["n"] not in seen]
            seen |= {m["n"] for m in ms}
            yield from ms

    def fkinds(self, f):
        return [kind(ptype(f["_types"][p["t"]])) for p in f["params"]]

    def kinds(self, fn):
        f = self.prog.functions.get(fn["key"])
        if f is not None:
            return self.fkinds(f)
        # implicit members
        return [kind(ptype(x)) for x in _params(fn["key"])]

    def amps(self):
        """functions returning a complex number of integer helicities"""
        out = []
        for m in self.members():
            f = self.prog.functions.get(m["key"])
            if f is None or m.get("ctor"):
                continue
            rt = ptype(f["_types"][f["ret"]])
            if rt.k == "cplx" and all(k == "i" for k in self.fkinds(f)):
                out.append(f)
        return sorted(out, key=lambda f: (f["line"], f["key"]))

    def amp2s(self):
        """parameterless functions returning a real number"""
        out = []
        for m in self.members():
            f = self.prog.functions.get(m["key"])
            if f is None or m.get("ctor"):
                continue
            rt = ptype(f["_types"][f["ret"]])
            if rt.k == "flt" and not f["params"] and "amp" in m["n"]:
                out.append(f)
        return sorted(out, key=lambda f: (f["line"], f["key"]))

    # ---- values
    def value(self, I, a):
        return I.load(a) if a.__class__ is Ptr and not (a.path and isinstance(a.path[-1], int) and False) else a

    def elem(self, p, i):
        if p.__class__ is not Ptr:
            return p
        if p.path and isinstance(p.path[-1], int):
            return Ptr(p.obj, p.path[:-1] + (p.path[-1] + i,))
        return Ptr(p.obj, p.path + (i,))

    def denominator(self, I, obj, args, fn):
        q = [I.load(self.elem(args[0], i)) for i in range(4)]
        z = self.S.array([num.ZERO] * 4, name="zero")
        d0 = I.call_fn(self.den0, obj, [z])

        def f(d, *q):
            for x in (d,) + q:
                if x.__class__ is not num.Poly:
                    return x
            return num.P(num.atom("Den", (d,) + q, real=False))
        r = dd.applyn(f, [d0] + q)
        self.dens[r] = I.where()
        return r

    # ---- driving
    def params(self, suffix=""):
        """symbols for the constructor parameters by name"""
        return {n: param(n, suffix) for n in self.pnames(self.ctor)}

    def pnames(self, f):
        """parameter names of the constructor or of set_masses; the position decides, not what they are called in the source"""
        names = [p["name"] for p in f["params"]]
        t = smodel.PARAMS.get(self.short)
        if t and f in (self.ctor, *self.sm):
            known = t[0 if f is self.ctor else 1].split()
            if len(known) == len(names):
                return known
        return names

    def build(self, vals, name="proc"):
        o = self.S.obj(self.cls, name)
        self.S.call(self.ctor, o, *[vals[n] for n in self.pnames(self.ctor)])
        return o

    def momenta(self, o, tag):
        k = [[sym("k%d%s_%d" % (i, tag, mu)) for mu in range(4)] for i in (1, 2, 3, 4)]
        self.S.call(self.setp, o, *[self.S.array(x, name="mom") for x in k])
        return k

    def domain(self, o):
        """helicities with which the squared amplitudes evaluate each amplitude"""
        calls = {}
        amps = self.amps()
        by = {f["key"]: f for f in amps}
        snap = self.S.save()
        for key in by:
            self.I.overrides[key] = lambda I, obj, args, fn: self._rec(calls, I, args, fn)
        try:
            for f in self.amp2s():
                self.S.restore(snap)
                self.S.call(f, o)
        finally:
            for key in by:
                del self.I.overrides[key]
            self.S.restore(snap)
        # amplitudes called by other amplitudes
        return calls

    def _rec(self, calls, I, args, fn):
        v = [self.value(I, a) for a in args]
        ok = all(x.__class__ is num.Poly and x.is_const() for x in v)
        k = tuple(int(x.const()) for x in v) if ok else None
        calls.setdefault(fn["key"], {})
        if k is not None:
            calls[fn["key"]][k] = calls[fn["key"]].get(k, 0) + 1
        else:
            return I.top("helicity")
        return num.P(num.atom("Amp", (fn["q"].rsplit("::", 1)[1], k), real=False))

    def amp(self, o, f, d):
        return self.S.call(f, o, *[P(x) for x in d])


def _params(key):
    m = re.search(r"\((.*)\)", key)
    return [x.strip() for x in m.group(1).split(",") if x.strip()] if m else []


def param(name, suffix=""):
    n = name + suffix
    if re.match(r"mass|width|vev", name):
        return sym(n, positive=True)
    if name.startswith("sin"):
        return sym(n, positive=True)
    return sym(n, positive=True)


def classes(prog):
    """process classes: everything derived from process with amplitudes"""
    out = []
    for c, r in sorted(prog.records.items()):
        if c == PR or "(" in c:
            continue
        if PR in lineage(prog, c):
            out.append(c)
    # common bases of processes are not processes themselves
    return [c for c in out if any(m["n"].startswith("amp") for m in prog.records[c]["methods"]) or not any(c in lineage(prog, d)[1:] for d in out)]


def lineage(prog, cls):
    """the class, its bases and their bases"""
    out = [cls]
    for c in out:
        out += [b for b in prog.records.get(c, {"bases": ()})["bases"] if b not in out]
    return out


# ------------------------------------------------------------------------------------------ scenarios
def evaluate(X, o, D, reverse=False):
    """values of all amplitudes at the helicities in use: {(function, helicities): value}"""
    out = {}
    todo = [(f, d) for f in X.amps() for d in sorted(D.get(f["key"], {}))]
    for f, d in (reversed(todo) if reverse else todo):
        out[(f["key"], d)] = X.amp(o, f, d)
    return out


def label(X, k):
    f = X.prog.functions[k[0]]
    return "%s::%s(%s)" % (X.short, f["q"].rsplit("::", 1)[1], ",".join(map(str, k[1])))


def compare_all(c, rule, X, got, want, tag, what, names):
    """one obligation per process and scenario; reports the first differing amplitude"""
    bad = und = None
    for k in want:
        r = chk.compare(got[k], want[k], names=names)
        if r[0] == "differ":
            bad = (k, r)
            break
        if r[0] == "unknown":
            und = und or (k, r)
    inst = "%s, %s" % (X.short, tag)
    c.count("amplitudes compared", len(want))
    if bad:
        f = X.prog.functions[bad[0][0]]
        c.violation(rule, inst, w(f), "%s: %s: %s" % (what, label(X, bad[0]), shorten(bad[1][1])))
    elif und:
        c.undecided(rule, inst, "%s: %s" % (label(X, und[0]), und[1][1]))
    else:
        c.ok(rule, inst)


def shorten(s, n=700):
    return s if len(s) <= n else s[:n] + "..."


def origins(v):
    """names of the parameters and momenta a value depends on"""
    out = set()
    seen = set()

    def poly(p):
        for aid in num.atoms_in(p):
            if aid in seen:
                continue
            seen.add(aid)
            a = num._ATOMS[aid]
            if a.kind == "sym":
                out.add(a.args[0])
            elif a.kind == "Sp":
                for i in a.args[3]:
                    for x in state(i):
                        poly(x)
            elif a.kind == "Spin":
                for x in state(a.args[3]):
                    poly(x)
            elif a.kind == "Den":
                for x in a.args:
                    poly(x)
    for l in dd.leaves(v):
        if l.__class__ is num.Poly:
            poly(l)
    return out


def blocks(v):
    """opaque atoms (spinor products, spinors, denominators) in a value"""
    out = {}
    for l in dd.leaves(v):
        if l.__class__ is num.Poly:
            for aid in num.atoms_in(l):
                a = num._ATOMS[aid]
                if a.kind in ("Sp", "Spin", "Den"):
                    out[aid] = a
    return out


# ------------------------------------------------------------------------------------------ physical points
class Phys(evalf.Env):
    """a sample point with on-shell, conserved external momenta; brackets take their documented values"""

    def __init__(self, seed, vals=None):
        evalf.Env.__init__(self, seed, vals)
        self.sp = {}

    def _atom(self, a):
        if a.kind == "Sp":
            return self.product(*a.args)
        if a.kind == "Spin":
            n, k, lab, sid = a.args
            return self.spinor(sid, n, lab)[k]
        if a.kind == "Den":
            d, q = self.poly(a.args[0]), [self.poly(x) for x in a.args[1:]]
            v = q[0] * q[0] - q[1] * q[1] - q[2] * q[2] - q[3] * q[3] + d
            if abs(v) < 1e-9:
                raise evalf.Bad("resonance")
            return v
        return evalf.Env._atom(self, a)

    def spinor(self, sid, name, lab):
        k = (sid, name, lab)
        r = self.sp.get(k)
        if r is None:
            from checks.c03 import Doc
            st = state(sid)
            vals = [self.poly(x).real for x in st]
            d = self.sp.get(sid)
            if d is None:
                q = [P(0) if not st[0].d else sym("?m", positive=True)] + [sym("?p%d" % i) for i in range(4)]
                d = (Doc(q[0], q[1:]), evalf.Env(0, {"?m": vals[0], "?p0": vals[1], "?p1": vals[2], "?p2": vals[3], "?p3": vals[4]}))
                self.sp[sid] = d
            ent = d[0].quantity(name, [x if x.__class__ is bool else P(x) for x in lab])
            if ent is None:
                raise evalf.Bad("spinor without meaning")
            r = [d[1].poly(x) for x in ent]
            self.sp[k] = r
        return r

    def product(self, angle, lu, ru, ids, lab):
        lab = list(lab)
        lm, rm = bool(state(ids[0])[0].d), bool(state(ids[-1])[0].d)
        if len(lab) != lm + rm:
            raise evalf.Bad("labels")
        v = self.spinor(ids[0], "langle" if angle else "lsquare", (lab[0], bool(lu)) if lm else ())
        lower = angle
        for i in ids[1:-1]:
            m = self.spinor(i, "lmat" if lower else "umat", ())
            v = [v[0] * m[0] + v[1] * m[2], v[0] * m[1] + v[1] * m[3]]
            lower = not lower
        r = self.spinor(ids[-1], "rangle" if lower else "rsquare", (lab[-1], bool(ru)) if rm else ())
        return v[0] * r[0] + v[1] * r[1]


def leg_masses(values):
    """mass of each external leg as used by the amplitudes (legs never used are missing)"""
    out = {}
    for v in values:
        for a in blocks(v).values():
            if a.kind == "Den":
                continue
            for i in (a.args[3] if a.kind == "Sp" else (a.args[3],)):
                s = state(i)
                for leg in (1, 2, 3, 4):
                    if list(s[1:]) == [sym("k%d_%d" % (leg, mu)) for mu in range(4)]:
                        out[leg] = s[0]
    return out


def physical(seed, masses, vals=None, wide=0.0):
    """environment with momenta of a 2 to 2 reaction of the given leg masses in general position"""
    e = Phys(seed, vals)
    h = lambda *x: evalf._h("phys", seed, *x)
    if "sinW" not in e.vals:
        e.set("sinW", 0.3 + 0.3 * h("sinW"))
    m = [0.0] + [abs(e.poly(masses[i]).real) if i in masses else 0.5 + h("m", i) for i in (1, 2, 3, 4)]
    low = max(m[1] + m[2], m[3] + m[4])
    W = 1.2 * low + 0.7 + h("W")
    if wide:
        W = low * (1.001 + 10 ** (wide * (1.5 * h("W") - 1))) + (10 ** (wide * (2 * h("W0") - 1)) if h("W1") < 0.5 or not low else 0)
    mom = two_body(W, m, h, still=wide and h("still") < 0.4)
    for i in (1, 2, 3, 4):
        for mu in range(4):
            e.set("k%d_%d" % (i, mu), mom[i - 1][mu])
    return e


# parameters as in the self tests, in GeV
USUAL = {"echarge": 0.31333, "gscharge": 1.238, "gcharge": 1.238, "massW": 80.385, "sinW": 0.474, "massh": 125.0, "masse": 0.0005,
         "massmu": 0.105, "masstau": 1.777, "massu": 0.0042, "massd": 0.0075, "masss": 0.101, "massc": 1.23, "massb": 4.25, "masst": 172.5,
         "massf": 0.105, "widthZ": 2.5, "widthW": 2.1, "widthh": 0.004, "vev": 246.0}


def conditions(values):
    """comparisons on which the values depend; None if one of them is of another kind"""
    out = set()
    for v in values:
        for c in dd.conds_in(v):
            if dd.cond_by_id(c).kind not in ("lt", "eq", "isnan", "isinf"):
                return None
            out.add(c)
    return sorted(out)


def regions(X, masses, values, n=500, keep=120, env=None, extra=()):
    """physical points, some for every combination of comparisons in the values that was met; the mildest ones first"""
    cs = conditions(values)
    if not cs:
        return []
    names = [x for x in X.params()] + list(extra)
    out, seen = [], {}

    def consider(s, vals, wide, most=8):
        try:
            e = physical(s, masses, vals, wide)
            if env:
                env(e)
            k = tuple(e.cond(c) for c in cs)
        except (evalf.Bad, OverflowError, ValueError, ZeroDivisionError):
            return
        if seen.get(k, 0) < most and len(out) < keep:
            seen[k] = seen.get(k, 0) + 1
            out.append(e)

    def spread(s, wide):
        h = lambda *x: evalf._h("region", s, *x)
        vals = {}
        if s % 3 == 2:
            for x in names:
                if x in USUAL:
                    vals[x] = USUAL[x] * (1 if x.startswith("sin") or h("u", x) < 0.5 else 10 ** (h("v", x) - 0.5))
        elif wide:
            t = 10 ** (wide * (1.2 * h("scale") - 0.2))
            for x in names:
                if x.startswith("sin"):
                    vals[x] = 0.05 + 0.9 * h("a", x)
                elif re.match(r"mass|width|vev", x):
                    vals[x] = t * 10 ** (wide * (1.6 * h("a", x) - 1))
                else:
                    vals[x] = 10 ** (0.3 * wide * (2 * h("a", x) - 1))
        return vals
    for s in range(n):
        wide = 0.0 if s < 6 else 4.0 * s / n
        consider(s, spread(s, wide), wide)
    # comparisons of parameters alone are solved for a parameter
    own = {num.atom("sym", (x,)).id for x in names} if names else set()
    for c in cs:
        p = dd.cond_by_id(c).args[0]
        if dd.cond_by_id(c).kind != "lt" or not all(a in own for a in num.atoms_in(p) if num._ATOMS[a].kind == "sym"):
            continue
        for side in (True, False):
            for s in range(12):
                e = evalf.Env(s, spread(s, s / 4.0))
                e.vals.setdefault("sinW", 0.4)
                if evalf.repair(e, {c: side}) and 0 < e.vals["sinW"] < 1:
                    consider(s, {k: v for k, v in e.vals.items() if k in names}, s / 4.0, 24)
    return out


def two_body(W, m, h, still=False):
    import math

    def pair(ma, mb, th, ph):
        ea = (W * W + ma * ma - mb * mb) / (2 * W)
        p = math.sqrt(max(ea * ea - ma * ma, 0))
        n = (math.sin(th) * math.cos(ph), math.sin(th) * math.sin(ph), math.cos(th))
        return [[math.sqrt(ma * ma + p * p)] + [p * x for x in n], [math.sqrt(mb * mb + p * p)] + [-p * x for x in n]]
    k = pair(m[1], m[2], 0.4 + 2 * h("t1"), 6 * h("f1")) + pair(m[3], m[4], 0.4 + 2 * h("t2"), 6 * h("f2"))
    if still:
        return k
    # boost in a general direction
    b = [0.5 * (h("b", i) - 0.5) for i in range(3)]
    g = 1 / math.sqrt(1 - sum(x * x for x in b))
    out = []
    for q in k:
        bp = sum(b[i] * q[1 + i] for i in range(3))
        f = (g - 1) / sum(x * x for x in b) * bp + g * q[0]
        out.append([g * (q[0] + bp)] + [q[1 + i] + b[i] * f for i in range(3)])
    return out


def agree(x, y, masses, names, n=6):
    """compare two gated values at physical points: ('equal',) | ('differ', text) | ('unknown', why)"""
    if x == y:
        return ("equal",)
    ev = 0
    for s in range(n):
        e = physical(s, masses)
        try:
            u, v = e.dd(x), e.dd(y)
            for z in (u, v):
                if z.__class__ is not num.Poly:
                    if z.__class__ is dd.Undef:
                        return ("differ", "%s reads %r" % (names[0] if z is u else names[1], z))
                    return ("unknown", "value %r" % (z,))
            a, b = e.poly(u), e.poly(v)
            sc = e.scale(u) + e.scale(v)
        except (evalf.Bad, OverflowError):
            continue
        ev += 1
        if abs(a - b) > 1e-8 * (abs(a) + abs(b)) + 1e-9 * sc:
            return ("differ", "%s = %s, %s = %s at %s" % (names[0], chk._fmt(a), names[1], chk._fmt(b), chk.show_env(e, (u, v))))
    chk.at_points.used = True
    return ("equal",) if ev else ("unknown", "no valid sample point")
