"""Abstract interpreter over the typed program form.

Domain: gated terms (dd.py) over the exact term algebra (num.py); memory is a map from
(object, access path) to gated terms.  Control-flow joins merge states with gates, calls are analysed
in context (inlined), loops with statically known trip counts are unrolled and all others are
over-approximated by forgetting what the body writes.
"""
import re
from fractions import Fraction

from . import num
from .num import Poly, P
from . import dd
from .dd import (Ite, Ptr, NULL, Undef, Top, NAN, Str, Closure, Obj, VOID, ite, and_, or_, not_, apply1,
                 apply2, applyn)
from .ir import AnalysisError, rel


# ------------------------------------------------------------------------------------------ types
class T:
    __slots__ = ("k", "elem", "n", "name", "s")

    def __init__(self, k, elem=None, n=None, name=None, s=None):
        self.k, self.elem, self.n, self.name, self.s = k, elem, n, name, s


_TC = {}
INTS = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "signed char",
        "unsigned char", "long long", "unsigned long long", "size_t", "__int128", "wchar_t"}
FLOATS = {"float", "double", "long double"}


def strip_cv(s):
    s = s.strip()
    while True:
        if s.startswith("const "):
            s = s[6:].strip()
        elif s.startswith("volatile "):
            s = s[9:].strip()
        elif s.endswith(" const"):
            s = s[:-6].strip()
        elif s.endswith("*const"):
            s = s[:-5].strip()
        else:
            return s


def ptype(s):
    t = _TC.get(s)
    if t is None:
        t = _ptype(s)
        _TC[s] = t
    return t


def _split_targs(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            depth += 1
        elif ch in ">)]":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def _ptype(s0):
    s = s0.strip()
    m = re.match(r"^(.*)\((&&?|\*)(?:const)?\)(\[.*\])$", s)
    if m:
        k = "ref" if m.group(2)[0] == "&" else "ptr"
        return T(k, ptype(m.group(1).strip() + m.group(3)), s=s0)
    if re.search(r"\(\*(?:const)?\)\(", s) or re.search(r"\([\w:]+::\*", s):
        return T("fn", s=s0)
    if s.endswith("&&"):
        return T("ref", ptype(s[:-2]), s=s0)
    if s.endswith("&"):
        return T("ref", ptype(s[:-1]), s=s0)
    if s.endswith("]"):
        depth = 0
        # first dimension: the leftmost bracket of the trailing sequence
        m = re.match(r"^(.*?)((?:\[[^\[\]]*\])+)$", s)
        base, dims = m.group(1), m.group(2)
        ds = re.findall(r"\[([^\]]*)\]", dims)
        inner = base.strip() + "".join("[%s]" % d for d in ds[1:])
        n = int(ds[0]) if ds[0].isdigit() else None
        return T("arr", ptype(inner), n, s=s0)
    s = strip_cv(s)
    if s.endswith("*"):
        return T("ptr", ptype(s[:-1]), s=s0)
    if s == "bool":
        return T("bool", s=s0)
    if s in INTS:
        return T("int", s=s0, name=s)
    if s in FLOATS:
        return T("flt", s=s0, name=s)
    m = re.match(r"^std::(?:__1::)?complex<(.*)>$", s)
    if m:
        return T("cplx", s=s0, name=m.group(1))
    if s == "void":
        return T("void", s=s0)
    if "(lambda" in s:
        return T("fnobj", s=s0)
    if re.match(r"^std::(?:__1::)?function<", s):
        return T("fnobj", s=s0)
    m = re.match(r"^std::(?:__1::)?array<(.*)>$", s)
    if m:
        a = _split_targs(m.group(1))
        if len(a) == 2 and a[1].rstrip("UuLl").isdigit():
            return T("arr", ptype(a[0]), int(a[1].rstrip("UuLl")), s=s0, name="std::array")
    m = re.match(r"^std::(?:__1::)?bitset<(\d+)[UuLl]*>$", s)
    if m:
        return T("arr", T("bool", s="bool"), int(m.group(1)), s=s0, name="std::bitset")
    if re.match(r"^std::(?:__1::)?(bitset<\d+[UuLl]*>::reference|_Bit_reference)$", s):
        return T("ref", T("bool", s="bool"), s=s0, name="bit")
    m = re.match(r"^__gnu_cxx::__normal_iterator<(.*)>$", s)
    if m:
        return T("ptr", ptype(_split_targs(m.group(1))[0]).elem, s=s0, name="iterator")
    m = re.match(r"^std::(?:__1::)?(vector|initializer_list)<(.*)>$", s)
    if m:
        return T("vec", ptype(_split_targs(m.group(2))[0]), s=s0)
    m = re.match(r"^std::(?:__1::)?(pair|tuple)<(.*)>$", s)
    if m:
        return T("tup", [ptype(x) for x in _split_targs(m.group(2))], s=s0)
    m = re.match(r"^std::(?:__1::|__cxx11::)?(basic_string|basic_(?:i|o)?stringstream|basic_ostream|basic_ostringstream)<", s)
    if m:
        return T("str" if m.group(1) == "basic_string" else "stream", s=s0)
    if s.startswith("std::") or s.startswith("__gnu_cxx::"):
        return T("std", s=s0, name=s)
    if s == "std::nullptr_t" or s == "nullptr_t":
        return T("ptr", T("void"), s=s0)
    return T("cls", name=s, s=s0)


SCALAR = {"int", "flt", "cplx", "bool", "ptr", "fnobj", "fn", "str"}


# ------------------------------------------------------------------------------------------ state
class State:
    __slots__ = ("mem", "pc", "owned")

    def __init__(self, mem=None, pc=True):
        self.mem = mem if mem is not None else {}
        self.pc = pc
        self.owned = set()

    def fork(self, pc=None):
        s = State(dict(self.mem), self.pc if pc is None else pc)
        self.owned = set()
        return s

    def snapshot(self):
        self.owned = set()
        return dict(self.mem)


class Frame:
    __slots__ = ("fn", "types", "vars", "this", "rets", "loops", "ret_t", "ret_loc", "file")

    def __init__(self, fn, types, this=None):
        self.fn, self.types, self.this = fn, types, this
        self.vars = {}
        self.rets = []
        self.loops = []
        self.ret_t = None
        self.ret_loc = None
        self.file = rel(fn["file"]) if fn and "file" in fn else "?"


class Throw:
    __slots__ = ("pc", "what", "where", "mem", "stack")

    def __init__(self, pc, what, where, mem, stack):
        self.pc, self.what, self.where, self.mem, self.stack = pc, what, where, mem, stack

    def __repr__(self):
        return "throw %s at %s when %r" % (self.what, self.where, self.pc)


class Limit(Exception):
    """analysis budget exhausted"""


class ObjMeta:
    __slots__ = ("t", "name", "default", "kind")

    def __init__(self, t, name, default=None, kind="auto"):
        self.t, self.name, self.default, self.kind = t, name, default, kind


def strip_templates(q):
    out, d = [], 0
    i = 0
    while i < len(q):
        ch = q[i]
        if ch == "<" and not q[:i].endswith("operator") and not q[:i].endswith("operator<"):
            d += 1
        elif ch == ">" and d > 0:
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    s = "".join(out)
    return s.replace("std::__1::", "std::").replace("std::__cxx11::", "std::")


_LIMITS = {"digits10": (18, 15, 6), "max_digits10": (21, 17, 9), "digits": (64, 53, 24), "radix": (2, 2, 2),
           "max_exponent": (16384, 1024, 128), "min_exponent": (-16381, -1021, -125)}


def std_constant(n):
    if n.endswith("::npos"):
        return 2 ** 64 - 1
    m = re.match(r"std::numeric_limits<(long double|double|float)>::(\w+)$", n)
    if m and m.group(2) in _LIMITS:
        return _LIMITS[m.group(2)][("long double", "double", "float").index(m.group(1))]
    return None


_PI_Q = Fraction("3.14159265358979323846264338327950288")
MAX_STEPS = 4000000
MAX_DEPTH = 80
MAX_UNROLL = 2000


class Interp:
    def __init__(self, prog, models=None):
        self.prog = prog
        self.models = models or {}
        self.objs = []
        self.st = State()
        self.outer = True
        self.throws = []
        self.events = []
        self.past = set()  # locations one past the end of an array
        self.stack = []
        self.steps = 0
        self.fresh_n = 0
        self.gobj = {}
        self.tops = {}
        self.draws = []
        self.effects = []
        self.call_hook = None
        self.static_objs = {}
        self.overrides = {}
        self.finite = False      # named inputs are finite numbers

    # ---------------------------------------------------------------------------- objects, memory
    def alloc(self, t, name="tmp", default=None, kind="auto"):
        if isinstance(t, str):
            t = ptype(t)
        oid = len(self.objs)
        self.objs.append(ObjMeta(t, name, default, kind))
        self.st.mem[oid] = {}
        self.st.owned.add(oid)
        return oid

    def name_of(self, obj, path):
        n = self.objs[obj].name
        for x in path:
            n += "[%d]" % x if isinstance(x, int) else "." + str(x)
        return n

    def read1(self, obj, path, mem=None):
        d = (self.st.mem if mem is None else mem).get(obj)
        if d is not None:
            v = d.get(path)
            if v is not None:
                return v
        df = self.objs[obj].default
        if df is not None:
            v = df(path)
            if v is not None:
                return v
        return Undef(self.name_of(obj, path))

    def write1(self, obj, path, v):
        st = self.st
        if obj not in st.owned:
            st.mem[obj] = dict(st.mem.get(obj, {}))
            st.owned.add(obj)
        st.mem[obj][path] = v
        rec = getattr(self, "wrec", None)
        if rec is not None:
            rec.add((obj, path))
        if self.objs[obj].kind in ("global", "static"):
            self.effects.append((obj, path, self.where()))

    def load(self, loc):
        """loc: gated Ptr -> gated value"""
        if self.past:
            self.check_past(loc)
        if loc.__class__ is Ptr:
            return self.read1(loc.obj, loc.path)

        def f(p):
            if p.__class__ is Ptr:
                return self.read1(p.obj, p.path)
            if p is NULL:
                return Top("null deref")
            return Top("deref of %r" % (p,))
        if any(x is NULL for x in dd.leaves(loc)):
            self.event("null", "null pointer read", self.here(apply1(lambda x: x is NULL, loc)))
        return apply1(f, loc)

    def store(self, loc, v):
        if self.past:
            self.check_past(loc)
        if loc.__class__ is Ptr:
            self.write1(loc.obj, loc.path, v)
            return
        # gated location: conditional updates
        tg = {}

        def collect(l):
            for x in dd.leaves(l):
                if x.__class__ is Ptr:
                    tg[(x.obj, x.path)] = x
                elif x is NULL:
                    self.event("null", "null pointer write", self.here(apply1(lambda y: y is NULL, loc)))
                else:
                    self.event("wildwrite", "write through %r" % (x,))
        collect(loc)
        for (o, p), x in tg.items():
            c = apply1(lambda y: y.__class__ is Ptr and y == x, loc)
            self.write1(o, p, ite(c, v, self.read1(o, p)))

    def sub(self, loc, *elems):
        def f(p):
            if p.__class__ is Ptr:
                return Ptr(p.obj, p.path + elems)
            return Top("member of %r" % (p,))
        return f(loc) if loc.__class__ is not Ite else apply1(f, loc)

    def type_at(self, obj, path):
        t = self.objs[obj].t
        for x in path:
            t = self.field_type(t, x)
            if t is None:
                return None
        return t

    def field_type(self, t, x):
        if t is None:
            return None
        if t.k == "ref":
            t = t.elem
        if t.k in ("arr", "vec"):
            return t.elem
        if t.k == "cls":
            for c in self.linear(t.name):
                r = self.prog.records.get(c)
                if r:
                    for f in r["fields"]:
                        if f["n"] == x:
                            return ptype(r["_types"][f["t"]])
        if t.k == "tup" and isinstance(x, int):
            return t.elem[x]
        return None

    def linear(self, cls):
        """class and bases, base first"""
        r = self.prog.records.get(cls)
        out = []
        if r:
            for b in r["bases"]:
                out += self.linear(b)
        out.append(cls)
        return out

    def leaf_paths(self, t, depth=0):
        """scalar sub-paths of a type, or None if open-ended"""
        if depth > 12:
            return None
        if t.k in SCALAR or t.k in ("void", "std", "stream"):
            return [()]
        if t.k == "arr":
            if t.n is None:
                return None
            sub = self.leaf_paths(t.elem, depth + 1)
            if sub is None:
                return None
            return [(i,) + s for i in range(t.n) for s in sub]
        if t.k == "cls":
            if t.name in self.models:
                return None
            if t.name not in self.prog.records:
                return None
            out = []
            for c in self.linear(t.name):
                r = self.prog.records.get(c)
                if not r:
                    continue
                for f in r["fields"]:
                    sub = self.leaf_paths(ptype(r["_types"][f["t"]]), depth + 1)
                    if sub is None:
                        return None
                    out += [(f["n"],) + s for s in sub]
            return out
        if t.k == "tup":
            out = []
            for i, e in enumerate(t.elem):
                sub = self.leaf_paths(e, depth + 1)
                if sub is None:
                    return None
                out += [(i,) + s for s in sub]
            return out
        return None

    def copy_obj(self, dst, src, t):
        """dst: Ptr (single), src: gated Ptr"""
        lp = self.leaf_paths(t)
        if lp is not None:
            vals = [(p, self.load(self.sub(src, *p))) for p in lp]
            for p, v in vals:
                self.store(self.sub(dst, *p), v)
            return
        # open-ended: copy existing leaves by prefix
        if src.__class__ is Ptr and dst.__class__ is Ptr:
            d = self.st.mem.get(src.obj, {})
            n = len(src.path)
            items = [(p[n:], v) for p, v in d.items() if p[:n] == src.path]
            m = len(dst.path)
            if not (src.obj == dst.obj and src.path == dst.path):
                self._own(dst.obj)
                dm = self.st.mem[dst.obj]
                for p in [p for p in dm if p[:m] == dst.path]:
                    del dm[p]
                for p, v in items:
                    self.write1(dst.obj, dst.path + p, v)
                # materialise what has a default
                if t.k == "cls":
                    self._copy_defaults(dst, src, t)
            return
        self.undecided("copy of gated open-ended object")
        if dst.__class__ is Ptr:
            self.havoc(dst, "gated copy")

    def _copy_defaults(self, dst, src, t):
        if t.name in self.models or self.objs[src.obj].default is None:
            return
        for c in self.linear(t.name):
            r = self.prog.records.get(c)
            for f in (r["fields"] if r else ()):
                ft = ptype(r["_types"][f["t"]])
                if ft.k in SCALAR:
                    self.store(self.sub(dst, f["n"]), self.load(self.sub(src, f["n"])))

    def _own(self, obj):
        if obj not in self.st.owned:
            self.st.mem[obj] = dict(self.st.mem.get(obj, {}))
            self.st.owned.add(obj)

    def havoc(self, loc, why):
        for p in [x for x in dd.leaves(loc) if x.__class__ is Ptr]:
            t = self.type_at(p.obj, p.path)
            lp = self.leaf_paths(t) if t is not None else None
            if lp is None:
                lp = [q[len(p.path):] for q in self.st.mem.get(p.obj, {}) if q[:len(p.path)] == p.path] or [()]
            for q in lp:
                self.write1(p.obj, p.path + q, Top(why))

    def fresh(self, base, **kw):
        self.fresh_n += 1
        return num.sym("%s#%d" % (base, self.fresh_n), **kw)

    # ---------------------------------------------------------------------------- bookkeeping
    def where(self):
        if self.stack:
            f, l = self.stack[-1]
            return "%s:%s" % (f.file, l)
        return "?"

    def event(self, kind, msg, pc=None):
        self.events.append((kind, msg, self.where(), and_(self.outer, self.st.pc) if pc is None else pc))

    def here(self, cond):
        return and_(and_(self.outer, self.st.pc), cond)

    def check_past(self, loc):
        """an access to the element after the last one of an array"""
        def f(x):
            return x.__class__ is Ptr and any((x.obj, x.path[:n]) in self.past for n in range(1, len(x.path) + 1))
        c = apply1(f, loc)
        if c is not False:
            x = next(x for x in dd.leaves(loc) if f(x))
            self.event("oob", "access past the end at %s" % self.name_of(x.obj, x.path), self.here(c))

    def undecided(self, why):
        k = "%s at %s" % (why, self.where())
        self.tops[k] = self.tops.get(k, 0) + 1

    def wreck(self, why):
        """nothing is known any more: code without a model ran that may have changed anything"""
        self.undecided(why)
        bad = Top(why)
        for obj in list(self.st.mem):
            self._own(obj)
            d = self.st.mem[obj]
            for p in d:
                d[p] = bad
        for o in self.objs:
            if o.kind == "local":
                o.default = lambda path: bad
        return bad

    def top(self, why):
        self.undecided(why)
        return Top(why)

    def tick(self):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Limit("step budget")

    # ---------------------------------------------------------------------------- merging
    def merge(self, a, b):
        if a.pc is False:
            return b
        if b.pc is False:
            return a
        tot = or_(a.pc, b.pc)
        g = a.pc
        if tot is not True:
            g2 = dd.constrain(a.pc, tot)
            if g2.__class__ is Ite or isinstance(g2, bool):
                g = g2
        mem = {}
        for o in a.mem.keys() | b.mem.keys():
            x, y = a.mem.get(o), b.mem.get(o)
            if x is y:
                mem[o] = x
            elif x is None:
                mem[o] = y
            elif y is None:
                mem[o] = x
            else:
                m = {}
                for p in x.keys() | y.keys():
                    v, w = x.get(p), y.get(p)
                    if v is None:
                        v = self.read1(o, p, a.mem)
                    if w is None:
                        w = self.read1(o, p, b.mem)
                    m[p] = v if v is w else ite(g, v, w)
                mem[o] = m
        s = State(mem, tot)
        return s

    def branch(self, c, fa, fb):
        """run fa under c and fb under not c, merging the states"""
        c = self.tobool(c)
        if c.__class__ is Ite:
            c = self.simplify_cond(c)
        if c is True:
            return fa()
        if c is False:
            return fb() if fb else None
        st0 = self.st
        hi = and_(st0.pc, c)
        lo = and_(st0.pc, not_(c))
        full_hi = and_(self.outer, hi)
        full_lo = and_(self.outer, lo)
        if full_hi is False or not self.feas(full_hi):
            self.st.pc = lo
            return fb() if fb else None
        if full_lo is False or not self.feas(full_lo):
            self.st.pc = hi
            return fa()
        s1 = st0.fork(hi)
        s2 = st0.fork(lo)
        self.st = s1
        ra = fa()
        s1 = self.st
        self.st = s2
        rb = fb() if fb else None
        s2 = self.st
        self.st = self.merge(s1, s2)
        if ra is not None or rb is not None:
            if ra is None or s1.pc is False:
                return rb
            if rb is None or s2.pc is False:
                return ra
            return ite(c, ra, rb)
        return None

    def feas(self, b):
        if b is True or b is False:
            return b
        cs = dd.conds_in(b)
        if len(cs) > 14:
            return True
        return dd.feasible(b)

    def simplify_cond(self, c):
        k = and_(self.outer, self.st.pc)
        if k is True or k is False:
            return c
        r = dd.constrain(c, k)
        return r

    def tobool(self, v):
        def f(x):
            if x is True or x is False:
                return x
            if x.__class__ is Poly:
                return not_(dd.eq0(x))
            if x.__class__ is Ptr or x.__class__ is Closure:
                return True
            if x is NULL:
                return False
            if x is NAN or x.__class__ is dd.InfT:
                return True
            if x.__class__ is Undef:
                self.event("undef", "branch on %r" % (x,))
                return dd.unknown_bool(repr(x))
            if x.__class__ is Top:
                return dd.unknown_bool("%s" % x.why)
            return dd.unknown_bool(repr(x))
        return apply1(f, v)

    # ---------------------------------------------------------------------------- statements
    def exec(self, s, fr):
        if s is None or self.st.pc is False:
            return
        self.tick()
        self.stack.append((fr, s.get("L", "?")))
        try:
            getattr(self, "s_" + s["k"], self.s_unsupported)(s, fr)
        finally:
            self.stack.pop()

    def s_unsupported(self, s, fr):
        self.wreck("unsupported statement %s" % s.get("cls", s["k"]))

    def s_blk(self, s, fr):
        for x in s["b"]:
            if self.st.pc is False:
                return
            self.exec(x, fr)

    def s_null(self, s, fr):
        pass

    def s_expr(self, s, fr):
        self.discard(s["e"], fr)

    def discard(self, e, fr):
        if e["k"] in ("var", "mem", "idx", "gvar", "this", "un") and e["k"] != "un":
            return
        t = ptype(fr.types[e["t"]])
        if e["k"] in ("call", "casg", "un", "bin", "cond", "cast", "throw", "ctor", "lambda", "new", "delete"):
            self.ev(e, fr)
            return
        self.ev(e, fr)

    def s_decl(self, s, fr):
        for v in s["vars"]:
            self.declare(v, fr)

    def declare(self, v, fr):
        t = ptype(fr.types[v["t"]])
        if v.get("ref"):
            fr.vars[v["id"]] = self.lv(v["init"], fr) if v.get("init") else Top("unbound reference")
            return
        if v.get("static"):
            key = (fr.file, v["id"], v["name"])
            if key not in self.static_objs:
                oid = self.alloc(t, v["name"], kind="static" if not v.get("const") else "auto",
                                 default=lambda p: False if p == ("#init",) else None)
                self.static_objs[key] = oid
            oid = self.static_objs[key]

            def first():
                k = self.objs[oid].kind
                self.objs[oid].kind = "auto"
                if v.get("init"):
                    self.init_into(Ptr(oid), t, v["init"], fr)
                self.write1(oid, ("#init",), True)
                self.objs[oid].kind = k
            # initialised by the first call that comes here
            self.branch(self.read1(oid, ("#init",)), lambda: None, first)
            fr.vars[v["id"]] = Ptr(self.static_objs[key])
            return
        oid = self.alloc(t, v["name"], kind="local")
        fr.vars[v["id"]] = Ptr(oid)
        if v.get("init"):
            self.init_into(Ptr(oid), t, v["init"], fr)

    def s_if(self, s, fr):
        if s.get("init"):
            self.exec(s["init"], fr)
        if s.get("cvar"):
            self.exec(s["cvar"], fr)
        c = self.ev(s["c"], fr)
        if self.st.pc is False:
            return
        self.branch(c, lambda: self.exec(s["a"], fr), (lambda: self.exec(s["b"], fr)) if s.get("b") else (lambda: None))

    def s_ret(self, s, fr):
        v = VOID
        if s.get("e"):
            if fr.ret_t is not None and fr.ret_t.k == "ref":
                v = self.lv(s["e"], fr)
            elif fr.ret_loc is not None:
                self.init_into(fr.ret_loc, fr.ret_t, s["e"], fr)
                v = fr.ret_loc
            else:
                v = self.ev(s["e"], fr)
        if self.st.pc is False:
            return
        fr.rets.append((self.st.pc, self.st, v))
        self.st = State({}, False)

    def s_break(self, s, fr):
        if not fr.loops:
            return self.undecided("break outside loop")
        fr.loops[-1]["brk"].append(self.st)
        self.st = State({}, False)

    def s_continue(self, s, fr):
        for lp in reversed(fr.loops):
            if lp["loop"]:
                lp["cont"].append(self.st)
                break
        self.st = State({}, False)

    def s_for(self, s, fr):
        if s.get("init"):
            self.exec(s["init"], fr)
        self.loop(s.get("c"), s["b"], s.get("inc"), fr)

    def s_while(self, s, fr):
        self.loop(s["c"], s["b"], None, fr)

    def s_do(self, s, fr):
        self.loop(s["c"], s["b"], None, fr, first=True)

    def loop(self, c, body, inc, fr, first=False):
        lp = {"brk": [], "cont": [], "loop": True}
        fr.loops.append(lp)
        exits = []
        n = 0
        nonconst = 0
        start = None
        while True:
            if self.st.pc is False:
                break
            if not (first and n == 0) and c is not None:
                cv = self.tobool(self.ev(c, fr))
                if self.st.pc is False:
                    break
                if cv.__class__ is Ite:
                    cv = self.simplify_cond(cv)
                if cv.__class__ is Ite:
                    hi = and_(self.st.pc, cv)
                    lo = and_(self.st.pc, not_(cv))
                    if not self.feas(and_(self.outer, hi)):
                        cv = False
                    elif not self.feas(and_(self.outer, lo)):
                        cv = True
                if cv is False:
                    break
                if cv.__class__ is Ite:
                    nonconst += 1
                    if self.cond_is_open(cv) or nonconst > 80:
                        self.loop_havoc(c, cv, body, inc, fr, lp)
                        break
                    ex = self.st.fork(lo)
                    exits.append(ex)
                    self.st = self.st.fork(hi)
            n += 1
            if n > MAX_UNROLL:
                self.undecided("loop bound exceeded")
                self.loop_havoc(c, True, body, inc, fr, lp)
                break
            self.exec(body, fr)
            for x in lp["cont"]:
                self.st = self.merge(self.st, x) if self.st.pc is not False else x
            lp["cont"] = []
            if self.st.pc is False:
                break
            if inc is not None:
                self.ev(inc, fr)
        fr.loops.pop()
        for x in exits + lp["brk"]:
            self.st = self.merge(self.st, x) if self.st.pc is not False else x

    def cond_is_open(self, cv):
        """does the loop condition depend on something that does not become constant by iterating?"""
        for cid in dd.conds_in(cv):
            c = dd.cond_by_id(cid)
            if c.kind == "unknown":
                return True
            if c.kind in ("lt", "eq"):
                for aid in num.atoms_in(c.args[0], deep=False):
                    if not num._ATOMS[aid].integer:
                        return True
        return False

    def loop_havoc(self, c, cv, body, inc, fr, lp):
        """one arbitrary last iteration after forgetting everything the body writes"""
        st0 = self.st
        skip = st0.fork(and_(st0.pc, not_(cv)))
        # find what the body writes
        old = getattr(self, "wrec", None)
        self.wrec = set()
        saved = (list(self.throws), list(self.events), list(lp["brk"]), list(lp["cont"]), list(fr.rets), list(self.draws), dict(self.tops))
        self.st = st0.fork()
        try:
            self.exec(body, fr)
            if inc is not None and self.st.pc is not False:
                self.ev(inc, fr)
        finally:
            w = self.wrec
            self.wrec = old
            if old is not None:
                old |= w
            self.throws, self.events, lp["brk"], lp["cont"], rets, self.draws, self.tops = saved
            fr.rets[:] = rets
        st = st0.fork()
        self.st = st
        known = set(st0.mem)
        for (o, p) in w:
            if o in known:
                t = self.type_at(o, p)
                self.write1(o, p, self.fresh_of(t, self.name_of(o, p)))
        ccv = self.tobool(self.ev(c, fr)) if c is not None else True
        self.st.pc = and_(self.st.pc, ccv)
        if self.st.pc is not False:
            self.exec(body, fr)
            for x in lp["cont"]:
                self.st = self.merge(self.st, x) if self.st.pc is not False else x
            lp["cont"] = []
            if self.st.pc is not False:
                if inc is not None:
                    self.ev(inc, fr)
                ccv = self.tobool(self.ev(c, fr)) if c is not None else False
                self.st.pc = and_(self.st.pc, not_(ccv))
        # the gate between "no iteration" and "some" is the entry condition
        if skip.pc is not False and self.st.pc is not False:
            a = self.st
            tot = or_(skip.pc, a.pc)
            mem = {}
            for o in skip.mem.keys() | a.mem.keys():
                x, y = skip.mem.get(o), a.mem.get(o)
                if x is y or y is None:
                    mem[o] = x
                elif x is None:
                    mem[o] = y
                else:
                    m = {}
                    for p in x.keys() | y.keys():
                        v = x.get(p)
                        ww = y.get(p)
                        if v is None:
                            v = self.read1(o, p, skip.mem)
                        if ww is None:
                            ww = self.read1(o, p, a.mem)
                        m[p] = v if v is ww else ite(cv, ww, v)
                    mem[o] = m
            self.st = State(mem, tot)
        elif self.st.pc is False:
            self.st = skip

    def fresh_of(self, t, name):
        if t is None:
            return Top("loop " + name)
        if t.k == "bool":
            self.fresh_n += 1
            return dd.boolsym("%s#%d" % (name, self.fresh_n))
        if t.k == "int":
            return self.fresh(name, integer=True)
        if t.k == "flt":
            return self.fresh(name)
        if t.k == "cplx":
            return self.fresh(name, real=False)
        return Top("loop " + name)

    def s_rfor(self, s, fr):
        cont = s.get("cont")
        if cont is None:
            return self.wreck("range-for")
        if cont["k"] == "stdil":
            cont = cont["e"]
        t = ptype(fr.types[cont["t"]])
        if t.k == "ref":
            t = t.elem
        base = self.lv(cont, fr)
        if t.k == "arr":
            n = t.n
        elif t.k == "vec":
            nv = self.load(self.sub(base, "#n"))
            n = int(nv.const()) if nv.__class__ is Poly and nv.is_const() else None
        else:
            n = None
        if n is None:
            return self.wreck("range-for over %s" % t.s)
        lp = {"brk": [], "cont": [], "loop": True}
        fr.loops.append(lp)
        v = s["var"]
        for i in range(n):
            if self.st.pc is False:
                break
            el = self.sub(base, i)
            if v.get("ref"):
                fr.vars[v["id"]] = el
            else:
                vt = ptype(fr.types[v["t"]])
                oid = self.alloc(vt, v["name"])
                fr.vars[v["id"]] = Ptr(oid)
                self.copy_obj(Ptr(oid), el, vt)
            self.exec(s["b"], fr)
            for x in lp["cont"]:
                self.st = self.merge(self.st, x) if self.st.pc is not False else x
            lp["cont"] = []
        fr.loops.pop()
        for x in lp["brk"]:
            self.st = self.merge(self.st, x) if self.st.pc is not False else x

    def s_switch(self, s, fr):
        if s.get("init"):
            self.exec(s["init"], fr)
        v = self.ev(s["c"], fr)
        if self.st.pc is False:
            return
        entry = self.st
        # flatten labels
        items = []

        def flat(x):
            if x is None:
                return
            if x["k"] in ("case", "default"):
                items.append(x)
                flat(x["b"])
            elif x["k"] == "blk" and False:
                pass
            else:
                items.append(x)
        for x in (s["b"]["b"] if s["b"]["k"] == "blk" else [s["b"]]):
            flat(x)
        matches = {}
        anym = False
        for x in items:
            if x["k"] == "case":
                k = self.ev(x["v"], fr)
                c = self.compare("==", v, k)
                matches[id(x)] = c
                anym = or_(anym, c)
        lp = {"brk": [], "cont": [], "loop": False}
        fr.loops.append(lp)
        self.st = State({}, False)
        has_default = False
        for x in items:
            if x["k"] in ("case", "default"):
                c = matches[id(x)] if x["k"] == "case" else not_(anym)
                has_default |= x["k"] == "default"
                pc = and_(entry.pc, c)
                if pc is not False and self.feas(and_(self.outer, pc)):
                    e = entry.fork(pc)
                    self.st = self.merge(self.st, e) if self.st.pc is not False else e
            else:
                self.exec(x, fr)
        fr.loops.pop()
        if not has_default:
            pc = and_(entry.pc, not_(anym))
            if pc is not False and self.feas(and_(self.outer, pc)):
                e = entry.fork(pc)
                self.st = self.merge(self.st, e) if self.st.pc is not False else e
        for x in lp["brk"]:
            self.st = self.merge(self.st, x) if self.st.pc is not False else x

    def s_try(self, s, fr):
        n = len(self.throws)
        outer = self.outer
        base = self.st
        self.exec(s["b"], fr)
        caught = self.throws[n:]
        del self.throws[n:]
        after = self.st
        hs = State({}, False)
        for t in caught:
            pc = t.pc
            if outer is not True:
                pc = dd.constrain(pc, outer)
            x = State(dict(t.mem), pc)
            hs = self.merge(hs, x) if hs.pc is not False else x
        if hs.pc is not False:
            h = s["h"][0]
            if len(s["h"]) > 1 or (h.get("t") is not None and "exception" not in fr.types[h["t"]] and
                                   "error" not in fr.types[h["t"]]):
                self.undecided("multiple/unknown catch handlers")
            self.rethrow = caught
            self.st = hs
            self.exec(h["b"], fr)
            hs = self.st
        self.st = self.merge(after, hs) if hs.pc is not False and after.pc is not False else (after if hs.pc is False else hs)

    # ---------------------------------------------------------------------------- lvalues
    def lv(self, e, fr):
        k = e["k"]
        if k == "var":
            v = fr.vars.get(e["id"])
            if v is None:
                return self.top("variable %s" % e["name"])
            return v
        if k == "gvar":
            return self.global_loc(e, fr)
        if k == "mem":
            b = self.ev(e["b"], fr) if e["arrow"] else self.lv(e["b"], fr)
            l = self.sub(b, e["f"])
            if e.get("ref"):
                return self.load(l)
            return l
        if k == "idx":
            b = self.ev(e["b"], fr)
            i = self.ev(e["i"], fr)
            if ptype(fr.types[e["b"]["t"]]).k in ("int",):
                b, i = i, b
            return self.ptr_add(b, i)
        if k == "un":
            op = e["op"]
            if op == "*":
                return self.ev(e["e"], fr)
            if op in ("++", "--") and not e["post"]:
                self.ev(e, fr)
                return self.lv(e["e"], fr)
        if k == "mat":
            t = ptype(fr.types[e["t"]])
            if t.k == "ref" and t.name != "bit":
                t = t.elem
            if t.k == "ref" and t.name == "bit":
                return self.lv(e["e"], fr)
            oid = self.alloc(t, "tmp")
            self.init_into(Ptr(oid), t, e["e"], fr)
            return Ptr(oid)
        if k == "call":
            return self.call(e, fr)
        if k == "cast":
            ck = e["ck"]
            if ck in ("UncheckedDerivedToBase", "DerivedToBase", "BaseToDerived", "LValueBitCast"):
                return self.lv(e["e"], fr)
            if ck == "ArrayToPointerDecay":
                return self.lv(e["e"], fr)
            return self.ev(e, fr)
        if k == "cond":
            c = self.ev(e["c"], fr)
            return self.branch(c, lambda: self.lv(e["a"], fr), lambda: self.lv(e["b"], fr))
        if k == "bin":
            if e["op"] == "=":
                self.ev(e, fr)
                return self.lv(e["l"], fr)
            if e["op"] == ",":
                self.discard(e["l"], fr)
                return self.lv(e["r"], fr)
        if k == "casg":
            self.ev(e, fr)
            return self.lv(e["l"], fr)
        if k == "ld":
            return self.ev(e, fr)
        if k in ("ctor", "ilist", "zero", "lambda"):
            t = ptype(fr.types[e["t"]])
            oid = self.alloc(t, "tmp")
            self.init_into(Ptr(oid), t, e, fr)
            return Ptr(oid)
        if k == "str":
            oid = self.alloc(T("str"), "strlit")
            self.write1(oid, (), Str((e["v"],)))
            return Ptr(oid)
        if k == "stdil":
            t = ptype(fr.types[e["t"]])
            oid = self.alloc(t, "tmp")
            self.init_into(Ptr(oid), t, e["e"], fr)
            return Ptr(oid)
        if k == "val":
            return e["p"]
        if k == "this":
            return fr.this
        if k == "fref":
            oid = self.alloc(T("fnobj"), "fref")
            self.write1(oid, (), self.ev(e, fr))
            return Ptr(oid)
        if k == "throw":
            self.ev(e, fr)
            return Top("throw")
        return self.top("lvalue %s %s" % (k, e.get("cls", "")))

    def global_loc(self, e, fr):
        n = e["name"]
        if n in self.gobj:
            o = self.gobj[n]
            if o not in self.st.mem:
                self.st.mem[o] = {}
            return Ptr(o)
        g = self.prog.globals.get(n)
        if g is None:
            k = std_constant(n)
            if k is not None:
                oid = self.alloc(T("int"), n, default=lambda p, k=k: P(k))
                self.gobj[n] = oid
                return Ptr(oid)
            t = ptype(fr.types[e["t"]])
            oid = self.alloc(t, n, default=lambda p, n=n: Top("global " + n))
            self.gobj[n] = oid
            return Ptr(oid)
        t = ptype(g["_types"][g["t"]])
        oid = self.alloc(t, n, kind="auto")
        self.gobj[n] = oid
        if g.get("init") and (g["const"]):
            f2 = Frame({"file": g["file"], "q": n}, g["_types"])
            saved = self.st
            self.init_into(Ptr(oid), t, g["init"], f2)
            vals = dict(self.st.mem.get(oid, {}))
            self.objs[oid].default = lambda p, vals=vals: vals.get(p)
        else:
            self.objs[oid].default = lambda p, n=n: Top("mutable global " + n)
            self.objs[oid].kind = "global"
        return Ptr(oid)

    def flat(self, p):
        """place of an element counted through all rows of an array of arrays: key of the array, number, sizes"""
        n, dims, path = 0, [], p.path
        while path and isinstance(path[-1], int):
            t = self.type_at(p.obj, path[:-1])
            if t is None or t.k != "arr" or t.n is None or (dims and t.name is not None):
                break
            dims.append(t.n)
            path = path[:-1]
        size = 1
        for d, i in zip(dims, reversed(p.path)):
            n += i * size
            size *= d
        return (p.obj, path, len(dims)), n, dims

    def through(self, p, k):
        """p + k where that is an element of another row, else None"""
        key, n, dims = self.flat(p)
        if len(dims) < 2 or 0 <= p.path[-1] + k < dims[0]:
            return None
        n += k
        size = 1
        for d in dims:
            size *= d
        if not 0 <= n < size:
            if n == size:
                q = key[1] + tuple(d - 1 for d in reversed(dims))
                q = q[:-1] + (dims[0],)
                self.past.add((p.obj, q))
                return Ptr(p.obj, q)
            return None
        idx = []
        for d in dims:
            idx.append(n % d)
            n //= d
        return Ptr(p.obj, key[1] + tuple(reversed(idx)))

    def between(self, a, b):
        """the elements from a to b, or None"""
        if a.__class__ is not Ptr or b.__class__ is not Ptr or a.obj != b.obj or not a.path or not isinstance(a.path[-1], int):
            return None
        ka, na, da = self.flat(a)
        kb, nb, db = self.flat(b)
        if da and ka == kb:
            n = nb - na
        elif a.path[:-1] == b.path[:-1] and isinstance(b.path[-1], int):
            n = b.path[-1] - a.path[-1]
        else:
            return None
        return self.elements(a, n)

    def elements(self, a, n):
        if a.__class__ is not Ptr or n < 0 or n > 4096:
            return None
        if not a.path or not isinstance(a.path[-1], int):
            return [a] if n == 1 else [] if n == 0 else None
        out = []
        for i in range(n):
            x = self.through(a, i) or Ptr(a.obj, a.path[:-1] + (a.path[-1] + i,))
            out.append(x)
        return out

    def ptr_add(self, b, i):
        def outside(p, k):
            """the element does not exist; False, or its description"""
            if k.__class__ is bool:
                k = P(k)
            if p.__class__ is Ptr and k.__class__ is Poly and k.is_const() and p.path and isinstance(p.path[-1], int):
                j = p.path[-1] + int(k.const())
                t = self.type_at(p.obj, p.path[:-1])
                if t is not None and t.k == "arr" and t.n is not None and not (0 <= j <= t.n):
                    return "index %d outside %s" % (j, self.name_of(p.obj, p.path[:-1]))
            return False

        def f(p, k):
            if k.__class__ is bool:
                k = P(k)
            if p.__class__ is Ptr and k.__class__ is Poly:
                if k.is_const():
                    q = self.through(p, int(k.const()))
                    if q is not None:
                        return q
                    n = int(k.const())
                    if n == 0 and (not p.path or not isinstance(p.path[-1], int)):
                        return p
                    if p.path and isinstance(p.path[-1], int):
                        j = p.path[-1] + n
                        t = self.type_at(p.obj, p.path[:-1])
                        if t is not None and t.k == "arr" and t.n is not None and not (0 <= j < t.n):
                            if j != t.n:
                                bad.append((p, outside(p, k)))
                                return Top("out of bounds")
                            self.past.add((p.obj, p.path[:-1] + (j,)))
                        return Ptr(p.obj, p.path[:-1] + (j,))
                    return Top("pointer arithmetic")
                return Top("symbolic index %r" % (k,))
            if p.__class__ is Undef:
                self.event("undef", "pointer %r" % (p,))
                return p
            if k.__class__ is Undef:
                self.event("undef", "index %r" % (k,))
            return Top("index of %r" % (p,))
        bad = []
        r = apply2(f, b, i)
        if bad:
            # a pointer into a row of a larger array may be meant to run through all of it
            row = any(any(isinstance(x, int) for x in p.path[:-1]) for p, _ in bad)
            self.event("row" if row else "oob", bad[0][1], self.here(apply2(lambda p, k: bool(outside(p, k)), b, i)))
        return r

    # ---------------------------------------------------------------------------- initialisation
    def init_into(self, loc, t, e, fr):
        """initialise the (single) location with the expression"""
        if e is None:
            return
        k = e["k"]
        if t.k == "ref":
            return self.store(loc, self.lv(e, fr))
        if k == "stdil":
            return self.init_into(loc, t, e["e"], fr)
        if k == "mat" and t.k not in SCALAR:
            return self.init_into(loc, t, e["e"], fr)
        if k == "zero":
            return self.zero(loc, t)
        if k == "ilist":
            return self.init_list(loc, t, e, fr)
        if k == "ctor":
            return self.construct(loc, t, e, fr)
        if k == "arrcopy":
            return self.copy_obj(loc, self.lv(e["e"], fr), t)
        if t.k in SCALAR:
            if t.k == "str" and k in ("call", "cond", "cast", "ld", "bin"):
                v = self.ev(e, fr)
                return self.store(loc, self.as_str(v))
            v = self.ev(e, fr)
            if t.k == "bool":
                v = self.tobool(v) if not self._boolish(v) else v
            self.store(loc, v)
            return
        if k == "str" and t.k == "arr":
            return
        if k == "cond":
            c = self.ev(e["c"], fr)
            self.branch(c, lambda: self.init_into(loc, t, e["a"], fr), lambda: self.init_into(loc, t, e["b"], fr))
            return
        if k == "lambda":
            return self.store(loc, self.ev(e, fr))
        if k == "throw":
            self.ev(e, fr)
            return
        src = self.lv(e, fr)
        if self.st.pc is False:
            return
        if src.__class__ is Top:
            return self.havoc(loc, src.why)
        self.copy_obj(loc, src, t)

    def _boolish(self, v):
        return all(x is True or x is False or x.__class__ in (Undef, Top) for x in dd.leaves(v))

    def zero(self, loc, t):
        if t.k in ("int", "flt", "cplx"):
            self.store(loc, num.ZERO)
        elif t.k == "bool":
            self.store(loc, False)
        elif t.k in ("ptr", "fn", "fnobj"):
            self.store(loc, NULL)
        elif t.k == "str":
            self.store(loc, Str(()))
        elif t.k == "arr" and t.n is not None:
            for i in range(t.n):
                self.zero(self.sub(loc, i), t.elem)
        elif t.k == "vec":
            self.store(self.sub(loc, "#n"), num.ZERO)
        elif t.k == "cls" and t.name in self.prog.records:
            for c in self.linear(t.name):
                r = self.prog.records.get(c)
                for f in (r["fields"] if r else ()):
                    self.zero(self.sub(loc, f["n"]), ptype(r["_types"][f["t"]]))

    def init_list(self, loc, t, e, fr):
        es = e["e"]
        if e.get("transparent") and len(es) == 1:
            return self.init_into(loc, t, es[0], fr)
        if t.k == "arr":
            if t.name == "std::array" and len(es) == 1 and es[0]["k"] == "ilist" and \
                    ptype(fr.types[es[0]["t"]]).k == "arr" and ptype(fr.types[es[0]["t"]]).name != "std::array":
                return self.init_list(loc, t, es[0], fr)
            if t.name == "std::array" and not es:
                return self.zero(loc, t)
            n = t.n if t.n is not None else len(es)
            if t.n is None and loc.__class__ is Ptr:
                self.objs[loc.obj].t = T("arr", t.elem, n, s=t.s)
            for i in range(n):
                el = self.sub(loc, i)
                if i < len(es):
                    self.init_into(el, t.elem, es[i], fr)
                elif e.get("filler"):
                    self.init_into(el, t.elem, e["filler"], fr)
                else:
                    self.zero(el, t.elem)
            return
        if t.k == "vec":
            for i, x in enumerate(es):
                self.init_into(self.sub(loc, i), t.elem, x, fr)
            self.store(self.sub(loc, "#n"), P(len(es)))
            return
        if t.k == "cls" and t.name in self.prog.records:
            fs = []
            for c in self.linear(t.name):
                r = self.prog.records.get(c)
                fs += [(f["n"], ptype(r["_types"][f["t"]])) for f in (r["fields"] if r else ())]
            for i, (n, ft) in enumerate(fs):
                if i < len(es):
                    self.init_into(self.sub(loc, n), ft, es[i], fr)
                else:
                    self.zero(self.sub(loc, n), ft)
            return
        if t.k in SCALAR:
            if not es:
                return self.zero(loc, t)
            return self.init_into(loc, t, es[0], fr)
        self.undecided("init list for %s" % t.s)
        self.havoc(loc, "init list")

    def construct(self, loc, t, e, fr):
        cls = e["cls"]
        fn = e["fn"]
        et = ptype(fr.types[e["t"]])
        if et.k == "arr" and et.name != "std::array":
            if et.n is None:
                return self.undecided("array of unknown size")
            for i in range(et.n):
                sub = dict(e)
                sub["_elem"] = True
                self._construct1(self.sub(loc, i), et.elem, sub, fr)
            return
        self._construct1(loc, et, e, fr)

    def _construct1(self, loc, t, e, fr):
        if t.k == "arr" and t.name != "std::array":
            for i in range(t.n or 0):
                self._construct1(self.sub(loc, i), t.elem, e, fr)
            return
        fn = e["fn"]
        cls = e["cls"]
        if cls in self.models:
            args = self.eval_args(fn, e["args"], fr)
            if self.st.pc is False:
                return
            return self.models[cls].construct(self, loc, fn, args)
        if fn["key"] in self.prog.functions:
            args = self.eval_args(fn, e["args"], fr)
            if self.st.pc is False:
                return
            self.call_fn(self.prog.functions[fn["key"]], loc, args)
            return
        if t.k in ("int", "flt", "cplx", "fnobj", "str", "stream", "vec", "arr", "std", "tup", "ptr"):
            return self.std_construct(loc, t, e, fr)
        if cls in self.prog.records:
            if fn.get("copy"):
                src = self.lv(e["args"][0], fr)
                return self.copy_obj(loc, src, t)
            if not e["args"]:
                return self.default_init(loc, cls, bool(e.get("zinit")))
        self.undecided("constructor %s" % fn["key"])
        self.havoc(loc, "constructor %s" % fn["key"])

    def default_init(self, loc, cls, zinit=False):
        r = self.prog.records[cls]
        if zinit:
            self.zero(loc, T("cls", name=cls))
        for b in r["bases"]:
            self.default_ctor(loc, b)
        f2 = Frame({"file": r["file"], "q": cls}, r["_types"], loc)
        for f in r["fields"]:
            ft = ptype(r["_types"][f["t"]])
            if f.get("init"):
                self.init_into(self.sub(loc, f["n"]), ft, f["init"], f2)
            else:
                self.default_of(self.sub(loc, f["n"]), ft)

    def default_of(self, loc, t):
        if t.k == "cls":
            self.default_ctor(loc, t.name)
        elif t.k == "arr":
            for i in range(t.n or 0):
                self.default_of(self.sub(loc, i), t.elem)
        elif t.k in ("cplx", "str", "vec", "fnobj"):
            self.zero(loc, t)

    def default_ctor(self, loc, cls):
        if cls in self.models:
            return self.models[cls].construct(self, loc, {"key": cls + "()", "pt": [], "q": cls}, [])
        r = self.prog.records.get(cls)
        if r is None:
            return
        for m in r["methods"]:
            if m["ctor"] and not m["params"] and m["key"] in self.prog.functions:
                return self.call_fn(self.prog.functions[m["key"]], loc, [])
        self.default_init(loc, cls)

    # ---------------------------------------------------------------------------- calls
    def eval_args(self, fn, args, fr):
        out = []
        pts = fn.get("pt", [])
        for i, a in enumerate(args):
            t = ptype(fr.types[pts[i]]) if i < len(pts) else None
            if t is not None and t.k == "ref":
                out.append(self.lv(a, fr))
            elif t is not None and t.k not in SCALAR:
                oid = self.alloc(t, "arg")
                self.init_into(Ptr(oid), t, a, fr)
                out.append(Ptr(oid))
            elif t is not None and t.k == "str":
                out.append(self.as_str(self.ev(a, fr)))
            else:
                out.append(self.ev(a, fr))
            if self.st.pc is False:
                break
        return out

    def resolve_virtual(self, fn, obj):
        """dynamic dispatch on the object's class"""
        p = None
        for x in dd.leaves(obj):
            if x.__class__ is Ptr:
                p = x
                break
        if p is None:
            return fn["key"]
        t = self.type_at(p.obj, p.path)
        if t is None or t.k != "cls":
            return fn["key"]
        want = fn["key"]
        name = fn["q"].rsplit("::", 1)[1]
        sig = want[want.index("("):]
        for c in reversed(self.linear(t.name)):
            r = self.prog.records.get(c)
            if not r:
                continue
            for m in r["methods"]:
                if m["n"] == name and m["key"][m["key"].index("("):] == sig:
                    return m["key"]
        return want

    def call(self, e, fr):
        self.tick()
        self.stack.append((fr, e.get("L", "?")))
        try:
            return self._call(e, fr)
        finally:
            self.stack.pop()

    def _call(self, e, fr):
        fn = e.get("fn")
        if fn is None:
            f = self.ev(e["callee"], fr)
            return self.call_value(f, e, fr)
        obj = None
        if "obj" in e:
            obj = self.ev(e["obj"], fr) if e.get("arrow") else self.lv(e["obj"], fr)
        if self.st.pc is False:
            return Top("dead")
        key = fn["key"]
        if obj is not None and fn.get("virt") and not e.get("qual"):
            key = self.resolve_virtual(fn, obj)
        q = fn["q"]
        if key in self.overrides or q in self.overrides:
            h = self.overrides.get(key) or self.overrides.get(q)
            args = self.eval_args(fn, e["args"], fr)
            if self.st.pc is False:
                return Top("dead")
            return h(self, obj, args, fn)
        cls = fn.get("cls")
        if cls in self.models and obj is not None:
            args = self.eval_args(fn, e["args"], fr)
            if self.st.pc is False:
                return Top("dead")
            return self.models[cls].call(self, obj, fn, args)
        if cls is not None and "(lambda" in cls and obj is not None:
            return self.call_value(self.load(obj), e, fr)
        if key in self.prog.functions:
            args = self.eval_args(fn, e["args"], fr)
            if self.st.pc is False:
                return Top("dead")
            return self.call_fn(self.prog.functions[key], obj, args)
        if fn.get("copyassign") and obj is not None and cls in self.prog.records:
            src = self.lv(e["args"][0], fr)
            t = T("cls", name=cls)
            if src.__class__ is Top:
                self.havoc(obj, src.why)
            elif obj.__class__ is Ptr:
                # copy through a temporary to be safe with overlapping
                self.copy_obj(obj, src, t)
            else:
                self.havoc(obj, "gated assignment")
            return obj
        return self.builtin(fn, obj, e, fr)

    def call_value(self, f, e, fr):
        args = None
        if f.__class__ is Closure:
            if f.kind == "fn":
                fn = f.ref_fn
            if f.kind == "lambda":
                node, env, this, types, file = f.ref, f.env["vars"], f.env["this"], f.env["types"], f.env["file"]
                if "body" not in node:
                    return self.wreck("generic lambda")
                nf = Frame({"file": "", "q": "lambda"}, types, this)
                nf.file = file
                nf.vars.update(env)
                for p, a in zip(node["params"], e["args"]):
                    t = ptype(types[p["t"]])
                    if t.k == "ref":
                        nf.vars[p["id"]] = self.lv(a, fr)
                    else:
                        oid = self.alloc(t, p["name"])
                        self.init_into(Ptr(oid), t, a, fr)
                        nf.vars[p["id"]] = Ptr(oid)
                return self.run_body(nf, ptype(types[node["ret"]]), node["body"])
            if f.kind == "opaque":
                return f.ref(self, [self.ev(a, fr) for a in e["args"]])
        if f.__class__ is Obj and f.tag == "fnref":
            key = f.data
            if key in self.prog.functions:
                fn = self.prog.functions[key]
                fake = {"pt": [p["t"] for p in fn["params"]]}
                vals = []
                for p, a in zip(fn["params"], e["args"]):
                    t = ptype(fn["_types"][p["t"]])
                    if t.k == "ref":
                        vals.append(self.lv(a, fr))
                    elif t.k not in SCALAR:
                        oid = self.alloc(t, "arg")
                        self.init_into(Ptr(oid), t, a, fr)
                        vals.append(Ptr(oid))
                    else:
                        vals.append(self.ev(a, fr))
                return self.call_fn(fn, None, vals)
        if f.__class__ is Ite:
            # gated function value
            st0 = self.st
            c = dd.var(dd.cond_by_id(f.v))
            return self.branch(c, lambda: self.call_value(dd.cof(f, f.v, True), e, fr),
                               lambda: self.call_value(dd.cof(f, f.v, False), e, fr))
        for a in e["args"]:
            self.ev(a, fr)
        return self.wreck("call of unknown function value")

    def call_fn(self, fn, this, args):
        if len(self.stack) > MAX_DEPTH * 3:
            return self.wreck("call depth")
        if self.call_hook:
            self.call_hook(self, fn, this, args)
        ov = self.overrides.get(fn["key"])
        types = fn["_types"]
        fr = Frame(fn, types, this)
        for p, a in zip(fn["params"], args):
            t = ptype(types[p["t"]])
            if t.k == "ref":
                fr.vars[p["id"]] = a
            elif t.k in SCALAR:
                oid = self.alloc(t, p["name"])
                self.write1(oid, (), a)
                fr.vars[p["id"]] = Ptr(oid)
            else:
                fr.vars[p["id"]] = a
        self.stack.append((fr, fn["line"]))
        try:
            if fn.get("ctor"):
                self.ctor_inits(fn, fr, this)
                if self.st.pc is False:
                    return VOID
                return self.run_body(fr, ptype("void"), fn["body"])
            return self.run_body(fr, ptype(types[fn["ret"]]), fn["body"])
        finally:
            self.stack.pop()

    def ctor_inits(self, fn, fr, this):
        cls = fn["cls"]
        for i in fn.get("inits", []):
            if self.st.pc is False:
                return
            self.stack.append((fr, i["L"]))
            try:
                if "f" in i:
                    t = None
                    for c in self.linear(cls):
                        r = self.prog.records.get(c)
                        for f in (r["fields"] if r else ()):
                            if f["n"] == i["f"]:
                                t = ptype(r["_types"][f["t"]])
                    if t is None:
                        self.undecided("field %s" % i["f"])
                        continue
                    self.init_into(self.sub(this, i["f"]), t, i["e"], fr)
                elif "base" in i:
                    bt = ptype(i["base"])
                    if i["e"]["k"] == "ctor":
                        self._construct1(this, bt, i["e"], fr)
                elif i.get("deleg"):
                    self._construct1(this, ptype(cls), i["e"], fr)
            finally:
                self.stack.pop()

    def run_body(self, fr, ret_t, body):
        fr.ret_t = ret_t
        if ret_t.k not in SCALAR and ret_t.k not in ("ref", "void"):
            fr.ret_loc = Ptr(self.alloc(ret_t, "ret"))
        saved_pc = self.st.pc
        saved_outer = self.outer
        self.outer = and_(saved_outer, saved_pc)
        self.st.pc = True
        first = len(self.objs)
        try:
            self.exec(body, fr)
        finally:
            self.outer = saved_outer
        if self.st.pc is not False:
            fr.rets.append((self.st.pc, self.st, VOID if fr.ret_loc is None else fr.ret_loc))
        if not fr.rets:
            self.st = State({}, False)
            return Top("no return")
        pc, st, v = fr.rets[-1]
        for pc2, st2, v2 in reversed(fr.rets[:-1]):
            tot = or_(pc2, st.pc)
            g = pc2 if tot is True else dd.constrain(pc2, tot)
            v = v2 if v2 is v else ite(g, v2, v)
            st = self.merge(st2, st)
        self.st = st if st.pc is not True or True else st
        self.st = State(st.mem, and_(saved_pc, st.pc))
        if ret_t.k in ("ref", "ptr"):
            def gone(x):
                return x.__class__ is Ptr and x.obj >= first and self.objs[x.obj].kind == "local"
            for x in dd.leaves(v):
                if gone(x):
                    self.event("dangling", "returns the address of local %s" % self.name_of(x.obj, x.path), self.here(apply1(gone, v)))
                    break
        return v

    # ---------------------------------------------------------------------------- rvalues
    def ev(self, e, fr):
        if e is None:
            return VOID
        self.tick()
        return getattr(self, "e_" + e["k"], self.e_unsupported)(e, fr)

    def e_unsupported(self, e, fr):
        return self.wreck("expression %s" % e.get("cls", e["k"]))

    def e_int(self, e, fr):
        return P(int(e["v"]))

    def e_flt(self, e, fr):
        v = num.parse_float(e["v"], e["x"])
        if 3 < v < 4 and abs(v - _PI_Q) < Fraction(1, 10 ** 14):
            return num.PI
        return P(v)

    def e_imag(self, e, fr):
        return apply1(lambda x: num.mul(num.IMAG, x) if x.__class__ is Poly else x, self.ev(e["e"], fr))

    def e_bool(self, e, fr):
        return bool(e["v"])

    def e_null(self, e, fr):
        return NULL

    def e_str(self, e, fr):
        return Str((e["v"],))

    def e_var(self, e, fr):
        return self.lv(e, fr)

    e_gvar = e_mem = e_idx = e_mat = e_var

    def e_this(self, e, fr):
        return fr.this

    def e_fref(self, e, fr):
        return Obj("fnref", e["fn"]["key"])

    def e_ld(self, e, fr):
        l = self.lv(e["e"], fr)
        if self.st.pc is False:
            return Top("dead")
        self.stack.append((fr, e.get("L", "?")))
        try:
            v = self.load(l)
            self.note_undef(v)
        finally:
            self.stack.pop()
        return v

    def note_undef(self, v):
        if v.__class__ is Undef:
            self.event("undef", v.what)
        elif v.__class__ is Ite:
            for x in dd.leaves(v):
                if x.__class__ is Undef:
                    pc = apply1(lambda y: y.__class__ is Undef, v)
                    full = and_(and_(self.outer, self.st.pc), pc)
                    if full is not False and self.feas(full):
                        self.event("undef", x.what, full)
                    break

    def e_lambda(self, e, fr):
        env = {}
        for c in e["caps"]:
            if c.get("this") or "id" not in c:
                continue
            l = fr.vars.get(c["id"])
            if l is None:
                continue
            if c.get("byref"):
                env[c["id"]] = l
            else:
                t = None
                if l.__class__ is Ptr:
                    t = self.type_at(l.obj, l.path)
                if t is None:
                    env[c["id"]] = l
                    continue
                oid = self.alloc(t, c["name"])
                self.copy_obj(Ptr(oid), l, t)
                env[c["id"]] = Ptr(oid)
        return Closure("lambda", e, {"vars": env, "this": fr.this, "types": fr.types, "file": fr.file})

    def e_throw(self, e, fr):
        what = "?"
        if e.get("e"):
            what = fr.types[e["e"]["t"]]
        else:
            for t in getattr(self, "rethrow", []):
                what = t.what
        self.stack.append((fr, e.get("L", "?")))
        self.throws.append(Throw(and_(self.outer, self.st.pc), what, self.where(), self.st.snapshot(),
                                 [(f.fn.get("q", "?") if f.fn else "?", l) for f, l in self.stack]))
        self.stack.pop()
        self.st = State({}, False)
        return Top("throw")

    def e_new(self, e, fr):
        t = ptype(fr.types[e["at"]])
        if e.get("n"):
            return self.top("new[]")
        oid = self.alloc(t, "heap")
        if e.get("init"):
            self.init_into(Ptr(oid), t, e["init"], fr)
        return Ptr(oid)

    def e_delete(self, e, fr):
        self.ev(e["e"], fr)
        return VOID

    def e_zero(self, e, fr):
        t = ptype(fr.types[e["t"]])
        if t.k == "bool":
            return False
        if t.k in ("ptr", "fn"):
            return NULL
        if t.k in ("int", "flt", "cplx"):
            return num.ZERO
        oid = self.alloc(t, "tmp")
        self.zero(Ptr(oid), t)
        return Ptr(oid)

    def e_ilist(self, e, fr):
        t = ptype(fr.types[e["t"]])
        if t.k in SCALAR:
            if not e["e"]:
                return self.e_zero(e, fr)
            return self.ev(e["e"][0], fr)
        return self.lv(e, fr)

    def e_stdil(self, e, fr):
        return self.ev(e["e"], fr)

    def e_val(self, e, fr):
        """an argument that is already known: the object at a place"""
        return self.deref(e["p"])

    def e_ctor(self, e, fr):
        t = ptype(fr.types[e["t"]])
        oid = self.alloc(t, "tmp")
        self.construct(Ptr(oid), t, e, fr)
        if t.k in SCALAR:
            return self.read1(oid, ())
        return Ptr(oid)

    def e_call(self, e, fr):
        t = ptype(fr.types[e["t"]])
        v = self.call(e, fr)
        return v

    def e_cond(self, e, fr):
        c = self.ev(e["c"], fr)
        if self.st.pc is False:
            return Top("dead")
        return self.branch(c, lambda: self.ev(e["a"], fr), lambda: self.ev(e["b"], fr))

    def e_cast(self, e, fr):
        ck = e["ck"]
        if ck == "ArrayToPointerDecay":
            inner = e["e"]
            if inner["k"] == "str":
                return Str((inner["v"],))
            l = self.lv(inner, fr)
            return self.sub(l, 0)
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return self.ev(e["e"], fr)
        if ck in ("UncheckedDerivedToBase", "DerivedToBase", "BaseToDerived", "BitCast", "LValueBitCast", "Dynamic",
                  "ToVoid"):
            return self.ev(e["e"], fr)
        if ck == "NullToPointer":
            return NULL
        v = self.ev(e["e"], fr)
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.tobool(v)
        if ck == "FloatingToIntegral":
            def f(x):
                if x.__class__ is Poly:
                    if x.is_const():
                        c = Fraction(x.const())
                        return P(int(c))
                    return num.fn("trunc", x, integer=True)
                return x
            return apply1(f, v)
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingCast", "FloatingRealToComplex", "IntegralRealToComplex",
                  "BooleanToSignedIntegral"):
            return apply1(lambda x: P(x) if x.__class__ is bool else x, v)
        return v

    def e_un(self, e, fr):
        op = e["op"]
        if op == "&":
            if e["e"]["k"] == "fref":
                return self.ev(e["e"], fr)
            return self.lv(e["e"], fr)
        if op == "*":
            return self.lv(e, fr)
        if op in ("++", "--"):
            l = self.lv(e["e"], fr)
            v = self.load(l)
            d = 1 if op == "++" else -1
            t = ptype(fr.types[e["t"]])
            if t.k == "ref":
                t = t.elem
            if t.k == "ptr":
                nv = self.ptr_add(v, P(d))
            else:
                nv = self.arith("+", v, P(d))
            self.store(l, nv)
            return v if e["post"] else nv
        v = self.ev(e["e"], fr)
        if op == "-":
            return apply1(self.l_neg, v)
        if op == "+":
            return v
        if op == "!":
            return not_(self.tobool(v))
        if op == "~":
            return apply1(lambda x: P(-int(x.const()) - 1) if x.__class__ is Poly and x.is_const() else Top("~"), v)
        return self.top("unary " + op)

    def l_neg(self, x):
        if x.__class__ is Poly:
            return -x
        if x.__class__ is bool:
            return P(-int(x))
        if x.__class__ is dd.InfT:
            return dd.InfT(-x.sign)
        return x

    def e_bin(self, e, fr):
        op = e["op"]
        if op == "=":
            t = ptype(fr.types[e["t"]])
            v = self.ev(e["r"], fr)
            if self.st.pc is False:
                return Top("dead")
            l = self.lv(e["l"], fr)
            self.store(l, v)
            return v
        if op == ",":
            self.discard(e["l"], fr)
            return self.ev(e["r"], fr)
        if op in ("&&", "||"):
            a = self.tobool(self.ev(e["l"], fr))
            if self.st.pc is False:
                return Top("dead")
            if op == "&&":
                return self.branch(a, lambda: self.tobool(self.ev(e["r"], fr)), lambda: False)
            return self.branch(a, lambda: True, lambda: self.tobool(self.ev(e["r"], fr)))
        a = self.ev(e["l"], fr)
        b = self.ev(e["r"], fr)
        if self.st.pc is False:
            return Top("dead")
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(op, a, b)
        t = ptype(fr.types[e["t"]])
        if t.k == "ptr":
            if op == "-":
                b = apply1(self.l_neg, b)
            if ptype(fr.types[e["l"]["t"]]).k == "int":
                a, b = b, a
            return self.ptr_add(a, b)
        if op == "-" and t.k == "int" and a.__class__ is Ptr and b.__class__ is Ptr:
            return self.distance(b, a)
        return self.arith(op, a, b, t.k == "int")

    def distance(self, a, b):
        if a.obj == b.obj and a.path[:-1] == b.path[:-1] and a.path and isinstance(a.path[-1], int) and isinstance(b.path[-1], int):
            return P(b.path[-1] - a.path[-1])
        (ka, i, da), (kb, j, db) = self.flat(a), self.flat(b)
        if ka == kb and da:
            return P(j - i)
        return Top("pointer difference")

    def e_casg(self, e, fr):
        op = e["op"][:-1]
        l = self.lv(e["l"], fr)
        r = self.ev(e["r"], fr)
        if self.st.pc is False:
            return Top("dead")
        v = self.load(l)
        self.note_undef(v)
        t = ptype(fr.types[e["ct"]])
        if t.k == "ptr":
            nv = self.ptr_add(v, r if op == "+" else apply1(self.l_neg, r))
        else:
            nv = self.arith(op, v, r, t.k == "int")
            lt = ptype(fr.types[e["l"]["t"]])
            if lt.k == "bool":
                nv = self.tobool(nv)
        self.store(l, nv)
        return l if ptype(fr.types[e["t"]]).k not in SCALAR else nv

    # ---------------------------------------------------------------------------- arithmetic
    def arith(self, op, a, b, integer=False):
        def f(x, y):
            for z in (x, y):
                if z.__class__ is Undef:
                    return z
            for z in (x, y):
                if z.__class__ is Top:
                    return z
            if x is NAN or y is NAN:
                return NAN
            if x.__class__ is dd.InfT or y.__class__ is dd.InfT:
                return self.inf_arith(op, x, y)
            if x.__class__ is bool:
                x = P(x)
            if y.__class__ is bool:
                y = P(y)
            if x.__class__ is not Poly or y.__class__ is not Poly:
                return Top("arithmetic %s on %r" % (op, type(x).__name__))
            try:
                return self.arith1(op, x, y, integer)
            except num.TooBig:
                return Top("term too large")
        return apply2(f, a, b)

    def inf_arith(self, op, x, y):
        I = dd.InfT

        def sign(z):
            if z.__class__ is I:
                return z.sign
            if z.__class__ is Poly:
                if not z.d:
                    return 0
                if num.strictly_positive(z):
                    return 1
                if num.strictly_positive(-z):
                    return -1
            return None
        if op in "+-":
            ys = y.sign * (-1 if op == "-" else 1) if y.__class__ is I else 0
            if x.__class__ is I:
                return NAN if ys == -x.sign else x
            return dd.INF if ys > 0 else dd.MINF
        if op == "/" and y.__class__ is I:
            return NAN if x.__class__ is I else num.ZERO
        s, t = sign(x), sign(y)
        if op in "*/" and s is not None and t is not None:
            if s == 0 or t == 0:
                return NAN if op == "*" else dd.INF
            return dd.INF if s * t > 0 else dd.MINF
        return Top("infinite value")

    def arith1(self, op, x, y, integer):
        if op == "+":
            return x + y
        if op == "-":
            return x - y
        if op == "*":
            return num.mul(x, y)
        if op == "/":
            if integer:
                if x.is_const() and y.is_const() and y.const() != 0:
                    q = abs(int(x.const())) // abs(int(y.const()))
                    return P(q if (x.const() < 0) == (y.const() < 0) else -q)
                return num.fn("idiv", x, y, integer=True)
            if not y.d:
                self.event("div0", "division by zero")
                if not x.d:
                    return NAN
            return num.mul(x, num.inv(y))
        if x.is_const() and y.is_const():
            i, j = int(x.const()), int(y.const())
            if op == "%" and j:
                r = abs(i) % abs(j)
                return P(r if i >= 0 else -r)
            if op == "<<" and j >= 0:
                return P(i << j)
            if op == ">>" and j >= 0:
                return P(i >> j)
            if op == "&":
                return P(i & j)
            if op == "|":
                return P(i | j)
            if op == "^":
                return P(i ^ j)
        return num.fn("op" + op, x, y, integer=True)

    def compare(self, op, a, b):
        def f(x, y):
            if x.__class__ is Undef or y.__class__ is Undef:
                u = x if x.__class__ is Undef else y
                return dd.unknown_bool(repr(u))
            if x.__class__ is Top or y.__class__ is Top:
                u = x if x.__class__ is Top else y
                return dd.unknown_bool("%s %s" % (op, u.why))
            if x is NAN or y is NAN:
                return op == "!="
            if x.__class__ is dd.InfT or y.__class__ is dd.InfT:
                i = x.sign if x.__class__ is dd.InfT else 0
                j = y.sign if y.__class__ is dd.InfT else 0
                return {"<": i < j, ">": i > j, "<=": i <= j, ">=": i >= j, "==": i == j, "!=": i != j}[op]
            if x.__class__ is bool and y.__class__ is bool:
                if op == "==":
                    return x == y
                if op == "!=":
                    return x != y
            if x.__class__ is bool:
                x = P(x)
            if y.__class__ is bool:
                y = P(y)
            if x.__class__ is Poly and y.__class__ is Poly:
                d = x - y
                if op == "==":
                    return dd.eq0(d)
                if op == "!=":
                    return not_(dd.eq0(d))
                if op == "<":
                    return dd.lt0(d)
                if op == ">":
                    return dd.lt0(-d)
                if op == "<=":
                    return not_(dd.lt0(-d))
                if op == ">=":
                    return not_(dd.lt0(d))
            if x.__class__ is Ptr and y.__class__ is Ptr and x.obj == y.obj and x != y:
                (kx, i, dx), (ky, j, dy) = self.flat(x), self.flat(y)
                if kx == ky and dx:
                    return {"<": i < j, ">": i > j, "<=": i <= j, ">=": i >= j, "==": i == j, "!=": i != j}[op]
                if op not in ("==", "!=") and x.path[:-1] == y.path[:-1] and x.path and isinstance(x.path[-1], int) and isinstance(y.path[-1], int):
                    i, j = x.path[-1], y.path[-1]
                    return {"<": i < j, ">": i > j, "<=": i <= j, ">=": i >= j}[op]
            if op in ("==", "!="):
                if isinstance(x, (Ptr, dd.Null, Str, Obj)) and isinstance(y, (Ptr, dd.Null, Str, Obj)):
                    if x.__class__ is Str and y.__class__ is Str and \
                            not all(isinstance(p, str) for p in x.parts + y.parts) and x != y:
                        return dd.unknown_bool("string comparison")
                    return (x == y) == (op == "==")
            return dd.unknown_bool("compare %s" % op)
        return apply2(f, a, b)

    # ---------------------------------------------------------------------------- standard library
    def as_str(self, v):
        def f(x):
            if x.__class__ is Str:
                return x
            if x.__class__ is Ptr:
                y = self.read1(x.obj, x.path)
                return y if all(z.__class__ is Str for z in dd.leaves(y)) else Top("string")
            return Top("string")
        return apply1(f, v)

    def rvarg(self, e, fr):
        """value of a numeric argument whatever its binding"""
        v = self.ev(e, fr)
        return self.deref(v)

    def deref(self, v):
        def f(x):
            if x.__class__ is Ptr:
                t = self.type_at(x.obj, x.path)
                if t is not None and t.k == "cls":
                    return x
                return self.read1(x.obj, x.path)
            return x
        v = apply1(f, v)
        self.note_undef(v)
        return v

    def std_construct(self, loc, t, e, fr):
        args = e["args"]
        if t.k in ("cplx", "flt", "int"):
            vs = [self.rvarg(a, fr) for a in args]
            if not vs:
                self.store(loc, num.ZERO)
            elif len(vs) == 1:
                self.store(loc, apply1(lambda x: P(x) if x.__class__ is bool else x, vs[0]))
            else:
                self.store(loc, self.arith("+", vs[0], self.arith("*", num.IMAG, vs[1])))
            return
        if t.k == "ptr":
            self.store(loc, self.iterval(args[0], fr) if args else NULL)
            return
        if t.k == "fnobj":
            if args:
                v = self.ev(args[0], fr)
                if v.__class__ is Ptr:
                    v = self.load(v)
                self.store(loc, v)
            else:
                self.store(loc, NULL)
            return
        if t.k == "str":
            if not args:
                self.store(loc, Str(()))
            else:
                v = self.ev(args[0], fr)
                at = ptype(fr.types[args[0]["t"]])
                if at.k == "ref":
                    at = at.elem
                self.store(loc, self.as_str(v))
            return
        if t.k == "stream":
            self.store(self.sub(loc, "#buf"), Str(()))
            self.store(self.sub(loc, "#prec"), P(6))
            self.store(self.sub(loc, "#fmt"), Str(()))
            if args:
                v = self.ev(args[0], fr)
                s = self.as_str(v)
                if all(x.__class__ is Str for x in dd.leaves(s)):
                    self.store(self.sub(loc, "#buf"), s)
            return
        if t.k == "vec":
            if not args:
                self.store(self.sub(loc, "#n"), num.ZERO)
                return
            pts = e["fn"].get("pt", [])
            pt0 = ptype(fr.types[pts[0]]) if pts else None
            if e["fn"].get("copy"):
                return self.copy_obj(loc, self.lv(args[0], fr), t)
            if pt0 is not None and pt0.k == "vec":
                a0 = args[0]
                if a0["k"] == "stdil":
                    a0 = a0["e"]
                if a0["k"] == "mat":
                    a0 = a0["e"]
                if a0["k"] == "ilist":
                    return self.init_list(loc, t, a0, fr)
            if pt0 is not None and pt0.k == "int":
                n = self.rvarg(args[0], fr)
                if n.__class__ is Poly and n.is_const() and n.const() < 200:
                    has = len(args) > 1 and not fr.types[args[1]["t"]].startswith("std::allocator")
                    has = len(args) > 1 and ptype(fr.types[pts[1]]).k != "std" and not (
                        ptype(fr.types[pts[1]]).k == "ref" and ptype(fr.types[pts[1]]).elem.k == "std")
                    val = self.rvarg(args[1], fr) if has else None
                    for i in range(int(n.const())):
                        if val is None:
                            self.zero(self.sub(loc, i), t.elem)
                        else:
                            self.store(self.sub(loc, i), val)
                    self.store(self.sub(loc, "#n"), n)
                    return
            if len(args) >= 2:
                a, b = self.iterval(args[0], fr), self.iterval(args[1], fr)
                el = self.between(a, b)
                if el is not None:
                    for i, x in enumerate(el):
                        self.copy_obj(self.sub(loc, i), x, t.elem)
                    self.store(self.sub(loc, "#n"), P(len(el)))
                    return
            self.undecided("vector constructor")
            self.havoc(loc, "vector")
            return
        if t.k == "arr":
            if e["fn"].get("copy"):
                return self.copy_obj(loc, self.lv(args[0], fr), t)
            if not args and t.name == "std::bitset":
                return self.zero(loc, t)
            if not args:
                for i in range(t.n or 0):
                    self.default_of(self.sub(loc, i), t.elem)
                return
        if t.k == "tup":
            if e["fn"].get("copy"):
                return self.copy_obj(loc, self.lv(args[0], fr), t)
            if len(args) == len(t.elem):
                for i, a in enumerate(args):
                    if t.elem[i].k in SCALAR:
                        self.store(self.sub(loc, i), self.rvarg(a, fr))
                    else:
                        self.copy_obj(self.sub(loc, i), self.lv(a, fr), t.elem[i])
                return
        if t.k == "std":
            vs = [self.deref(self.ev(a, fr)) for a in args]
            n = t.name
            if "distribution" in n:
                self.store(loc, Obj("dist", (strip_templates(n),) + tuple(vs)))
            else:
                self.store(loc, Obj("std", (n,)))
            return
        self.undecided("construct %s" % t.s)
        self.havoc(loc, "construct")

    NUMF = {"sqrt": "sqrt", "sqrtl": "sqrt", "sqrtf": "sqrt", "cos": "cos", "cosl": "cos", "sin": "sin", "sinl": "sin",
            "fabs": "abs", "abs": "abs", "fabsl": "abs", "conj": "conj", "real": "real", "imag": "imag", "norm": "norm",
            "tan": "tan", "exp": "exp", "log": "log", "acos": "acos", "asin": "asin", "atan": "atan", "arg": "arg",
            "tanl": "tan", "expl": "exp", "logl": "log", "acosl": "acos", "asinl": "asin", "atanl": "atan",
            "cosh": "cosh", "sinh": "sinh", "tanh": "tanh", "floor": "floor", "ceil": "ceil", "round": "round",
            "cbrt": "cbrt", "log10": "log10"}

    def num1(self, name, v):
        def f(x):
            if x.__class__ is bool:
                x = P(x)
            if x is NAN:
                return NAN
            if x.__class__ is dd.InfT:
                if name in ("abs", "norm"):
                    return dd.INF
                if name in ("sqrt", "exp", "log", "cbrt"):
                    return x if x.sign > 0 else NAN
                return x if name in ("real", "floor", "ceil", "round", "conj") else Top("infinite value")
            if x.__class__ is not Poly:
                return x
            try:
                if name == "sqrt":
                    if x.is_const() and x.const() < 0:
                        return NAN
                    if getattr(self, "sqrt_hook", None):
                        self.sqrt_hook(self, x)
                    return num.sqrt(x)
                if name == "cos":
                    return num.cos(x)
                if name == "sin":
                    return num.sin(x)
                if name == "tan":
                    return num.sin(x) / num.cos(x)
                if name == "abs":
                    return num.absval(x)
                if name == "conj":
                    return num.conj(x)
                if name == "real":
                    return num.re_(x)
                if name == "imag":
                    return num.im_(x)
                if name == "norm":
                    return num.mul(x, num.conj(x))
                if name == "arg":
                    return num.atan2(num.im_(x), num.re_(x))
                if name == "exp":
                    # exp(a+ib)
                    b = num.im_(x)
                    a = num.re_(x)
                    r = num.ONE if not a.d else num.fn("exp", a, nonneg=True)
                    return num.mul(r, num.expi(b)) if b.d else r
                return num.fn(name, x, real=num.is_real(x))
            except num.TooBig:
                return Top("term too large")
        return apply1(f, v)

    def builtin(self, fn, obj, e, fr):
        q = strip_templates(fn["q"])
        args = e["args"]
        short = q.rsplit("::", 1)[-1] if "operator" not in q else q[q.rindex("operator"):]
        isstd = q.startswith("std::") or "::" not in q or q.startswith("__")
        op = fn.get("op")
        rt = ptype(fr.types[e["t"]])

        # ---- operators on complex numbers
        cls = fn.get("cls") or ""
        if cls and ptype(cls).k == "cplx" and obj is not None:
            if op == "=":
                v = self.rvarg(args[0], fr)
                self.store(obj, v)
                return obj
            if op in ("+=", "-=", "*=", "/="):
                v = self.rvarg(args[0], fr)
                cur = self.load(obj)
                self.note_undef(cur)
                self.store(obj, self.arith(op[0], cur, v))
                return obj
            if short in ("real", "imag"):
                if args:
                    v = self.rvarg(args[0], fr)
                    cur = self.load(obj)
                    if short == "real":
                        nv = self.arith("+", v, self.arith("*", num.IMAG, self.num1("imag", cur)))
                    else:
                        nv = self.arith("+", self.num1("real", cur), self.arith("*", num.IMAG, v))
                    self.store(obj, nv)
                    return VOID
                cur = self.load(obj)
                self.note_undef(cur)
                return self.num1(short, cur)
        if op and obj is None and q.startswith("std::operator"):
            ats = [self._unref(ptype(fr.types[a["t"]])) for a in args]
            if all(t.k in ("cplx", "flt", "int", "bool") for t in ats):
                vs = [self.rvarg(a, fr) for a in args]
                if len(vs) == 1:
                    return apply1(self.l_neg, vs[0]) if op == "-" else vs[0]
                if op in ("+", "-", "*", "/"):
                    return self.arith(op, vs[0], vs[1])
                if op in ("==", "!="):
                    return self.compare(op, vs[0], vs[1])
            if op == "<<" and ats[0].k == "stream":
                return self.stream_out(args[0], args[1], fr)
            if ats[0].k == "str" or (len(ats) > 1 and ats[1].k == "str"):
                vs = [self.as_str(self.ev(a, fr)) for a in args]
                if op == "+":
                    return apply2(lambda x, y: Str(x.parts + y.parts) if x.__class__ is Str and y.__class__ is Str else Top("string"), vs[0], vs[1])
                if op in ("==", "!="):
                    return self.compare(op, vs[0], vs[1])
        # ---- streams
        if cls and ptype(cls).k == "stream" and obj is not None:
            if op == "<<":
                a = args[0]
                at = self._unref(ptype(fr.types[a["t"]]))
                return self.stream_put(obj, a, at, fr)
            if short == "str":
                if args:
                    s = self.as_str(self.ev(args[0], fr))
                    self.store(self.sub(obj, "#buf"), s)
                    return VOID
                return self.load(self.sub(obj, "#buf"))
            if short == "precision":
                if args:
                    v = self.rvarg(args[0], fr)
                    self.store(self.sub(obj, "#prec"), v)
                    return v
                return self.load(self.sub(obj, "#prec"))
            for a in args:
                self.ev(a, fr)
            self.store(self.sub(obj, "#fmt"), Top("stream state " + short))
            return obj if rt.k in ("ref", "stream") else self.top("stream." + short)
        # ---- strings
        if cls and ptype(cls).k == "str" and obj is not None:
            return self.string_method(obj, short, op, args, fr, e)
        if short == "to_string" and len(args) == 1:
            v = self.rvarg(args[0], fr)
            return apply1(lambda x: Str((("to_string", x),)), v)
        # ---- numeric functions
        if isstd and short in self.NUMF and len(args) == 1:
            v = self.rvarg(args[0], fr)
            return self.num1(self.NUMF[short], v)
        if isstd and short == "polar":
            r = self.rvarg(args[0], fr)
            th = self.rvarg(args[1], fr) if len(args) > 1 else num.ZERO

            def fp(x, y):
                if x.__class__ is Poly and y.__class__ is Poly:
                    try:
                        return num.mul(x, num.expi(y))
                    except num.TooBig:
                        return Top("term too large")
                return x if x.__class__ is not Poly else y
            return apply2(fp, r, th)
        if isstd and short in ("atan2", "atan2l"):
            vs = [self.rvarg(a, fr) for a in args]
            return applyn(lambda y, x: num.atan2(y, x) if y.__class__ is Poly and x.__class__ is Poly else (y if y.__class__ is not Poly else x), vs)
        if isstd and short in ("hypot", "hypotl"):
            vs = [self.rvarg(a, fr) for a in args]
            s = num.ZERO
            for v in vs:
                s = self.arith("+", s, self.arith("*", v, v))
            return self.num1("sqrt", s)
        if isstd and short in ("pow", "powl"):
            vs = [self.rvarg(a, fr) for a in args]

            def fpow(x, y):
                if x.__class__ is bool:
                    x = P(x)
                if x.__class__ is not Poly or y.__class__ is not Poly:
                    return x if x.__class__ is not Poly else y
                try:
                    if y.is_const():
                        n = Fraction(y.const())
                        if n.denominator == 1 and abs(n) <= 64:
                            return num.power(x, int(n))
                        if n.denominator == 2 and abs(n) <= 32:
                            return num.power(num.sqrt(x), n.numerator)
                    return num.fn("pow", x, y, real=num.is_real(x))
                except num.TooBig:
                    return Top("term too large")
            return apply2(fpow, vs[0], vs[1])
        if isstd and short in ("fma", "fmal") and len(args) == 3:
            vs = [self.rvarg(a, fr) for a in args]
            return self.arith("+", self.arith("*", vs[0], vs[1]), vs[2])
        if isstd and short in ("fmod", "remainder", "copysign", "ldexp", "scalbn"):
            vs = [self.rvarg(a, fr) for a in args]
            if short == "copysign":
                return ite(self.compare("<", vs[1], num.ZERO), apply1(self.l_neg, self.num1("abs", vs[0])), self.num1("abs", vs[0]))
            return applyn(lambda *xs: num.fn(short, *xs) if all(x.__class__ is Poly for x in xs) else xs[0], vs)
        if isstd and short in ("max", "min", "fmax", "fmin") and len(args) == 2:
            if rt.k == "ref" or True:
                a, b = self.rvarg(args[0], fr), self.rvarg(args[1], fr)
                if short == "max":
                    c = self.compare("<", a, b)
                    return self.box(ite(c, b, a), fr, e)
                if short == "min":
                    c = self.compare("<", b, a)
                    return self.box(ite(c, b, a), fr, e)
                # fmax/fmin ignore NaN
                def fm(x, y):
                    if x is NAN:
                        return y
                    if y is NAN:
                        return x
                    cc = self.compare("<", x, y)
                    return ite(cc, y, x) if short == "fmax" else ite(cc, x, y)
                return apply2(fm, a, b)
        if isstd and short in ("isnan", "isinf", "isfinite", "__isnanl", "__isinfl", "signbit", "isnormal", "__builtin_isnan", "__builtin_isinf"):
            v = self.rvarg(args[0], fr)
            nm = short.replace("__builtin_", "").strip("_").rstrip("l") if short.startswith("__") else short

            def fi(x):
                if x is NAN:
                    return {"isnan": True, "isinf": False, "isfinite": False}.get(nm, False)
                if x.__class__ is dd.InfT:
                    return {"isnan": False, "isinf": True, "isfinite": False, "signbit": x.sign < 0}.get(nm, False)
                if x.__class__ is Poly:
                    if nm == "signbit":
                        return dd.lt0(x)
                    if x.is_const() or self.finite:
                        return nm in ("isfinite", "isnormal")
                    if nm == "isfinite":
                        return and_(not_(dd.var(dd.cond("isnan", x))), not_(dd.var(dd.cond("isinf", x))))
                    return dd.var(dd.cond(nm, x))
                return dd.unknown_bool(nm)
            return apply1(fi, v)
        if "numeric_limits" in q:
            if short in ("epsilon",):
                return num.sym("eps", positive=True)
            if short in ("min", "denorm_min"):
                return num.sym("fltmin", positive=True)
            if short == "max":
                return num.sym("fltmax", positive=True)
            if short == "infinity":
                return num.sym("infinity", positive=True)
            if "NaN" in short:
                return NAN
            if short == "lowest":
                return -num.sym("fltmax", positive=True)
        # ---- containers
        cl = ptype(cls) if cls else None
        if cl is not None and cl.k == "ref" and cl.name == "bit" and obj is not None:
            if op == "=":
                v = self.rvarg(args[0], fr)
                self.store(obj, self.tobool(v) if not self._boolish(v) else v)
                return obj
            if "bool" in short:
                return self.load(obj)
            if short == "flip":
                self.store(obj, not_(self.load(obj)))
                return obj
        if cl is not None and cl.k == "ptr" and cl.name == "iterator" and obj is not None:
            cur = self.pointer_in(obj)
            if op in ("*", "->"):
                return cur
            if op in ("++", "--"):
                self.store(obj, self.ptr_add(cur, P(1 if op == "++" else -1)))
                return cur if args else obj
            if op in ("+", "-", "+=", "-=", "[]"):
                k = self.rvarg(args[0], fr)
                if op[0] == "-":
                    k = apply1(self.l_neg, k)
                nv = self.ptr_add(cur, k)
                if op in ("+=", "-="):
                    self.store(obj, nv)
                    return obj
                return nv
            if short == "base":
                return cur
        if op in ("==", "!=", "<", ">", "<=", ">=", "-") and obj is None and len(args) == 2:
            ats = [self._unref(ptype(fr.types[a["t"]])) for a in args]
            if all(t.k == "ptr" and t.name == "iterator" for t in ats):
                vs = [self.iterval(a, fr) for a in args]
                if op == "-":
                    return self.distance(vs[1], vs[0]) if all(v.__class__ is Ptr for v in vs) else Top("distance")
                return self.compare(op, vs[0], vs[1])
        if cl is not None and cl.k in ("arr", "vec") and obj is not None:
            return self.container(cl, obj, short, op, args, fr, e)
        if isstd and short in ("begin", "end", "cbegin", "cend") and len(args) == 1:
            l = self.lv(args[0], fr)
            t = self._unref(ptype(fr.types[args[0]["t"]]))
            n = t.n if t.k == "arr" else None
            if n is not None:
                return self.sub(l, 0 if "begin" in short else n)
        if isstd and short in ("copy", "copy_n", "fill", "fill_n", "swap", "move", "forward", "ref", "cref", "get", "make_pair",
                               "tie", "make_tuple", "as_const", "accumulate", "inner_product", "transform", "for_each", "exchange",
                               "reverse", "iota", "all_of", "any_of", "none_of", "count_if", "generate", "find_if", "count", "find",
                               "equal", "max_element", "min_element", "distance", "next", "prev", "advance"):
            return self.algorithm(short, fn, args, fr, e)
        if cl is not None and cl.k == "fnobj" and obj is not None:
            if op == "()":
                return self.call_value(self.load(obj), e, fr)
            if op == "=":
                v = self.ev(args[0], fr)
                if v.__class__ is Ptr:
                    v = self.load(v)
                self.store(obj, v)
                return obj
        if cl is not None and cl.k == "std" and obj is not None:
            o = self.load(obj)
            if o.__class__ is Obj and o.tag == "dist" and op == "()":
                for a in args:
                    self.ev(a, fr)
                integer = "int" in o.data[0]
                v = self.fresh("irnd" if integer else "rnd", integer=integer)
                self.draws.append((v, o.data, self.where()))
                return v
            for a in args:
                self.ev(a, fr)
            if rt.k == "ref":
                return obj
            if rt.k == "int":
                v = self.fresh("irnd", integer=True)
                return v
            return self.top("std %s" % q)
        if short in ("setprecision", "setw", "setfill"):
            v = self.rvarg(args[0], fr)
            oid = self.alloc(T("std", name="manip"), "manip")
            self.write1(oid, (), Obj("manip", (short, v)))
            return Ptr(oid)
        if short in ("printf", "fprintf", "puts", "putchar", "fflush"):
            for a in args:
                self.ev(a, fr)
            return num.ZERO
        if short in ("memset", "memcpy", "memmove"):
            vals = [self.ev(a, fr) for a in args]
            if not self.bytes(short, vals):
                self.undecided(short)
                self.havoc_all(vals[0], short)
            return vals[0] if vals else VOID
        if short in ("what",):
            return Str((("what",),))
        # ---- unknown
        for a in args:
            v = self.ev(a, fr)
            at = ptype(fr.types[a["t"]])
        self.undecided("call of %s" % q)
        for i, a in enumerate(args):
            pts = fn.get("pt", [])
            if i < len(pts):
                s = fr.types[pts[i]]
                if (s.endswith("&") or s.endswith("*")) and not s.startswith("const "):
                    l = self.lv(a, fr) if s.endswith("&") else self.ev(a, fr)
                    if any(x.__class__ is Ptr for x in dd.leaves(l)):
                        (self.havoc if s.endswith("&") else self.havoc_all)(l, "argument of " + q)
        if obj is not None and not fn.get("const") and any(x.__class__ is Ptr for x in dd.leaves(obj)):
            self.havoc(obj, "method " + q)
        if rt.k not in SCALAR and rt.k not in ("ref", "void"):
            oid = self.alloc(rt, "ret")
            self.havoc(Ptr(oid), q)
            return Ptr(oid)
        return Top("result of " + q)

    SIZES = {"bool": 1, "char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "int": 4, "unsigned int": 4, "long": 8,
             "unsigned long": 8, "long long": 8, "unsigned long long": 8, "float": 4, "double": 8, "long double": 16}

    def sizeof(self, t):
        if t is None:
            return None
        if t.k == "bool":
            return 1
        if t.k == "ptr":
            return 8
        if t.k in ("int", "flt"):
            return self.SIZES.get(t.name)
        if t.k == "cplx":
            n = self.SIZES.get(t.name)
            return n and 2 * n
        if t.k == "arr" and t.n is not None and t.name != "std::bitset":
            n = self.sizeof(t.elem)
            return n and n * t.n
        return None

    def bytes(self, short, vals):
        """memset to zero and memcpy of whole elements"""
        if len(vals) != 3 or vals[0].__class__ is not Ptr:
            return False
        n = self.deref(vals[2])
        if n.__class__ is not Poly or not n.is_const():
            return False
        n = int(n.const())

        def first(p):
            t = self.type_at(p.obj, p.path)
            while t is not None and t.k == "arr":
                p, t = Ptr(p.obj, p.path + (0,)), t.elem
            return p, t
        d, t = first(vals[0])
        z = self.sizeof(t)
        if not z or n % z:
            return False
        dst = self.elements(d, n // z)
        if dst is None:
            return False
        if short == "memset":
            v = self.deref(vals[1])
            if v.__class__ is not Poly or not v.is_const() or v.const() != 0:
                return False
            for x in dst:
                self.zero(x, t)
            return True
        if vals[1].__class__ is not Ptr:
            return False
        q, u = first(vals[1])
        if u is None or u.k != t.k or self.sizeof(u) != z:
            return False
        src = self.elements(q, n // z)
        if src is None:
            return False
        for x, v in [(x, self.load(y)) for x, y in zip(dst, src)]:
            self.store(x, v)
        return True

    def havoc_all(self, loc, why):
        """the array around an element, or the object"""
        for x in dd.leaves(loc):
            if x.__class__ is Ptr:
                p = x.path
                while p and isinstance(p[-1], int):
                    p = p[:-1]
                self.havoc(Ptr(x.obj, p), why)

    def iterval(self, a, fr):
        """the pointer in an iterator given by value or by reference"""
        return self.pointer_in(self.ev(a, fr))

    def pointer_in(self, v):
        def f(x):
            if x.__class__ is Ptr:
                t = self.type_at(x.obj, x.path)
                if t is not None and t.k == "ptr" and t.name == "iterator":
                    return self.read1(x.obj, x.path)
            return x
        return apply1(f, v)

    def apply_fn(self, f, places, fr):
        """call of a function value with the objects at the given places"""
        args = [{"k": "val", "p": p} for p in places]
        return self.call_value(f, {"args": args}, fr)

    def place(self, v, t):
        if v.__class__ is Ptr:
            return v
        oid = self.alloc(t, "arg")
        self.write1(oid, (), v)
        return Ptr(oid)

    def _unref(self, t):
        return t.elem if t.k == "ref" else t

    def box(self, v, fr, e):
        """value returned by reference"""
        return v

    def algorithm(self, short, fn, args, fr, e):
        if short in ("move", "forward", "as_const", "ref", "cref"):
            return self.lv(args[0], fr)
        if short == "swap":
            a, b = self.lv(args[0], fr), self.lv(args[1], fr)
            t = self._unref(ptype(fr.types[args[0]["t"]]))
            tmp = Ptr(self.alloc(t, "swap"))
            self.copy_obj(tmp, a, t)
            if a.__class__ is Ptr and b.__class__ is Ptr:
                self.copy_obj(a, b, t)
                self.copy_obj(b, tmp, t)
                return VOID
        if short == "exchange":
            a = self.lv(args[0], fr)
            old = self.load(a)
            v = self.rvarg(args[1], fr)
            self.store(a, v)
            return old
        if short in ("copy", "copy_n", "fill", "fill_n", "reverse", "iota"):
            vs = [self.iterval(a, fr) for a in args]

            def many(a, k):
                k = self.deref(k)
                return self.elements(a, int(k.const())) if k.__class__ is Poly and k.is_const() else None
            src = None
            if short == "copy":
                src = self.between(vs[0], vs[1])
                dst = self.elements(vs[2], len(src)) if src is not None else None
            elif short == "copy_n":
                src = many(vs[0], vs[1])
                dst = self.elements(vs[2], len(src)) if src is not None else None
            elif short == "fill_n":
                dst = many(vs[0], vs[1])
            else:
                dst = self.between(vs[0], vs[1])
                src = dst[::-1] if dst is not None and short == "reverse" else None
            if dst is None:
                self.undecided("std::" + short)
                self.havoc_all(vs[2 if short in ("copy", "copy_n") else 0], "std::" + short)
                return VOID
            val = self.deref(vs[2]) if src is None else None
            if short == "reverse":
                ts = [self.type_at(x.obj, x.path) for x in src]
                if any(t is None or t.k not in SCALAR for t in ts):
                    self.undecided("std::reverse")
                    self.havoc_all(vs[0], "std::reverse")
                    return VOID
                for d, v in [(d, self.load(x)) for d, x in zip(dst, src)]:
                    self.store(d, v)
                return VOID
            for k, d in enumerate(dst):
                t = self.type_at(d.obj, d.path)
                if t is not None and t.k not in SCALAR:
                    self.copy_obj(d, src[k] if src is not None else vs[2], t)
                    continue
                v = self.load(src[k]) if src is not None else self.arith("+", val, P(k)) if short == "iota" else val
                if t is not None and t.k == "bool":
                    v = self.tobool(v) if not self._boolish(v) else v
                self.store(d, v)
            return self.ptr_add(dst[-1], P(1)) if dst and short != "fill" and short != "iota" else VOID
        if short in ("for_each", "transform", "all_of", "any_of", "none_of", "count_if", "generate", "find_if", "count", "find", "equal",
                     "max_element", "min_element", "distance", "next", "prev", "advance"):
            r = self.with_function(short, args, fr, e)
            if r is not None:
                return r
            return self.wreck("std::" + short)
        if short == "get":
            # std::get<I>
            m = re.search(r"get<(\d+)", fn["key"])
            l = self.lv(args[0], fr)
            if m:
                return self.sub(l, int(m.group(1)))
        if short in ("make_pair", "make_tuple"):
            rt = ptype(fr.types[e["t"]])
            if rt.k == "tup":
                oid = self.alloc(rt, "tuple")
                for i, a in enumerate(args):
                    if rt.elem[i].k in SCALAR:
                        self.store(Ptr(oid, (i,)), self.rvarg(a, fr))
                    else:
                        self.copy_obj(Ptr(oid, (i,)), self.lv(a, fr), rt.elem[i])
                return Ptr(oid)
        if short in ("accumulate", "inner_product"):
            vs = [self.iterval(a, fr) for a in args]
            el = self.between(vs[0], vs[1])
            rt = self._unref(ptype(fr.types[e["t"]]))
            if el is not None and short == "accumulate" and len(vs) in (3, 4) and rt.k in SCALAR:
                f = self.function(vs[3], args[3], fr) if len(vs) == 4 else None
                acc = self.deref(vs[2])
                for x in el:
                    if len(vs) == 3:
                        acc = self.arith("+", acc, self.load(x), rt.k == "int")
                    elif isinstance(f, str):
                        acc = self.arith(f, acc, self.load(x), rt.k == "int")
                    else:
                        acc = self.deref(self.apply_fn(f, [self.place(acc, rt), x], fr))
                    if rt.k == "int" and any(v.__class__ is Poly and v.is_const() and Fraction(v.const()).denominator != 1 for v in dd.leaves(acc)):
                        acc = apply1(lambda v: P(int(Fraction(v.const()))) if v.__class__ is Poly and v.is_const() else v, acc)
                return acc
            if el is not None and short == "inner_product" and len(vs) == 4 and rt.k in SCALAR:
                other = self.elements(vs[2], len(el))
                if other is not None:
                    acc = self.deref(vs[3])
                    for x, y in zip(el, other):
                        acc = self.arith("+", acc, self.arith("*", self.load(x), self.load(y)))
                    return acc
            if len(vs) > 3 and short == "accumulate":
                return self.wreck("std::accumulate")
        for a in args:
            v = self.ev(a, fr)
            if any(x.__class__ is Ptr for x in dd.leaves(v)):
                for x in dd.leaves(v):
                    if x.__class__ is Ptr:
                        self.havoc(Ptr(x.obj, ()), "std::" + short)
        self.undecided("std::" + short)
        return Top("std::" + short)

    FUNCTORS = {"plus": "+", "minus": "-", "multiplies": "*", "divides": "/"}

    def function(self, v, e, fr):
        """the function given to an algorithm: an operator sign or a callable value"""
        m = re.match(r"^(?:const )?std::(?:__1::)?(plus|minus|multiplies|divides)<", fr.types[e["t"]])
        if m:
            return self.FUNCTORS[m.group(1)]
        return self.load(v) if v.__class__ is Ptr else v

    def with_function(self, short, args, fr, e):
        vs = [self.iterval(a, fr) for a in args]
        if short in ("next", "prev"):
            k = self.deref(vs[1]) if len(vs) > 1 else P(1)
            return self.ptr_add(vs[0], k if short == "next" else -k)
        if short == "distance":
            return self.distance(vs[0], vs[1]) if vs[0].__class__ is Ptr and vs[1].__class__ is Ptr else None
        if short == "advance":
            return None
        el = self.between(vs[0], vs[1]) if len(vs) > 1 else None
        if el is None:
            return None
        if short in ("max_element", "min_element") and len(vs) == 2:
            if not el:
                return vs[0]
            best, val = el[0], self.load(el[0])
            for x in el[1:]:
                v = self.load(x)
                c = self.compare("<", val, v) if short == "max_element" else self.compare("<", v, val)
                best, val = ite(c, x, best), ite(c, v, val)
            return best
        if short == "equal" and len(vs) == 3:
            other = self.elements(vs[2], len(el))
            if other is None:
                return None
            r = True
            for x, y in zip(el, other):
                r = and_(r, self.compare("==", self.load(x), self.load(y)))
            return r
        if short in ("count", "find") and len(vs) == 3:
            val = self.deref(vs[2])
            hits = [self.compare("==", self.load(x), val) for x in el]
        elif short == "transform":
            f = self.function(vs[-1], args[-1], fr)
            two = len(vs) == 5
            other = self.elements(vs[2], len(el)) if two else None
            dst = self.elements(vs[-2], len(el))
            if dst is None or (two and other is None):
                return None
            for i, x in enumerate(el):
                if isinstance(f, str):
                    v = self.arith(f, self.load(x), self.load(other[i]))
                else:
                    v = self.apply_fn(f, [x, other[i]] if two else [x], fr)
                if self.st.pc is False:
                    return Top("dead")
                t = self.type_at(dst[i].obj, dst[i].path)
                if t is not None and t.k not in SCALAR:
                    self.copy_obj(dst[i], v, t)
                else:
                    self.store(dst[i], self.deref(v))
            return self.ptr_add(dst[-1], P(1)) if dst else vs[-2]
        elif len(vs) == 3:
            f = self.function(vs[2], args[2], fr)
            if isinstance(f, str):
                return None
            hits = []
            for x in el:
                v = self.apply_fn(f, [] if short == "generate" else [x], fr)
                if self.st.pc is False:
                    return Top("dead")
                if short == "generate":
                    self.store(x, self.deref(v))
                elif short != "for_each":
                    hits.append(self.tobool(self.deref(v)))
            if short in ("for_each", "generate"):
                return VOID
        else:
            return None
        if short == "all_of":
            r = True
            for h in hits:
                r = and_(r, h)
            return r
        if short in ("any_of", "none_of"):
            r = False
            for h in hits:
                r = or_(r, h)
            return r if short == "any_of" else not_(r)
        if short in ("count", "count_if"):
            n = num.ZERO
            for h in hits:
                n = self.arith("+", n, ite(h, P(1), num.ZERO))
            return n
        r = vs[1]
        for x, h in reversed(list(zip(el, hits))):
            r = ite(h, x, r)
        return r

    def bits(self, cl, obj, short, op, args, fr):
        """std::bitset"""
        el = [self.sub(obj, i) for i in range(cl.n)]
        if short in ("set", "reset", "flip", "test") and args:
            i = self.rvarg(args[0], fr)
            x = self.ptr_add(self.sub(obj, 0), i)
            if short == "test":
                return self.load(x)
            v = {"set": True, "reset": False}.get(short)
            if short == "set" and len(args) > 1:
                v = self.tobool(self.rvarg(args[1], fr))
            self.store(x, not_(self.load(x)) if v is None else v)
            return obj
        if short in ("set", "reset", "flip"):
            for x in el:
                self.store(x, True if short == "set" else False if short == "reset" else not_(self.load(x)))
            return obj
        vals = [self.load(x) for x in el]
        if short in ("any", "none", "all"):
            r = short == "all"
            for v in vals:
                r = and_(r, v) if short == "all" else or_(r, v)
            return not_(r) if short == "none" else r
        if short == "count":
            n = num.ZERO
            for v in vals:
                n = self.arith("+", n, ite(v, P(1), num.ZERO))
            return n
        return None

    def container(self, cl, obj, short, op, args, fr, e):
        if cl.name == "std::bitset":
            r = self.bits(cl, obj, short, op, args, fr)
            if r is not None:
                return r
        if op == "[]" or short == "at":
            i = self.rvarg(args[0], fr)
            if short == "at" and cl.k == "arr" and cl.n is not None:
                bad = or_(self.compare("<", i, num.ZERO), self.compare(">=", i, P(cl.n)))
                if bad is not False:
                    self.branch(bad, lambda: self._throw_std("std::out_of_range"), lambda: None)
                    if self.st.pc is False:
                        return Top("dead")
            return self.ptr_add(self.sub(obj, 0), i) if cl.k == "arr" else self.vec_idx(obj, i)
        if short == "size":
            return P(cl.n) if cl.k == "arr" else self.load(self.sub(obj, "#n"))
        if short == "empty":
            return (cl.n == 0) if cl.k == "arr" else self.compare("==", self.load(self.sub(obj, "#n")), num.ZERO)
        if short == "data" and cl.k == "arr":
            return self.sub(obj, 0)
        if short in ("begin", "cbegin") and cl.k == "arr":
            return self.sub(obj, 0)
        if short in ("end", "cend") and cl.k == "arr":
            return self.sub(obj, cl.n)
        if short == "fill" and cl.k == "arr":
            if cl.elem.k in SCALAR:
                v = self.rvarg(args[0], fr)
                for i in range(cl.n):
                    self.store(self.sub(obj, i), v)
            else:
                s = self.lv(args[0], fr)
                for i in range(cl.n):
                    self.copy_obj(self.sub(obj, i), s, cl.elem)
            return VOID
        if op == "=":
            src = self.lv(args[0], fr)
            if obj.__class__ is Ptr:
                self.copy_obj(obj, src, cl)
                return obj
        if cl.k == "vec":
            nv = self.load(self.sub(obj, "#n"))
            n = int(nv.const()) if nv.__class__ is Poly and nv.is_const() else None
            if short in ("push_back", "emplace_back") and n is not None and len(args) == 1:
                if cl.elem.k in SCALAR:
                    self.store(self.sub(obj, n), self.rvarg(args[0], fr))
                else:
                    self.copy_obj(self.sub(obj, n), self.lv(args[0], fr), cl.elem)
                self.store(self.sub(obj, "#n"), P(n + 1))
                return VOID
            if short == "reserve":
                return VOID
            if short in ("data", "begin", "cbegin"):
                return self.sub(obj, 0)
            if short in ("end", "cend") and n is not None:
                return self.sub(obj, n)
            if short == "back" and n:
                return self.sub(obj, n - 1)
            if short == "front":
                return self.sub(obj, 0)
            if short in ("resize", "assign") and args:
                k = self.rvarg(args[0], fr)
                if k.__class__ is Poly and k.is_const() and k.const() < 300:
                    v = self.rvarg(args[1], fr) if len(args) > 1 else None
                    lo = 0 if short == "assign" else (n or 0)
                    for i in range(lo, int(k.const())):
                        if v is None:
                            self.zero(self.sub(obj, i), cl.elem)
                        else:
                            self.store(self.sub(obj, i), v)
                    self.store(self.sub(obj, "#n"), k)
                    return VOID
            if short == "clear":
                self.store(self.sub(obj, "#n"), num.ZERO)
                return VOID
            if short == "pop_back" and n:
                self.store(self.sub(obj, "#n"), P(n - 1))
                return VOID
        for a in args:
            self.ev(a, fr)
        self.undecided("container %s" % short)
        self.havoc(obj, "container")
        return Top("container " + short)

    def vec_idx(self, obj, i):
        def f(p, k):
            if p.__class__ is Ptr and k.__class__ is Poly and k.is_const():
                j = int(k.const())
                n = self.read1(p.obj, p.path + ("#n",))
                if n.__class__ is Poly and n.is_const() and not (0 <= j < n.const()):
                    self.event("oob", "index %d outside vector of %s" % (j, n.const()))
                    return Top("out of bounds")
                return Ptr(p.obj, p.path + (j,))
            return Top("vector index")
        return apply2(f, obj, i)

    def _throw_std(self, what):
        self.throws.append(Throw(and_(self.outer, self.st.pc), what, self.where(), self.st.snapshot(),
                                 [(f.fn.get("q", "?") if f.fn else "?", l) for f, l in self.stack]))
        self.st = State({}, False)

    def stream_out(self, s, a, fr):
        obj = self.lv(s, fr)
        at = self._unref(ptype(fr.types[a["t"]]))
        return self.stream_put(obj, a, at, fr)

    def stream_put(self, obj, a, at, fr):
        if any(x.__class__ is not Ptr for x in dd.leaves(obj)):
            self.ev(a, fr)
            return obj
        buf = self.load(self.sub(obj, "#buf"))
        if not all(x.__class__ is Str for x in dd.leaves(buf)):
            # an external stream such as std::cout: remember nothing
            if at.k not in ("fn",):
                self.ev(a, fr)
            return obj
        if at.k == "fn" or a["k"] == "fref":
            nm = ""
            x = a
            while x["k"] in ("cast", "un") and "e" in x:
                x = x["e"]
            if x["k"] == "fref":
                nm = x["fn"]["q"]
            if nm.endswith("endl"):
                self.store(self.sub(obj, "#buf"), apply1(lambda s: Str(s.parts + ("\n",)), buf))
            else:
                fm = self.load(self.sub(obj, "#fmt"))
                self.store(self.sub(obj, "#fmt"), apply1(lambda s: Str(s.parts + (nm.rsplit("::", 1)[-1] + ";",)) if s.__class__ is Str else s, fm))
            return obj
        if at.k == "std":
            while a["k"] in ("ctor", "mat", "cast") and (a.get("e") or len(a.get("args", ())) == 1):
                a = a["e"] if a.get("e") else a["args"][0]
        v = self.ev(a, fr)
        if at.k == "std":
            m = self.load(v) if any(x.__class__ is Ptr for x in dd.leaves(v)) else v
            if m.__class__ is Obj and m.tag == "manip" and m.data[0] == "setprecision":
                self.store(self.sub(obj, "#prec"), m.data[1])
                return obj
            self.store(self.sub(obj, "#fmt"), Top("manipulator"))
            return obj
        if at.k == "arr" or at.k == "ptr":
            v = self.as_str(v)
        elif at.k == "str":
            v = self.as_str(v)
        else:
            v = self.deref(v)
        prec = self.load(self.sub(obj, "#prec"))
        fmt = self.load(self.sub(obj, "#fmt"))
        kind = at.k

        def put(b, x, p, fm):
            if b.__class__ is not Str:
                return b
            if x.__class__ is Str:
                return Str(b.parts + x.parts)
            if kind == "int" and x.__class__ is Poly and at.name == "char" and x.is_const():
                return Str(b.parts + (chr(int(x.const())),))
            return Str(b.parts + (("num", kind, x, p, fm, at.name),))
        self.store(self.sub(obj, "#buf"), applyn(put, [buf, v, prec, fmt]))
        return obj

    def string_method(self, obj, short, op, args, fr, e):
        cur = self.as_str(obj)
        if op == "=":
            v = self.as_str(self.ev(args[0], fr))
            self.store(obj, v)
            return obj
        if op == "+=" or short in ("append", "push_back"):
            at = self._unref(ptype(fr.types[args[0]["t"]]))
            if at.k == "int":
                c = self.rvarg(args[0], fr)
                v = Str((chr(int(c.const())),)) if c.__class__ is Poly and c.is_const() else Top("char")
            else:
                v = self.as_str(self.ev(args[0], fr))
            self.store(obj, apply2(lambda x, y: Str(x.parts + y.parts) if x.__class__ is Str and y.__class__ is Str else Top("string"), cur, v))
            return obj
        if short in ("c_str", "data"):
            return cur
        def sarg(x):
            at = self._unref(ptype(fr.types[x["t"]]))
            v = self.ev(x, fr)
            if at.k in ("str", "arr", "ptr"):
                return self.as_str(v)
            v = self.deref(v)
            if at.k == "int" and at.name == "char":
                return apply1(lambda y: Str((chr(int(y.const())),)) if y.__class__ is Poly and y.is_const() else Top("char"), v)
            return v

        def fold(f, vs):
            return applyn(lambda *xs: Top("string." + short) if any(x.__class__ is Top for x in xs) or xs[0].__class__ is not Str
                          else f(*xs), vs)
        vs = [cur] + [sarg(x) for x in args]
        if short in ("find", "find_first_of", "rfind", "find_last_of", "find_first_not_of", "compare"):
            return fold(lambda c, *r: P(num.atom("strpos", (c,) + r + (short,), real=True, integer=True)), vs)
        if short in ("size", "length"):
            return fold(lambda c: P(num.atom("strlen", (c,), real=True, integer=True, nonneg=True)), vs)
        if short == "empty":
            return fold(lambda c: dd.eq0(P(num.atom("strlen", (c,), real=True, integer=True, nonneg=True))), vs)
        if short in ("replace", "insert", "erase"):
            self.store(obj, fold(lambda *xs: Str(((short,) + xs,)), vs))
            return obj
        if short == "substr":
            return fold(lambda *xs: Str(((short,) + xs,)), vs)
        if short in ("clear",):
            self.store(obj, Str(()))
            return VOID
        self.undecided("string." + short)
        t = ptype(fr.types[e["t"]])
        self.store(obj, Top("string." + short))
        return Top("string." + short) if t.k != "ref" else obj


# ------------------------------------------------------------------------------------- entry helper
def sym_default(prefix, interp, t):
    """lazily symbolic contents for an input object of type t: every scalar leaf is a distinct input"""
    def leaf(path):
        x = t
        for p in path:
            x = interp.field_type(x, p)
            if x is None:
                return None
        if x.k == "ref":
            x = x.elem
        n = prefix
        for p in path:
            n += "[%d]" % p if isinstance(p, int) else "." + str(p)
        if x.k == "bool":
            return dd.boolsym(n)
        if x.k == "int":
            return num.sym(n, integer=True)
        if x.k == "flt":
            return num.sym(n)
        if x.k == "cplx":
            return num.sym(n, real=False)
        return None
    return leaf
