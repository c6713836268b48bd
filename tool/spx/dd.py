"""Gated values: ordered decision diagrams over condition atoms with arbitrary leaves.

A value is either a leaf (Poly, bool, Ptr, Str, Undef, Top, Nan, ...) or an `Ite` node.  Joins of
control flow build such gated values (gated SSA); there is no path enumeration and no solver.
"""
from . import num
from .num import Poly, P

_CONDS = []      # id -> Cond
_CTAB = {}
_NODES = {}


class Cond:
    __slots__ = ("id", "kind", "args")

    def __repr__(self):
        if self.kind == "lt":
            return "(%s < 0)" % (self.args[0],)
        if self.kind == "eq":
            return "(%s == 0)" % (self.args[0],)
        return "%s%s" % (self.kind, self.args if len(self.args) != 1 else "(%s)" % (self.args[0],))


def cond(kind, *args):
    key = (kind, args)
    c = _CTAB.get(key)
    if c is None:
        c = Cond()
        c.id = len(_CONDS)
        c.kind, c.args = kind, args
        _CONDS.append(c)
        _CTAB[key] = c
    return c


def cond_by_id(i):
    return _CONDS[i]


class Ite:
    __slots__ = ("v", "hi", "lo", "_h")

    def __init__(self, v, hi, lo):
        self.v, self.hi, self.lo = v, hi, lo
        self._h = hash((v, hi if isinstance(hi, (bool, Poly)) else id(hi), lo if isinstance(lo, (bool, Poly)) else id(lo)))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return "ite(%r, %r, %r)" % (_CONDS[self.v], self.hi, self.lo)

    def leaves_for_atoms(self):
        out = list(leaves(self))
        for c in conds_in(self):
            out.extend(_CONDS[c].args)
        return out


class Leaf:
    """base of non-numeric leaves; compared by key()"""
    __slots__ = ()

    def key(self):
        raise NotImplementedError

    def __hash__(self):
        return hash((self.__class__.__name__, self.key()))

    def __eq__(self, o):
        return self is o or (o.__class__ is self.__class__ and self.key() == o.key())

    def __ne__(self, o):
        return not self == o


class Ptr(Leaf):
    __slots__ = ("obj", "path")

    def __init__(self, obj, path=()):
        self.obj, self.path = obj, path

    def key(self):
        return (self.obj, self.path)

    def __repr__(self):
        return "&%s%s" % (self.obj, "".join("[%d]" % x if isinstance(x, int) else "." + str(x) for x in self.path))


class Null(Leaf):
    __slots__ = ()

    def key(self):
        return ()

    def __repr__(self):
        return "nullptr"


NULL = Null()


class Undef(Leaf):
    """indeterminate value with its origin"""
    __slots__ = ("what",)

    def __init__(self, what):
        self.what = what

    def key(self):
        return self.what

    def __repr__(self):
        return "uninitialised<%s>" % (self.what,)


class Top(Leaf):
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def key(self):
        return self.why

    def __repr__(self):
        return "unknown<%s>" % (self.why,)


class NanT(Leaf):
    __slots__ = ()

    def key(self):
        return ()

    def __repr__(self):
        return "NaN"


NAN = NanT()


class InfT(Leaf):
    """infinite value; sign +1 or -1"""
    __slots__ = ("sign",)

    def __init__(self, sign):
        self.sign = sign

    def key(self):
        return self.sign

    def __repr__(self):
        return "inf" if self.sign > 0 else "-inf"


INF, MINF = InfT(1), InfT(-1)


class Str(Leaf):
    """string as a tuple of parts: literal text or (tag, value, ...) tuples"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)

    def key(self):
        return self.parts

    def __repr__(self):
        return "".join(p if isinstance(p, str) else "<%s>" % (p,) for p in self.parts)


class Closure(Leaf):
    """function value: ('fn', fn dict) or ('lambda', node, env)"""
    __slots__ = ("kind", "ref", "env")

    def __init__(self, kind, ref, env=None):
        self.kind, self.ref, self.env = kind, ref, env

    def key(self):
        return (self.kind, id(self.ref) if self.kind == "lambda" else self.ref, id(self.env))

    def __repr__(self):
        return "<%s>" % self.kind


class Obj(Leaf):
    """immutable opaque leaf with a hashable payload (used by class models)"""
    __slots__ = ("tag", "data")

    def __init__(self, tag, data):
        self.tag, self.data = tag, data

    def key(self):
        return (self.tag, self.data)

    def __repr__(self):
        return "%s%r" % (self.tag, self.data)

    def leaves_for_atoms(self):
        return [self.data]


VOID = Obj("void", ())


def is_leaf(v):
    return v.__class__ is not Ite


def mk(v, hi, lo):
    if hi is lo or (is_leaf(hi) and is_leaf(lo) and _same(hi, lo)):
        return hi
    key = (v, _k(hi), _k(lo))
    n = _NODES.get(key)
    if n is None:
        n = Ite(v, hi, lo)
        _NODES[key] = n
    return n


def _k(x):
    return ("n", id(x)) if x.__class__ is Ite else (x.__class__.__name__, x)


def _same(a, b):
    return a.__class__ is b.__class__ and a == b


def topvar(*vs):
    m = None
    for v in vs:
        if v.__class__ is Ite and (m is None or v.v < m):
            m = v.v
    return m


def cof(v, var, val):
    if v.__class__ is Ite and v.v == var:
        return v.hi if val else v.lo
    return v


MAX_APPLY = 400000


class Blowup(Exception):
    pass


def apply1(f, a, memo=None):
    if a.__class__ is not Ite:
        return f(a)
    if memo is None:
        memo = {}
    r = memo.get(id(a))
    if r is None:
        r = ite_var(a.v, apply1(f, a.hi, memo), apply1(f, a.lo, memo))
        memo[id(a)] = r
    return r


def apply2(f, a, b, memo=None):
    if a.__class__ is not Ite and b.__class__ is not Ite:
        return f(a, b)
    if memo is None:
        memo = {}
    k = (id(a) if a.__class__ is Ite else ("l", _k(a)), id(b) if b.__class__ is Ite else ("l", _k(b)))
    r = memo.get(k)
    if r is None:
        if len(memo) > MAX_APPLY:
            raise Blowup()
        v = topvar(a, b)
        r = ite_var(v, apply2(f, cof(a, v, True), cof(b, v, True), memo),
                    apply2(f, cof(a, v, False), cof(b, v, False), memo))
        memo[k] = r
    return r


def applyn(f, args, memo=None):
    if not any(a.__class__ is Ite for a in args):
        return f(*args)
    if memo is None:
        memo = {}
    k = tuple(id(a) if a.__class__ is Ite else ("l", _k(a)) for a in args)
    r = memo.get(k)
    if r is None:
        if len(memo) > MAX_APPLY:
            raise Blowup()
        v = topvar(*args)
        r = ite_var(v, applyn(f, [cof(a, v, True) for a in args], memo),
                    applyn(f, [cof(a, v, False) for a in args], memo))
        memo[k] = r
    return r


def ite_var(v, hi, lo):
    """ite on a variable, keeping the order even if hi/lo contain smaller variables"""
    if hi is lo or (is_leaf(hi) and is_leaf(lo) and _same(hi, lo)):
        return hi
    th, tl = topvar(hi), topvar(lo)
    if (th is None or th > v) and (tl is None or tl > v):
        return mk(v, hi, lo)
    return ite(mk(v, True, False), hi, lo)


_ITE = {}


def ite(c, a, b):
    """c: boolean diagram"""
    if c is True:
        return a
    if c is False:
        return b
    if c.__class__ is not Ite:
        # unknown boolean: undecided condition
        c = mk(cond("unknown", repr(c)).id, True, False)
    if a is b or (is_leaf(a) and is_leaf(b) and _same(a, b)):
        return a
    k = (id(c), _k(a), _k(b))
    r = _ITE.get(k)
    if r is not None:
        return r
    v = topvar(c, a, b)
    hi = ite(cof(c, v, True), cof(a, v, True), cof(b, v, True))
    lo = ite(cof(c, v, False), cof(a, v, False), cof(b, v, False))
    r = mk(v, hi, lo)
    _ITE[k] = r
    return r


def not_(a):
    return apply1(lambda x: (not x) if x is True or x is False else x, a)


def and_(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return ite(a, b, False)


def or_(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return ite(a, True, b)


def var(c):
    return mk(c.id, True, False)


def boolsym(name):
    return var(cond("sym", name))


def unknown_bool(why):
    return var(cond("unknown", why))


# --- comparisons -----------------------------------------------------------------------------
def _norm(p):
    """scale to primitive with positive leading coefficient; -> (poly, sign)"""
    c = num.gcd_content(p)
    lead = max(p.d)
    s = 1
    if p.d[lead] < 0:
        s = -1
    if c == 1 and s == 1:
        return p, 1
    f = s / c if c != 1 else s
    return Poly({m: num._q(num.Fraction(v) * f) for m, v in p.d.items()}), s


def lt0(p):
    """p < 0"""
    if p.is_const():
        return p.const() < 0
    if num.nonneg(p):
        return False
    if num.strictly_positive(-p):
        return True
    q, s = _norm(p)
    if num.is_zero(q):
        return False
    if s > 0:
        return var(cond("lt", q))
    # -q < 0  <=>  q > 0 <=> not (q<0 or q==0)
    return and_(not_(lt0_atom(q)), not_(eq0(q)))


def lt0_atom(q):
    if num.nonneg(q):
        return False
    return var(cond("lt", q))


def eq0(p):
    if p.is_const():
        return p.const() == 0
    if num.strictly_positive(p) or num.strictly_positive(-p):
        return False
    q, s = _norm(p)
    z = num.is_zero(q)
    if z:
        return True
    # x == 0 for a single power of an atom
    if len(q.d) == 1:
        (m, c), = q.d.items()
        if all(num._ATOMS[a].positive for a, e in m):
            return False
        if len(m) == 1 and m[0][1] != 1 and m[0][1] > 0:
            q = Poly({((m[0][0], 1),): 1})
    elif all(c > 0 and num.mono_nonneg(m) for m, c in q.d.items()):
        # a sum of non-negative terms vanishes when each does
        r = True
        for m in q.d:
            r = and_(r, eq0(Poly({m: 1})))
        return r
    return var(cond("eq", q))


# --- inspection --------------------------------------------------------------------------------
def leaves(v, out=None):
    if out is None:
        out = {}
    seen = set()
    stack = [v]
    res = []
    while stack:
        x = stack.pop()
        if x.__class__ is Ite:
            if id(x) in seen:
                continue
            seen.add(id(x))
            stack.append(x.hi)
            stack.append(x.lo)
        else:
            res.append(x)
    return res


def conds_in(v):
    seen = set()
    out = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if x.__class__ is Ite and id(x) not in seen:
            seen.add(id(x))
            out.add(x.v)
            stack.append(x.hi)
            stack.append(x.lo)
    return out


def restrict(v, asg, memo=None):
    """asg: dict cond id -> bool"""
    if v.__class__ is not Ite:
        return v
    if memo is None:
        memo = {}
    r = memo.get(id(v))
    if r is None:
        if v.v in asg:
            r = restrict(v.hi if asg[v.v] else v.lo, asg, memo)
        else:
            r = ite_var(v.v, restrict(v.hi, asg, memo), restrict(v.lo, asg, memo))
        memo[id(v)] = r
    return r


def constrain(v, c):
    """simplify v knowing that c holds (generalised cofactor); v arbitrary"""
    if c is True or v.__class__ is not Ite:
        return v
    memo = {}

    def go(v, c):
        if v.__class__ is not Ite or c is True:
            return v
        if c is False:
            return None
        k = (id(v), id(c) if c.__class__ is Ite else c)
        if k in memo:
            return memo[k]
        t = topvar(v, c)
        ch, cl = cof(c, t, True), cof(c, t, False)
        if ch is False:
            r = go(cof(v, t, False), cl)
        elif cl is False:
            r = go(cof(v, t, True), ch)
        else:
            h, l = go(cof(v, t, True), ch), go(cof(v, t, False), cl)
            if v.v != t:
                # variable only in the constraint: drop it when both agree
                if h is l or (h is not None and l is not None and is_leaf(h) and is_leaf(l) and _same(h, l)):
                    r = h
                else:
                    r = v if not (v.v == t) else mk(t, h, l)
            else:
                r = h if l is None else l if h is None else mk(t, h, l) if not (h is l) else h
        memo[k] = r
        return r
    r = go(v, c)
    return v if r is None else r


def cubes(v, want=None, limit=4096):
    """yield (assignment dict, leaf) for consistent paths of the diagram"""
    out = []

    def go(x, asg):
        if len(out) > limit:
            raise Blowup()
        if x.__class__ is not Ite:
            if want is None or want(x):
                out.append((dict(asg), x))
            return
        for val in (True, False):
            asg[x.v] = val
            if consistent(asg):
                go(x.hi if val else x.lo, asg)
            del asg[x.v]
    go(v, {})
    return out


def feasible(b):
    """is there a consistent assignment making boolean b true?"""
    if b is True or b is False:
        return b

    def go(x, asg):
        if x.__class__ is not Ite:
            return x is not False
        for val in (True, False):
            asg[x.v] = val
            if consistent(asg) and go(x.hi if val else x.lo, asg):
                return True
            del asg[x.v]
        return False
    return go(b, {})


def _split_const(p):
    c = p.d.get((), 0)
    if c:
        d = dict(p.d)
        del d[()]
        return Poly(d), c
    return p, 0


def consistent(asg):
    """interval consistency of comparisons over the same polynomial up to a constant"""
    groups = {}
    for cid, val in asg.items():
        c = _CONDS[cid]
        if c.kind in ("lt", "eq"):
            base, k = _split_const(c.args[0])
            if base.d:
                n, s = _norm_base(base)
                groups.setdefault(n, []).append((c.kind, num.Fraction(-k) / s, val, s))
    for base, facts in groups.items():
        if len(facts) < 2 and not base.d:
            continue
        lo = hi = None
        lo_s = hi_s = False   # strict
        ne = set()
        eq = None
        integer = _is_int(base)
        if num.nonneg(base):
            lo = num.Fraction(0)
        for kind, k, val, s in facts:
            # condition: s*(base) - s*k  {<,==} 0   with s possibly negative
            if kind == "eq":
                if val:
                    if eq is not None and eq != k:
                        return False
                    eq = k
                else:
                    ne.add(k)
            else:
                # s>0: base < k ; s<0: base > k
                if (s > 0) == val:
                    strict = val
                    # upper bound: base<k (val) or base<=k (s<0, not val)
                    if hi is None or k < hi or (k == hi and strict and not hi_s):
                        hi, hi_s = k, strict
                else:
                    strict = val
                    if lo is None or k > lo or (k == lo and strict and not lo_s):
                        lo, lo_s = k, strict
        if eq is not None:
            if eq in ne:
                return False
            if lo is not None and (eq < lo or (eq == lo and lo_s)):
                return False
            if hi is not None and (eq > hi or (eq == hi and hi_s)):
                return False
            if integer and num.Fraction(eq).denominator != 1:
                return False
        if lo is not None and hi is not None:
            if lo > hi or (lo == hi and (lo_s or hi_s)):
                return False
            if lo == hi and lo in ne:
                return False
            if integer:
                import math
                a = math.floor(lo) + 1 if lo_s else math.ceil(lo)
                b = math.ceil(hi) - 1 if hi_s else math.floor(hi)
                if not any(x not in ne for x in range(a, min(b, a + 50) + 1)):
                    return False
    return True


def _norm_base(p):
    lead = max(p.d)
    c = num.Fraction(p.d[lead])
    if c == 1:
        return p, c
    return Poly({m: num._q(num.Fraction(v) / c) for m, v in p.d.items()}), c


def _is_int(p):
    for m, c in p.d.items():
        if num.Fraction(c).denominator != 1:
            return False
        for a, e in m:
            if not num._ATOMS[a].integer or e < 0:
                return False
    return True
