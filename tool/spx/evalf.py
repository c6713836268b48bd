"""Numeric evaluation of analysis terms at sample points.

Used only to turn a difference of two normal forms into a definite one: a reported difference always
comes with a point at which the two terms have different values and all path conditions hold.
"""
import cmath
import hashlib
import math

from . import num, dd


def _h(*xs):
    return int.from_bytes(hashlib.sha256(repr(xs).encode()).digest()[:8], "big") / 2.0 ** 64


class Bad(Exception):
    pass


class Env:
    def __init__(self, seed, vals=None, intval=None):
        self.seed = seed
        self.vals = dict(vals or {})
        self.cache = {}
        self.intval = intval
        self.used = {}

    def set(self, name, v):
        self.vals[name] = v
        self.cache = {}

    def sym(self, a):
        n = a.args[0]
        if n in self.vals:
            v = self.vals[n]
        elif n == "pi":
            v = math.pi
        elif n == "eps":
            v = 1e-16
        elif n == "fltmin":
            v = 1e-300
        elif n in ("fltmax", "infinity"):
            v = 1e300
        elif a.integer:
            v = (self.intval(n, self.seed) if self.intval else int(_h("i", n, self.seed) * 5) - 2)
            if a.nonneg:
                v = abs(v)
        elif a.nonneg and str(n).startswith("sinW"):
            v = 0.1 + 0.8 * _h(n, self.seed)
        elif a.nonneg:
            v = 0.3 + 1.7 * _h(n, self.seed)
        elif a.real:
            v = 0.3 + 1.9 * _h(n, self.seed)
            if _h("s", n, self.seed) < 0.4:
                v = -v
        else:
            v = complex(0.3 + _h("r", n, self.seed), -0.8 + 1.9 * _h("q", n, self.seed))
        self.used[n] = v
        return complex(v)

    def atom(self, aid):
        v = self.cache.get(aid)
        if v is None:
            v = self._atom(num._ATOMS[aid])
            self.cache[aid] = v
        return v

    def _atom(self, a):
        k = a.kind
        if k == "sym":
            return self.sym(a)
        if k == "I":
            return 1j
        if k == "sqrt":
            x = self.poly(a.args[0])
            if abs(x.imag) < 1e-9 * (1 + abs(x.real)):
                if x.real < 0:
                    if x.real > -1e-11:
                        return 0j
                    raise Bad("sqrt of %r" % x)
                return complex(math.sqrt(x.real))
            return cmath.sqrt(x)
        if k == "abs":
            return complex(abs(self.poly(a.args[0])))
        if k == "inv":
            x = self.poly(a.args[0])
            if abs(x) < 1e-13:
                raise Bad("1/0")
            return 1 / x
        if k == "cj":
            return self._cj(a)
        if k == "div0":
            raise Bad("1/0")
        if k == "Den":
            d, q = self.poly(a.args[0]), [self.poly(x) for x in a.args[1:]]
            return q[0] * q[0] - q[1] * q[1] - q[2] * q[2] - q[3] * q[3] + d
        if k == "atan2":
            y, x = self.poly(a.args[0]), self.poly(a.args[1])
            return complex(math.atan2(y.real, x.real))
        if k.startswith("fn:") and len(a.args) == 1 and isinstance(a.args[0], num.Poly):
            x = self.poly(a.args[0])
            n = k[3:]
            f = {"exp": cmath.exp, "log": cmath.log, "acos": cmath.acos, "asin": cmath.asin, "atan": cmath.atan,
                 "cosh": cmath.cosh, "sinh": cmath.sinh, "tanh": cmath.tanh}.get(n)
            if f:
                try:
                    return f(x)
                except (ValueError, ZeroDivisionError):
                    raise Bad(n)
            if n in ("floor", "ceil", "trunc", "round"):
                g = {"floor": math.floor, "ceil": math.ceil, "trunc": int, "round": round}[n]
                return complex(g(x.real))
        if k == "fn:pow":
            try:
                return self.poly(a.args[0]) ** self.poly(a.args[1])
            except (ValueError, ZeroDivisionError, OverflowError):
                raise Bad("pow")
        if k == "fn:idiv":
            x, y = self.poly(a.args[0]).real, self.poly(a.args[1]).real
            if not y:
                raise Bad("1/0")
            return complex(int(x / y))
        if k in ("fn:op%", "fn:op&", "fn:op>>", "fn:op<<", "fn:op|", "fn:op^"):
            x, y = int(round(self.poly(a.args[0]).real)), int(round(self.poly(a.args[1]).real))
            op = k[5:]
            try:
                return complex({"%": lambda: int(math.fmod(x, y)), "&": lambda: x & y, ">>": lambda: x >> y,
                                "<<": lambda: x << y, "|": lambda: x | y, "^": lambda: x ^ y}[op]())
            except (ValueError, ZeroDivisionError):
                raise Bad(op)
        # opaque: a pseudo-random function of the argument values
        key = [k] + [self._key(x) for x in a.args]
        v = complex(0.4 + _h("o", key, self.seed), 0 if a.real else -0.5 + _h("p", key, self.seed))
        if a.integer:
            v = complex(int(v.real * 5))
        return v

    def _cj(self, a):
        x = a.args[0]
        if isinstance(x, num.Poly):
            return self.poly(x).conjugate()
        if isinstance(x, num.Atom):
            return self.atom(x.id).conjugate()
        if isinstance(x, int):
            return self.atom(x).conjugate()
        raise Bad("cj")

    def _key(self, x):
        if isinstance(x, num.Poly):
            v = self.poly(x)
            return ("%.6g" % (v.real + 0.0), "%.6g" % (v.imag + 0.0 if abs(v.imag) > 1e-12 else 0.0))
        if isinstance(x, tuple):
            return tuple(self._key(y) for y in x)
        if x.__class__ is dd.Ite:
            return self._key(self.dd(x))
        return repr(x)

    def poly(self, p):
        s = 0j
        for m, c in p.d.items():
            t = complex(float(c))
            for aid, e in m:
                a = num._ATOMS[aid]
                if a.kind == "E":
                    t *= cmath.exp(1j * float(e) * self.poly(a.args[0]))
                elif isinstance(e, int):
                    v = self.atom(aid)
                    if e < 0 and abs(v) < 1e-13:
                        raise Bad("1/0")
                    t *= v ** e
                else:
                    t *= self.atom(aid) ** float(e)
            s += t
        return s

    def scale(self, p):
        s = 0.0
        for m, c in p.d.items():
            t = abs(float(c))
            for aid, e in m:
                a = num._ATOMS[aid]
                if a.kind != "E":
                    t *= abs(self.atom(aid)) ** float(e)
            s += t
        return s

    def cond(self, cid):
        c = dd.cond_by_id(cid)
        if c.kind == "lt":
            return self.poly(c.args[0]).real < 0
        if c.kind == "eq":
            x = self.poly(c.args[0])
            return abs(x) <= 1e-12 * (1 + self.scale(c.args[0]))
        if c.kind in ("isnan", "isinf"):
            return False
        return _h("b", c.kind, repr(c.args), self.seed) < 0.5

    def dd(self, v):
        while v.__class__ is dd.Ite:
            v = v.hi if self.cond(v.v) else v.lo
        return v


def _square(p):
    """a polynomial that vanishes where p does, with one square root removed"""
    for m in p.d:
        if len(m) == 1 and m[0][1] == 1 and num._ATOMS[m[0][0]].kind == "sqrt":
            t = num.Poly({m: p.d[m]})
            rest = p - t
            if any(m[0][0] == x for r in rest.d for x, _ in r):
                continue
            return t * t - rest * rest
    return None


def solve(env, asg):
    """adjust env so that the equality conditions of the assignment hold where they can be solved for a symbol"""
    fixed, used = set(), set()
    eqs = []
    for cid, val in asg.items():
        c = dd.cond_by_id(cid)
        if c.kind == "eq" and val:
            p = c.args[0]
            eqs.append((sum(1 for x in num.atoms_in(p, deep=False) if num._ATOMS[x].kind != "sym"), len(eqs), p))
    for _, _, p in sorted(eqs, key=lambda x: x[:2]):
        if not _solve1(env, p, fixed, used):
            for _ in range(2):
                try:
                    p = _square(p)
                except num.TooBig:
                    p = None
                if p is None or _solve1(env, p, fixed, used):
                    break
    return env


def _solve1(env, p, fixed, used):
    ids = [x for x in sorted(num.atoms_in(p, deep=False)) if num._ATOMS[x].kind == "sym" and num._ATOMS[x].args[0] not in fixed]
    ids.sort(key=lambda x: num._ATOMS[x].args[0] in used)
    for aid in ids:
        a = num._ATOMS[aid]
        n = a.args[0]
        degs = [e for m in p.d for x, e in m if x == aid]
        if any(e not in (1, 2) for e in degs):
            continue
        old = env.vals.get(n)
        try:
            env.set(n, 0.0)
            b = env.poly(p)
            env.set(n, 1.0)
            k = env.poly(p) - b
            if abs(k) < 1e-12:
                raise Bad()
            if all(e == 1 for e in degs):
                v = -b / k
            else:
                if any(e == 1 for e in degs):
                    raise Bad()
                v = cmath.sqrt(-b / k)
                if not a.nonneg and _h("root", n, env.seed) < 0.5:
                    v = -v
            if a.real and abs(v.imag) > 1e-12:
                raise Bad()
            if a.nonneg and v.real < 0:
                raise Bad()
            if a.integer and abs(v.real - round(v.real)) > 1e-9:
                raise Bad()
            env.set(n, v.real if a.real else v)
            fixed.add(n)
            for x in num.atoms_in(p):
                if num._ATOMS[x].kind == "sym":
                    used.add(num._ATOMS[x].args[0])
            return True
        except (Bad, OverflowError, ZeroDivisionError):
            if old is None:
                env.vals.pop(n, None)
            else:
                env.vals[n] = old
            env.cache = {}
    return False


def holds(env, asg):
    try:
        return all(env.cond(c) == v for c, v in asg.items())
    except (Bad, OverflowError):
        return False


def _zeros(env, p, nm, aid):
    """values of a symbol at which the argument of a modulus in p vanishes, if it is linear in the symbol"""
    out = []
    for x in sorted(num.atoms_in(p)):
        a = num._ATOMS[x]
        if a.kind != "abs" or aid not in num.atoms_in(a.args[0], deep=False):
            continue
        try:
            env.set(nm, 0.0)
            b = env.poly(a.args[0])
            env.set(nm, 1.0)
            k = env.poly(a.args[0]) - b
            if abs(k) > 1e-30 and abs((b / k).imag) < 1e-12:
                out.append(-(b / k).real)
        except (Bad, OverflowError):
            pass
    return out


_CAND = (0.0, 1.0, -1.0, 0.1, -0.1, 3.0, -3.0, 10.0, -10.0, 1e-3, -1e-3, 100.0, -100.0, 1e-6, 1e4, -1e4, 1e-9, 1e-12, 1e7)


def repair(env, asg, tries=3):
    """local search for a point satisfying the conditions, starting from env"""
    def score():
        s = 0
        for c, v in asg.items():
            try:
                s += env.cond(c) == v
            except (Bad, OverflowError):
                pass
        return s
    n = len(asg)
    best = score()
    fixed = set()
    for cid, val in asg.items():
        if val and dd.cond_by_id(cid).kind == "eq":
            for aid in num.atoms_in(dd.cond_by_id(cid).args[0]):
                a = num._ATOMS[aid]
                if a.kind == "sym":
                    fixed.add(a.args[0])
    for _ in range(tries):
        moved = False
        for cid, val in asg.items():
            c = dd.cond_by_id(cid)
            if c.kind not in ("lt", "eq"):
                continue
            try:
                if env.cond(cid) == val:
                    continue
            except (Bad, OverflowError):
                pass
            p = c.args[0]
            for aid in sorted(num.atoms_in(p)):
                a = num._ATOMS[aid]
                if a.kind != "sym" or not a.real or a.args[0] in fixed or a.args[0] in ("pi", "eps", "fltmin", "fltmax", "infinity"):
                    continue
                nm = a.args[0]
                had = nm in env.vals
                old = env.vals.get(nm)
                cur = complex(env.sym(a)).real
                cands = []
                if c.kind == "lt":
                    try:
                        env.set(nm, 0.0)
                        b = env.poly(p).real
                        env.set(nm, 1.0)
                        k = env.poly(p).real - b
                        if abs(k) > 1e-30:
                            v0 = -b / k
                            cands = [v0 * 0.5, v0 * 1.5, v0 * 0.999, v0 * 1.001, v0 - 0.5, v0 + 0.5]
                    except (Bad, OverflowError):
                        pass
                    cands = _zeros(env, p, nm, aid) + cands
                cands += list(_CAND) + [cur * 2, cur * 0.5]
                ok = False
                for v in cands:
                    if a.integer:
                        v = float(int(round(v)))
                    if a.nonneg and v < 0 or a.positive and v <= 0:
                        continue
                    env.set(nm, v)
                    s = score()
                    if s > best:
                        best, ok, moved = s, True, True
                        break
                if ok:
                    break
                if had:
                    env.set(nm, old)
                else:
                    env.vals.pop(nm, None)
                    env.cache = {}
            if best == n:
                return True
        if not moved:
            return False
    return best == n
