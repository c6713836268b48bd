"""C18: no value of a calculation passes through a type narrower than the working precision."""
import math
import re
from fractions import Fraction

from spx import ir, chk
from spx.interp import ptype, strip_cv

WIDTH = {"float": 24, "double": 53, "long double": 64}
HARNESS = re.compile(r"^(test_|score_|print)|random.*test|^choose_random_(ldouble|cdouble|int)$|^operator(<<|>>)$|^to_string$")
LIBRARY = re.compile(r"^spinas::(particle|sproduct|cmatrix|cvector|propagator)::test_")
OUTPUT = {"printf", "fprintf", "sprintf", "snprintf", "std::printf", "std::fprintf", "std::sprintf", "std::snprintf",
          "std::to_string", "puts"}
ROUND = {"round", "lround", "llround", "floor", "ceil", "trunc", "rint", "nearbyint", "lrint"}
CMP = {"<", "<=", ">", ">=", "==", "!="}
EXACT = "exact"     # not a known constant, but represented without rounding


def flt(s):
    """floating type name (through references, const and complex), or None"""
    s = strip_cv(s.replace("&", "").strip())
    m = re.match(r"^std::complex<(.*)>$", s)
    if m:
        s = m.group(1).strip()
    return s if s in WIDTH else None


def fits(v, t):
    if v.__class__ is not Fraction:
        return v
    d = v.denominator
    if d & (d - 1):
        return None
    n = abs(v.numerator)
    while n and not n & 1:
        n >>= 1
    return v if n.bit_length() <= WIDTH.get(t, 64) else None


class Scan:
    def __init__(self, c, prog, work, conf):
        self.c, self.prog, self.work, self.conf = c, prog, work, conf
        self.fdefs = {}       # (class, field) -> defining expressions
        for f in self.fns():
            for i in f.get("inits") or ():
                if i.get("f") and i.get("e"):
                    self.fdefs.setdefault((f.get("cls"), i["f"]), []).append((f, i["e"]))
            for n in nodes(f.get("body")):
                if n.get("k") in ("bin", "casg") and n.get("op", "").endswith("=") and n["op"] not in CMP and n["l"].get("k") == "mem":
                    self.fdefs.setdefault((n["l"].get("cls"), n["l"].get("f") or n["l"].get("n")), []).append((f, n["r"]))
        self.busy = set()

    def fns(self):
        for f in self.prog.functions.values():
            if f["file"].startswith(ir.REPO):
                yield f

    # ------------------------------------------------------------------ exactness of a value
    def ev(self, e, f):
        T = f["_types"]
        k = e.get("k")
        t = T[e["t"]] if "t" in e and isinstance(e["t"], int) else ""
        ty = strip_cv(t)
        if k == "int":
            return Fraction(int(e["v"]))
        if k == "bool":
            return Fraction(int(bool(e["v"])))
        if k == "flt":
            return fits(Fraction(e["x"]), ty) if e.get("exact") else None
        if k == "mat":
            return self.ev(e["e"], f)
        if k == "cast":
            if e["ck"] == "FloatingToIntegral":
                return EXACT
            v = self.ev(e["e"], f)
            return fits(v, ty)
        if k == "un" and e["op"] in "+-":
            v = self.ev(e["e"], f)
            return -v if v.__class__ is Fraction and e["op"] == "-" else v
        if k == "cond":
            kids = [self.ev(e[x], f) for x in ("a", "b") if x in e]
            if len(kids) == 2 and None not in kids:
                return kids[0] if kids[0] == kids[1] else EXACT
            return EXACT if ptype(t).k in ("int", "bool") else None
        if k == "bin" and e["op"] in "+-*/":
            a, b = self.ev(e["l"], f), self.ev(e["r"], f)
            isint = ptype(t).k in ("int", "bool")
            if a.__class__ is Fraction and b.__class__ is Fraction:
                if e["op"] == "/":
                    if b == 0:
                        return None
                    if isint:
                        q = a / b
                        return Fraction(int(q))
                    return fits(a / b, ty)
                return fits({"+": a + b, "-": a - b, "*": a * b}[e["op"]], ty)
            if isint:
                return EXACT
            if a is None or b is None:
                return None
            if e["op"] == "/":
                return EXACT if b.__class__ is Fraction and b and fits(1 / b, ty) is not None else None
            return EXACT
        if ptype(t).k in ("int", "bool"):
            return EXACT
        if k == "ld" or k == "var" or k == "gvar" or k == "mem":
            x = e["e"] if k == "ld" else e
            return self.var(x, f)
        if k == "call":
            q = e["fn"].get("q", "").rsplit("::", 1)[-1]
            q = re.sub(r"<.*>$", "", q)
            av = [self.ev(a, f) for a in e.get("args", ())]
            if q == "sqrt" and len(av) == 1 and av[0].__class__ is Fraction and av[0] >= 0:
                n, d = math.isqrt(av[0].numerator), math.isqrt(av[0].denominator)
                if n * n == av[0].numerator and d * d == av[0].denominator:
                    return Fraction(n, d)
                return None
            if q in ("abs", "fabs", "max", "min", "fmax", "fmin") and None not in av and av:
                return EXACT
            g = self.prog.functions.get(e["fn"].get("key"))
            if g is not None and g["key"] not in self.busy:
                self.busy.add(g["key"])
                r = [self.ev(n["e"], g) for n in nodes(g.get("body")) if n.get("k") == "ret" and n.get("e")]
                self.busy.discard(g["key"])
                if r and None not in r:
                    return EXACT
            return None
        if k == "ctor" and len(e.get("args", ())) == 1:
            return self.ev(e["args"][0], f)
        return None

    def var(self, x, f):
        if x.get("k") == "mat":
            return self.ev(x, f)
        if x.get("k") == "idx":
            return None
        if x.get("k") == "gvar":
            g = self.prog.globals.get(x.get("name") or x.get("q"))
            if g and g.get("const") and g.get("init"):
                return self.ev(g["init"], {"_types": g["_types"]})
            return None
        if x.get("k") == "mem":
            key = (x.get("cls"), x.get("f") or x.get("n"))
            ds = self.fdefs.get(key)
            if not ds or key in self.busy:
                return None
            self.busy.add(key)
            v = [self.ev(e, g) for g, e in ds]
            self.busy.discard(key)
            return None if None in v else (v[0] if len(set(v)) == 1 else EXACT)
        if x.get("k") != "var":
            return None
        V = self.vars(f)
        d = V.get(x["id"])
        if not d or d["esc"] or ("v", x["id"]) in self.busy:
            return None
        self.busy.add(("v", x["id"]))
        v = [self.ev(e, f) for e in d["defs"]]
        self.busy.discard(("v", x["id"]))
        if not v or None in v:
            return None
        return v[0] if len(v) == 1 and not d["step"] else EXACT

    def vars(self, f):
        """local variables: defining expressions, whether stepped, whether changed in a way not seen, and the kinds of use"""
        if "_vars" in f:
            return f["_vars"]
        V = {}
        T = f["_types"]

        def get(i):
            return V.setdefault(i, {"defs": [], "step": False, "esc": False, "use": set(), "const": False})

        def go(n, ctx):
            if isinstance(n, list):
                for y in n:
                    go(y, ctx)
                return
            if not isinstance(n, dict):
                return
            k = n.get("k")
            if k == "decl":
                for v in n["vars"]:
                    d = get(v["id"])
                    d["const"] = T[v["t"]].startswith("const ") and not v.get("ref")
                    if v.get("ref"):
                        d["esc"] = True
                    if v.get("init"):
                        d["defs"].append(v["init"])
                        go(v["init"], ("def", v["id"]))
                return
            if k in ("bin", "casg") and n["op"].endswith("=") and n["op"] not in CMP:
                l = n["l"]
                if l.get("k") == "var":
                    d = get(l["id"])
                    d["defs"].append(n["r"])
                    if n["op"] != "=":
                        d["step"] = True
                        if n["op"] not in ("+=", "-=", "*="):
                            d["esc"] = True
                    go(n["r"], ("def", l["id"]))
                    return
            if k == "un" and n["op"] in ("++", "--") and n["e"].get("k") == "var":
                get(n["e"]["id"])["step"] = True
                return
            if k == "ld" and n["e"].get("k") == "var":
                get(n["e"]["id"])["use"].add(ctx)
                return
            if k == "var":
                d = get(n["id"])
                d["use"].add(ctx)
                if not d["const"]:
                    d["esc"] = True
                return
            if k == "throw" or is_output(n, T):
                ctx = "out"
            elif k == "bin" and n["op"] in CMP:
                ctx = "cmp"
            for y in n.values():
                if isinstance(y, (dict, list)):
                    go(y, ctx)
        go(f.get("inits") or [], "use")
        go(f.get("body"), "use")
        f["_vars"] = V
        return V

    def harmless(self, f, vid, kinds, seen=()):
        """the variable is only printed (or, for a constant, only compared with)"""
        d = self.vars(f).get(vid)
        if not d or not d["use"] or vid in seen:
            return False
        for u in d["use"]:
            if isinstance(u, tuple):
                if not self.harmless(f, u[1], kinds, seen + (vid,)):
                    return False
            elif u not in kinds:
                return False
        return True

    # ------------------------------------------------------------------ the rules
    def scan(self, f):
        T = f["_types"]
        out = []
        n_conv = [0]
        W = WIDTH[self.work]

        def say(rule, n, text):
            out.append((rule, n.get("L", f["line"]), text))

        def inexact(n, e, ctx, v, src):
            if ctx == "out" or (isinstance(ctx, tuple) and self.harmless(f, ctx[1], {"out"})):
                return
            if constant(e) and (ctx == "cmp" or (isinstance(ctx, tuple) and self.harmless(f, ctx[1], {"out", "cmp"}))):
                return
            say("widening", n, "%s is computed in %s and then used in %s" % (show(e), src, self.work))

        def go(n, ctx):
            if isinstance(n, list):
                for y in n:
                    go(y, ctx)
                return
            if not isinstance(n, dict):
                return
            k = n.get("k")
            if k == "decl":
                for v in n["vars"]:
                    if v.get("init"):
                        go(v["init"], ("def", v["id"]))
                return
            if k in ("bin", "casg") and n["op"].endswith("=") and n["op"] not in CMP and n["l"].get("k") == "var":
                if k == "casg":
                    compound(n, ("def", n["l"]["id"]))
                go(n["r"], ("def", n["l"]["id"]))
                return
            if k == "casg":
                compound(n, ctx)
            if k == "throw" or is_output(n, T):
                ctx = "out"
            elif k == "bin" and n["op"] in CMP:
                ctx = "cmp"
            if k == "cast" and n["ck"] == "FloatingCast":
                a, b = flt(T[n["e"]["t"]]), flt(T[n["t"]])
                if a and b:
                    n_conv[0] += 1
                    if WIDTH[a] > WIDTH[b] and WIDTH[b] < W:
                        if self.ev(n["e"], f) is None and ctx != "out" and not (
                                isinstance(ctx, tuple) and self.harmless(f, ctx[1], {"out"})):
                            say("narrowing", n, "%s of type %s is rounded to %s" % (show(n["e"]), a, b))
                    elif WIDTH[a] < WIDTH[b]:
                        v = self.ev(n["e"], f)
                        if v is None:
                            inexact(n, n["e"], ctx, v, a)
            if k == "cast" and n["ck"] == "IntegralToFloating":
                n_conv[0] += 1
                for m in nodes(n["e"]):
                    if m.get("k") == "bin" and m["op"] == "/":
                        x, y = self.ev(m["l"], f), self.ev(m["r"], f)
                        if x.__class__ is Fraction and y.__class__ is Fraction and y and (x / y).denominator != 1 and ctx != "out":
                            say("integer division", m, "%s/%s is truncated to %d" % (x, y, int(x / y)))
            if k == "cast" and n["ck"] == "FloatingToIntegral" and ctx != "out":
                n_conv[0] += 1
                if self.ev(n["e"], f) is None and not any(
                        m.get("k") == "call" and m["fn"].get("q", "").rsplit("::", 1)[-1] in ROUND for m in nodes(n["e"])):
                    say("truncation", n, "%s is truncated to an integer" % show(n["e"]))
            if k == "ctor" and re.match(r"^std::complex<(float|double)>$", strip_cv(T[n["t"]]) if isinstance(n.get("t"), int) else ""):
                n_conv[0] += 1
                t = flt(T[n["t"]])
                for a in n.get("args", ()):
                    b = flt(T[a["t"]]) if isinstance(a.get("t"), int) else None
                    if b and WIDTH[b] > WIDTH[t] and WIDTH[t] < W and ctx != "out":
                        say("narrowing", n, "complex value of type %s is rounded to %s" % (b, t))
            if k == "ctor" and isinstance(n.get("t"), int) and strip_cv(T[n["t"]]) == "std::complex<%s>" % self.work:
                for a in n.get("args", ()):
                    ts = strip_cv(T[a["t"]].replace("&", "")) if isinstance(a.get("t"), int) else ""
                    if re.match(r"^std::complex<(float|double)>$", ts) and WIDTH[flt(ts)] < W and ctx != "out":
                        n_conv[0] += 1
                        say("widening", n, "complex value computed in %s" % flt(ts))
            for y in n.values():
                if isinstance(y, (dict, list)):
                    go(y, ctx)

        def compound(n, ctx):
            a = flt(T[n["l"]["t"]]) if isinstance(n["l"].get("t"), int) else None
            b = flt(T[n["r"]["t"]]) if isinstance(n["r"].get("t"), int) else None
            if a and b and WIDTH[b] > WIDTH[a] and WIDTH[a] < W and self.ev(n["r"], f) is None:
                if not (isinstance(ctx, tuple) and self.harmless(f, ctx[1], {"out"})):
                    say("narrowing", n, "%s of type %s is accumulated in %s" % (show(n["r"]), b, a))
        go(f.get("inits") or [], "use")
        go(f.get("body"), "use")
        return n_conv[0], out


def nodes(n):
    if isinstance(n, dict):
        if "k" in n:
            yield n
        for k, y in n.items():
            if isinstance(y, (dict, list)) and k != "_vars":
                yield from nodes(y)
    elif isinstance(n, list):
        for y in n:
            yield from nodes(y)


def is_output(n, T):
    if n.get("k") != "call":
        return False
    fn = n["fn"]
    if fn.get("q") in OUTPUT:
        return True
    if fn.get("op") == "<<" or fn.get("q", "").endswith("operator<<"):
        ts = [T[t] for t in fn.get("pt", ()) if isinstance(t, int)]
        cl = fn.get("cls") or ""
        return "ostream" in cl or any("ostream" in t for t in ts)
    return False


def constant(e):
    return all(m.get("k") in ("flt", "int", "bin", "un", "cast", "call", "gvar", "ld", "mat") and
               (m.get("k") != "ld" or m["e"].get("k") == "gvar") for m in nodes(e))


def show(e, d=0):
    k = e.get("k")
    if d > 4:
        return "..."
    if k in ("flt", "int"):
        return str(e["v"])
    if k == "bin":
        return "%s%s%s" % (show(e["l"], d + 1), e["op"], show(e["r"], d + 1))
    if k == "un":
        return "%s%s" % (e["op"], show(e["e"], d + 1))
    if k in ("cast", "ld", "mat"):
        return show(e["e"], d)
    if k == "call":
        return "%s(%s)" % (e["fn"].get("q", "?"), ",".join(show(a, d + 1) for a in e.get("args", ())))
    return str(e.get("name") or e.get("f") or e.get("n") or k)


def body(c):
    qs = {}
    for conf, work in ((True, "long double"), (False, "double")):
        name = "extended precision" if conf else "plain double"
        prog = ir.load(("source", "SM"), long_double=conf)
        # the working type itself
        for q, what in (("spinas::particle", "mass of a particle"), ("spinas::propagator", "mass of a propagator")):
            r = prog.records.get(q)
            if r is None:
                raise ir.AnalysisError("class %s not found" % q)
            for m in r["methods"]:
                if not m["ctor"] or m["implicit"]:
                    continue
                f = prog.functions.get(m["key"])
                if f is None:
                    continue
                for p in f["params"]:
                    t = flt(f["_types"][p["t"]])
                    if t is None:
                        continue
                    inst = "%s, %s, parameter %s of %s" % (name, what, p["name"], m["key"])
                    if WIDTH[t] >= WIDTH[work]:
                        c.ok("working type", inst)
                    else:
                        c.violation("working type", inst, "%s:%d" % (ir.rel(f["file"]), f["line"]), "has type %s, not %s" % (t, work))
        for q in ("spinas::cvector", "spinas::cmatrix", "spinas::particle", "spinas::sproduct", "spinas::propagator"):
            r = prog.records.get(q)
            if r is None:
                raise ir.AnalysisError("class %s not found" % q)
            for m in r["methods"]:
                f = prog.functions.get(m["key"])
                if f is None or m["ctor"] or m["access"] != 0:
                    continue
                t = flt(f["_types"][f["ret"]]) if isinstance(f.get("ret"), int) else None
                if t is None:
                    continue
                inst = "%s, result of %s" % (name, m["key"])
                if WIDTH[t] >= WIDTH[work]:
                    c.ok("working type", inst)
                else:
                    c.violation("working type", inst, "%s:%d" % (ir.rel(f["file"]), f["line"]), "has type %s, not %s" % (t, work))
        S = Scan(c, prog, work, name)
        for f in sorted(S.fns(), key=lambda f: (f["file"], f["line"])):
            qs.setdefault(conf, set()).add(f["q"])
            if HARNESS.search(f["q"].rsplit("::", 1)[1] if "::" in f["q"] else f["q"]) and not LIBRARY.search(f["q"]):
                continue
            n, found = S.scan(f)
            c.count("conversions, " + name, n)
            c.count("functions, " + name)
            if not found:
                c.ok("precision, " + name, f["key"].replace("long double", "real").replace("double", "real"))
            done = set()
            for rule, line, text in found:
                # the extended configuration reports the narrowing, the plain one what is narrower than double
                inst = "%s, %s, %s" % (name, f["q"], text)
                if inst in done:
                    continue
                done.add(inst)
                c.violation(rule, inst, "%s:%d" % (ir.rel(f["file"]), line), text)
    for q in sorted(qs[True] ^ qs[False]):
        c.undecided("same code", q, "compiled in one configuration only")
    c.floor("working type", 24)
    c.floor("precision, extended precision", 850)
    c.floor("precision, plain double", 850)
    c.assume("Printed text, thresholds of comparisons and the randomised test kinematics are not results.")
