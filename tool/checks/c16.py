"""C16: no mutable state is shared between objects or calls; interleaved objects behave like separate ones."""
import re

from checks.proc import *
from checks.c18 import nodes
from spx.interp import strip_cv

RANDOM = re.compile(r"random", re.I)
TEST = re.compile(r"^(test_|score_)|random", re.I)
STATEFUL = {"rand", "srand", "std::rand", "std::srand", "drand48", "srand48", "random", "srandom", "strtok", "std::strtok",
            "fesetround", "std::fesetround", "setenv", "putenv"}
MUTATORS = {"push_back", "emplace_back", "insert", "emplace", "erase", "clear", "resize", "assign", "pop_back", "swap",
            "reset", "store", "fetch_add", "exchange", "try_emplace", "insert_or_assign", "push", "pop", "fill", "reserve"}


def short(q):
    return q.rsplit("::", 1)[-1]


class Shared:
    """variables with static storage and how each function touches them"""

    def __init__(self, prog):
        self.prog = prog
        self.vars = {}        # id -> dict(name, const, where, tls, init, f)
        self.uses = {}        # function key -> {id: (kind, line)}
        self.written = {}     # id -> (function key, line)
        self.ambiguous = {}
        for n, g in prog.globals.items():
            self.vars[("g", n)] = {"name": n, "const": bool(g.get("const")), "where": "%s:%d" % (ir.rel(g["file"]), g["line"]), "tls": g.get("tls")}
        for f in prog.functions.values():
            if not f["file"].startswith(ir.REPO):
                continue
            for n in nodes(f.get("body")):
                if n["k"] == "decl":
                    for v in n["vars"]:
                        if v.get("static"):
                            self.vars[("s", f["key"], v["id"])] = {
                                "name": "%s in %s" % (v["name"], f["q"]), "const": bool(v.get("const")), "tls": v.get("tls"),
                                "where": "%s:%d" % (ir.rel(f["file"]), v["L"]), "init": v.get("init"), "f": f}
        for f in prog.functions.values():
            if f["file"].startswith(ir.REPO):
                self.touch(f)

    def vid(self, n, f):
        if n.get("k") == "gvar" and ("g", n["name"]) in self.vars:
            return ("g", n["name"])
        if n.get("k") == "var" and n.get("static"):
            return ("s", f["key"], n["id"])
        return None

    def root(self, n, f):
        """the static variable an lvalue expression designates a part of"""
        while isinstance(n, dict):
            v = self.vid(n, f)
            if v:
                return v
            k = n.get("k")
            if k == "mem":
                n = n["b"]
            elif k == "idx":
                n = n.get("b") or n.get("l") or n.get("e")
            elif k == "cast" and n["ck"] in ("ArrayToPointerDecay", "NoOp", "DerivedToBase", "UncheckedDerivedToBase"):
                n = n["e"]
            elif k == "call" and n["fn"].get("op") == "[]" and n.get("obj") is not None:
                n = n["obj"]
            elif k == "call" and short(n["fn"].get("q", "")) in ("at", "front", "back") and n.get("obj") is not None:
                n = n["obj"]
            elif k == "un" and n["op"] == "*":
                n = n["e"]
            else:
                return None
        return None

    def touch(self, f):
        U = self.uses.setdefault(f["key"], {})
        T = f["_types"]
        rt = T[f["ret"]] if isinstance(f.get("ret"), int) else ""

        def use(v, kind, n):
            if v is None:
                return
            L = n.get("L", f["line"])
            U.setdefault(v, L)
            if kind == "w":
                self.written.setdefault(v, (f, L))
            elif kind == "?":
                self.ambiguous.setdefault(v, (f, L))

        def go(n):
            if isinstance(n, list):
                for y in n:
                    go(y)
                return
            if not isinstance(n, dict):
                return
            k = n.get("k")
            if k in ("bin", "casg") and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                use(self.root(n["l"], f), "w", n)
            elif k == "un" and n["op"] in ("++", "--"):
                use(self.root(n["e"], f), "w", n)
            elif k == "un" and n["op"] == "&":
                use(self.root(n["e"], f), "?", n)
            elif k == "ld":
                v = self.root(n["e"], f)
                if v:
                    use(v, "r", n)
            elif k == "call":
                o = n.get("obj")
                if o is not None:
                    v = self.root(o, f)
                    if v:
                        q = short(n["fn"].get("q", ""))
                        if n["fn"].get("const") or n["fn"].get("static"):
                            use(v, "r", n)
                        elif q in MUTATORS or q == "operator=" or re.match(r"operator(\+|-|\*|/|%|<<|>>)?=$|operator(\+\+|--)$", q) or n["fn"].get("in"):
                            use(v, "w", n)
                        elif n["fn"].get("op") == "()":
                            use(v, "w", n)
                        else:
                            use(v, "r", n)
                pt = n["fn"].get("pt", ())
                for i, a in enumerate(n.get("args", ())):
                    v = self.root(a, f)
                    if not v:
                        continue
                    ts = T[pt[i]] if i < len(pt) and isinstance(pt[i], int) else ""
                    if (ts.endswith("&") or ts.endswith("*")) and not ts.startswith("const "):
                        # operators given as functions: the first operand of an assignment form is changed
                        use(v, "w" if not (n["fn"].get("op") == "[]") else "r", n)
                    else:
                        use(v, "r", n)
            elif k == "ret" and n.get("e") is not None and rt.endswith("&") and not rt.startswith("const "):
                use(self.root(n["e"], f), "w", n)
            elif k in ("gvar", "var"):
                use(self.vid(n, f), "r", n)
            for y in n.values():
                if isinstance(y, (dict, list)):
                    go(y)
        go(f.get("inits") or [])
        go(f.get("body"))


def frozen(e, f, prog, seen=()):
    """None if the initialiser is the same on every call, else what it depends on"""
    decls = {}
    for n in nodes(f.get("body")):
        if n["k"] == "decl":
            for v in n["vars"]:
                decls[v["id"]] = v
    inner = {v["id"] for n in nodes(e) if n["k"] == "decl" for v in n["vars"]} | {
        p["id"] for n in nodes(e) if n["k"] == "lambda" for p in (n.get("params") or ()) if isinstance(p, dict) and "id" in p}
    for n in nodes(e):
        if n["k"] == "this":
            return "the object it is called on"
        if n["k"] == "var" and n["id"] not in inner and not n.get("static"):
            d = decls.get(n["id"])
            if d is None:
                return "the argument %s" % n.get("name")
            if n["id"] in seen:
                continue
            if not d.get("const") or d.get("ref"):
                return "the variable %s" % n.get("name")
            if d.get("init"):
                r = frozen(d["init"], f, prog, seen + (n["id"],))
                if r:
                    return r
    return None


def closure(prog, roots):
    over = {}
    for r in prog.records.values():
        for m in r["methods"]:
            for o in m.get("overrides") or ():
                over.setdefault(o if isinstance(o, str) else o.get("key"), []).append(m["key"])
    via = {k: None for k in roots}
    todo = list(roots)
    while todo:
        k = todo.pop()
        f = prog.functions.get(k)
        if f is None:
            continue
        for n in list(nodes(f.get("inits") or [])) + list(nodes(f.get("body"))):
            fn = n.get("fn") if n["k"] in ("call", "ctor", "fref") else None
            if not fn:
                continue
            for t in [fn.get("key")] + over.get(fn.get("key"), []):
                if t in prog.functions and t not in via:
                    via[t] = k
                    todo.append(t)
    return via


def path(via, k):
    out = []
    while k is not None:
        out.append(short(k.split("(")[0]))
        k = via[k]
    return " <- ".join(out[:6])


def rules(c, prog):
    Sh = Shared(prog)
    c.count("variables with static storage", len(Sh.vars))
    fs = [f for f in prog.functions.values() if f["file"].startswith(ir.REPO)]
    roots = [f["key"] for f in fs if not TEST.search(short(f["q"]))]
    harness = [f["key"] for f in fs if re.search(r"^(test_2to2|score_)", short(f["q"]))]
    via = closure(prog, roots)
    c.count("functions reached by calculations", len(via))
    viah = closure(prog, harness)
    for k in list(via) + [h for h in viah if h not in via]:
        f = prog.functions[k]
        if not f["file"].startswith(ir.REPO):
            continue
        isrand = RANDOM.search(short(f["q"]))
        hit = False
        if isrand and k in via and via[k] is not None:
            c.violation("no random numbers", k, w(f), "a calculation uses random numbers: %s" % path(via, k))
            hit = True
        if isrand:
            continue
        for v, L in Sh.uses.get(k, {}).items():
            d = Sh.vars[v]
            if v[0] == "s" and d["const"]:
                continue
            if d["const"]:
                continue
            if d["tls"]:
                c.undecided("no shared state", "%s, %s" % (f["q"], d["name"]), "state per thread")
                hit = True
                continue
            if v in Sh.written:
                g, gl = Sh.written[v]
                c.violation("no shared state", "%s, %s" % (f["q"], d["name"]), "%s:%d" % (ir.rel(f["file"]), L),
                            "uses %s (%s), which is shared by all objects and changed in %s (line %d)" % (d["name"], d["where"], g["q"], gl))
                hit = True
            elif v in Sh.ambiguous:
                c.undecided("no shared state", "%s, %s" % (f["q"], d["name"]), "may be changed through a pointer")
                hit = True
        for n in list(nodes(f.get("inits") or [])) + list(nodes(f.get("body"))):
            if n["k"] == "call" and n["fn"].get("q") in STATEFUL:
                c.violation("no shared state", "%s, %s" % (f["q"], n["fn"]["q"]), "%s:%d" % (ir.rel(f["file"]), n["L"]),
                            "calls %s, which changes the state of the whole program" % n["fn"]["q"])
                hit = True
        if not hit:
            c.ok("no shared state", k)
    for v, d in Sh.vars.items():
        if v[0] == "s" and d.get("init") is not None and not TEST.search(short(d["f"]["q"])):
            r = frozen(d["init"], d["f"], prog)
            if r:
                c.violation("values kept from the first call", d["name"], d["where"],
                            "is set on the first call only, from %s" % r)
            else:
                c.ok("values kept from the first call", d["name"])
    # links to other objects
    for q, r in sorted(prog.records.items()):
        if not q.startswith("spinas::"):
            continue
        for fl in r["fields"]:
            ts = r["_types"][fl["t"]]
            t = ptype(ts)
            link = fl.get("ref") or t.k in ("ref", "ptr") or re.search(r"shared_ptr|reference_wrapper|weak_ptr", ts)
            if not link:
                c.ok("own parts", "%s::%s" % (q, fl["n"]))
            elif "spinas::particle" in ts:
                c.ok("links to particles only", "%s::%s" % (q, fl["n"]))
            else:
                src = None
                for m in r["methods"]:
                    f = prog.functions.get(m["key"])
                    if f is None or f.get("ret") is None and not m["ctor"]:
                        continue
                    for i in f.get("inits") or ():
                        if i.get("f") == fl["n"]:
                            ps = [n for n in nodes(i["e"]) if n["k"] == "var" and n["id"] in {p["id"] for p in f["params"]}]
                            if ps and (fl.get("ref") or t.k in ("ref", "ptr")) and not any(n["k"] in ("new", "ld") for n in nodes(i["e"])):
                                src = (f, i, ps[0])
                if src:
                    f, i, p = src
                    c.violation("own parts", "%s::%s" % (q, fl["n"]), "%s:%d" % (ir.rel(f["file"]), i["L"]),
                                "refers to the argument %s instead of keeping its own value" % p["name"])
                else:
                    c.undecided("own parts", "%s::%s" % (q, fl["n"]), "is a link (%s)" % ts)


def some(D):
    out = {}
    for k, v in D.items():
        it = list(v.items())
        out[k] = dict([it[i] for i in sorted({0, len(it) // 3, 2 * len(it) // 3, len(it) - 1})]) if it else {}
    return out


def two(c, prog, cls):
    """two objects of one class, all operations interleaved, against one object alone"""
    X = Process(prog, cls)
    if X.setp is None:
        c.undecided("interleaved objects", X.short, "no set_momenta")
        return
    a = X.build(X.params(), "a")
    X.momenta(a, "")
    D = some(X.domain(a))
    alone = evaluate(X, a, D)
    Y = Process(prog, cls)
    a = Y.build(Y.params(), "a")
    b = Y.build(Y.params("'"), "b")
    Y.momenta(b, "'")
    Y.momenta(a, "")
    evaluate(Y, b, D)
    mixed = evaluate(Y, a, D)
    compare_all(c, "interleaved objects", Y, mixed, alone, "two objects", "the other object matters", ("with another object", "alone"))


def body(c):
    prog = ir.load(("source", "SM"))
    rules(c, prog)
    cl = classes(prog)
    c.count("process classes", len(cl))
    chk.parallel(c, cl, lambda c, cls: two(c, prog, cls))
    c.floor("no shared state", 900)
    c.floor("own parts", 3500)
    c.floor("interleaved objects", 130)
    c.assume("objects constructed separately; a copied process keeps using the particles of the original")
