"""C06: 2x2 matrix and vector algebra, decided on the exact term of every result entry."""
from spx import ir, num, dd, chk
from spx.num import P, sym
from spx.dd import Ptr
from spx.sess import Session, kind
from spx.interp import ptype

M, V = "spinas::cmatrix", "spinas::cvector"


class Alg:
    def __init__(self, prog):
        self.S = Session(prog)
        self.mget = self.S.need(M + "::get", ["i", "i"])
        self.vget = self.S.need(V + "::get", ["i"])

    def mat(self, n):
        e = [[sym("%s%d%d" % (n, i, j), real=False) for j in range(2)] for i in range(2)]
        return self.S.new(M, ["c"] * 4, e[0][0], e[0][1], e[1][0], e[1][1], name=n), e

    def vec(self, n):
        e = [sym("%s%d" % (n, i), real=False) for i in range(2)]
        return self.S.new(V, ["c"] * 2, *e, name=n), e

    def rd(self, o):
        t = self.S.I.type_at(o.obj, o.path)
        if t.name == M:
            return [[self.S.call(self.mget, o, P(i), P(j)) for j in range(2)] for i in range(2)]
        return [self.S.call(self.vget, o, P(i)) for i in range(2)]


def flat(x):
    if isinstance(x, list):
        return [z for y in x for z in flat(y)]
    return [x]


def mulmm(a, b):
    return [[a[i][0] * b[0][j] + a[i][1] * b[1][j] for j in range(2)] for i in range(2)]


def emap(f, a):
    return [emap(f, x) for x in a] if isinstance(a, list) else f(a)


def zipm(f, a, b):
    return [zipm(f, x, y) for x, y in zip(a, b)] if isinstance(a, list) else f(a, b)


def spec(op, ka, kb, a, b):
    """mathematical value of  a op b"""
    sa, sb = ka in "rci", kb in "rci" if kb else None
    if op == "-" and kb is None:
        return emap(lambda x: -x, a)
    if op in ("+", "-") and ka == kb:
        return zipm(lambda x, y: x + y if op == "+" else x - y, a, b)
    if op == "*":
        if sa:
            return emap(lambda x: a * x, b)
        if sb:
            return emap(lambda x: x * b, a)
        if ka == kb == "cmatrix":
            return mulmm(a, b)
        if ka == "cmatrix" and kb == "cvector":
            return [a[i][0] * b[0] + a[i][1] * b[1] for i in range(2)]
        if ka == "cvector" and kb == "cmatrix":
            return [a[0] * b[0][i] + a[1] * b[1][i] for i in range(2)]
        if ka == kb == "cvector":
            return a[0] * b[0] + a[1] * b[1]
    if op == "/" and sb:
        return emap(lambda x: x / b, a)
    return None


def body(c):
    prog = ir.load(("source",))
    files = ("cmatrix", "cvector")
    c.assume("exact arithmetic: rounding is not modelled")
    ops = []
    for k, f in sorted(prog.functions.items()):
        base = f["file"].rsplit("/", 1)[-1].split(".")[0]
        nm = f["q"].rsplit("::", 1)[-1]
        ks = [kind(ptype(f["_types"][p["t"]])) for p in f["params"]]
        cls = f.get("cls")
        own = cls in (M, V)
        free = cls is None and any(x in ("cmatrix", "cvector") for x in ks)
        if not (own or free):
            continue
        c.count("member and friend functions")
        if "operator" in f["q"] and nm.startswith("operator"):
            ops.append((nm[8:], f, ks, cls))
    names = {"cmatrix": M, "cvector": V}

    def operand(A, k, n):
        if k == "cmatrix":
            return A.mat(n)
        if k == "cvector":
            return A.vec(n)
        if k == "i":
            v = sym(n, integer=True)
        elif k == "r":
            v = sym(n)
        else:
            v = sym(n, real=False)
        return v, v

    for op, f, ks, cls in ops:
        where = "%s:%d" % (ir.rel(f["file"]), f["line"])
        kk = ([cls.rsplit("::", 1)[-1]] if cls else []) + ks
        inst = "%s(%s)" % (f["q"].replace("spinas::", ""), ", ".join(kk))
        if any(x not in ("cmatrix", "cvector", "r", "c", "i") for x in kk):
            continue
        inplace = op.endswith("=") and op not in ("==", "!=")
        alias_cases = [False]
        if len(kk) == 2 and kk[0] == kk[1]:
            alias_cases.append(True)
        for alias in alias_cases:
            A = Alg(prog)
            S = A.S
            ins = inst + (" same object" if alias else "")
            a, ea = operand(A, kk[0], "a")
            if len(kk) > 1:
                b, eb = (a, ea) if alias else operand(A, kk[1], "b")
            else:
                b, eb = None, None
            this = a if cls else None
            vals = ([] if cls else [a]) + ([b] if len(kk) > 1 else [])
            r = S.call(f, this, *vals)
            if op in ("==", "!="):
                judge_eq(c, A, f, op, kk, r, flat(ea), flat(eb), ins, where)
                continue
            want = spec(op[:-1] if inplace else op, kk[0], kk[1] if len(kk) > 1 else None, ea, eb)
            if want is None:
                if op not in ("=", "<<"):
                    c.undecided("operator value", ins, "no specification for operator %s" % op)
                continue
            th = S.throw_cond(S.I.throws)
            if th is not False:
                z = chk.sat(th)
                if z[0] == "yes":
                    c.violation("operator value", ins, where, "raises an error when " + z[1])
                    continue
            got = A.rd(r) if r.__class__ is Ptr else r
            if inplace:
                if r != a:
                    same = r.__class__ is Ptr
                    c.violation("in-place result", ins, where, "does not return its left operand")
                else:
                    c.ok("in-place result", ins)
                got = A.rd(a)
            res = worst([chk.compare(x, y) for x, y in zip(flat(got), flat(want))])
            c.judge("operator value", ins, where, res, "wrong value")
            # operands
            keep = []
            if not inplace and kk[0] in names:
                keep.append((a, ea))
            if len(kk) > 1 and kk[1] in names and not alias:
                keep.append((b, eb))
            for o, e in keep:
                res = worst([chk.compare(x, y, names=("after", "before")) for x, y in zip(flat(A.rd(o)), flat(e))])
                c.judge("operands unchanged", ins + (" right" if o is b else " left"), where, res, "operand modified")
            if r.__class__ is Ptr and not inplace and r.obj in [x.obj for x in (a, b) if x.__class__ is Ptr]:
                c.violation("operands unchanged", ins, where, "returns a reference to an operand")
    named(c, prog)
    c.floor("operator value", 25)
    c.floor("equality", 6)
    c.floor("named operation", 8)


def worst(rs):
    for r in rs:
        if r[0] == "differ":
            return r
    for r in rs:
        if r[0] == "unknown":
            return r
    return ("equal",)


def named(c, prog):
    def w(f):
        return "%s:%d" % (ir.rel(f["file"]), f["line"])
    # determinant
    for q in (M + "::get_det", "spinas::det"):
        A = Alg(prog)
        f = A.S.need(q)
        a, e = A.mat("a")
        det = e[0][0] * e[1][1] - e[0][1] * e[1][0]
        r = A.S.call(f, a) if f.get("cls") else A.S.call(f, None, a)
        ok = dd.not_(A.S.throw_cond(A.S.I.throws))
        c.judge("named operation", q, w(f), chk.compare(r, num.re_(det), under=ok), "wrong determinant")
        # real determinants never raise
        B = Alg(prog)
        ee = [sym("r%d" % i) for i in range(4)]
        b = B.S.new(M, ["c"] * 4, *ee)
        B.S.call(f, b) if f.get("cls") else B.S.call(f, None, b)
        z = chk.sat(B.S.throw_cond(B.S.I.throws))
        if z[0] == "yes":
            c.violation("named operation", q + " real", w(f), "raises an error for a real determinant when " + z[1])
        elif z[0] == "no":
            c.ok("named operation", q + " real")
        else:
            c.undecided("named operation", q + " real", z[1])
        # and clearly non-real ones always do
        n = num.absval(num.im_(det))
        big = dd.lt0(sym("eps", positive=True) * 10000000 - n)
        z = chk.sat(dd.and_(big, ok))
        if z[0] == "yes":
            c.violation("named operation", q + " complex", w(f), "accepts a non-real determinant when " + z[1])
        else:
            c.ok("named operation", q + " complex")
    # conjugate
    A = Alg(prog)
    f = A.S.need(V + "::get_conjugate")
    v, e = A.vec("v")
    r = A.S.call(f, v)
    c.judge("named operation", "get_conjugate", w(f), worst([chk.compare(x, num.conj(y)) for x, y in zip(A.rd(r), e)]), "wrong conjugate")
    c.judge("operands unchanged", "get_conjugate", w(f), worst([chk.compare(x, y) for x, y in zip(A.rd(v), e)]), "operand modified")
    # outer product
    for al in (False, True):
        A = Alg(prog)
        f = A.S.need("spinas::outer")
        u, eu = A.vec("u")
        v, e = (u, eu) if al else A.vec("v")
        r = A.S.call(f, None, u, v)
        want = [[eu[i] * e[j] for j in range(2)] for i in range(2)]
        c.judge("named operation", "outer%s" % (" same object" if al else ""), w(f),
                worst([chk.compare(x, y) for x, y in zip(flat(A.rd(r)), flat(want))]), "wrong outer product")
    # constructors and entry lookup
    A = Alg(prog)
    a, e = A.mat("a")
    c.judge("named operation", "cmatrix entries", w(A.mget), worst([chk.compare(x, y) for x, y in zip(flat(A.rd(a)), flat(e))]), "wrong entry")
    v, e = A.vec("v")
    c.judge("named operation", "cvector entries", w(A.vget), worst([chk.compare(x, y) for x, y in zip(A.rd(v), e)]), "wrong entry")
    for cls, ks in ((M, []), (V, [])):
        A = Alg(prog)
        o = A.S.new(cls, ks)
        f = A.S.need(cls + "::" + cls.split("::")[1], ks)
        c.judge("named operation", cls.split("::")[1] + "()", w(f), worst([chk.compare(x, num.ZERO) for x in flat(A.rd(o))]), "default value is not zero")
    A = Alg(prog)
    fs = A.S.find(V + "::cvector", ["pc"])
    if fs:
        e = [sym("x%d" % i, real=False) for i in range(2)]
        o = A.S.new(V, ["pc"], A.S.array(e, "std::complex<long double>"))
        c.judge("named operation", "cvector(array)", w(fs[0]), worst([chk.compare(x, y) for x, y in zip(A.rd(o), e)]), "wrong entry")
    # copying is independent
    for cls in (M, V):
        A = Alg(prog)
        a, e = A.mat("a") if cls == M else A.vec("a")
        b, eb = A.mat("b") if cls == M else A.vec("b")
        t = ptype(cls)
        cp = A.S.obj(cls, "copy")
        copy_construct(A.S, cls, cp, a)
        assign(A.S, cls, a, b)
        res = worst([chk.compare(x, y) for x, y in zip(flat(A.rd(cp)) + flat(A.rd(a)), flat(e) + flat(eb))])
        own, eo = A.mat("o") if cls == M else A.vec("o")
        assign(A.S, cls, own, own)
        c.judge("named operation", "self-assignment of " + cls.split("::")[1], "include/%s.h:1" % cls.split("::")[1],
                worst([chk.compare(x, y) for x, y in zip(flat(A.rd(own)), flat(eo))]), "assignment to itself changes it")
        c.judge("named operation", "copy of " + cls.split("::")[1], "include/%s.h:1" % cls.split("::")[1], res, "copy is not independent")


def copy_construct(S, cls, dst, src):
    r = S.prog.records[cls]
    for m in r["methods"]:
        if m["ctor"] and m.get("userprov") and len(m["params"]) == 1 and cls in str(m["key"]).split("(", 1)[1] and m["key"] in S.prog.functions:
            S.call(S.prog.functions[m["key"]], dst, src)
            return
    S.I.copy_obj(dst, src, ptype(cls))


def assign(S, cls, dst, src):
    for f in S.find(cls + "::operator="):
        S.call(f, dst, src)
        return
    S.I.copy_obj(dst, src, ptype(cls))


def judge_eq(c, A, f, op, kk, r, ea, eb, ins, where):
    """equality holds exactly when all entries agree within the fixed tolerance"""
    tol = {"cmatrix": 1000000, "cvector": 10000000}[kk[0]]
    eps = sym("eps", positive=True)
    want = True
    for x, y in zip(ea, eb):
        d = num.absval(x - y)
        want = dd.and_(want, dd.not_(dd.lt0(eps * tol - d)))
    if op == "!=":
        want = dd.not_(want)
    if any(x.__class__ is not bool for x in dd.leaves(r)):
        return c.undecided("equality", ins, "unknown result")
    if r is want:
        return c.ok("equality", ins)
    # different decision: look for entries far apart / equal where the answer is wrong
    names = [num._ATOMS[next(iter(num.atoms_in(x)))].args[0] for x in ea + eb]
    n = len(ea)
    from spx import evalf
    bad = None
    evaluated = 0
    for base in range(4):
        for i in range(n + 1):
            for mag in (0.0, 0.3, 0.9, 1.1, 3.0, 1e6, 1e12):
                for ph in (1, 1j, 0.6 + 0.8j, -1, -1j):
                    env = evalf.Env(base)
                    vals = {}
                    for j in range(n):
                        x = complex(0.5 + evalf._h("e", j, base) * 0, 0.25 * base)
                        vals[names[j]] = 0j if base < 2 else x
                        if len(set(names)) > n:
                            vals[names[n + j]] = vals[names[j]]
                    e0 = 1.0e-3 if base < 2 else 1.0e-7
                    vals["eps"] = e0
                    if i < n and len(set(names)) > n:
                        vals[names[n + i]] += mag * ph * tol * e0
                    env.vals = {k: (v if k != "eps" else v) for k, v in vals.items()}
                    try:
                        g, w = env.dd(r), env.dd(want)
                    except evalf.Bad:
                        continue
                    evaluated += 1
                    if g != w:
                        bad = "entries differ by %.3g tolerances in component %d: result %s, expected %s" % (mag, i, g, w)
                        break
                if bad:
                    break
            if bad:
                break
        if bad:
            break
    if bad:
        c.violation("equality", ins, where, bad)
    elif evaluated:
        c.ok("equality", ins)
    else:
        c.undecided("equality", ins, "no sample point")
