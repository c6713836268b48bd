"""C07: text and Mathematica forms, rendered at sample values and read back."""
from checks.plib import *
from spx import strv
from fractions import Fraction

# values exactly representable with a 64 bit mantissa, chosen so that every part of the number format matters
RAW = ["0", "1", "-2.5", "0.33333333333333333333333", "-3.14159265358979323846264", "1234567.0987654321987654", "-0.0009871234567890123456",
       "1.2345678901234567891e-7", "-9.8765432109876543211e12", "6.0221407612345678901e23", "-4.5612345678901234567e-300",
       "1e30", "-1e-5", "99999.9999999999999", "123456789012345678", "0.1", "7.7777777777777777777e-20", "1.0842021724855044340e-19", "-1e22"]
VALS = [strv.round_bits(Fraction(x), 64) for x in RAW]
PLAIN = [Fraction(x) for x in ("1.5", "-2.25", "3.125", "40.5", "-0.75", "6.625", "7", "-812")]


def entries(n):
    return [sym("r%d" % i) + num.IMAG * sym("i%d" % i) for i in range(n)]


def point(vs):
    d = {}
    for k, v in enumerate(vs):
        d["%s%d" % ("ri"[k % 2], k // 2)] = v
    return d


def flat(v):
    if isinstance(v, list):
        return [y for x in v for y in flat(x)]
    return [v]


def shape(v):
    return [shape(x) for x in v] if isinstance(v, list) else 0


def texts(S, v):
    if v.__class__ is Ptr:
        return S.I.load(v)
    return v


def show(f, rule, inst, c, val, pts, judge):
    for vs in pts:
        try:
            t = strv.Render(vs).text(val)
        except strv.Unrenderable as e:
            c.undecided(rule, inst, str(e))
            return
        bad = judge(t, vs)
        if bad:
            c.violation(rule, inst, w(f), "%s in \"%s\" for %s" % (bad, t, {k: float(x) for k, x in vs.items()}))
            return
    c.ok(rule, inst)


def body(c):
    prog = ir.load(("source",))
    c.assume("iostream formatting rules; long double has a 64 bit mantissa")
    S0 = Session(prog)

    # ---- plain text
    for cls, short, n, sh in ((V, "cvector", 2, [0, 0]), (M, "cmatrix", 4, [[0, 0], [0, 0]])):
        pts = [point(PLAIN[k:] + PLAIN[:k]) for k in range(8)]
        pts = [{k: v for k, v in p.items() if int(k[1:]) < n} for p in pts]
        pts.append({k: Fraction(0) for k in pts[0]})

        def order(t, vs, n=n):
            if not strv.balanced(t):
                return "unbalanced braces"
            got = strv.numbers(t)
            want = [vs["%s%d" % (x, i)] for i in range(n) for x in "ri"]
            if len(got) != len(want):
                return "%d numbers instead of %d" % (len(got), len(want))
            for k, (g, e) in enumerate(zip(got, want)):
                if abs(g - e) > abs(e) / 10 ** 4:
                    return "the %s part of entry %d reads %s" % (("real", "imaginary")[k % 2], k // 2, float(g))
            if cls == M:
                b = t.replace("(", "").replace(")", "")
                if b.count("{") != 3:
                    return "rows are not marked"
            return None

        def polar(t, vs, n=n):
            if not strv.balanced(t):
                return "unbalanced braces"
            got = strv.numbers(t)
            import cmath
            want = []
            for i in range(n):
                want += list(cmath.polar(complex(float(vs["r%d" % i]), float(vs["i%d" % i]))))
            if len(got) != len(want):
                return "%d numbers instead of %d" % (len(got), len(want))
            for k, (g, e) in enumerate(zip(got, want)):
                if abs(float(g) - e) > abs(e) * 1e-4:
                    return "the %s of entry %d reads %s" % (("modulus", "phase")[k % 2], k // 2, float(g))
            return None
        forms = [(f, None, order) for f in S0.find(cls + "::to_string", [])]
        for f in S0.find(cls + "::to_string", ["i"]):
            forms += [(f, 1, order), (f, 0, polar), (f, 2, polar)]
        if not forms:
            raise AnalysisError("%s::to_string not found" % short)
        plain = None
        for f, which, judge in forms:
            S = Session(prog)
            o = S.new(cls, ["c"] * n, *entries(n))
            v = texts(S, S.call(f, o, *([] if which is None else [P(which)])))
            show(f, "text form", "%s::to_string(%s)" % (short, "" if which is None else which), c, v, pts, judge)
            if which is None:
                plain = v
        ops = S0.find("spinas::operator<<", ["o", short])
        if not ops:
            raise AnalysisError("stream output of %s not found" % short)
        for f in ops:
            for pre in ("", "x = "):
                S = Session(prog)
                o = S.new(cls, ["c"] * n, *entries(n))
                st = S.I.alloc(ptype("std::basic_ostringstream<char>"), "stream")
                S.I.write1(st, ("#buf",), dd.Str((pre,)))
                S.I.write1(st, ("#prec",), P(6))
                S.I.write1(st, ("#fmt",), dd.Str(()))
                r = S.call(f, None, Ptr(st), o)
                v = S.I.read1(st, ("#buf",))
                inst = "operator<< of %s%s" % (short, " after other text" if pre else "")
                if r.__class__ is Ptr and r.obj != st:
                    c.violation("stream output", inst, w(f), "does not return the stream it was given")
                    continue

                def same(t, vs, pre=pre):
                    e = pre + strv.Render(vs).text(plain)
                    return None if t == e else "differs from the text form \"%s\"" % e
                if plain is not None:
                    show(f, "stream output", inst, c, v, pts, same)

    # ---- Mathematica
    fs = S0.find("spinas::double_to_Mathematica_string", ["r"])
    if not fs:
        raise AnalysisError("double_to_Mathematica_string not found")
    for f in fs:
        for x in VALS + [-v for v in VALS[2:8]]:
            S = Session(prog)
            v = texts(S, S.call(f, None, sym("r0")))

            def back(t, vs):
                try:
                    z = strv.mathematica(t)
                except strv.NotMathematica as e:
                    return "not Mathematica input (%s)" % e
                if isinstance(z, list):
                    return "a list"
                if z[1] or strv.round_bits(z[0], 64) != vs["r0"]:
                    return "reads back as %.21g, off by %.2g" % (float(z[0]), float(z[0] - vs["r0"]))
                return None
            show(f, "Mathematica number", "%s" % (float(x),), c, v, [{"r0": x}], back)
    for cls, short, n, sh in ((V, "cvector", 2, [0, 0]), (M, "cmatrix", 4, [[0, 0], [0, 0]])):
        fs = S0.find(cls + "::to_Mathematica_string", [])
        if not fs:
            raise AnalysisError("%s::to_Mathematica_string not found" % short)
        for f in fs:
            S = Session(prog)
            o = S.new(cls, ["c"] * n, *entries(n))
            v = texts(S, S.call(f, o))

            def back(t, vs, n=n, sh=sh):
                try:
                    z = strv.mathematica(t)
                except strv.NotMathematica as e:
                    return "not Mathematica input (%s)" % e
                if shape(z) != sh:
                    return "wrong nesting"
                for k, g in enumerate(flat(z)):
                    if (strv.round_bits(g[0], 64), strv.round_bits(g[1], 64)) != (vs["r%d" % k], vs["i%d" % k]):
                        return "entry %d reads back as %.17g%+.17gi" % (k, float(g[0]), float(g[1]))
                return None
            for k in range(len(VALS)):
                vs = point((VALS[k:] + VALS[:k])[:2 * n])
                show(f, "Mathematica form", "%s starting with %s" % (short, float(VALS[k])), c, v, [vs], back)
    c.floor("text form", 5)
    c.floor("stream output", 4)
    c.floor("Mathematica number", len(VALS))
    c.floor("Mathematica form", 2 * len(VALS))
