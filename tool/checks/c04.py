"""C04: the condition under which each request raises an error, for every history."""
from checks.slib import *
from checks.c06 import Alg

LABELS = [-3, -2, -1, 0, 1, 2, 3]


def requests(prog):
    """(label, function, args, kind) for every particle request; kind says when it must be refused"""
    out = []
    r = prog.records[PA]
    for m in sorted(r["methods"], key=lambda m: m["key"]):
        f = prog.functions.get(m["key"])
        if f is None or f.get("ctor") or f.get("access", 0) != 0 or m["n"] in NOT_QUANTITY - {"test_angles"} or m["n"].startswith("operator"):
            continue
        rt = ptype(f["_types"][f["ret"]])
        if rt.k == "void":
            continue
        ks = [kind(ptype(f["_types"][p["t"]])) for p in f["params"]]
        if m["n"] in SPINORS:
            if not ks:
                out.append((m["n"] + "()", f, [], "massless"))
                continue
            if ks[0] != "i":
                continue
            for J in LABELS + ["J"]:
                jv = sym("J", integer=True) if J == "J" else P(J)
                for rest in ([[]] if len(ks) == 1 else [[True], [False]] if ks[1:] == ["b"] else []):
                    out.append(("%s(%s%s)" % (m["n"], J, "" if not rest else ", upper" if rest[0] else ", lower"), f, [jv] + rest,
                                ("spin", jv)))
        elif m["n"].endswith("_matrix") and ks in ([], ["b"]):
            for rest in ([[]] if not ks else [[True], [False]]):
                out.append(("%s(%s)" % (m["n"], "" if not rest else "upper" if rest[0] else "lower"), f, rest, "massive"))
        elif ks == []:
            out.append((m["n"] + "()", f, [], "never"))
        elif ks == ["i"] and m["n"] == "get_momentum":
            for i in range(4):
                out.append(("get_momentum(%d)" % i, f, [P(i)], "never"))
        elif ks == ["particle"]:
            out.append((m["n"] + "(other)", f, ["other"], "never"))
    return out


def refused(k, massive):
    """condition of refusal"""
    if k == "never":
        return False
    if k == "massless":
        return massive
    if k == "massive":
        return not massive
    J = k[1]
    bad = and_(not_(dd.eq0(J - 1)), not_(dd.eq0(J + 1)))
    return True if not massive else bad


def judge(c, rule, inst, where, th, want):
    r = chk.compare(th, want, names=("refused", "must be refused"))
    if r[0] == "differ":
        c.violation(rule, inst, where, ("accepted although it is misuse: " if th is False or want is True else "refused although it is valid, or accepted although it is misuse: ") + r[1])
    else:
        c.judge(rule, inst, where, r, "")


def particles(c, prog):
    rs = requests(prog)
    c.count("particle requests", len(rs))
    good = [(l, f, a) for l, f, a, k in rs]
    for a, b in ((None, False), (None, True), (False, True), (True, False), (True, True), (False, False)):
        hist = ("newly built" if a is None else "massive before" if a else "massless before") + ", " + ("massive" if b else "massless") + " now"
        for how in (("set",) if a is None else ("mass and momentum", "mass only") if a != b else ("mass and momentum",)):
            X = Parts(prog)
            m1 = mass("m1") if b else num.ZERO
            p1 = momentum("p", m1)
            if a is None:
                o = X.fresh(m1, p1)
            else:
                m0 = mass("m0") if a else num.ZERO
                o = X.fresh(m0, momentum("q", m0))
                for l, f, args in good:
                    if sym("J", integer=True) in args:
                        continue
                    X.S.maybe(dd.boolsym("b:" + l), f, o, *X.vals(args))
                X.set(o, m1, p1 if how == "mass and momentum" else None)
            for phase in ("first", "after other requests"):
                if phase == "after other requests":
                    if how == "mass only":
                        break
                    for l, f, args in good:
                        if sym("J", integer=True) in args:
                            continue
                        X.S.maybe(dd.boolsym("a:" + l), f, o, *X.vals(args))
                for l, f, args, k in rs:
                    if how == "mass only" and k == "never":
                        continue
                    want = refused(k, b)
                    if how == "mass only" and want is not True:
                        # only refusals are claimed while the momentum is still the old one
                        continue
                    snap = X.S.save()
                    v, th = X.ask(o, f, args)
                    X.S.restore(snap)
                    judge(c, "particle requests", "%s [%s%s, %s]" % (l, hist, "" if how != "mass only" else " (mass set, momentum not yet)", phase), w(f), th, want)


def products(c, prog):
    n = 0
    labels = LABELS
    for N in (0, 1, 2):
        for angle in (True, False):
            for lm in (False, True):
                for rm in (False, True):
                    for lu, ru in itertools.product((None, True, False), repeat=2):
                        X = Products(prog)
                        L, R = X.part("l", lm), X.part("r", rm)
                        mids = [X.part("i%d" % k, k == 0)[0] for k in range(N)]
                        f = X.S.find(SP + "::sproduct", ["b", "pparticle"] + (["b"] if lu is not None else []) + ["pparticle"] * N + ["pparticle"] +
                                     (["b"] if ru is not None else []))
                        if not f:
                            continue
                        r, th = X.build(angle, L[0], R[0], mids, lu, ru)
                        inst = "N=%d %s left %s%s, right %s%s" % (
                            N, "angle" if angle else "square", "massive" if lm else "massless",
                            "" if lu is None else " upper" if lu else " lower", "massive" if rm else "massless",
                            "" if ru is None else " upper" if ru else " lower")
                        bad = (lu is False and not lm) or (ru is False and not rm)
                        judge(c, "lowered index on a massless end", inst, w(f[0]), th, bad)
                        n += 1
                        if bad or th is not False:
                            continue
                        o = r[0]
                        for phase in ("first", "after other evaluations"):
                            if phase != "first":
                                for lab, k, args in ALL_COMPONENTS:
                                    X.S.maybe(dd.boolsym("a:" + lab), X.v[k], o, *args)
                            if phase == "first" and N == 2:
                                continue
                            want0 = lm or rm
                            todo = [("v()", 0, [], want0)]
                            Js = [(str(j), P(j)) for j in labels] + [("J", sym("J", integer=True))]
                            for s, j in Js:
                                badj = and_(not_(dd.eq0(j - 1)), not_(dd.eq0(j + 1)))
                                todo.append(("v(%s)" % s, 1, [j], badj if lm != rm else True))
                            for s, j in Js:
                                for s2, j2 in Js:
                                    if s == "J" or s2 == "J":
                                        continue
                                    bj = (j.const() not in (1, -1)) or (j2.const() not in (1, -1))
                                    todo.append(("v(%s,%s)" % (s, s2), 2, [j, j2], bj if (lm and rm) else True))
                            for lab, k, args, want in todo:
                                snap = X.S.save()
                                v, th = X.S.attempt(X.v[k], o, *args)
                                th = X.S.throw_cond(th)
                                X.S.restore(snap)
                                judge(c, "product requests", "%s %s [%s]" % (inst, lab, phase), w(X.v[k]), th, want)
                        # an end becomes massless (massive) and the product is told
                        for which, obj in (("left", L[0]), ("right", R[0])):
                            now = (not lm) if which == "left" else (not rm)
                            mm = mass("mn") if now else num.ZERO
                            X.set(obj, mm, momentum("nn", mm))
                            l2, r2 = (now, rm) if which == "left" else (lm, now)
                            _, th = X.S.attempt(X.upd, o)
                            th = X.S.throw_cond(th)
                            bad = (lu is False and not l2) or (ru is False and not r2)
                            judge(c, "update with changed masses", "%s, %s end now %s" % (inst, which, "massive" if now else "massless"), w(X.upd), th, bad)
                            if th is False and not bad:
                                for lab, k, args, want in [("v()", 0, [], l2 or r2), ("v(1)", 1, [P(1)], l2 == r2), ("v(-1,1)", 2, [P(-1), P(1)], not (l2 and r2))]:
                                    snap = X.S.save()
                                    v, th = X.S.attempt(X.v[k], o, *args)
                                    th = X.S.throw_cond(th)
                                    X.S.restore(snap)
                                    judge(c, "product requests", "%s %s [%s end now %s]" % (inst, lab, which, "massive" if now else "massless"), w(X.v[k]), th, want)
                            break
    c.count("products", n)


def entries(c, prog):
    A = Alg(prog)
    m, _ = A.mat("a")
    v, _ = A.vec("v")
    rng = [-2, -1, 0, 1, 2, 3, 4]
    for i in rng + ["i"]:
        iv = sym("i", integer=True) if i == "i" else P(i)
        outi = or_(dd.lt0(iv), dd.lt0(1 - iv))
        snap = A.S.save()
        _, th = A.S.attempt(A.vget, v, iv)
        th = A.S.throw_cond(th)
        A.S.restore(snap)
        judge(c, "entry lookup", "cvector::get(%s)" % i, w(A.vget), th, outi)
        for j in rng + ["j"]:
            jv = sym("j", integer=True) if j == "j" else P(j)
            outj = or_(dd.lt0(jv), dd.lt0(1 - jv))
            _, th = A.S.attempt(A.mget, m, iv, jv)
            th = A.S.throw_cond(th)
            A.S.restore(snap)
            judge(c, "entry lookup", "cmatrix::get(%s,%s)" % (i, j), w(A.mget), th, or_(outi, outj))


def prototype(c, prog):
    """momenta for a process type that does not say what to do with them; nothing to show if it cannot be called"""
    S = Session(prog)
    f = S.find("spinas::process::set_momenta", ["pr"] * 4)
    if not f:
        return
    o = S.new("spinas::process", [])
    _, th = S.attempt(f[0], o, *[S.array([sym("k%d_%d" % (i, mu)) for mu in range(4)], name="mom") for i in range(4)])
    judge(c, "process without momenta", "set_momenta", w(f[0]), S.throw_cond(th), True)


def body(c):
    prog = ir.load(("source",))
    particles(c, prog)
    products(c, prog)
    entries(c, prog)
    prototype(c, prog)
    c.floor("particle requests", 300)
    c.floor("product requests", 500)
    c.floor("entry lookup", 40)
    c.floor("lowered index on a massless end", 60)
