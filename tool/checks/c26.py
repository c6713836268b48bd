"""C26: processes that are the same process up to crossing, generation, photon or gluon, or flavour, as exact polynomials."""
from checks.modp import *

e, gs = param("echarge"), param("gscharge")
Q = {"e": F(-1), "u": F(2, 3), "d": F(-1, 3)}
MASS = {x: smodel.MASSNAME[x] for x in Q}
VEV = {"vev": P(2) * param("massW") * param("sinW") / e}


def rename(names, mp):
    return [mp.get(n.rstrip("~"), n.rstrip("~")) + ("~" if n.endswith("~") else "") for n in names]


def relations(p, q):
    """ways in which q turns into p: (rule, names of q afterwards, substitution of parameters, factor)"""
    A, B = incoming(p), incoming(q)
    if p.endswith("QED") != q.endswith("QED"):
        return
    want = sorted(A)
    if sorted(B) == want:
        yield "crossing", B, {}, P(1)
    for mp, sub in (({"nm": "ne"}, {}), ({"ne": "nm"}, {}),
                    ({"e": "m", "m": "e", "ne": "nm", "nm": "ne"}, {"masse": param("massmu"), "massmu": param("masse")})):
        n = rename(B, mp)
        if n != B and sorted(n) == want:
            yield "generation", n, sub, P(1)
    kinds = {n.rstrip("~") for n in B}
    for x in ("u", "d"):
        if x in kinds and not any(n[0] == "W" for n in B):
            for a, b, f in (("A", "g", gs / (e * P(Q[x]))), ("g", "A", e * P(Q[x]) / gs)):
                if a in B:
                    n = list(B)
                    n[n.index(a)] = b
                    if sorted(n) == want:
                        yield "photon and gluon", n, {}, f
    for x in Q:
        if x in kinds and kinds <= {x, "A", "g", "h"}:
            for y in Q:
                if y != x and sorted(rename(B, {x: y})) == want:
                    yield "flavour", rename(B, {x: y}), {MASS[x]: param(MASS[y])}, P((Q[y] / Q[x]) ** B.count("A"))


def arrangements(a, b):
    """permutations p with a[i] == b[p[i]]"""
    return [p for p in itertools.permutations(range(4)) if all(a[i] == b[p[i]] for i in range(4))]


def changed(form, sub, fac):
    R = {num.atom("sym", (x,)).id: y for x, y in sub.items()}
    return {fn: {k: [num.subst(l, R) * fac for l in ls] for k, ls in f.items()} for fn, f in form.items()}


def at(S, form):
    """values of all amplitudes at a random point of the field"""
    return {fn: {k: [S.value.poly(l) for l in ls] for k, ls in f.items()} for fn, f in form.items()}


def match(p, q, names, sub, fac, S=None):
    """do the functions of q, after the change, equal those of p one by one (S: at a random point of a prime field)"""
    base = changed(p.form((0, 1, 2, 3)), VEV, P(1))
    symbolic = base
    massless = [i for i, l in enumerate(p.legs) if l.kind in ("A", "g")]
    for perm in arrangements(names, p.names):
        base = symbolic
        other = changed(changed(q.form(perm), VEV, P(1)), sub, fac)
        if len(other) != len(base):
            return False
        how = {}
        if S:
            base, other, how = at(S, base), at(S, other), {"phases": UNITS, "equal": Fp.__eq__}
        fs = sorted(base)
        for gs_ in itertools.permutations(sorted(other)):
            if all(same(base[f], other[g], massless, **how) for f, g in zip(fs, gs_)):
                return True
    return False


def body(c):
    prog = ir.load(("source", "SM"))
    cl = {x.rsplit("::", 1)[1]: x for x in classes(prog)}
    c.count("process classes", len(cl))
    c.assume("particles and spinor products behave as established by C01, C02, C03 and C09")
    c.assume("where normal forms differ, identities of rational functions are tested at a random point of a field with %d elements" % PRIME)
    todo = {}
    for p in cl:
        if smodel.legs(p):
            r = [(q, x) for q in cl if q != p and smodel.legs(q) for x in relations(p, q)]
            if r:
                todo[p] = r
    c.count("related pairs", sum(len(r) for r in todo.values()))

    def one(c, p):
        got, why, S = set(), None, None
        A = Amps(prog, cl[p])
        if A.zero():
            c.undecided("related processes", p, "vanishes (C24)")
            return
        try:
            A.form((0, 1, 2, 3))
            for S in (None, Setting(A, 0, p not in SCHEME)):
                for q, (rule, names, sub, fac) in todo[p]:
                    if rule in got:
                        continue
                    try:
                        if match(A, Amps(prog, cl[q]), names, sub, fac, S):
                            got.add(rule)
                    except NoForm:
                        pass
                if got:
                    break
        except NoForm as err:
            why = str(err)
        except num.TooBig:
            why = "too many terms"
        for r in sorted(got):
            c.count(r)
        if got:
            r = A.others()
            if r[0] == "equal":
                c.ok("related processes", p, points=S is not None)
            elif r[0] == "differ":
                c.violation("related processes", p, A.where[r[2]], r[1])
            else:
                c.undecided("related processes", p, r[1])
            return
        why = why or "differs from %s" % ", ".join("%s (%s)" % (q, x[0]) for q, x in todo[p])
        d = deviation(prog, cl[p])
        if d:
            c.violation("related processes", p, d[0], "%s; %s" % (why, d[1]))
        else:
            c.undecided("related processes", p, why)
    chk.parallel(c, sorted(todo), one)
    c.floor("related processes", 120)
