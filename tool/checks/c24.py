"""C24: four-fermion amplitudes as exact polynomials in brackets, against the exchange of gauge bosons and the Higgs."""
from checks.modp import *

e, gs, sW, MW = (param(x) for x in ("echarge", "gscharge", "sinW", "massW"))
cW = num.sqrt(P(1) - sW * sW)
MZ = MW / cW
UP = {"u", "c", "t", "ne", "nm", "nl"}


def widths_outside(p, seen=None):
    """widths in a term other than as arguments of a propagator denominator"""
    seen = set() if seen is None else seen
    out = set()
    for aid in num.atoms_in(p, deep=False):
        if aid in seen:
            continue
        seen.add(aid)
        a = num._ATOMS[aid]
        if a.kind == "Den":
            continue
        if a.kind == "sym":
            if str(a.args[0]).startswith("width"):
                out.add(a.args[0])
            continue
        for x in a.args:
            if x.__class__ is num.Poly:
                out |= widths_outside(x, seen)
            elif a.kind == "cj" and x.__class__ is int:
                out |= widths_outside(P(num._ATOMS[x]), seen)
    return out


def couplings(x, y, par, qed):
    """couplings of an incoming fermion x and antifermion y: {boson: (left, right)}, of the Higgs a single one"""
    r = {}
    if x == y:
        q = F(smodel.CHARGE[x], 3)
        if q:
            r["A"] = (e * P(q), e * P(q))
        if x in smodel.QUARKS:
            r["g"] = (gs, gs)
        if not qed:
            t = F(1, 2) if x in UP else F(-1, 2)
            r["Z"] = ((P(t) - sW * sW * P(q)) * e / (sW * cW), -sW * sW * P(q) * e / (sW * cW))
            if q:
                r["h"] = e * par[smodel.MASSNAME[x]] / (MW * sW * P(2))
    elif smodel.PARTNER.get(x) == y:
        r["W"] = (e / (sW * num.sqrt(P(2))), num.ZERO)
    return r


def prediction(A, B, hel):
    """{(channel, gluon or not): amplitude} for the labels by slot"""
    par = A.X.params()
    sp = [n.rstrip("~") for n in A.names]
    anti = [n.endswith("~") for n in A.names]
    (f1, f2), (a1, a2) = [i for i in range(4) if not anti[i]], [i for i in range(4) if anti[i]]

    def S(angle, a, inner, b):
        return B.string(angle, (a, hel[a] or 0), inner, (b, hel[b] or 0))

    def divergence(a, b, l, r):
        # contraction of the current with the momentum of the line
        return l * (S(True, a, (a,), b) + S(True, a, (b,), b)) + r * (S(False, a, (a,), b) + S(False, a, (b,), b))
    out = {}
    for sign, i, j, k, l in ((1, f1, a1, f2, a2), (-1, f1, a2, f2, a1)):
        one, two = (couplings(sp[x], sp[y], par, A.short.endswith("QED")) for x, y in ((i, j), (k, l)))
        for b in sorted(set(one) & set(two)):
            M = {"Z": MZ, "W": MW, "h": par.get("massh")}.get(b, num.ZERO)
            width = par.get(smodel.WIDTHNAME.get(b), num.ZERO)
            if b == "h":
                n = -one[b] * two[b] * (S(True, i, (), j) + S(False, i, (), j)) * (S(True, k, (), l) + S(False, k, (), l))
            else:
                (gl, gr), (hl, hr) = one[b], two[b]
                n = P(2) * (gl * hl * S(True, i, (), k) * S(False, l, (), j) + gr * hr * S(False, i, (), k) * S(True, l, (), j)
                            + gl * hr * S(True, i, (), l) * S(False, k, (), j) + gr * hl * S(False, i, (), l) * S(True, k, (), j))
                if b in "ZW":
                    n = n + divergence(i, j, gl, gr) * divergence(k, l, hl, hr) / (M * M)
            ch = channel(i, j)
            key = (ch, b == "g")
            out[key] = out.get(key, num.ZERO) + n * P(sign) / P(num.atom("Prop", (-(M * M) - num.IMAG * M * width, ch)))
    return out


def pieces(fm):
    """which exchanges a function describes: channels of its denominators, gluon or not"""
    out = set()
    for ls in fm.values():
        for p in ls:
            for m in p.d:
                at = [num._ATOMS[x] for x, _ in m]
                g = any(a.kind == "sym" and a.args[0] == "gscharge" for a in at)
                out |= {(a.args[1], g) for a in at if a.kind == "Prop"}
    return out


def four_fermions(c, prog, A):
    """every function equals the exchanges it describes, and every exchange is described once"""
    try:
        fm = A.form((0, 1, 2, 3))
    except (NoForm, num.TooBig) as err:
        return str(err)
    todo, pred = {}, {}
    for fn, vals in fm.items():
        have = pieces(vals)
        want = {}
        for k in vals:
            if k not in pred:
                pred[k] = prediction(A, A.B, k)
            want[k] = [sum((v for p, v in pred[k].items() if p in have), num.ZERO)]
        for p in have:
            todo.setdefault(p, []).append(fn)
        if not same(vals, want):
            S = Setting(A, 0, True)
            x, y = ({k: [S.value.poly(l) for l in ls] for k, ls in f.items()} for f in (vals, want))
            if not same(x, y, phases=UNITS, equal=Fp.__eq__):
                return "%s differs from the exchanges in the channels of its denominators" % fn
            chk.at_points.used = True
    need = {p for v in pred.values() for p in v}
    if set(todo) != need:
        return "channels %s instead of %s" % (sorted(todo), sorted(need))
    return None


def whole(A):
    """the only function against the sum of all exchanges at a random point of a prime field: True, False or None"""
    S = Setting(A, 0, True)
    B = Form((0, 1, 2, 3))
    for i in range(4):
        B.mass[i] = A.masses.get(i + 1, num.ZERO)
    x, y = {}, {}
    try:
        for vals in A.values.values():
            for d, v in vals.items():
                hel = [None] * 4
                for h, i in zip(d, A.with_label):
                    hel[i] = h
                x[d] = [S.value.poly(v)]
                y[d] = [S.value.poly(sum(prediction(A, B, hel).values(), num.ZERO))]
    except (NoForm, ValueError):
        return None
    return same(x, y, phases=UNITS, equal=Fp.__eq__)


def one(c, prog, cls):
    A = Amps(prog, cls)
    X = A.X
    if A.legs is None or not A.values:
        c.undecided("prediction", X.short, "legs or amplitudes of the process not known")
        return
    c.count("amplitudes", sum(len(f) for f in A.values.values()))
    outside = set()
    for f in A.values.values():
        for v in f.values():
            for l in dd.leaves(v):
                if l.__class__ is num.Poly:
                    outside |= widths_outside(l)
    if any(n.startswith("width") for n in X.params()):
        if outside:
            c.violation("widths in propagators only", X.short, w(X.amps()[0]),
                        "%s enters an amplitude other than through a propagator denominator" % ", ".join(sorted(outside)))
        else:
            c.ok("widths in propagators only", X.short)
    for fn, f in sorted(A.values.items()):
        inst = "%s::%s" % (X.short, fn)
        if any(l.__class__ is not num.Poly or l.d for v in f.values() for l in dd.leaves(v)):
            c.ok("does not vanish", inst)
        else:
            c.violation("does not vanish", inst, A.where[fn], "zero for all helicities and momenta")
    if all(l.fermion for l in A.legs):
        why = four_fermions(c, prog, A)
        total = whole(A) if why and decisive(A) else None
        if why is None or total:
            r = A.others()
            if r[0] == "equal":
                c.ok("four fermions", X.short, points=bool(total))
            elif r[0] == "differ":
                c.violation("four fermions", X.short, A.where[r[2]], r[1])
            else:
                c.undecided("four fermions", X.short, r[1])
            return
        d = deviation(prog, cls)
        if d:
            c.violation("four fermions", X.short, d[0], "%s; %s" % (why, d[1]))
        elif total is False:
            c.violation("four fermions", X.short, w(X.amps()[0]), why)
        else:
            c.undecided("four fermions", X.short, why)


def body(c):
    prog = ir.load(("source", "SM"))
    cl = classes(prog)
    c.count("process classes", len(cl))
    c.assume("particles and spinor products behave as established by C01, C02, C03 and C09")
    chk.parallel(c, cl, lambda c, cls: one(c, prog, cls))
    c.floor("four fermions", 36)
    c.floor("does not vanish", 150)
    c.floor("widths in propagators only", 80)
