"""C22: squared amplitudes add every helicity state once, with the weight of average, colour and symmetry."""
from fractions import Fraction as F

from checks.proc import *
from checks import smodel

STATES = {"h": (None,), "Z": (-2, 0, 2), "W": (-2, 0, 2), "A": (-2, 2), "g": (-2, 2), "ne": (None,), "nm": (None,), "nl": (None,)}
FIX = {"plus": 2, "minus": -2}
# colour sums of two quark lines: pairing of the lines and whether a gluon is exchanged, Tr(T T) = 1/2
COLOUR2 = {(True, 0): F(9), (True, 1): F(0), (True, 2): F(2), (False, 0): F(3), (False, 1): F(4), (False, 2): F(-2, 3)}


def states(leg):
    return STATES.get(leg.kind, (-1, 1))


def fixed(name, legs):
    """{leg number: helicity} fixed by the name of the function; None if the name is not understood"""
    out = {}
    if not name.startswith("amp2"):
        return None
    rest = name[len("amp2"):]
    if not rest:
        return out
    for t in rest.strip("_").split("_"):
        m = re.match(r"^([A-Za-z]+?)(plus|minus)$", t)
        if not m:
            return None
        cand = [i for i, l in enumerate(legs) if l.kind == m.group(1) and i not in out]
        if not cand:
            return None
        out[cand[0]] = FIX[m.group(2)]
    return out


def tuples(legs, fix):
    """helicity arguments of the amplitudes"""
    dom = []
    for i, l in enumerate(legs):
        s = states(l)
        if s == (None,):
            continue
        dom.append((fix[i],) if i in fix else s)
    return list(itertools.product(*dom))


def average(legs, fix):
    """average over incoming states, one half for identical outgoing particles"""
    r = F(1)
    for i in (0, 1):
        if i not in fix:
            r /= len(states(legs[i]))
    if legs[2].text == legs[3].text:
        r /= 2
    return r


def colour_average(legs):
    r = F(1)
    for i in (0, 1):
        if legs[i].kind in smodel.QUARKS:
            r /= 3
        elif legs[i].kind == "g":
            r /= 8
    return r


def weights(legs, names):
    """{(a, b): factor of amp_a * conj(amp_b)} from the colour of the legs; None where the amplitudes are not colour stripped that way"""
    q = sum(l.kind in smodel.QUARKS for l in legs)
    g = sum(l.kind == "g" for l in legs)
    av = colour_average(legs)
    if len(names) == 1:
        if (q, g) == (0, 0):
            return {(names[0],) * 2: F(1)}
        if (q, g) == (2, 0):
            return {(names[0],) * 2: 3 * av}
        if (q, g) == (2, 1):
            return {(names[0],) * 2: 4 * av}
        if (q, g) == (4, 0):
            return {(names[0],) * 2: 9 * av}
        return None
    if (q, g) != (4, 0):
        return None
    tag = {}
    for n in names:
        m = re.match(r"^amp_(rest|gluon|W)(?:_([STU]))?$", n)
        if not m:
            return None
        tag[n] = (m.group(2) or ("other" if m.group(1) == "W" else "one"), m.group(1) == "gluon")
    out = {}
    for a in names:
        for b in names:
            c = COLOUR2[(tag[a][0] == tag[b][0], tag[a][1] + tag[b][1])]
            if c:
                out[(a, b)] = c * av
    return out


def forms(v):
    """{helicities: {(amp, amp*): coefficient}} of a sum of products of two amplitudes; None if it is something else"""
    if v.__class__ is not num.Poly:
        return None
    out = {}
    for m, c in v.d.items():
        up, dn, rest = [], [], []
        for aid, e in m:
            a = num._ATOMS[aid]
            if a.kind == "Amp":
                up += [a] * e if e > 0 else [None]
            elif a.kind == "cj" and num._ATOMS[a.args[0]].kind == "Amp":
                dn += [num._ATOMS[a.args[0]]] * e if e > 0 else [None]
            else:
                rest.append((aid, e))
        if len(up) != 1 or len(dn) != 1 or up[0] is None or dn[0] is None or up[0].args[1] != dn[0].args[1]:
            return None
        k = (up[0].args[0], dn[0].args[0])
        f = out.setdefault(up[0].args[1], {})
        f[k] = f.get(k, num.ZERO) + num.Poly({tuple(rest): c})
    if any(has_amp(x) for f in out.values() for x in f.values()):
        return None
    return {d: {k: x for k, x in f.items() if x.d} for d, f in out.items()}


def has_amp(p):
    return any(num._ATOMS[a].kind == "Amp" for a in num.atoms_in(p))


class AmpEnv(Phys):
    """physical sample point at which amplitudes take their own values"""
    amps = None

    def _atom(self, a):
        if a.kind == "Amp":
            return self.dd_value(self.amps(*a.args))
        return Phys._atom(self, a)

    def dd_value(self, v):
        x = self.dd(v)
        if x.__class__ is not num.Poly:
            raise evalf.Bad("amplitude")
        return self.poly(x)


def differ(X, v, want, masses, amps, n=4):
    """compare a squared amplitude with the weighted sum at physical points"""
    def own(e):
        e.__class__ = AmpEnv
        e.amps = amps
    ev = 0
    pts = [physical(s, masses) for s in range(n)]
    for e in pts:
        own(e)
    if v.__class__ is dd.Ite:
        pts += regions(X, masses, [v], env=own)
    for e in pts:
        try:
            x = e.dd(v)
            if x.__class__ is not num.Poly:
                return ("unknown", "value %r" % (x,))
            a, b = e.poly(x), e.poly(want)
        except (evalf.Bad, OverflowError):
            continue
        ev += 1
        if abs(a - b) > 1e-7 * (abs(a) + abs(b)):
            return ("differ", "%s instead of %s at %s" % (chk._fmt(a), chk._fmt(b), chk.show_env(e, (want,))))
    chk.at_points.used = True
    return ("equal",) if ev else ("unknown", "no valid sample point")


def psd(form, names, legs, masses):
    """None, or a description of a direction in which the form is negative"""
    def neg(M):
        M = [r[:] for r in M]
        n = len(M)
        tol = 1e-9 * max([abs(x) for r in M for x in r] + [0])
        for k in range(n):
            p = M[k][k]
            if p < -tol:
                return True
            if p <= tol:
                if any(abs(M[k][j]) > 1e-4 * max(abs(x) for r in M for x in r) for j in range(k + 1, n)):
                    return True
                continue
            for i in range(k + 1, n):
                f = M[i][k] / p
                for j in range(k + 1, n):
                    M[i][j] -= f * M[k][j]
        return False
    for s in range(4):
        e = physical(s, masses)
        try:
            M = [[e.poly(form.get((a, b), num.ZERO)) for b in names] for a in names]
        except (evalf.Bad, OverflowError):
            continue
        for i in range(len(names)):
            for j in range(len(names)):
                if abs(M[i][j] - M[j][i].conjugate()) > 1e-9 * abs(M[i][j]):
                    return "the factors of %s and %s are not conjugate" % (names[i], names[j])
        if neg([[x.real for x in r] for r in M]):
            return "negative at %s" % chk.show_env(e, tuple(form.values()))
    return None


def feynman(c, X, o, f, amp2, base, inst):
    """the textbook formula for massless quarks agrees with the sum over states"""
    X.S.restore(base)
    a = X.S.call(f, o)
    X.S.restore(base)
    b = X.S.call(amp2, o)
    masses = leg_masses([b])
    light = {n: 1e-5 for n in X.params() if n.startswith("mass")}
    ev = 0
    for s in range(4):
        e = physical(s, masses, dict(light))
        try:
            x, y = e.dd(a), e.dd(b)
            if x.__class__ is not num.Poly or y.__class__ is not num.Poly:
                c.undecided("formula for massless quarks", inst, "value not known")
                return
            x, y = e.poly(x), e.poly(y)
        except (evalf.Bad, OverflowError):
            continue
        ev += 1
        if abs(x - y) > 1e-5 * (abs(x) + abs(y)):
            c.violation("formula for massless quarks", inst, w(f), "%s, sum over states %s at %s" % (chk._fmt(x), chk._fmt(y), chk.show_env(e, (a, b))))
            return
    if ev:
        c.ok("formula for massless quarks", inst, points=True)
    else:
        c.undecided("formula for massless quarks", inst, "no valid sample point")


def one(c, prog, cls):
    X = Process(prog, cls)
    legs = smodel.legs(X.short)
    if legs is None:
        c.undecided("sum over states", X.short, "legs of the process not known")
        return
    o = X.build(X.params())
    X.momenta(o, "")
    by = {f["q"].rsplit("::", 1)[1]: f for f in X.amps()}
    base = X.S.save()
    memo = {}

    def amps(name, d):
        k = (name, tuple(d))
        if k not in memo:
            X.S.restore(base)
            memo[k] = X.amp(o, by[name], d)
        return memo[k]
    ref = None
    full = {f["q"].rsplit("::", 1)[1]: f for f in X.amp2s() if not f["params"]}
    for f in sorted(X.amp2s(), key=lambda f: len(f["q"])):
        name = f["q"].rsplit("::", 1)[1]
        inst = "%s::%s" % (X.short, name)
        if f["params"]:
            continue
        calls = {}
        X.S.restore(base)
        for g in X.amps():
            X.I.overrides[g["key"]] = lambda I, obj, args, fn: X._rec(calls, I, args, fn)
        try:
            v = X.S.call(f, o)
        finally:
            for g in X.amps():
                del X.I.overrides[g["key"]]
        fix = fixed(name, legs)
        if fix is None:
            if name == "amp2_Feynman" and "amp2" in full:
                feynman(c, X, o, f, full["amp2"], base, inst)
            else:
                c.count("squared amplitudes of another kind", 1)
            continue
        used = sorted({prog.functions[k]["q"].rsplit("::", 1)[1] for k in calls})
        if not used:
            if ref is None:
                c.undecided("sum over states", inst, "no amplitude is evaluated")
                continue
            used = ref[0]
        dom = tuples(legs, fix)
        av = average(legs, fix)
        wt = weights(legs, used)
        if wt is not None:
            want = {k: P(x * av) for k, x in wt.items()}
        elif ref is not None:
            # factors of the unpolarised function
            want = {k: x * P(av / ref[2]) for k, x in ref[1].items()}
        else:
            want = None
        got = forms(v)
        if want is None:
            if got is None:
                c.undecided("sum over states", inst, "not a sum of products of two amplitudes")
                continue
            # the factors used by most helicities
            cnt = {}
            for fm in got.values():
                k = tuple(sorted(fm.items(), key=lambda t: t[0]))
                cnt[k] = cnt.get(k, 0) + 1
            want = dict(max(cnt.items(), key=lambda t: t[1])[0])
        if not fix and (ref is None):
            ref = (used, want, av)
        masses = leg_masses([amps(n, dom[0]) for n in used] + [amps(n, dom[-1]) for n in used])
        bad = psd(want, used, legs, masses)
        if bad:
            c.violation("not negative", inst, w(f), bad)
        else:
            c.ok("not negative", inst)
        if got is not None and set(got) == set(dom) and all(got[d] == want for d in dom):
            c.count("helicity states", len(dom))
            c.ok("sum over states", inst)
            continue
        # differs in writing: compare the values
        tot = num.ZERO
        for d in dom:
            for (a, b), x in want.items():
                A, B = (P(num.atom("Amp", (n, d), real=False)) for n in (a, b))
                tot = tot + x * A * num.conj(B)
        r = differ(X, v, tot, masses, amps)
        why = ""
        if got is not None:
            miss = [d for d in dom if d not in got]
            extra = [d for d in got if d not in set(dom)]
            odd = [d for d in dom if d in got and got[d] != want]
            why = "; ".join(t for t in (miss and "states not added: %s" % (miss[:3],), extra and "added but not a state: %s" % (extra[:3],),
                                        odd and "other weight at %s: %s for %s" % (odd[0], got[odd[0]], want)) if t)
        c.judge("sum over states", inst, w(f), r, "not the weighted sum over all states; " + why if why else "not the weighted sum over all states")


def body(c):
    prog = ir.load(("source", "SM"))
    cl = classes(prog)
    c.count("process classes", len(cl))
    c.assume("particles and spinor products behave as established by C01, C02 and C09")
    c.assume("amplitudes are colour stripped; gluon exchange between quark lines with generators of trace one half")
    chk.parallel(c, cl, lambda c, cls: one(c, prog, cls))
    c.floor("sum over states", 200)
    c.floor("not negative", 200)
    c.floor("formula for massless quarks", 2)
