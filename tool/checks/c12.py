"""C12: masses and widths of the exchanged particles in every process."""
from checks.proc import *
from checks import smodel

CH = {(1, 2): (1, 2), (3, 4): (1, 2), (1, 3): (1, 3), (2, 4): (1, 3), (1, 4): (1, 4), (2, 3): (1, 4)}
PAIRS = {}
for _i, _j in itertools.combinations((1, 2, 3, 4), 2):
    _s = 1 if (_i in (1, 2)) == (_j in (1, 2)) else -1
    for _o in (1, -1):
        PAIRS[tuple((sym("k%d_%d" % (_i, mu)) + sym("k%d_%d" % (_j, mu)) * P(_s)) * P(_o) for mu in range(4))] = CH[(_i, _j)]


def species_mass(k, par):
    """(mass, width) of a species in terms of the constructor parameters, None when they have no such parameter"""
    if k in ("A", "g", "ne", "nm", "nl"):
        return num.ZERO, num.ZERO
    if k == "Z":
        if "massZ" in par:
            m = par["massZ"]
        elif "massW" in par and "sinW" in par:
            m = par["massW"] / num.sqrt(1 - par["sinW"] * par["sinW"])
        else:
            return None
    else:
        n = smodel.MASSNAME[k]
        if n not in par:
            n = "massf" if "massf" in par and k not in smodel.BOSONS else None
        if n is None:
            return None
        m = par[n]
    return m, par.get(smodel.WIDTHNAME.get(k), num.ZERO)


def by_hand(v, dens, k):
    """quotients by expressions in the momenta: those that are a propagator denominator count as one; False if others are left"""
    out = True
    for l in dd.leaves(v):
        if l.__class__ is not num.Poly:
            continue
        for aid in num.atoms_in(l):
            a = num._ATOMS[aid]
            if a.kind != "inv" or not momenta_in(a.args[0]):
                continue
            for q, ch in PAIRS.items():
                for sign in (1, -1):
                    d = a.args[0] * P(sign) - (q[0] * q[0] - q[1] * q[1] - q[2] * q[2] - q[3] * q[3])
                    if not momenta_in(d):
                        dens.setdefault((ch, d), (k, a))
                        break
                else:
                    continue
                break
            else:
                out = False
    return out


def momenta_in(p):
    return any(re.match(r"^k[1-4]_[0-3]$", str(num._ATOMS[x].args[0])) for x in num.atoms_in(p) if num._ATOMS[x].kind == "sym")


def one(c, prog, cls):
    X = Process(prog, cls)
    par = X.params()
    want = smodel.exchanges(X.short)
    if X.setp is None or want is None:
        c.undecided("exchanged particles", X.short, "unknown process")
        return
    o = X.build(par)
    X.momenta(o, "")
    D = X.domain(o)
    vals = evaluate(X, o, D)
    dens = {}
    complete = True
    for k, v in vals.items():
        complete = by_hand(v, dens, k) and complete
        for a in blocks(v).values():
            if a.kind == "Den":
                dens.setdefault((PAIRS.get(tuple(a.args[1:])), a.args[0]), (k, a))
    seen = {}
    where = w(X.ctor)
    for (ch, d0), (k, a) in sorted(dens.items(), key=lambda x: (str(x[0][0]), repr(x[0][1]))):
        inst = "%s, channel %s, %r" % (X.short, ch, d0)
        if ch is None:
            c.undecided("mass and width", inst, "momentum of the denominator")
            continue
        allowed = want.get(ch, set())
        hit, same_mass, lack = None, None, False
        for s in sorted(allowed):
            mw = species_mass(s, par)
            if mw is None:
                lack = True
                continue
            m, wd = mw
            e = -(m * m) - num.IMAG * m * wd
            if chk.compare(d0, e)[0] == "equal":
                hit = s
                seen.setdefault(ch, set()).add(s)
            elif chk.compare(num.re_(d0), -(m * m))[0] == "equal":
                same_mass = (s, m, wd)
        if hit:
            c.ok("mass and width", inst)
        elif lack:
            c.undecided("mass and width", inst, "no parameter for the mass")
        else:
            txt = "%s divides by q^2 + (%r) in channel %s; " % (label(X, k), d0, "%d%d" % ch)
            if same_mass:
                txt += "the %s of this mass has the width %r" % (same_mass[0], same_mass[2])
            else:
                txt += "the particles that can be exchanged there are %s" % (", ".join("%s (mass %r, width %r)" % (
                    (s,) + species_mass(s, par)) for s in sorted(allowed) if species_mass(s, par)) or "none")
            c.violation("mass and width", inst, where, txt)
    if not dens:
        c.undecided("exchanged particles", X.short, "no propagators")
        return
    for ch, ss in sorted(want.items()):
        masses = {}
        for s in ss:
            mw = species_mass(s, par)
            masses.setdefault(repr(mw), set()).add(s)
        for grp in masses.values():
            inst = "%s, channel %d%d, %s" % (X.short, ch[0], ch[1], "/".join(sorted(grp)))
            if grp & seen.get(ch, set()):
                c.ok("exchanged particles", inst)
            elif not complete:
                c.undecided("exchanged particles", inst, "other quotients of the momenta")
            else:
                c.violation("exchanged particles", inst, w(X.setp), "no amplitude contains the exchange of %s in channel %d%d" % (
                    "/".join(sorted(grp)), ch[0], ch[1]))


def body(c):
    prog = ir.load(("source", "SM"))
    cl = classes(prog)
    c.count("process classes", len(cl))
    c.assume("particles and spinor products behave as established by C01, C02 and C09, denominators as established by C11")
    chk.parallel(c, cl, lambda c, cls: one(c, prog, cls))
    c.floor("mass and width", 280)
    c.floor("exchanged particles", 280)
