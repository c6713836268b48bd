"""C10: rotations and boosts as exact terms, for general and special axes, angles and velocities."""
from spx import evalf
from checks.plib import *

U = "spinas::"


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def rotated(p, u, th):
    c, s = num.cos(th), num.sin(th)
    x = p[1:]
    up = dot(u, x)
    cr = [u[1] * x[2] - u[2] * x[1], u[2] * x[0] - u[0] * x[2], u[0] * x[1] - u[1] * x[0]]
    return [p[0]] + [x[i] * c + cr[i] * s + u[i] * up * (1 - c) for i in range(3)]


def boosted(p, v):
    x = p[1:]
    v2 = dot(v, v)
    g = 1 / num.sqrt(1 - v2)
    vp = dot(v, x)
    k = g * g / (1 + g) * vp - g * p[0]
    return [g * (p[0] - vp)] + [x[i] + k * v[i] for i in range(3)]


def env_rot(env):
    env.set("theta", (evalf._h("theta", env.seed) - 0.5) * 20)


def env_boost(env):
    for i in (1, 2, 3):
        env.set("v%d" % i, (evalf._h("v%d" % i, env.seed) - 0.5) * 1.1)


def run(c, prog, rule, f, S, p, second, extra, want, inst, env_fn):
    mom = S.array(p, name="mom")
    ax = S.array(second, name="second")
    I = S.I
    n = len(I.effects)
    _, th = S.attempt(f, None, mom, ax, *extra)
    th = S.throw_cond(th)
    if th is True:
        c.violation(rule, inst, w(f), "raises an error")
        return
    res = ("equal",)
    for i in range(4):
        got = I.read1(mom.obj, (i,))
        r = chk.compare(got, want[i], under=not_(th), env_fn=env_fn, names=("result", "exact"))
        if r[0] == "differ":
            res = ("differ", "component %d: %s" % (i, r[1]))
            break
        if r[0] == "unknown":
            res = r
    c.judge(rule, inst, w(f), res, "wrong transformation")
    if th is not False:
        s = chk.sat(th, env_fn)
        if s[0] == "yes":
            c.violation(rule, inst, w(f), "raises an error when %s" % s[1])
    for i in range(3):
        r = chk.compare(I.read1(ax.obj, (i,)), second[i])
        c.judge("nothing else modified", "%s, argument 2 entry %d" % (inst, i), w(f), r, "argument changed")
    ef = [e for e in I.effects[n:]]
    if ef:
        c.violation("nothing else modified", inst + ", globals", w(f), "writes %r" % (ef[0],))
    else:
        c.ok("nothing else modified", inst + ", globals")


def body(c):
    prog = ir.load(("source",))
    c.assume("exact arithmetic; rotation axis of unit length; speed below one")
    S = Session(prog)
    rot = S.need(U + "rotate_momentum", ["pr", "pr", "r"])
    boo = S.need(U + "boost_momentum", ["pr", "pr"])
    p = [sym("p%d" % i) for i in range(4)]
    th = sym("theta")
    z, o = num.ZERO, num.ONE
    al, be = sym("alpha"), sym("beta")
    general = [num.sin(al) * num.cos(be), num.sin(al) * num.sin(be), num.cos(al)]
    axes = [("any axis", general)]
    for i, n in enumerate("xyz"):
        for sg in (1, -1):
            u = [z, z, z]
            u[i] = o * sg
            axes.append(("%s%s axis" % ("+" if sg > 0 else "-", n), u))
    sp = num.Fraction(3, 5), num.Fraction(4, 5)
    for i in range(3):
        u = [z, z, z]
        u[i], u[(i + 1) % 3] = P(sp[0]), P(-sp[1])
        axes.append(("axis (3,-4)/5 in plane %d" % i, u))
    angles = [("any angle", th), ("zero angle", z), ("half turn", num.PI), ("minus half turn", -num.PI), ("three quarter turn", num.PI * num.Fraction(3, 2)),
              ("minus quarter turn", num.PI * num.Fraction(-1, 2)), ("two and a quarter turns", num.PI * num.Fraction(9, 2))]
    moms = [("any momentum", p), ("momentum at rest", [p[0], z, z, z]), ("momentum along z", [p[0], z, z, p[3]])]
    for an, u in axes:
        for tn, t in angles:
            for mn, mo in moms:
                S = Session(prog)
                run(c, prog, "rotation", rot, S, mo, u, [t], rotated(mo, u, t), "%s, %s, %s" % (an, tn, mn), env_rot)
    v = [sym("v%d" % i) for i in (1, 2, 3)]
    vels = [("any velocity", v), ("zero velocity", [z, z, z])]
    for i, n in enumerate("xyz"):
        x = [z, z, z]
        x[i] = v[i]
        vels.append(("along %s" % n, x))
        y = list(v)
        y[i] = z
        vels.append(("normal to %s" % n, y))
    for vn, vv in vels:
        for mn, mo in moms:
            S = Session(prog)
            run(c, prog, "boost", boo, S, mo, vv, [], boosted(mo, vv), "%s, %s" % (vn, mn), env_boost)
    # the reference itself: undone by the opposite velocity and keeps the invariant square (on the terms)
    q = boosted(p, v)
    back = boosted(q, [-x for x in v])
    inv = lambda k: k[0] * k[0] - k[1] * k[1] - k[2] * k[2] - k[3] * k[3]
    for i in range(4):
        r = chk.compare(back[i], p[i], env_fn=env_boost)
        c.judge("reference is a Lorentz transformation", "boost back, component %d" % i, "", r, "")
    c.judge("reference is a Lorentz transformation", "boost invariant", "", chk.compare(inv(q), inv(p), env_fn=env_boost), "")
    c.judge("reference is a Lorentz transformation", "rotation invariant", "", chk.compare(inv(rotated(p, general, th)), inv(p), env_fn=env_rot), "")
    c.floor("rotation", 100)
    c.floor("boost", 15)
