"""C20: the comparison harness, with the amplitude and the momenta transformations as inputs."""
from fractions import Fraction

from checks.plib import *
from spx import strv
from spx.dd import ite
from checks.c21 import reference

PR = "spinas::process"
# name -> (absolute, relative tolerance, frames per angle, transformations every frame must contain)
HARNESS = {
    "test_2to2_amp2": ("1e-15", "1e-9", 1, ()),
    "test_2to2_amp2_rotations": ("1e-15", "1e-9", 10, ("rotate",)),
    "test_2to2_amp2_boosts": ("1e-15", "1e-8", 10, ("boost",)),
    "test_2to2_amp2_boosts_and_rotations": ("1e-15", "1e-8", 10, ("rotate", "boost")),
}
SCORE = ("score_2to2_amp2", "1e-20", "1e-9")
ANGLES = 20


class Run:
    """one run of a routine; value(k) is what the k-th evaluation of the amplitude gives"""

    def __init__(self, prog, name, value):
        S = self.S = Session(prog)
        I = S.I
        I.finite = True
        I.overrides["spinas::rotate_momentum"] = self.transform
        I.overrides["spinas::boost_momentum"] = self.transform
        I.overrides[PR + "::rotate_random_test_momenta"] = self.frame
        I.overrides[PR + "::boost_random_test_momenta"] = self.frame
        I.overrides[PR + "::set_momenta"] = self.momenta
        I.overrides[PR + "::print_test_message"] = lambda *a: dd.VOID
        self.parent = {}
        self.calls = []
        self.now = None
        self.value = value
        kinds = ["f"] + ["r"] * 5 + ["pr"]
        f = S.find(PR + "::" + name, kinds) or S.find(PR + "::" + name, kinds + ["pr"])
        if not f:
            raise AnalysisError("%s not found" % name)
        self.f = f[0]
        self.m = [mass("m%d" % i) for i in (1, 2, 3, 4)]
        self.pin = sym("Pin", positive=True)
        self.d = [sym("d%d" % i) for i in range(ANGLES)]
        o = S.new(PR, [])
        args = [dd.Closure("opaque", self.amp)] + self.m + [self.pin, S.array(self.d, name="data")]
        if len(self.f["params"]) == 8:
            args.append(S.array([sym("q%d" % i) for i in range(10)], name="params"))
        self.result, th = S.attempt(self.f, o, *args)
        self.throws = S.throw_cond(th)

    def vals(self, p, n):
        I = self.S.I
        return tuple(I.load(Ptr(p.obj, p.path[:-1] + (p.path[-1] + i,))) for i in range(n))

    def transform(self, I, obj, args, fn):
        a = [I.load(x) if x.__class__ is Ptr and (not x.path or not isinstance(x.path[-1], int)) else x for x in args]
        op = ("rotate" if "rotate" in fn["q"] else "boost", self.vals(args[1], 3)) + tuple(a[2:])
        self.apply(I, args[0], op)
        return dd.VOID

    def apply(self, I, p, op):
        mom = self.vals(p, 4)
        n = len(self.parent)
        new = tuple(sym("t%d.%d" % (n, i)) for i in range(4))
        self.parent[new] = (op, mom)
        for i, v in enumerate(new):
            I.store(Ptr(p.obj, p.path[:-1] + (p.path[-1] + i,)), v)

    def frame(self, I, obj, args, fn):
        """one random frame change, see C21"""
        op = ("rotate" if "rotate" in fn["q"] else "boost", "random", len(self.parent))
        for p in args:
            self.apply(I, p, op)
        return dd.VOID

    def momenta(self, I, obj, args, fn):
        self.now = [self.vals(a, 4) for a in args]
        return dd.VOID

    def amp(self, I, args):
        k = len(self.calls)
        self.calls.append((self.now, I.st.pc))
        self.now = None
        return self.value(k)

    def chain(self, p):
        out = []
        while p in self.parent:
            op, p = self.parent[p]
            out.append(op)
        return tuple(reversed(out)), p


def fails(a, d, ab, rel):
    """documented verdict for a finite computed value"""
    x, s = num.absval(a - d), num.absval(a + d)
    over = dd.lt0(P(Fraction(ab)) - x)
    return and_(over, dd.lt0(P(Fraction(rel)) - num.mul(x, num.inv(s))))


def points(ab, rel):
    """exact sample values (computed, reference), dense around the two tolerances"""
    ab, rel = Fraction(ab), Fraction(rel)
    out = []
    for d in ("0", "1", "-1", "3.7", "1e-3", "2e-6", "-5e-7", "1e-9", "1e-14", "5e-16", "-2e-15", "1e-18", "1e-21", "8e5", "1e12"):
        d = Fraction(d)
        diffs = set()
        for f in ("0", "0.05", "0.3", "0.6", "0.9", "0.999", "1.001", "1.1", "1.5", "1.9", "2.1", "4", "20", "1e3", "1e6", "1e9"):
            diffs |= {Fraction(f) * ab, Fraction(f) * 2 * rel * abs(d), Fraction(f) * rel * abs(d)}
        for x in diffs:
            out += [(d + x, d), (d - x, d)]
        out += [(-d * Fraction(99, 100), d), (2 * d, d)]
    return out


def verdict(c, rule, inst, where, got, want, a, d, grid):
    """got, want: gated values over the symbols a and d; also judged by value at the grid points"""
    r = chk.compare(got, want)
    if r[0] == "equal":
        c.ok(rule, inst)
        return
    n = 0
    for x, y in grid:
        R = strv.Render({a: x, d: y, "pi": Fraction(355, 113)})
        try:
            g, e = R.pick(got), R.pick(want)
            g = R.exact(g)[0] if g.__class__ is num.Poly else g
            e = R.exact(e)[0] if e.__class__ is num.Poly else e
        except strv.Unrenderable:
            continue
        n += 1
        if g != e and not (g.__class__ is dd.Top or e.__class__ is dd.Top):
            c.violation(rule, inst, where, "gives %s instead of %s for computed value %.12g, reference %.12g" % (
                float(g) if isinstance(g, Fraction) else g, float(e) if isinstance(e, Fraction) else e, float(x), float(y)))
            return
    if n >= len(grid) // 2 and r[0] != "unknown":
        c.ok(rule, inst)
    elif n >= len(grid) * 9 // 10:
        c.ok(rule, inst)
    else:
        c.undecided(rule, inst, r[1] if len(r) > 1 else "no sample")


def background(k, frames, d, other):
    """what the evaluations other than the one under study give"""
    j = k // frames
    if other == "good":
        return d[j]
    return (d[j], dd.NAN)[(k * 7 // 3) % 2]


def count_bad(total, frames, skip, other):
    if other == "good":
        return 0
    return sum(1 for k in range(total) if k not in skip and (k * 7 // 3) % 2)


def names_in(v):
    out = set()
    for cid in dd.conds_in(v):
        for x in dd.cond_by_id(cid).args:
            if x.__class__ is num.Poly:
                for aid in num.atoms_in(x):
                    if num._ATOMS[aid].kind == "sym":
                        out.add(num._ATOMS[aid].args[0])
    return out


def frames_rule(c, R, name, frames, ops):
    where = w(R.f)
    calls = R.calls
    inst = name
    if len(calls) != ANGLES * frames:
        c.violation("number of comparisons", inst, where, "the amplitude is evaluated %d times instead of %d" % (len(calls), ANGLES * frames))
        return False
    c.ok("number of comparisons", inst)
    for k, (mom, pc) in enumerate(calls):
        inst = "%s, evaluation %d" % (name, k)
        if pc is not True:
            if any(n[0] in "ad" and n[1:].isdigit() or n == "a" for n in names_in(pc)):
                c.undecided("momenta of the evaluation", inst, "evaluated depending on earlier results")
                continue
        if mom is None:
            c.violation("momenta of the evaluation", inst, where, "no momenta were set since the previous evaluation")
            continue
        ch = [R.chain(p) for p in mom]
        if any(x[0] != ch[0][0] for x in ch):
            c.violation("momenta of the evaluation", inst, where, "the four momenta are not transformed alike")
            continue
        seq = ch[0][0]
        if {x[0] for x in seq} != set(ops):
            c.violation("momenta of the evaluation", inst, where, "frame changes %s instead of %s" % (
                sorted({x[0] for x in seq}), sorted(set(ops))))
            continue
        if ops and any(seq == R.chain(calls[q][0][0])[0] for q in range(k) if calls[q][0] is not None):
            c.violation("momenta of the evaluation", inst, where, "same frame as in an earlier evaluation")
            continue
        cost = P(Fraction(95, 100)) - P(Fraction(k // frames, 10))
        ref = reference(R.m, R.pin, cost)
        bad = None
        for i in range(4):
            for mu in range(4):
                r = chk.compare(ch[i][1][mu], ref[i][mu], env_fn=high)
                if r[0] != "equal":
                    bad = bad or (r, i, mu)
        if bad:
            c.judge("momenta of the evaluation", inst, where, bad[0], "momentum %d, component %d" % (bad[1] + 1, bad[2]))
        else:
            c.ok("momenta of the evaluation", inst)
    return True


def high(env):
    """above threshold"""
    if "Pin" not in env.vals:
        env.set("Pin", 5.0 + (env.seed % 17) * 0.37)


def nan_rule(c, prog):
    for name, (ab, rel, frames, ops) in HARNESS.items():
        R = Run(prog, name, lambda k: dd.NAN)
        c.judge("harness", name, w(R.f), chk.compare(R.result, P(len(R.calls)), names=("mismatches counted", "evaluations")),
                "amplitude that is not a number")
    R = Run(prog, SCORE[0], lambda k: dd.NAN)
    z = dd.apply1(lambda x: dd.eq0(x) if x.__class__ is num.Poly else x.__class__ is not dd.InfT and x is not dd.NAN, R.result)
    c.judge("harness", SCORE[0], w(R.f), chk.compare(z, False, names=("score is zero", "required")), "amplitude that is not a number")


def body(c):
    prog = ir.load(("source",))
    c.assume("the amplitude function is arbitrary; rotations and boosts are checked by C10, random draws by C21")
    for name, (ab, rel, frames, ops) in HARNESS.items():
        total = ANGLES * frames
        d = [sym("d%d" % i) for i in range(ANGLES)]
        R = Run(prog, name, lambda k: d[k // frames] if k < total else dd.NAN)
        if not frames_rule(c, R, name, frames, ops):
            continue
        where = w(R.f)
        c.judge("no false mismatch", name, where, chk.compare(R.result, num.ZERO, names=("mismatches", "expected")), "all values agree")
        s = chk.sat(R.throws)
        if s[0] == "yes":
            c.violation("no false mismatch", name + ", errors", where, "an error is raised: " + s[1])
        for bad, nm in ((dd.NAN, "not a number"), (dd.INF, "infinite"), (dd.MINF, "minus infinite")):
            R = Run(prog, name, lambda k: bad)
            c.judge("invalid values", "%s, all values %s" % (name, nm), where,
                    chk.compare(R.result, P(total), names=("mismatches", "expected")), nm)
        ks = range(total) if frames == 1 else [j * frames + l for j in range(ANGLES) for l in ((0, 9, 4)[j % 3],)]
        for k0 in ks:
            for other in ("good", "mixed"):
                a = sym("a")
                R = Run(prog, name, lambda k: a if k == k0 else background(k, frames, d, other))
                dj = R.d[k0 // frames]
                n = count_bad(total, frames, {k0}, other)
                want = ite(fails(a, dj, ab, rel), P(n + 1), P(n))
                got = R.result
                verdict(c, "mismatch count", "%s, evaluation %d, others %s" % (name, k0, other), where, got, want,
                        "a", "d%d" % (k0 // frames), points(ab, rel))
                if other == "mixed":
                    break
                if k0 % 3:
                    break
    name, ab, rel = SCORE
    d = [sym("d%d" % i) for i in range(ANGLES)]
    R = Run(prog, name, lambda k: d[k] if k < ANGLES else dd.NAN)
    if frames_rule(c, R, name, 1, ()):
        where = w(R.f)
        c.judge("no false mismatch", name, where, chk.compare(R.result, num.ZERO, names=("score", "expected")), "all values agree")
        for bad in ((0, 1, 19), (2, 7, 8), (5, 12, 18)):
            val = lambda k: P(3) * d[k] if k in bad else d[k]
            R = Run(prog, name, val)
            want = num.ZERO
            for k in bad:
                x = val(k)
                dev = num.mul(num.absval(x - d[k]), num.inv(num.absval(x + d[k])))
                want = dd.apply2(lambda u, v: u + v, want, ite(fails(x, d[k], ab, rel), dev, num.ZERO))
            c.judge("score", "%s, angles %d, %d and %d fail" % ((name,) + bad), where, chk.compare(R.result, want), "wrong sum")
        for k0 in range(ANGLES):
            a = sym("a")
            R = Run(prog, name, lambda k: a if k == k0 else d[k])
            dev = num.mul(num.absval(a - d[k0]), num.inv(num.absval(a + d[k0])))
            verdict(c, "score", "%s, angle %d" % (name, k0), where, R.result, ite(fails(a, d[k0], ab, rel), dev, num.ZERO),
                    "a", "d%d" % k0, points(ab, rel))
            for bad, nm in ((dd.NAN, "not a number"), (dd.INF, "infinite")):
                R = Run(prog, name, lambda k: bad if k == k0 else d[k])
                z = dd.apply1(lambda x: dd.eq0(x) if x.__class__ is num.Poly else x.__class__ is not dd.InfT and x is not dd.NAN, R.result)
                c.judge("score", "%s, angle %d %s" % (name, k0, nm), where, chk.compare(z, False, names=("score is zero", "required")), nm)
    c.floor("number of comparisons", 5)
    c.floor("momenta of the evaluation", 600)
    c.floor("mismatch count", 80)
    c.floor("score", 60)
    c.floor("invalid values", 12)

