"""C28: every access stays inside its array or object, in every class, process and the comparison harness."""
from checks import c17, c20
from checks.proc import *

KINDS = {"oob": "access outside an array", "null": "null pointer used", "dangling": "reference to storage that no longer exists"}
MAYBE = ("row", "wildwrite")


class Only:
    """the runs of C17, with its judgement replaced by the one about accesses"""

    def __init__(self, c):
        self.c = c

    def ok(self, *a):
        pass

    violation = judge = ok

    def undecided(self, rule, inst, why):
        self.c.undecided(rule, inst, why)

    def count(self, *a):
        self.c.count(*a)


decide = c17.judge


def judge(c, rule, inst, where, events):
    decide(c.c if isinstance(c, Only) else c, rule, inst, where, events, KINDS, MAYBE)


def own(c, prog, cls):
    """pointers kept by a process lead to the process itself"""
    X = Process(prog, cls)
    for ct in X.ctors:
        o = X.S.obj(cls, "proc")
        X.S.call(ct, o, *[param(n) for n in X.pnames(ct)])
        inst = "%s, constructor with %d parameters" % (X.short, len(ct["params"]))
        bad, n = None, 0
        for path, v in X.S.I.st.mem.get(o.obj, {}).items():
            for l in dd.leaves(v):
                ps = l.data[3] if l.__class__ is dd.Obj and l.tag == "prod" else [l] if l.__class__ is Ptr else []
                for p in ps:
                    n += 1
                    if p.__class__ is Ptr and p.obj != o.obj and X.S.I.objs[p.obj].kind == "local":
                        bad = bad or "%s refers to %s" % (X.S.I.name_of(o.obj, path), X.S.I.name_of(p.obj, p.path))
        c.count("pointers kept by processes", n)
        if bad:
            c.violation("kept pointers", inst, w(ct), "%s, which no longer exists after construction" % bad)
        else:
            c.ok("kept pointers", inst)


def harness(c, prog):
    for name, frames in [(n, h[2]) for n, h in c20.HARNESS.items()] + [(c20.SCORE[0], 1)]:
        for what, val in (("all values agree", lambda k: sym("d%d" % min(k // frames, c20.ANGLES - 1))),
                          ("values are not numbers", lambda k: dd.NAN)):
            R = c20.Run(prog, name, val)
            judge(c, "comparison harness", "%s, %s" % (name, what), w(R.f), R.S.I.events)


def parts(c, prog):
    """the steps of the comparison harness by themselves"""
    for name, ks in (("set_test_momenta", ["pr"] * 4 + ["r"] * 7), ("rotate_random_test_momenta", ["pr"] * 4), ("boost_random_test_momenta", ["pr"] * 4)):
        S = Session(prog)
        f = S.find(PR + "::" + name, ks)
        if not f:
            continue
        o = S.new(PR, [])
        args = [S.array([sym("k%d_%d" % (n, i)) for i in range(4)]) if k == "pr" else sym("x%d" % n, positive=True) for n, k in enumerate(ks)]
        S.attempt(f[0], o, *args)
        judge(c, "comparison harness", name, w(f[0]), S.I.events)


def job(c, prog, j):
    c17.judge = judge
    if callable(j):
        j(c if j in (harness, parts) else Only(c), prog)
    else:
        c17.process(Only(c), prog, j)
        own(c, prog, j)


def body(c):
    prog = ir.load(("source", "SM"))
    cl = classes(prog)
    c.count("process classes", len(cl))
    c.assume("callers pass arrays of the documented length and pointers to existing particles")
    chk.parallel(c, c17.JOBS + [harness, parts] + cl, lambda c, j: job(c, prog, j))
    c.floor("construction", 135)
    c.floor("use", 600)
    c.floor("kept pointers", 135)
    c.floor("particle", 500)
    c.floor("spinor product", 200)
    c.floor("algebra", 100)
    c.floor("spin states", 300)
    c.floor("kinematics", 3)
    c.floor("comparison harness", 12)
