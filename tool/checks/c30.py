"""C30: the example process of the user directory, by the rules of C13, C14, C15, C17, C19, C22, C24 and C28."""
from checks import c13, c14, c15, c17, c19, c22, c24, c28
from checks.proc import *


class Under:
    """records the obligations of another check under its title"""

    def __init__(self, c, title):
        self.c, self.title = c, title

    def name(self, rule):
        return "%s: %s" % (self.title, rule)

    def ok(self, rule, *a, **k):
        self.c.ok(self.name(rule), *a, **k)

    def violation(self, rule, *a, **k):
        self.c.violation(self.name(rule), *a, **k)

    def undecided(self, rule, *a):
        self.c.undecided(self.name(rule), *a)

    def judge(self, rule, *a):
        self.c.judge(self.name(rule), *a)

    def count(self, *a):
        pass

    assume = count


def body(c):
    if not ir.sources(("user-dir",)):
        raise AnalysisError("no example in user-dir")
    prog = ir.load(("source", "user-dir"))
    cl = [x for x in classes(prog) if not x.startswith("spinas::")]
    c.count("example processes", len(cl))
    c.assume("particles and spinor products behave as established by C01, C02, C03 and C09")
    jobs = [(t, f, x) for x in cl for t, f in (
        ("mass update", c13.one), ("momenta", c14.one), ("repetition", c15.one), ("unset values", c17.process), ("units", c19.one),
        ("spin sum", c22.one), ("prediction", c24.one), ("pointers", c28.own))]
    chk.parallel(c, jobs, lambda c, j: j[1](Under(c, j[0]), prog, j[2]))
    c.floor("mass update: mass update", 2)
    c.floor("momenta: fresh momenta", 2)
    c.floor("momenta: legs", 4)
    c.floor("repetition: repeated evaluation", 3)
    c.floor("unset values: use", 3)
    c.floor("units: units", 1)
    c.floor("units: couplings", 1)
    c.floor("spin sum: sum over states", 1)
    c.floor("prediction: four fermions", 1)
    c.floor("pointers: kept pointers", 1)
