"""C29: the self tests of the processes, with the outcome of every comparison as an input."""
from checks.proc import *
from checks.c20 import HARNESS
from spx import evalf


class Test(Process):
    """one run of a self test"""

    def __init__(self, prog, cls, fn):
        super().__init__(prog, cls)
        I = self.I
        self.calls = []
        for n in HARNESS:
            I.overrides[PR + "::" + n] = self.compare
        self.out = I.alloc("std::basic_ostringstream<char>", "cout")
        I.gobj["std::cout"] = self.out
        I.store(Ptr(self.out, ("#buf",)), dd.Str(()))
        self.n = self.S.call(fn, None)
        self.text = I.load(Ptr(self.out, ("#buf",)))

    def compare(self, I, obj, args, fn):
        k = len(self.calls)
        n = sym("n%d" % k, integer=True)
        vals = [self.value(I, a) for a in args[1:6]]
        self.calls.append((fn["q"].rsplit("::", 1)[1], I.where(), vals, self.legs(I, obj), self.asked(I, args[0]), self.size(I, args[6])))
        return n

    def size(self, I, p):
        if p.__class__ is not Ptr:
            return None
        t = I.type_at(p.obj, p.path[:-1] if p.path and isinstance(p.path[-1], int) else p.path)
        return t.n if t is not None and t.k == "arr" else None

    def legs(self, I, obj):
        """masses of the particles that receive the four momenta"""
        if obj.__class__ is not Ptr or self.setp is None:
            return None
        snap = self.S.save()
        try:
            self.momenta(obj, "leg")
            out = {}
            for path, v in I.st.mem.get(obj.obj, {}).items():
                if path[-1] != "#1":
                    continue
                for i in (1, 2, 3, 4):
                    if v == sym("k%dleg_0" % i):
                        out[i] = I.load(Ptr(obj.obj, path[:-1] + ("#0",)))
            return [out.get(i) for i in (1, 2, 3, 4)]
        finally:
            self.S.restore(snap)

    def asked(self, I, f):
        """squared amplitudes evaluated by the function under test: [(name, object)]"""
        f = self.value(I, f)
        got = []
        fs = self.amp2s()
        snap = self.S.save()
        old = dict(I.overrides)

        def rec(I, obj, args, fn):
            got.append((fn["q"], obj))
            return sym("amp2")
        for g in fs:
            I.overrides[g["key"]] = rec
        try:
            if f.__class__ is not dd.Closure:
                return None
            r = I.call_value(f, {"args": []}, None)
            return got, r
        finally:
            I.overrides.clear()
            I.overrides.update(old)
            self.S.restore(snap)


def has(text, word):
    return dd.apply1(lambda s: any(word in x for x in s.parts if isinstance(x, str)) if s.__class__ is dd.Str else s, text)


def one(c, prog, cls):
    short = cls.rsplit("::", 1)[-1]
    fn = prog.byname.get(cls[:-len(short)] + "test_" + short)
    if not fn:
        c.undecided("failures are reported", short, "no self test")
        return
    fn = prog.functions[fn[0]]
    X = Test(prog, cls, fn)
    where = w(fn)
    c.count("comparisons in self tests", len(X.calls))
    total = num.ZERO
    for k in range(len(X.calls)):
        total = total + sym("n%d" % k, integer=True)
    c.judge("failures are counted", short, where, chk.compare(X.n, total, names=("result", "sum of all mismatches")), "mismatches are lost")
    shown(c, X, short, where)
    by = {}
    for k, (name, at, vals, legs, got, size) in enumerate(X.calls):
        inst = "%s, comparison %d" % (short, k)
        if got is None or legs is None:
            c.undecided("what is compared", inst, "function under test is not understood")
            continue
        calls, r = got
        if len(calls) != 1 or r != sym("amp2"):
            c.undecided("what is compared", inst, "not the value of one squared amplitude")
            continue
        by.setdefault(calls[0][0], set()).add(name)
        bad = None
        for i in range(4):
            if legs[i] is None:
                r = ("unknown", "leg %d not found" % (i + 1))
            else:
                r = chk.compare(vals[i], legs[i], names=("mass used for the kinematics", "mass of the particle"))
            if r[0] != "equal":
                bad = bad or (i, r)
        if bad:
            c.judge("what is compared", inst, at, bad[1], "leg %d" % (bad[0] + 1))
        elif size is not None and size < 20:
            c.violation("what is compared", inst, at, "the table has %d entries" % size)
        else:
            c.ok("what is compared", inst)
    for f in X.amp2s():
        inst = "%s, %s" % (short, f["q"].rsplit("::", 1)[1])
        if f["q"] in by:
            c.ok("every squared amplitude is compared", inst)
        elif not f["q"].endswith("::amp2"):
            c.undecided("every squared amplitude is compared", inst, "the self test does not look at it")
        else:
            c.violation("every squared amplitude is compared", inst, where, "the self test does not look at it")


def shown(c, X, short, where):
    """the text says Fail when there is a mismatch and Pass when there is none"""
    for word, when in (("Fail", True), ("Pass", False)):
        t = has(X.text, word)
        if not all(x.__class__ is bool for x in dd.leaves(t)):
            c.undecided("failures are shown", "%s, %s" % (short, word), "text not understood")
            continue
        bad = None
        for k in range(-1, len(X.calls)):
            env = evalf.Env(0)
            for j in range(len(X.calls)):
                env.set("n%d" % j, 1 if j == k else 0)
            v = env.dd(t)
            if v is not ((k >= 0) is when):
                bad = bad or "%s when %s" % ("shows it" if v else "does not show it", "comparison at %s fails" % X.calls[k][1] if k >= 0 else "all agree")
        if bad:
            c.violation("failures are shown", "%s, %s" % (short, word), where, bad)
        else:
            c.ok("failures are shown", "%s, %s" % (short, word))


def summary(c, prog):
    """the program that runs all self tests: any number of mismatches in one of them, none in the others"""
    main = [prog.functions[k] for k in prog.byname.get("main", ())]
    main = [f for f in main if "/SM/" in f["file"]]
    if not main:
        c.undecided("summary", "main", "no such program")
        return
    shorts = [cls.rsplit("::", 1)[1] for cls in classes(prog)]
    every = sorted({n[len("spinas::test_"):] for n in prog.byname if n.startswith("spinas::test_")} | set(shorts))
    for short in shorts:
        fs = prog.byname.get("spinas::test_" + short)
        if not fs:
            continue
        S = Session(prog)
        I = S.I
        called = []
        for other in every:
            def run(I, obj, args, fn, other=other):
                called.append(other)
                return sym("n", positive=True) if other == short else num.ZERO
            I.overrides["spinas::test_" + other] = run
        out = I.alloc("std::basic_ostringstream<char>", "cout")
        I.gobj["std::cout"] = out
        I.store(Ptr(out, ("#buf",)), dd.Str(()))
        S.call(main[0], None)
        text = I.load(Ptr(out, ("#buf",)))
        t = dd.apply1(lambda s: "".join(x if isinstance(x, str) else "%" for x in s.parts) if s.__class__ is dd.Str else s, text)
        if short not in called:
            if short in NOT_RUN:
                c.ok("summary", short + ", not part of the program")
            else:
                c.violation("summary", short, w(main[0]), "its self test is not run")
            continue
        ts = []
        for n in (1, 2, 20, 800):
            env = evalf.Env(0)
            env.set("n", n)
            ts.append(env.dd(t))
        if not all(isinstance(x, str) for x in ts):
            c.undecided("summary", short, "text not understood")
        elif called.count(short) != 1 or any("Fail" not in x or not re.search(r"\b%s\b" % short, x) for x in ts):
            c.violation("summary", short, w(main[0]), "a mismatch is not reported")
        else:
            c.ok("summary", short)


# unfinished process, see known-findings.txt
NOT_RUN = ("eeAZ",)


def body(c):
    prog = ir.load(("source", "SM"), tests=True)
    cl = classes(prog)
    c.count("process classes", len(cl))
    c.assume("each comparison returns the number of mismatches (C20)")
    chk.parallel(c, [summary] + cl, lambda c, j: j(c, prog) if callable(j) else one(c, prog, j))
    c.floor("failures are counted", 135)
    c.floor("failures are shown", 270)
    c.floor("what is compared", 3400)
    c.floor("every squared amplitude is compared", 140)
    c.floor("summary", 135)
