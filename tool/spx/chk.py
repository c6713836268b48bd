"""Framework shared by the checks: obligations, verdicts, evidence and known findings."""
import fcntl
import json
import os
import pickle
import re
import sys
import tempfile
import time
import traceback

from . import ir, num, dd, evalf, hp
from .ir import AnalysisError
from .num import Poly
from .interp import Limit

VERIF = ir.VERIF
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")


def load_known():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"^known: property=(\S+) key=(\S+) (.*)$", l.strip())
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    return out


class _AtPoints:
    """set when two terms count as equal because they agree at points in general position, not by their normal forms"""
    used = False

    def take(self):
        u, self.used = self.used, False
        return u


at_points = _AtPoints()


class Check:
    def __init__(self, prop, title):
        self.prop, self.title = prop, title
        self.t0 = time.time()
        self.ok_n = 0
        self.ok_by_rule = {}
        self.viol = []
        self.und = []
        self.notes = []
        self.assumptions = []
        self.counts = {}
        self.samples = []
        self.floors = []
        self.seen = set()
        self.by_points = set()

    # ---- recording
    def ok(self, rule, inst, points=False):
        points = at_points.take() or points
        if (rule, inst) in self.seen:
            return
        self.seen.add((rule, inst))
        if points:
            self.by_points.add((rule, inst))
        self.ok_n += 1
        self.ok_by_rule[rule] = self.ok_by_rule.get(rule, 0) + 1
        if self.ok_by_rule[rule] <= 2:
            self.samples.append("%s: %s" % (rule, inst))

    def violation(self, rule, inst, where, detail, key=None):
        at_points.take()
        key = key or re.sub(r"\s+", "_", "%s/%s" % (rule, inst))
        if any(v["key"] == key for v in self.viol):
            return
        self.viol.append({"rule": rule, "instance": inst, "where": where, "detail": detail, "key": key})

    def undecided(self, rule, inst, why):
        at_points.take()
        self.und.append("%s: %s: %s" % (rule, inst, why))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, rule, n):
        """at least n instances of the rule must have been looked at, otherwise the analysis is broken"""
        self.floors.append((rule, n))

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def judge(self, rule, inst, where, res, what):
        """res from compare()"""
        if res[0] == "equal":
            self.ok(rule, inst)
        elif res[0] == "differ":
            self.violation(rule, inst, where, "%s: %s" % (what, res[1]))
        else:
            self.undecided(rule, inst, res[1])

    # ---- closing
    def finish(self):
        known = [k for k in load_known() if k[0] == self.prop]
        shown, new = [], []
        for v in self.viol:
            k = [x for x in known if x[1] == v["key"]]
            if k:
                shown.append((v, k[0]))
            else:
                new.append(v)
        byrule = dict(self.ok_by_rule)
        for v in self.viol:
            byrule[v["rule"]] = byrule.get(v["rule"], 0) + 1
        undr = {}
        for u in self.und:
            r = u.split(":", 1)[0]
            undr[r] = undr.get(r, 0) + 1
        broken = []
        for rule, n in self.floors:
            got = byrule.get(rule, 0)
            if got < n:
                broken.append("rule '%s': %d of at least %d instances decided (%d undecided)" % (rule, got, n, undr.get(rule, 0)))
        obligations = self.ok_n + len(self.viol) + len(self.und)
        print("%s %s" % (self.prop, self.title))
        for k in sorted(self.counts):
            print("  analysed: %s = %d" % (k, self.counts[k]))
        for k in sorted(byrule):
            print("  rule %-34s decided %d%s" % (k, byrule[k], ", undecided %d" % undr[k] if undr.get(k) else ""))
        print("  obligations %d, discharged %d (%d at points in general position), undecided %d, violated %d" % (
            obligations, self.ok_n, len(self.by_points), len(self.und), len(self.viol)))
        for u in self.und[:12]:
            print("  UNDECIDED " + u[:300])
        for n in self.notes[:20]:
            print("  note: " + n)
        for v, k in shown:
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.prop, k[2], v["where"]))
        for b in broken:
            print("ANALYSIS-BROKEN: " + b)
        wall = time.time() - self.t0
        ev = {
            "property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
            "level": "other",
            "coverage": {
                "explanation": "Static analysis of the resolved program (the code is not executed): %d obligations generated from the "
                               "current tree, %d discharged by comparing normal forms of abstract values or by an inference over "
                               "all paths, %d discharged because two abstract values agree at points in general position, "
                               "%d undecided, %d violated." % (
                                   obligations, self.ok_n - len(self.by_points), len(self.by_points), len(self.und), len(self.viol)),
                "obligations": obligations, "discharged": self.ok_n, "discharged_at_points": len(self.by_points),
                "undecided": len(self.und),
                "decided_by_rule": byrule, "analysed": self.counts, "samples": self.samples[:20],
                "undecided_list": self.und[:40],
            },
            "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        if new:
            rp = os.path.join(VERIF, "evidence", self.prop + ".replay.txt")
            with open(rp, "w") as f:
                for v in new:
                    f.write("rule: %s\ninstance: %s\nwhere: %s\nkey: %s\n%s\n\n" % (
                        v["rule"], v["instance"], v["where"], v["key"], v["detail"]))
            for v in new[:15]:
                print("  %s: rule '%s', %s\n    %s" % (v["where"], v["rule"], v["instance"], v["detail"][:1500]))
            if len(new) > 15:
                print("  ... %d more in %s" % (len(new) - 15, rp))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        if broken:
            return 2
        print("  held (%.1f s)" % wall)
        return 0


def parallel(c, items, fn, jobs=None):
    """fn(check, item) for every item, spread over forked workers; records are merged in the order of the items"""
    jobs = jobs or min(8, os.cpu_count() or 1, len(items)) or 1
    lock = tempfile.TemporaryFile()
    lock.write(b"0" * 8)
    lock.flush()
    pipes = []
    sys.stdout.flush()
    for j in range(jobs):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                out = []
                while True:
                    fcntl.lockf(lock, fcntl.LOCK_EX)
                    k = int(os.pread(lock.fileno(), 8, 0))
                    os.pwrite(lock.fileno(), b"%08d" % (k + 1), 0)
                    fcntl.lockf(lock, fcntl.LOCK_UN)
                    if k >= len(items):
                        break
                    sub = Check(c.prop, c.title)
                    err = None
                    try:
                        fn(sub, items[k])
                    except (AnalysisError, Limit) as e:
                        err = str(e)
                    except Exception:
                        err = traceback.format_exc()
                    out.append((k, err, sub.seen, sub.by_points, sub.samples, sub.viol, sub.und, sub.notes, sub.assumptions, sub.counts))
                with os.fdopen(wr, "wb") as f:
                    pickle.dump(out, f)
            except BaseException:
                traceback.print_exc()
                code = 1
            os._exit(code)
        os.close(wr)
        pipes.append((pid, r))
    got, bad = [], False
    for pid, r in pipes:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        if st or not data:
            bad = True
        else:
            got += pickle.loads(data)
    lock.close()
    if bad or len(got) != len(items):
        raise RuntimeError("a worker failed")
    errors = []
    for k, err, seen, pts, samples, viol, und, notes, assume, counts in sorted(got, key=lambda x: x[0]):
        if err:
            errors.append(err)
        for x in sorted(seen):
            c.ok(*x, points=x in pts)
        for v in viol:
            c.violation(v["rule"], v["instance"], v["where"], v["detail"], v["key"])
        c.und += und
        c.notes += [n for n in notes if n not in c.notes]
        for a in assume:
            c.assume(a)
        for n, x in counts.items():
            c.count(n, x)
    for e in errors:
        # one item that cannot be analysed leaves the others standing; the floors decide
        c.undecided("analysis", str(e).strip().splitlines()[-1], "not analysed")
    return got


def run(prop, title, body):
    c = Check(prop, title)
    try:
        body(c)
        rc = c.finish()
    except AnalysisError as e:
        print("ANALYSIS-BROKEN: %s" % e)
        # a violation already established stands even if the rest of the analysis could not run
        if c.viol:
            c.floors = []
            rc = c.finish()
            if rc == 0:
                rc = 2
        else:
            rc = 2
    except Limit as e:
        print("ANALYSIS-BROKEN: %s" % e)
        rc = 2
        if c.viol:
            c.floors = []
            rc = c.finish() or 2
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    return rc


# ------------------------------------------------------------------------------ comparing gated terms
SAMPLES = 60
REPAIRS = 12


def _fmt(x):
    if isinstance(x, complex):
        if abs(x.imag) < 1e-12 * (1 + abs(x.real)):
            return "%.6g" % x.real
        return "%.6g%+.6gi" % (x.real, x.imag)
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


def points(asg, env_fn=None, want=1, tries=SAMPLES, seed0=0):
    """sample points satisfying the conditions of the assignment"""
    out = []
    for i in range(tries):
        env = evalf.Env(SEED * 1000 + i + seed0)
        if env_fn:
            env_fn(env)
        try:
            evalf.solve(env, asg)
        except (evalf.Bad, OverflowError):
            continue
        if evalf.holds(env, asg) or (i < REPAIRS and evalf.repair(env, asg)):
            out.append(env)
            if len(out) >= want:
                break
    return out


def _leaf_rel(x, y, opaque_ok):
    if x is y:
        return True
    if x.__class__ is Poly and y.__class__ is Poly:
        try:
            return num.equal(x, y)
        except num.TooBig:
            return None
    if x.__class__ is bool and y.__class__ is bool:
        return x == y
    if x.__class__ is dd.Top or y.__class__ is dd.Top:
        return None
    if x.__class__ is Poly and y.__class__ is bool:
        return num.equal(x, num.P(y))
    if y.__class__ is Poly and x.__class__ is bool:
        return num.equal(y, num.P(x))
    return x == y


_DIFF = dd.Obj("DIFF", 0)


class _Pair(dd.Leaf):
    __slots__ = ("x", "y")

    def __init__(self, x, y):
        self.x, self.y = x, y

    def key(self):
        return ("pair", self.x, self.y)

    def __repr__(self):
        return "(%r | %r)" % (self.x, self.y)


def _div0(p):
    return any(num._ATOMS[aid].kind == "div0" for aid in num.atoms_in(p))


def compare(a, b, under=True, env_fn=None, names=("got", "expected"), max_cubes=400):
    """-> ('equal',) | ('differ', text) | ('unknown', why);   differ only with a concrete point"""
    if under is False:
        return ("equal",)
    same = dd.Obj("SAME", 0)

    def f(x, y, c):
        if c is False:
            return same
        r = _leaf_rel(x, y, True)
        if r is True:
            return same
        return _Pair(x, y)
    try:
        pd = dd.applyn(f, [a, b, under])
        if pd is same or pd == same:
            return ("equal",)
        cs = dd.cubes(pd, want=lambda z: z.__class__ is _Pair, limit=max_cubes)
    except dd.Blowup:
        return ("unknown", "too many cases")
    unk = None
    for asg, leaf in cs:
        x, y = leaf.x, leaf.y
        if x.__class__ is dd.Top or y.__class__ is dd.Top:
            unk = unk or "unknown value (%s)" % (x.why if x.__class__ is dd.Top else y.why)
            continue
        if any(dd.cond_by_id(c).kind == "unknown" for c in asg):
            unk = unk or "depends on an unknown condition"
            continue
        if x.__class__ is dd.Undef or y.__class__ is dd.Undef:
            pts = points(asg, env_fn)
            if pts:
                return ("differ", "%s is %r, %s is %r when %s" % (names[0], x, names[1], y, show_asg(asg)))
            unk = unk or "no sample point for %s" % show_asg(asg)
            continue
        if x.__class__ is Poly and y.__class__ is Poly:
            pts = points(asg, env_fn, want=12 if any(v and dd.cond_by_id(k).kind == "eq" for k, v in asg.items()) else 4)
            if not pts:
                unk = unk or "no sample point for %s" % show_asg(asg)
                continue
            ev = 0
            for env in pts:
                try:
                    u, v = env.poly(x), env.poly(y)
                    sc = env.scale(x) + env.scale(y)
                except (evalf.Bad, OverflowError):
                    zx, zy = _div0(x), _div0(y)
                    if zx != zy:
                        try:
                            u = env.poly(y if zx else x)
                        except (evalf.Bad, OverflowError):
                            continue
                        t = [_fmt(u), _fmt(u)]
                        t[0 if zx else 1] = "a division by zero"
                        return ("differ", "%s = %s, %s = %s at %s%s" % (
                            names[0], t[0], names[1], t[1], show_env(env, (x, y)), " when " + show_asg(asg) if asg else ""))
                    continue
                ev += 1
                if abs(u - v) > 1e-8 * (abs(u) + abs(v)) + 1e-10 * sc:
                    if hp.confirm(env, x, y) is False:
                        continue
                    return ("differ", "%s = %s, %s = %s at %s%s" % (
                        names[0], _fmt(u), names[1], _fmt(v), show_env(env, (x, y)), " when " + show_asg(asg) if asg else ""))
            if not ev:
                unk = unk or "no valid sample point for %s" % show_asg(asg)
            at_points.used = True
            continue   # same value at every sample: treated as equal
        pts = points(asg, env_fn)
        if pts:
            return ("differ", "%s = %s, %s = %s%s" % (names[0], _fmt(x), names[1], _fmt(y), " when " + show_asg(asg) if asg else ""))
        unk = unk or "no sample point for %s" % show_asg(asg)
    if unk:
        return ("unknown", unk)
    return ("equal",)


def sat(b, env_fn=None, max_cubes=400):
    """can the boolean diagram be true?  -> ('no',) | ('yes', text, env) | ('unknown', why)"""
    if b is False:
        return ("no",)
    if b is True:
        return ("yes", "always", None)
    try:
        cs = dd.cubes(b, want=lambda z: z is True, limit=max_cubes)
    except dd.Blowup:
        return ("unknown", "too many cases")
    unk = None
    for asg, _ in cs:
        if any(dd.cond_by_id(c).kind == "unknown" for c in asg):
            unk = unk or "depends on an unknown condition"
            continue
        pts = points(asg, env_fn)
        if pts:
            return ("yes", show_asg(asg), pts[0])
        unk = unk or "no sample point for %s" % show_asg(asg)
    return ("unknown", unk) if unk else ("no",)


def show_asg(asg):
    s = []
    for c, v in asg.items():
        t = repr(dd.cond_by_id(c))
        s.append(("" if v else "not ") + (t if len(t) < 160 else t[:160] + "..."))
    return ", ".join(s) or "always"


def show_env(env, polys):
    names = {}
    for p in polys:
        for aid in num.atoms_in(p):
            a = num._ATOMS[aid]
            if a.kind == "sym":
                names[a.args[0]] = env.vals.get(a.args[0], env.used.get(a.args[0]))
    it = sorted(names.items())[:24]
    return "{" + ", ".join("%s=%s" % (k, _fmt(complex(v)) if v is not None else "?") for k, v in it) + "}"
