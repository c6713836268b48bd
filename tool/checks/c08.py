"""C08: spin-state expansion, decided for every sign pattern of up to eight legs."""
import itertools

from checks.plib import *

PC = "spinas::process"


def body(c):
    prog = ir.load(("source",))
    S = Session(prog)
    proc = S.new(PC, [])
    nl = {n: S.find(PC + "::get_num_spin_loops", ["i"] * n) for n in range(1, 7)}
    nn = {n: S.find(PC + "::get_spin_normalization", ["i"] * n) for n in range(1, 7)}
    ns = {n: S.find(PC + "::get_spinor_spins", ["i"] * (3 * n + 1)) for n in range(1, 7)}
    lnl = S.find(PC + "::get_num_spin_loops", ["pi", "i"])
    lnn = S.find(PC + "::get_spin_normalization", ["pi", "i"])
    lns = S.find(PC + "::get_spinor_spins", ["ppi", "ppi", "ppi", "i", "i"])
    c.count("hand-written forms", sum(1 for d in (nl, nn, ns) for n in d if d[n]))
    pos, neg, zero = sym("up", integer=True, positive=True), -sym("dn", integer=True, positive=True), num.ZERO
    val = {"+": pos, "0": zero, "-": neg}
    c.assume("positive and negative doubled spins are arbitrary positive and negative integers")
    seen = 0
    base = S.save()
    for n in range(1, 9):
        if n > 6 and n != 8:
            continue
        for pat in itertools.product("+0-", repeat=n):
            if n == 8 and pat.count("0") not in (0, 1, 3, 8):
                continue
            if n == 8 and (hash_(pat) % 9):
                if pat.count("0") != 8:
                    continue
            zs = pat.count("0")
            ds = [val[x] for x in pat]
            label = "".join(pat)
            forms = []
            if n <= 6:
                forms.append(("legs", nl[n], nn[n], ns[n]))
            forms.append(("list", lnl, lnn, lns))
            per_form = {}
            for fname, fl, fn_, fs in forms:
                inst = "%s form, %s" % (fname, label)
                S.restore(base)
                if fl:
                    v = S.call(fl[0], proc, *(ds if fname == "legs" else [S.array(ds, "int"), P(n)]))
                    c.judge("number of terms", inst, w(fl[0]), chk.compare(v, P(2 ** zs), names=("returned", "2^zeros")), "wrong number")
                if fn_:
                    v = S.call(fn_[0], proc, *(ds if fname == "legs" else [S.array(ds, "int"), P(n)]))
                    want = 1 / num.sqrt(P(2 ** zs))
                    c.judge("normalisation", inst, w(fn_[0]), chk.compare(v, want, names=("returned", "1/sqrt(2^zeros)")), "wrong normalisation")
                if not fs:
                    continue
                assign = []
                bad = None
                top = 2 ** zs
                if n == 8 and zs == 8:
                    its = range(top)
                else:
                    its = range(top)
                for it in its:
                    S.restore(base)
                    I = S.I
                    A = [S.box(sym("junk_a%d" % i, integer=True), "int") for i in range(n)]
                    B = [S.box(sym("junk_b%d" % i, integer=True), "int") for i in range(n)]
                    D = [S.box(d, "int") for d in ds]
                    if fname == "legs":
                        args = []
                        for d, a, b in zip(D, A, B):
                            args += [d, a, b]
                        args.append(P(it))
                        S.attempt(fs[0], proc, *args)
                    else:
                        S.attempt(fs[0], proc, ptrs(S, D), ptrs(S, A), ptrs(S, B), P(n), P(it))
                    row = []
                    for i in range(n):
                        a, b = I.load(A[i]), I.load(B[i])
                        row.append((a, b))
                        if I.load(D[i]) != ds[i] and bad is None:
                            bad = "input leg %d is modified" % i
                        if pat[i] != "0":
                            wv = P(1) if pat[i] == "+" else P(-1)
                            for x in (a, b):
                                r = chk.compare(x, wv)
                                if r[0] == "differ" and bad is None:
                                    bad = "term %d, leg %d (%s): %s" % (it, i, pat[i], r[1])
                    assign.append(tuple(row))
                seen += 1
                per_form[fname] = assign
                consts = all(x.__class__ is num.Poly and x.is_const() for row in assign for pr in row for x in pr)
                if not bad and not consts:
                    if any(x.__class__ is num.Poly and any(str(num._ATOMS[q].args[0]).startswith("junk") for q in num.atoms_in(x) if num._ATOMS[q].kind == "sym")
                           for row in assign for pr in row for x in pr):
                        bad = "an output is left unset"
                    else:
                        c.undecided("spin assignment", inst, "assignment not constant")
                        continue
                if not bad:
                    zl = [i for i in range(n) if pat[i] == "0"]
                    got = [tuple((int(r[i][0].const()), int(r[i][1].const())) for i in zl) for r in assign]
                    want = set(itertools.product(((1, -1), (-1, 1)), repeat=zs))
                    if len(set(got)) != len(got):
                        bad = "a combination appears twice: %s" % (got,)
                    elif set(got) != want:
                        bad = "combinations %s" % (sorted(set(got) ^ want),)
                if bad:
                    c.violation("spin assignment", inst, w(fs[0]), bad[:400])
                else:
                    c.ok("spin assignment", inst)
            if len(per_form) == 2:
                if all(a == b for a, b in zip(per_form["legs"], per_form["list"])):
                    c.ok("leg form agrees with list form", label)
                else:
                    c.violation("leg form agrees with list form", label, w(ns[n][0]), "the two forms assign different spins")
    c.count("sign patterns x forms", seen)
    c.floor("number of terms", 1000)
    c.floor("normalisation", 1000)
    c.floor("spin assignment", 1000)


def hash_(pat):
    h = 0
    for x in pat:
        h = h * 3 + "+0-".index(x)
    return h


def ptrs(S, locs):
    o = S.I.alloc("int *[%d]" % len(locs), "ptrs")
    for i, l in enumerate(locs):
        S.I.write1(o, (i,), l)
    return Ptr(o, (0,))
