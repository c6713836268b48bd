"""Rendering of abstract strings at sample values, and reading of the rendered text.

An abstract string is a sequence of literal text and formatted values.  At a sample point every part has a
definite text (the formatting rules of iostreams), which is then read back as a list of numbers or as a
Mathematica expression.
"""
import math
import re
from fractions import Fraction

from . import num, dd, evalf
from .dd import Str, Ite


def round_bits(x, bits):
    """nearest number with the given mantissa length"""
    x = Fraction(x)
    if x == 0:
        return x
    s, a = (-1, -x) if x < 0 else (1, x)
    e = a.numerator.bit_length() - a.denominator.bit_length() - bits
    while a / Fraction(2) ** e >= 2 ** bits:
        e += 1
    while a / Fraction(2) ** e < 2 ** (bits - 1):
        e -= 1
    m = a / Fraction(2) ** e
    n = m.numerator // m.denominator
    r = m - n
    if r > Fraction(1, 2) or r == Fraction(1, 2) and n & 1:
        n += 1
    return s * n * Fraction(2) ** e


def _digits(a, p):
    """a > 0 -> (digit string of length p, decimal exponent)"""
    e = math.floor((a.numerator.bit_length() - a.denominator.bit_length()) * 0.30102999566)
    while a >= Fraction(10) ** (e + 1):
        e += 1
    while a < Fraction(10) ** e:
        e -= 1
    m = a / Fraction(10) ** (e - p + 1)
    n = m.numerator // m.denominator
    r = m - n
    if r > Fraction(1, 2) or r == Fraction(1, 2) and n & 1:
        n += 1
    if n >= 10 ** p:
        n //= 10
        e += 1
    return str(n), e


def fmt_g(x, p):
    p = p or 1
    if x == 0:
        return "0"
    s = "-" if x < 0 else ""
    d, e = _digits(abs(x), p)
    if -4 <= e < p:
        if e >= 0:
            t = d[:e + 1] + "." + d[e + 1:]
        else:
            t = "0." + "0" * (-e - 1) + d
        t = t.rstrip("0").rstrip(".")
        return s + t
    t = (d[0] + "." + d[1:]).rstrip("0").rstrip(".")
    return s + t + "e" + ("-" if e < 0 else "+") + "%02d" % abs(e)


def fmt_e(x, p):
    if x == 0:
        return "0." + "0" * p + "e+00" if p else "0e+00"
    d, e = _digits(abs(x), p + 1)
    t = d[0] + ("." + d[1:] if p else "")
    return ("-" if x < 0 else "") + t + "e" + ("-" if e < 0 else "+") + "%02d" % abs(e)


def fmt_f(x, p):
    a = abs(x) * 10 ** p
    n = a.numerator // a.denominator
    r = a - n
    if r > Fraction(1, 2) or r == Fraction(1, 2) and n & 1:
        n += 1
    t = str(n).rjust(p + 1, "0")
    return ("-" if x < 0 else "") + (t[:-p] + "." + t[-p:] if p else t)


class Unrenderable(Exception):
    pass


BITS = {"long double": 64, "double": 53, "float": 24}


class Render:
    """vals: symbol name -> exact value"""

    def __init__(self, vals):
        self.vals = {k: Fraction(v) for k, v in vals.items()}
        self.env = evalf.Env(1, {k: float(v) for k, v in self.vals.items()})

    # ---- numbers
    def exact(self, p):
        """(re, im) of a polynomial, exact where it has only symbols"""
        re_, im = Fraction(0), Fraction(0)
        for m, c in p.d.items():
            t = Fraction(c)
            k = 0
            for aid, e in m:
                a = num._ATOMS[aid]
                if a.kind == "I":
                    k += e
                elif a.kind == "sym" and a.args[0] in self.vals and isinstance(e, int):
                    t *= self.vals[a.args[0]] ** e
                elif a.kind in ("strpos", "strlen"):
                    t *= Fraction(self.straction(a)) ** e
                elif a.kind in ("abs", "inv") and isinstance(e, int) and self.realval(a) is not None:
                    v = self.realval(a)
                    if v == 0 and (e < 0 or a.kind == "inv"):
                        raise Unrenderable("1/0")
                    t *= (abs(v) if a.kind == "abs" else 1 / v) ** e
                else:
                    try:
                        z = self.env.poly(p)
                    except (evalf.Bad, OverflowError):
                        raise Unrenderable("value")
                    return Fraction(z.real), Fraction(z.imag)
            k %= 4
            if k == 0:
                re_ += t
            elif k == 1:
                im += t
            elif k == 2:
                re_ -= t
            else:
                im -= t
        return re_, im

    def realval(self, a):
        v = self.exact(a.args[0])
        return v[0] if v[1] == 0 else None

    def straction(self, a):
        if a.kind == "strlen":
            return len(self.text(a.args[0]))
        how = a.args[-1]
        cur = self.text(a.args[0])
        r = [self.text(x) if x.__class__ is Str else self.exact(x)[0] for x in a.args[1:-1]]
        npos = 2 ** 64 - 1
        if how == "find":
            k = cur.find(r[0], int(r[1]) if len(r) > 1 else 0)
        elif how == "rfind":
            k = cur.rfind(r[0])
        elif how == "find_first_of":
            k = min([i for i, ch in enumerate(cur) if ch in r[0] and (len(r) < 2 or i >= r[1])], default=-1)
        elif how == "find_last_of":
            k = max([i for i, ch in enumerate(cur) if ch in r[0]], default=-1)
        elif how == "find_first_not_of":
            k = min([i for i, ch in enumerate(cur) if ch not in r[0] and (len(r) < 2 or i >= r[1])], default=-1)
        elif how == "compare" and len(r) == 1:
            return (cur > r[0]) - (cur < r[0])
        else:
            raise Unrenderable(how)
        return npos if k < 0 else k

    def cond(self, c):
        if c.kind == "lt":
            return self.exact(c.args[0])[0] < 0
        if c.kind == "eq":
            return self.exact(c.args[0]) == (0, 0)
        if c.kind in ("isnan", "isinf"):
            return False
        raise Unrenderable("condition %r" % (c,))

    def pick(self, v):
        while v.__class__ is Ite:
            v = v.hi if self.cond(dd.cond_by_id(v.v)) else v.lo
        return v

    def number(self, x, kind, prec, fmt, tn):
        if x.__class__ is bool:
            return "1" if x else "0"
        if x.__class__ is not num.Poly:
            raise Unrenderable("printed value %r" % (x,))
        prec = self.pick(prec)
        if prec.__class__ is not num.Poly:
            raise Unrenderable("precision")
        p = int(self.exact(prec)[0])
        fl = fmt.parts[0].split(";") if fmt.__class__ is Str and fmt.parts else []
        if fmt.__class__ is not Str:
            raise Unrenderable("stream state")
        a, b = self.exact(x)
        bits = BITS.get(tn)
        if bits:
            a, b = round_bits(a, bits), round_bits(b, bits)
        f = fmt_g
        for w in fl:
            if w == "scientific":
                f = fmt_e
            elif w == "fixed":
                f = fmt_f
            elif w == "defaultfloat":
                f = fmt_g
            elif w in ("", "dec", "skipws", "flush", "left", "right", "internal", "boolalpha", "noshowpos", "nouppercase"):
                pass
            elif w not in ("uppercase", "showpos"):
                raise Unrenderable(w)

        def one(y):
            t = f(y, p) if kind != "int" else str(int(y))
            if "uppercase" in fl:
                t = t.upper()
            if "showpos" in fl and not t.startswith("-"):
                t = "+" + t
            return t
        if kind == "cplx":
            return "(%s,%s)" % (one(a), one(b))
        if b != 0:
            raise Unrenderable("complex value printed as real")
        return one(a)

    # ---- strings
    def text(self, s):
        s = self.pick(s)
        if s.__class__ is not Str:
            raise Unrenderable("%r" % (s,))
        out = []
        for p in s.parts:
            if isinstance(p, str):
                out.append(p)
            elif p[0] == "num":
                out.append(self.number(self.pick(p[2]), p[1], p[3], p[4], p[5]))
            elif p[0] == "to_string":
                v = self.exact(self.pick(p[1]))[0]
                out.append(fmt_f(v, 6))
            elif p[0] in ("replace", "erase", "insert", "substr"):
                cur = self.text(p[1])
                a = [self.text(x) if x.__class__ is Str else int(self.exact(self.pick(x))[0]) for x in p[2:]]
                if not isinstance(a[0], int) or a[0] > len(cur):
                    raise Unrenderable("string position out of range")
                if p[0] == "insert":
                    out.append(cur[:a[0]] + a[1] + cur[a[0]:])
                else:
                    n = a[1] if len(a) > 1 else 2 ** 64
                    if p[0] == "replace":
                        out.append(cur[:a[0]] + a[2] + cur[a[0] + n:])
                    elif p[0] == "erase":
                        out.append(cur[:a[0]] + cur[a[0] + n:])
                    else:
                        out.append(cur[a[0]:a[0] + n])
            else:
                raise Unrenderable(p[0])
        return "".join(out)


# ------------------------------------------------------------------------------------------ reading
_NUM = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")


def numbers(text):
    return [Fraction(x) for x in _NUM.findall(text)]


def balanced(text):
    st = []
    for ch in text:
        if ch in "{(":
            st.append(ch)
        elif ch in "})":
            if not st or st.pop() != {"}": "{", ")": "("}[ch]:
                return False
    return not st


class NotMathematica(Exception):
    pass


_TOK = re.compile(r"\s*(?:(\d+\.?\d*|\.\d+)((?:``?\d*\.?\d*)?)((?:\*\^[-+]?\d+)?)|([A-Za-z$][A-Za-z0-9$]*)|([-+*/^(){}\[\],]))")


class _M:
    """small reader for Mathematica input: lists, arithmetic, I"""

    def __init__(self, s):
        self.t = []
        i = 0
        s = s.rstrip()
        while i < len(s):
            m = _TOK.match(s, i)
            if not m:
                raise NotMathematica("unexpected '%s'" % s[i:i + 12])
            if m.group(1):
                v = Fraction(m.group(1).rstrip(".")) if m.group(1) != "." else Fraction(0)
                if m.group(3):
                    v *= Fraction(10) ** int(m.group(3)[2:])
                self.t.append(("n", (v, Fraction(0))))
            elif m.group(4):
                self.t.append(("w", m.group(4)))
            else:
                self.t.append(("o", m.group(5)))
            i = m.end()
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ("e", "")

    def take(self, x=None):
        t = self.peek()
        if x is not None and t != ("o", x):
            raise NotMathematica("expected '%s' before '%s'" % (x, t[1]))
        self.i += 1
        return t

    def value(self):
        if self.peek() == ("o", "{"):
            self.take()
            out = [self.value()]
            while self.peek() == ("o", ","):
                self.take()
                out.append(self.value())
            self.take("}")
            return out
        return self.sum()

    def sum(self):
        v = self.term()
        while self.peek() in (("o", "+"), ("o", "-")):
            o = self.take()[1]
            w = self.term()
            v = (v[0] + w[0], v[1] + w[1]) if o == "+" else (v[0] - w[0], v[1] - w[1])
        return v

    def term(self):
        v = self.factor()
        while True:
            t = self.peek()
            if t == ("o", "*"):
                self.take()
                w = self.factor()
            elif t == ("o", "/"):
                self.take()
                w = self.factor()
                n = w[0] ** 2 + w[1] ** 2
                if not n:
                    raise NotMathematica("division by zero")
                w = (w[0] / n, -w[1] / n)
            elif t[0] in "nw" or t == ("o", "("):
                w = self.factor()
            else:
                return v
            v = (v[0] * w[0] - v[1] * w[1], v[0] * w[1] + v[1] * w[0])

    def factor(self):
        t = self.peek()
        if t in (("o", "-"), ("o", "+")):
            self.take()
            v = self.factor()
            return (-v[0], -v[1]) if t[1] == "-" else v
        v = self.atom()
        if self.peek() == ("o", "^"):
            self.take()
            e = self.factor()
            if e[1] or e[0].denominator != 1 or v[1] or abs(e[0]) > 20000:
                raise NotMathematica("exponent")
            if v[0] == 0 and e[0] < 0:
                raise NotMathematica("1/0")
            v = (v[0] ** int(e[0]), Fraction(0))
        return v

    def atom(self):
        t = self.take()
        if t[0] == "n":
            return t[1]
        if t == ("w", "I"):
            return (Fraction(0), Fraction(1))
        if t == ("o", "("):
            v = self.sum()
            self.take(")")
            return v
        raise NotMathematica("undefined '%s'" % (t[1] or "end of text"))


def mathematica(s):
    p = _M(s)
    v = p.value()
    if p.i != len(p.t):
        raise NotMathematica("text left over at '%s'" % (p.peek()[1],))
    return v
