"""Confirmation of term differences.  Two terms whose normal forms differ are
only called different when some valuation of their symbols separates them;
the terms are evaluated here, never the program.  Unknown operations are
uninterpreted functions of their argument values."""
import cmath
import hashlib
import math
import random
from .terms import *
from . import terms as TM


RANGES = {}         # symbol name -> (low, high) of typical values


class Undefined(Exception):
    pass


def _h(*parts):
    d = hashlib.md5(repr(parts).encode()).digest()
    return int.from_bytes(d[:6], "big")


def _r(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, complex):
        return (_r(x.real), _r(x.imag))
    if isinstance(x, (int, float)):
        if x == 0:
            return 0.0
        return float("%.8g" % x)
    return x


class Point(object):
    def __init__(self, n):
        self.n = n
        self.memo = {}
        self.grid = n % 2 == 0

    def atom(self, *key):
        rng = random.Random(_h(self.n, *key))
        if self.grid:
            return float(rng.choice((-3, -2, -1, 0.5, 1, 2, 3, 4)))
        s = 1 if rng.random() < 0.75 else -1
        return s * math.exp(rng.uniform(-1.5, 2.5))

    def ev(self, t):
        v = self.memo.get(t)
        if v is None:
            v = self.memo[t] = self._ev(t)
        return v

    def truth(self, t):
        v = self.ev(t)
        return bool(v) if not isinstance(v, tuple) else len(v) > 0

    def _ev(self, t):
        op = t.op
        if op == "num":
            return float(t.val)
        if t is TM.PI:
            return math.pi
        if t is TM.I:
            return 1j
        if t is TM.E:
            return math.e
        if op == "const":
            k, v = t.val
            if k == "complex":
                return complex(v)
            return v if k == "bool" else ("const", k, v)
        if op == "add" or op == "mul":
            pass
        if op == "add":
            s = 0.0
            for m, c in terms_of(t).items():
                s = s + float(c) * self.n_(m)
            return s
        if op == "mul":
            c, f = split_mul(t)
            s = float(c)
            for b, e in f.items():
                s = s * self.pow(self.n_(b), self.n_(e))
            return s
        if op == "pow":
            return self.pow(self.n_(t.args[0]), self.n_(t.args[1]))
        if op in ("max", "min"):
            vs = [self.real(a) for a in t.args]
            return max(vs) if op == "max" else min(vs)
        if op == "lt0":
            return self.real(t.args[0]) < -self.eps(t.args[0])
        if op == "le0":
            return self.real(t.args[0]) <= self.eps(t.args[0])
        if op == "eq0":
            return abs(self.n_(t.args[0])) <= self.eps(t.args[0])
        if op == "not":
            return not self.truth(t.args[0])
        if op == "and":
            return all(self.truth(a) for a in t.args)
        if op == "or":
            return any(self.truth(a) for a in t.args)
        if op == "phi":
            return self.ev(t.args[1] if self.truth(t.args[0])
                           else t.args[2])
        if op == "full":
            return self.ev(t.args[0])
        if op == "fn":
            return self.fn(t)
        if op in ("tuple", "list"):
            return (op,) + tuple(_r(self.ev(a)) for a in t.args)
        if op == "sym":
            r = RANGES.get(t.val[-1] if isinstance(t.val, tuple) else t.val)
            if r is not None and self.n % 4 < 2:
                rng = random.Random(_h(self.n, "sym", t.val))
                if self.grid:
                    return r[0] + (r[1] - r[0]) * rng.randint(0, 4) / 4.
                return rng.uniform(*r)
            return self.atom("sym", t.val)
        vals = tuple(_r(self.ev(a)) for a in t.args)
        if isbool(t):
            return bool(_h(self.n, op, t.val, vals) & 1)
        return self.atom(op, t.val, vals)

    def eps(self, t):
        d = terms_of(t)
        return 1e-9 * max([abs(c) * abs(self.n_(m)) for m, c in d.items()]
                          or [0.0])

    def n_(self, t):
        v = self.ev(t)
        if isinstance(v, bool):
            return float(v)
        if isinstance(v, tuple):
            return self.atom("t", v)
        return v

    def real(self, t):
        v = self.n_(t)
        if isinstance(v, complex):
            raise Undefined()
        return v

    def pow(self, b, e):
        if isinstance(e, complex) or isinstance(b, complex):
            return b ** e
        if e == int(e) if abs(e) < 1e6 else False:
            return b ** int(e)
        if b < 0:
            raise Undefined()
        return b ** e

    def fn(self, t):
        n = t.val
        a = [self.n_(x) for x in t.args]
        if n == "real":
            return a[0].real
        if n == "imag":
            return complex(a[0]).imag
        if n == "abs":
            return abs(a[0])
        if any(isinstance(x, complex) for x in a):
            if n in ("sin", "cos", "log", "exp"):
                return getattr(cmath, n)(a[0])
            raise Undefined()
        if n == "sign":
            return float((a[0] > 0) - (a[0] < 0))
        if n in ("sin", "cos", "tan", "floor", "ceil", "log", "tanh",
                 "sinh", "cosh", "log10"):
            return float(getattr(math, n)(a[0]))
        if n in ("arcsin", "arccos", "arctan"):
            return getattr(math, "a" + n[3:])(a[0])
        if n == "arctan2":
            return math.atan2(a[0], a[1])
        if n == "mod":
            return a[0] - math.floor(a[0] / a[1]) * a[1]
        if n == "fmod":
            return math.fmod(a[0], a[1])
        if n == "int":
            return float(int(a[0]))
        if n == "round" and len(a) == 1:
            return float(round(a[0]))
        if n == "floordiv":
            return float(math.floor(a[0] / a[1]))
        return self.atom("fn", n, tuple(_r(x) for x in a))


def _complex_unit(t):
    return t.op == "call" and t.args[0].op == "ext" and \
        t.args[0].val == "complex"


def close(x, y):
    if isinstance(x, bool) or isinstance(y, bool):
        return bool(x) == bool(y)
    if isinstance(x, tuple) or isinstance(y, tuple):
        return x == y
    if cmath.isnan(x) or cmath.isnan(y):
        raise Undefined()
    return abs(x - y) <= 1e-6 * (abs(x) + abs(y)) + 1e-12


def differ(a, b, points=120):
    """True: some valuation separates the terms; False: none of the sampled
    ones does; None: they could not be evaluated"""
    if isnum(a) and isnum(b):
        return a.val != b.val
    r = _differ(a, b, points)
    if r is False:
        # equalities are not met by chance
        for c in {x for t in (a, b) for x in walk(t) if x.op == "eq0"}:
            x, y = assume(a, c, True), assume(b, c, True)
            if isnum(x) and isnum(y):
                if x.val != y.val:
                    return True
            elif _differ(x, y, points) is True:
                return True
    return r


def _differ(a, b, points):
    good = 0
    for n in range(points):
        p = Point(n)
        try:
            x, y = p.ev(a), p.ev(b)
            if not close(x, y):
                return True
            good += 1
        except (Undefined, ZeroDivisionError, OverflowError, ValueError,
                TypeError, RecursionError):
            continue
    return False if good >= 6 else None
