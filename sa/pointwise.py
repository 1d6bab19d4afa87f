"""Elements of arrays and ranges of values.

at(t, k) is the element of the array term t at position k, written in terms
of elements of the arrays it is built from.  Selections by a mask or an index
list become uninterpreted positions pos(selection, k), so two arrays are
paired record by record exactly when their elements mention the same
positions.

Range evaluates an element term over intervals: given what is known about the
inputs (a missing code, a physical range, a flag) it gives the range the term
can take, deciding comparisons where the ranges allow it.
"""
import math
from .terms import *
from . import terms as TM
from .lib import UNINIT

INF = float("inf")
MAXSIZE = sym("maxsize")
SAMEPOS = {"numpy.isnan", "numpy.isinf", "numpy.isfinite", "numpy.nan_to_num",
           "numpy.sign"}


class Unknown(Exception):
    pass


def offset(k):
    """(symbolic part, integer offset)"""
    d = dict(terms_of(k)) if TM._arith(k) else {k: 1}
    c = d.pop(ONE, 0)
    return from_terms(d) if d else ZERO, int(c)


def pos(m, k):
    """position of the k-th element a selection picks"""
    while True:
        if m.op == "idx" and len(m.args) == 2 and m.args[1].op == "slice" \
                and m.args[1].args[0] is NONE and m.args[1].args[2] is NONE:
            # a leading part: its first elements are found at the same places
            m = m.args[0]
        elif m.op == "phi" and m.args[1] is ONE and m.args[2] is ZERO:
            m = m.args[0]
        elif m.op == "ne0":
            m = m.args[0]
        else:
            break
    return mk("pos", m, k)


class Elements(object):
    """arrays: predicate telling which atoms are arrays; kmin: a lower bound
    on symbolic positions"""

    def __init__(self, arrays, kmin=3, calls=()):
        self.arrays = arrays
        self.kmin = kmin
        self.calls = set(calls)
        self.memo = {}

    def pointcall(self, t):
        return t.op == "call" and t.args[0].op in ("func", "ext") and \
            t.args[0].val in self.calls

    def isarray(self, t):
        key = ("arr", t)
        if key not in self.memo:
            self.memo[key] = self._isarray(t)
        return self.memo[key]

    def _isarray(self, t):
        if t.op in ("num", "const"):
            return False
        if self.arrays(t):
            return True
        if t.op == "sym":
            return False
        if t.op in ("full", "store", "nonzero", "arr", "comp"):
            return True
        if t.op == "eta":
            return self.isarray(t.args[0])
        if t.op == "idx":
            if any(x.op == "slice" for x in t.args[1:]):
                return True
            if len(t.args) == 2 and isstr(t.args[1]):
                return self.isarray(t.args[0])
            if len(t.args) == 2 and (t.args[0].op == "nonzero"):
                return True
            if len(t.args) == 2 and isnum(t.args[1]) and \
                    self.pointcall(t.args[0]):
                return self.isarray(t.args[0])
            return self.isarray(t.args[0]) and self.isarray(t.args[1])
        if t.op in ("reduce", "len", "attr"):
            return False
        if t.op in ("mcall",) and t.val in ("min", "max", "sum", "mean"):
            return False
        if t.op == "call":
            f = t.args[0]
            if f.op == "ext" and f.val in ("numpy.diff", "numpy.concatenate",
                                           "numpy.append", "numpy.arange"):
                return True
            return any(self.isarray(a) for a in t.args[1:])
        return any(self.isarray(a) for a in t.args)

    def at(self, t, k):
        key = (t, k)
        if key not in self.memo:
            self.memo[key] = self._at(t, k)
        return self.memo[key]

    def before(self, k, lo):
        """is position k before lo?  True / False / None"""
        s, c = offset(k)
        if s is ZERO:
            return c < lo
        if s.op in ("sym",) and c + self.kmin >= lo:
            return False
        if s.op == "pos":
            return None if lo > 0 else False
        return None

    def _at(self, t, k):
        op = t.op
        if self.arrays(t):
            return mk("idx", t, k)
        if not self.isarray(t):
            return t
        if op == "full":
            return self.at(t.args[1], k)
        if op == "store":
            return self.at_store(t, k)
        if op == "idx":
            b, i = t.args[0], t.args[1:]
            if len(i) != 1:
                raise Unknown(t)
            i = i[0]
            if isstr(i):
                return mk("idx", self.at(b, k), i)
            if i.op == "slice":
                lo, hi, st = i.args
                if st is not NONE and st is not ONE:
                    raise Unknown(t)
                if lo is NONE:
                    return self.at(b, k)
                if isnum(lo) and lo.val >= 0:
                    return self.at(b, add(k, lo))
                raise Unknown(t)
            if t.args[0].op == "nonzero" and i is ZERO:
                return pos(t.args[0].args[0], k)
            if isnum(i) and self.pointcall(b):
                return mk("idx", self.at(b, k), i)
            return self.at(b, self.position(i, k))
        if op == "nonzero":
            return pos(t.args[0], k)
        if op == "call" and t.args[0].op == "ext":
            n = t.args[0].val
            if n == "numpy.diff" and len(t.args) == 2:
                return sub(self.at(t.args[1], add(k, ONE)),
                           self.at(t.args[1], k))
            if n in ("numpy.concatenate", "numpy.append", "numpy.hstack"):
                parts = t.args[1].args if n != "numpy.append" and \
                    t.args[1].op in ("list", "tuple", "arr") \
                    else t.args[1:3] if n == "numpy.append" else None
                if parts is None:
                    raise Unknown(t)
                o = 0
                for p in parts:
                    if p.op in ("list", "tuple", "arr"):
                        b = self.before(k, o + len(p.args))
                        if b is True:
                            return self.at(p.args[offset(k)[1] - o], k)
                        if b is None:
                            raise Unknown(t)
                        o += len(p.args)
                    else:
                        return self.at(p, sub(k, num(o)))
                raise Unknown(t)
            if n == "numpy.roll" and len(t.args) == 3 and isnum(t.args[2]):
                return self.at(t.args[1], sub(k, t.args[2]))
            if n in SAMEPOS or n in self.calls:
                return mk("call", t.args[0],
                          *[self.at(a, k) for a in t.args[1:]])
            raise Unknown(t)
        if op == "call" and t.args[0].op == "func":
            if t.args[0].val in self.calls:
                return mk("call", t.args[0], *[
                    mk("kw", self.at(a.args[0], k), val=a.val)
                    if a.op == "kw" else self.at(a, k)
                    for a in t.args[1:]])
            raise Unknown(t)
        if op in ("add", "mul", "pow", "fn", "max", "min", "phi", "lt0",
                  "le0", "eq0", "ne0", "and", "or", "not", "is", "cmp"):
            return rebuild(t, [self.at(a, k) for a in t.args])
        if op in ("arr", "list", "tuple") and isnum(k) and \
                0 <= int(k.val) < len(t.args):
            return t.args[int(k.val)]
        if op == "mcall" and t.val in self.calls:
            return mk("mcall", t.args[0], *[self.at(a, k)
                                            for a in t.args[1:]], val=t.val)
        if op == "eta":
            return self.at_loop(t, k)
        raise Unknown(t)

    def at_loop(self, t, j):
        """a loop that sets element k+c of an array in its k-th turn"""
        init, nxt, dom = t.args[:3]
        mu, k = TM.mk("sym", val=t.val[0]), sym("k", t.val[1])
        found = []

        def elem(x):
            if x is mu:
                return self.OLD
            if x.op == "phi":
                return phi(x.args[0], elem(x.args[1]), elem(x.args[2]))
            if x.op == "store" and x.args[0] is mu:
                d = sub(x.args[1], k)
                if isnum(d):
                    found.append(int(d.val))
                    return x.args[2]
            raise Unknown(t)
        e = elem(nxt)
        if len(set(found)) != 1:
            raise Unknown(t)
        c = found[0]
        w = self.before(j, c)
        if w is True:
            return self.at(init, j)
        if w is None:
            raise Unknown(t)
        old = mk("idx", mu, add(k, num(c)))
        e = rewrite(e, lambda x: self.OLD if x is old else None)
        if has(e, mu):
            raise Unknown(t)
        e = subst(e, {k: sub(j, num(c)), self.OLD: self.at(init, j)})
        return rewrite(e, lambda x: self.at(x.args[0], x.args[1])
                       if x.op == "idx" and len(x.args) == 2 and
                       not isstr(x.args[1]) and
                       x.args[1].op not in ("slice", "pos") and
                       not self.arrays(x.args[0]) and
                       self.isarray(x.args[0]) else None)

    OLD = sym("old", "element")

    def position(self, i, k):
        """position of the k-th element selected by index i"""
        if i.op == "nonzero":
            return pos(i.args[0], k)
        if i.op == "idx" and i.args[0].op == "nonzero":
            return pos(i.args[0].args[0], k)
        if i.op == "add" and any(self.isarray(x) for x in i.args):
            out = []
            for m, c in terms_of(i).items():
                if m is ONE:
                    out.append(num(c))
                else:
                    out.append(mul(num(c), self.position(m, k)
                                   if self.isarray(m) else m))
            return add(*out)
        return pos(i, k)

    def at_store(self, t, k):
        b, i, v = t.args
        if i.op == "slice":
            lo, hi, st = i.args
            if st is not NONE and st is not ONE or \
                    not (lo is NONE or isnum(lo) and lo.val >= 0):
                raise Unknown(t)
            lo = 0 if lo is NONE else int(lo.val)
            v_ = self.at(v, sub(k, num(lo)))
            w = self.before(k, lo)
            if w is None:
                return phi(lt(k, num(lo)), self.at(b, k), v_)
            if w:
                return self.at(b, k)
            if hi is NONE or isnum(hi) and hi.val < 0:
                # positions are taken well inside the arrays
                return v_
            if isnum(hi):
                s, c = offset(k)
                if s is ZERO:
                    return v_ if c < hi.val else self.at(b, k)
                if self.kmin + c >= hi.val:
                    return self.at(b, k)
            raise Unknown(t)
        if i.op == "ix":
            raise Unknown(t)
        if not self.isarray(i) and i.op != "nonzero":
            return phi(eq(k, i), v, self.at(b, k))
        # a list of positions made from a mask: nonzero(c) + d
        d = ZERO
        core = i
        if i.op == "add":
            parts = [(m, c) for m, c in terms_of(i).items()]
            arr = [m for m, c in parts if m is not ONE and c == 1 and
                   self.isarray(m)]
            if len(arr) != 1:
                raise Unknown(t)
            core = arr[0]
            d = sub(i, core)
        if core.op == "idx" and core.args[0].op == "nonzero":
            core = core.args[0]
        kd = sub(k, d)
        if core.op == "nonzero" and isnum(kd) and kd.val < 0:
            return self.at(b, k)
        if core.op == "nonzero" and not self.isarray(v):
            return phi(truth(self.at(core.args[0], sub(k, d))), v,
                       self.at(b, k))
        raise Unknown(t)


# --------------------------------------------------------------- ranges
class Val(object):
    __slots__ = ("lo", "hi", "nan")

    def __init__(self, lo, hi=None, nan=False):
        self.lo, self.hi = lo, lo if hi is None else hi
        self.nan = nan          # False never, None perhaps, True always

    def __repr__(self):
        return "[%g,%g]%s" % (self.lo, self.hi, {
            False: "", None: "?nan", True: "nan"}[self.nan])

    @property
    def exact(self):
        return self.lo == self.hi and self.nan is False


ANY = Val(-INF, INF, None)
REAL = Val(-INF, INF)
NAN = Val(0, 0, True)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a.nan is True and b.nan is True:
        return NAN
    if a.nan is True:
        return Val(b.lo, b.hi, None)
    if b.nan is True:
        return Val(a.lo, a.hi, None)
    return Val(min(a.lo, b.lo), max(a.hi, b.hi),
               None if a.nan is None or b.nan is None else False)


def nn(*vs):
    if any(v.nan is True for v in vs):
        return True
    return None if any(v.nan is None for v in vs) else False


def _m(a, b):
    return 0.0 if a == 0 or b == 0 else a * b


class Range(object):
    """known: function giving the range of an atom, or None"""

    def __init__(self, known):
        self.known = known
        self.memo = {}

    def val(self, t):
        if t not in self.memo:
            self.memo[t] = self._val(t)
        return self.memo[t]

    def _val(self, t):
        v = self.known(t)
        if v is not None:
            return v
        op = t.op
        if op == "num":
            return Val(float(t.val))
        if t is TM.PI:
            return Val(math.pi)
        if t is TM.E:
            return Val(math.e)
        if t is MAXSIZE:
            return Val(float(2 ** 63 - 1))
        if op == "const":
            k, c = t.val
            if k == "float" and c != c:
                return NAN
            if k == "bool":
                return Val(float(c))
            return ANY
        if op == "add":
            lo = hi = 0.0
            vs = []
            for m, c in terms_of(t).items():
                v = self.val(m)
                vs.append(v)
                c = float(c)
                a, b = _m(c, v.lo), _m(c, v.hi)
                lo += min(a, b)
                hi += max(a, b)
            n = nn(*vs)
            if n is True:
                return NAN
            if lo != lo or hi != hi:
                return ANY
            return Val(lo, hi, n)
        if op == "mul":
            c, f = split_mul(t)
            r = Val(float(c))
            for b, e in f.items():
                r = self.times(r, self.pow(self.val(b), self.val(e)))
            return r
        if op == "pow":
            return self.pow(self.val(t.args[0]), self.val(t.args[1]))
        if op in ("max", "min"):
            vs = [self.val(a) for a in t.args]
            g = max if op == "max" else min
            n = nn(*vs)
            return NAN if n is True else Val(g(v.lo for v in vs),
                                             g(v.hi for v in vs), n)
        if op == "phi":
            c = self.cond(t.args[0])
            if c is True:
                return self.val(t.args[1])
            if c is False:
                return self.val(t.args[2])
            return join(self.given(t.args[0], True).val(t.args[1]),
                        self.given(t.args[0], False).val(t.args[2]))
        if op == "fn":
            return self.fn(t)
        if isbool(t):
            c = self.cond(t)
            return Val(0, 1) if c is None else Val(float(c))
        return ANY

    def given(self, c, v):
        """ranges under the further assumption that c has truth value v"""
        facts = [(x, v) for x in (conjuncts(c) if v else
                                  (c.args if c.op == "or" else (c,)))]
        known = self.known
        known_c = dict(facts)

        r = Range(known)
        r.facts = dict(getattr(self, "facts", {}))
        r.facts.update(known_c)
        r.narrow = dict(getattr(self, "narrow", {}))
        for x, w in facts:
            if x.op == "call" and x.args[0].op == "ext" and \
                    x.args[0].val == "numpy.isnan":
                old = r.narrow.get(x.args[1], (-INF, INF, None))
                r.narrow[x.args[1]] = (old[0], old[1], w)
            if x.op in ("lt0", "le0", "eq0") and x.args[0].op != "num":
                d = dict(terms_of(x.args[0]))
                k = float(d.pop(ONE, 0))
                if len(d) == 1:
                    (m, co), = d.items()
                    co = float(co)
                    # co*m + k < 0
                    bound = -k / co
                    old = r.narrow.get(m, (-INF, INF, None))
                    # a false comparison says nothing about NaN
                    nan = False if w else old[2]
                    if x.op == "eq0":
                        if w:
                            r.narrow[m] = (bound, bound, False)
                    elif (co > 0) == w:
                        r.narrow[m] = (old[0], min(old[1], bound), nan)
                    else:
                        r.narrow[m] = (max(old[0], bound), old[1], nan)
        base = known

        def k2(t):
            v_ = base(t)
            n = r.narrow.get(t)
            if n is None:
                return v_
            if v_ is None:
                rr = Range(base)
                rr.facts = r.facts
                v_ = rr._val(t)
            if n[2] is True or v_.nan is True:
                return NAN
            lo, hi = max(v_.lo, n[0]), min(v_.hi, n[1])
            if lo > hi:
                return v_
            return Val(lo, hi, False if n[2] is False else v_.nan)
        r.known = k2
        return r

    def times(self, a, b):
        n = nn(a, b)
        if n is True:
            return NAN
        ps = [_m(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
        return Val(min(ps), max(ps), n)

    def pow(self, b, e):
        n = nn(b, e)
        if n is True:
            return NAN
        if not e.exact:
            if b.lo > 0 and all(abs(x) < INF for x in (e.lo, e.hi)):
                ps = [self._p(x, y) for x in (b.lo, b.hi)
                      for y in (e.lo, e.hi)]
                return Val(min(ps), max(ps), n)
            return ANY
        k = e.lo
        if k == int(k) and abs(k) < 64:
            k = int(k)
            if k < 0 and b.lo <= 0 <= b.hi:
                return Val(-INF, INF, n)
            ps = [self._p(b.lo, k), self._p(b.hi, k)]
            if k > 0 and k % 2 == 0 and b.lo < 0 < b.hi:
                ps.append(0.0)
            return Val(min(ps), max(ps), n)
        if b.lo >= 0:
            if k < 0 and b.lo == 0:
                return Val(self._p(b.hi, k) if b.hi < INF else 0.0, INF, n)
            ps = [self._p(b.lo, k), self._p(b.hi, k)]
            return Val(min(ps), max(ps), n)
        return ANY

    @staticmethod
    def _p(b, e):
        try:
            if b == INF or b == -INF:
                if e < 0:
                    return 0.0
                return INF if b > 0 or int(e) % 2 == 0 else -INF
            return float(b) ** e
        except (OverflowError, ZeroDivisionError):
            return INF

    def fn(self, t):
        n = t.val
        a = [self.val(x) for x in t.args]
        nan = nn(*a)
        if nan is True:
            return NAN
        x = a[0]
        if n == "abs":
            lo = 0.0 if x.lo <= 0 <= x.hi else min(abs(x.lo), abs(x.hi))
            return Val(lo, max(abs(x.lo), abs(x.hi)), nan)
        if n in ("bitand", "bitor") and len(a) == 2 and all(
                v.nan is False and v.lo >= 0 for v in a):
            if all(v.exact and v.lo == int(v.lo) and v.lo < 2 ** 53
                   for v in a):
                i, j = [int(v.lo) for v in a]
                return Val(float(i & j if n == "bitand" else i | j))
            if n == "bitand":
                return Val(0.0, min(v.hi for v in a))
        if n in ("floor", "ceil", "int", "round") and len(a) == 1:
            g = {"floor": math.floor, "ceil": math.ceil, "int": math.trunc,
                 "round": round}[n]

            def h(v):
                return v if abs(v) == INF else float(g(v))
            return Val(h(x.lo), h(x.hi), nan)
        if n == "round" and len(a) == 2 and a[1].exact:
            d = int(a[1].lo)
            return Val(x.lo if abs(x.lo) == INF else round(x.lo, d),
                       x.hi if abs(x.hi) == INF else round(x.hi, d), nan)
        if n in ("sin", "cos"):
            return Val(-1.0, 1.0, nan)
        if n in ("exp", "arctan", "tanh", "sinh"):
            g = {"exp": math.exp, "arctan": math.atan, "tanh": math.tanh,
                 "sinh": math.sinh}[n]

            def h(v):
                try:
                    return g(v)
                except OverflowError:
                    return INF
            return Val(h(x.lo), h(x.hi), nan)
        if n == "log" and x.lo > 0:
            return Val(math.log(x.lo), math.log(x.hi) if x.hi < INF else INF,
                       nan)
        if n == "arctan2":
            return Val(-math.pi, math.pi, nan)
        if n == "mod" and a[1].exact and a[1].lo > 0:
            m = a[1].lo
            if abs(x.lo) < INF and abs(x.hi) < INF and \
                    math.floor(x.lo / m) == math.floor(x.hi / m):
                q = math.floor(x.lo / m) * m
                return Val(x.lo - q, x.hi - q, nan)
            return Val(0.0, m, nan)
        if n == "floordiv" and a[1].exact and a[1].lo > 0:
            return Val(math.floor(x.lo / a[1].lo) if x.lo > -INF else -INF,
                       math.floor(x.hi / a[1].lo) if x.hi < INF else INF,
                       nan)
        if n == "sign":
            s = lambda v: (v > 0) - (v < 0)
            return Val(float(s(x.lo)), float(s(x.hi)), nan)
        return ANY

    def cond(self, t):
        """True / False / None"""
        f = getattr(self, "facts", {}).get(t)
        if f is not None:
            return f
        op = t.op
        if t is TRUE or t is FALSE:
            return t is TRUE
        if op in ("lt0", "le0", "eq0", "ne0"):
            v = self.val(t.args[0])
            if v.nan is True:
                return op == "ne0"
            if op == "lt0":
                if v.hi < 0 and v.nan is False:
                    return True
                return False if v.lo >= 0 else None
            if op == "le0":
                if v.hi <= 0 and v.nan is False:
                    return True
                return False if v.lo > 0 else None
            r = None
            if v.lo == v.hi == 0 and v.nan is False:
                r = True
            elif v.lo > 0 or v.hi < 0:
                r = False
            return r if op == "eq0" or r is None else not r
        if op == "not":
            r = self.cond(t.args[0])
            return None if r is None else not r
        if op in ("and", "or"):
            rs = [self.cond(a) for a in t.args]
            stop = op == "or"
            if stop in rs:
                return stop
            return None if None in rs else not stop
        if op == "phi":
            c = self.cond(t.args[0])
            if c is not None:
                return self.cond(t.args[1] if c else t.args[2])
            a, b = self.cond(t.args[1]), self.cond(t.args[2])
            return a if a == b else None
        if op == "call" and t.args[0].op == "ext":
            if t.args[0].val == "numpy.isnan":
                v = self.val(t.args[1])
                if v.nan is not None:
                    return v.nan
                return None
            if t.args[0].val in ("numpy.isinf",):
                v = self.val(t.args[1])
                if v.nan is True:
                    return False
                if v.lo > -INF and v.hi < INF:
                    return False
                return None
        v = self.known(t)
        if v is None and not isbool(t) and op not in ("call", "sym", "idx",
                                                     "attr"):
            v = self.val(t)
        if v is not None and v.nan is False:
            if v.exact:
                return v.lo != 0
            if v.lo > 0 or v.hi < 0:
                return True
        return None
