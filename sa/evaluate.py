"""Values of terms at small sizes.

Loops of the value-flow graph are iterated on their carried terms, so an array
filled in a loop is known element by element once its sizes are numbers.  Only
the graph is evaluated; anything outside it raises Unknown."""
import math
from fractions import Fraction
from .terms import *
from . import terms as TM
from .pointwise import Unknown

LIMIT = 20000


class Unset(object):
    """value that could not be found, and why"""

    def __init__(self, why):
        self.why = why


def whole(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


class Values(object):
    def __init__(self, ip, env):
        self.ip, self.env = ip, dict(env)
        self.loops = {L.uid: L for L in ip.loops}
        self.frames = []
        self.steps = 0

    def __call__(self, t):
        return self.ev(t)

    def ev(self, t):
        self.steps += 1
        if self.steps > LIMIT * 50:
            raise Unknown("too large")
        if t in self.env:
            return self.env[t]
        f = getattr(self, "op_" + t.op.strip("_"), None)
        if f is None:
            raise Unknown("%s" % t.op)
        return f(t)

    # -- constants and arithmetic
    def op_num(self, t):
        return whole(t.val)

    def op_const(self, t):
        return cval(t)

    def op_add(self, t):
        r = 0
        for x, c in terms_of(t).items():
            r = self.plus(r, self.times(c, 1 if x is ONE else self.ev(x)))
        return r

    def op_mul(self, t):
        c, fs = TM.split_mul(t)
        r = c
        for b, e in (fs.items() if isinstance(fs, dict) else fs):
            v = self.ev(b)
            n = self.ev(e) if hasattr(e, "op") else e
            if isinstance(v, (list, tuple)) or n != int(n):
                raise Unknown("power")
            if v == 0 and n < 0:
                raise Unknown("division by zero")
            r = r * Fraction(v) ** int(n)
        return whole(r)

    def plus(self, a, b):
        if isinstance(a, list) or isinstance(b, list):
            if isinstance(a, list) and isinstance(b, list):
                return [self.plus(x, y) for x, y in zip(a, b)]
            return [self.plus(x, b) for x in a] if isinstance(a, list) \
                else [self.plus(a, x) for x in b]
        return whole(Fraction(a) + Fraction(b))

    def times(self, c, v):
        if isinstance(v, list):
            return [self.times(c, x) for x in v]
        return whole(Fraction(c) * Fraction(v))

    def op_fn(self, t):
        a = [self.ev(x) for x in t.args]
        if len(a) == 1 and isinstance(a[0], list):
            raise Unknown("array")
        if t.val in ("int", "trunc"):
            return int(a[0])
        if t.val == "floor":
            return math.floor(a[0])
        if t.val == "ceil":
            return math.ceil(a[0])
        if t.val == "round":
            return round(a[0], int(a[1])) if len(a) > 1 else round(a[0])
        if t.val == "abs":
            return abs(a[0])
        if t.val in ("mod", "fmod") and a[1]:
            return whole(Fraction(a[0]) % Fraction(a[1]))
        if t.val == "ceildiv" and a[1]:
            return -((-a[0]) // a[1])
        if t.val == "floordiv" and a[1]:
            return math.floor(Fraction(a[0]) / Fraction(a[1]))
        raise Unknown("fn %s" % t.val)

    def op_max(self, t):
        return max(self.ev(x) for x in t.args)

    def op_min(self, t):
        return min(self.ev(x) for x in t.args)

    # -- conditions
    def op_lt0(self, t):
        return self.ev(t.args[0]) < 0

    def op_le0(self, t):
        return self.ev(t.args[0]) <= 0

    def op_eq0(self, t):
        return self.ev(t.args[0]) == 0

    def op_ne0(self, t):
        return self.ev(t.args[0]) != 0

    def op_and(self, t):
        return all(self.ev(x) for x in t.args if x.op != "iter")

    def op_or(self, t):
        return any(self.ev(x) for x in t.args)

    def op_not(self, t):
        return not self.ev(t.args[0])

    def op_truth(self, t):
        return bool(self.ev(t.args[0]))

    def op_iter(self, t):
        return True

    def op_phi(self, t):
        return self.ev(t.args[1] if self.ev(t.args[0]) else t.args[2])

    # -- arrays
    def op_list(self, t):
        return [self.ev(x) for x in t.args]

    op_tuple = op_list

    def op_full(self, t):
        s = self.ev(t.args[0])
        v = 0 if t.args[1].op == "sym" else self.ev(t.args[1])
        s = s if isinstance(s, list) else [s]
        if any(x < 0 or x != int(x) for x in s) or \
                len(s) > 3 or math.prod(s) > LIMIT:
            raise Unknown("shape")

        def build(d):
            return v if d == len(s) else [build(d + 1)
                                          for _ in range(int(s[d]))]
        return build(0)

    def index(self, t):
        if t.op == "slice":
            return slice(*[None if x is NONE else self.ev(x)
                           for x in t.args])
        return self.ev(t)

    def path(self, i):
        return [self.index(x) for x in i.args] if i.op == "ix" \
            else [self.index(i)]

    def op_store(self, t):
        b = self.ev(t.args[0])
        v = self.ev(t.args[2])

        def put(b, p):
            if not p:
                return v
            if not isinstance(b, list) or not isinstance(p[0], int):
                raise Unknown("store")
            b = list(b)
            if not -len(b) <= p[0] < len(b):
                raise IndexError(p[0])
            b[p[0]] = put(b[p[0]], p[1:])
            return b
        return put(b, self.path(t.args[1]))

    def op_idx(self, t):
        b = self.ev(t.args[0])
        for i in t.args[1:]:
            for p in self.path(i):
                if isinstance(p, slice):
                    if len(t.args) > 2 or i.op == "ix":
                        raise Unknown("slice")
                    b = b[p]
                elif isinstance(p, int):
                    b = b[p]
                else:
                    raise Unknown("index")
        return b

    def op_len(self, t):
        return len(self.ev(t.args[0]))

    def op_append(self, t):
        return self.ev(t.args[0]) + [self.ev(t.args[1])]

    def op_concat(self, t):
        r = []
        for x in t.args:
            r = r + self.ev(x)
        return r

    def op_attr(self, t):
        if t.val == "size":
            return len(self.ev(t.args[0]))
        if t.val == "shape":
            b = self.ev(t.args[0])
            s = []
            while isinstance(b, list):
                s.append(len(b))
                if not b:
                    break
                b = b[0]
            return s
        raise Unknown("attr %s" % t.val)

    # -- loops
    def op_comp(self, t):
        k = sym("k", t.val[1])
        n = self.ev(t.args[0])
        keep = self.env.get(k)
        out = []
        for i in range(n):
            self.env[k] = i
            if self.ev(t.args[1]):
                out.append(self.ev(t.args[-1]))
        self.env.pop(k, None)
        if keep is not None:
            self.env[k] = keep
        return out

    def op_mu(self, t):
        for fr in reversed(self.frames):
            if t in fr:
                if isinstance(fr[t], Unset):
                    raise Unknown(fr[t].why)
                return fr[t]
        raise Unknown("mu")

    def op_sym(self, t):
        if isinstance(t.val, tuple) and t.val and t.val[0] == "mu":
            return self.op_mu(t)
        raise Unknown("symbol %s" % show(t))

    def op_eta(self, t):
        mu = t.val[0]
        L = self.loops.get(mu[1])
        if L is None or L.breaks:
            raise Unknown("loop")
        fr = {}
        want = None
        for lab, (m, init, nxt) in L.carried.items():
            if m.val == mu:
                want = m
        if want is None:
            raise Unknown("loop")
        dep = self.needed(L, want)
        dom = t.args[-1]
        n = self.ev(dom.args[0]) if dom.op == "dom" else None
        if n is None or n > LIMIT:
            raise Unknown("domain")
        for lab, (m, init, nxt) in L.carried.items():
            if m in dep:
                fr[m] = self.attempt(t.args[0] if m is want else init)
        keep = self.env.get(L.k)
        self.frames.append(fr)
        try:
            for i in range(int(n)):
                self.env[L.k] = i
                new = {m: self.attempt(nxt) for lab, (m, init, nxt)
                       in L.carried.items() if m in dep}
                fr.update(new)
        finally:
            self.frames.pop()
            self.env.pop(L.k, None)
            if keep is not None:
                self.env[L.k] = keep
        if isinstance(fr[want], Unset):
            raise Unknown(fr[want].why)
        return fr[want]

    def op_last(self, t):
        dom, nxt, init = t.args
        n = self.ev(dom.args[0]) if dom.op == "dom" else None
        if n is None:
            raise Unknown("domain")
        if n <= 0:
            return self.ev(init)
        k = sym("k", t.val)
        keep = self.env.get(k)
        self.env[k] = int(n) - 1
        try:
            return self.ev(nxt)
        finally:
            self.env.pop(k, None)
            if keep is not None:
                self.env[k] = keep

    def attempt(self, t):
        try:
            return self.ev(t)
        except Unknown as ex:
            return Unset(str(ex))

    def needed(self, L, want):
        """carried values that a carried value depends on"""
        by = {m: nxt for lab, (m, init, nxt) in L.carried.items()}
        out, todo = set(), [want]
        while todo:
            m = todo.pop()
            if m in out:
                continue
            out.add(m)
            todo.extend(x for x in walk(by[m]) if x in by)
            # values carried by inner loops start from this one's
            for x in walk(by[m]):
                if x.op == "eta":
                    J = self.loops.get(x.val[0][1])
                    for lab, (a, init, nxt) in (J.carried.items()
                                                if J else ()):
                        todo.extend(y for y in walk(init) if y in by)
                        todo.extend(y for y in walk(nxt) if y in by)
        return out
