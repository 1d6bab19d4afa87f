"""Hash-consed terms with a normal form.

A term stands for the value a piece of source code computes. Two terms are
the same Python object exactly when their normal forms are equal, so
equality of values that the normal form can see is `is`.

Conventions
    num(v)              exact rational constant
    const(v)            any other constant (str, bool, None, bytes, ...)
    sym(kind, ...)      atom
    add / mul           polynomial normal form, exponents may be terms
    fn(name, args)      elementary function
    lt0(p), le0(p), eq0(p), ne0(p)   comparison of p with zero
    cmp(op, a, b)       comparison that is not treated as arithmetic
    and_/or_/not_       boolean normal form (negation pushed to atoms)
    phi(c, a, b)        value a where c holds, else b (branches, np.where,
                        masked stores)
"""
from fractions import Fraction
import math

_table = {}


class T(object):
    __slots__ = ("op", "args", "val", "key", "size", "_fv")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.key < other.key


_counter = [0]


def mk(op, *args, val=None):
    k = (op, val, tuple(id(a) for a in args))
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.val = val
        _counter[0] += 1
        t.key = _counter[0]
        t.size = 1 + sum(a.size for a in args)
        t._fv = None
        _table[k] = t
    return t


# ---------------------------------------------------------------- constants
def num(v):
    if isinstance(v, T):
        return v
    if isinstance(v, float):
        if v != v:
            return mk("sym", val="nan")
        if v in (float("inf"), float("-inf")):
            i = mk("sym", val="inf")
            return i if v > 0 else neg(i)
        v = Fraction(repr(v))
    return mk("num", val=Fraction(v))


def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return mk("const", val=(type(v).__name__, v))
    if isinstance(v, (int, float, Fraction)):
        return num(v)
    if isinstance(v, complex):
        return add(num(v.real), mul(num(v.imag), I))
    if v is Ellipsis:
        return mk("const", val=("ellipsis", "..."))
    return mk("const", val=(type(v).__name__, repr(v)))


def sym(*parts):
    return mk("sym", val=parts if len(parts) > 1 else parts[0])


ZERO = num(0)
ONE = num(1)
NEG1 = num(-1)
HALF = num(Fraction(1, 2))
TRUE = const(True)
FALSE = const(False)
NONE = const(None)
PI = sym("pi")
E = sym("E")
I = sym("I")


def isnum(t):
    return t.op == "num"


def isconst(t):
    return t.op in ("num", "const")


def cval(t):
    """Python value of a constant term (num -> Fraction)."""
    if t.op == "num":
        return t.val
    if t.op == "const":
        return t.val[1]
    raise ValueError(t)


def isstr(t):
    return t.op == "const" and t.val[0] == "str"


def strval(t):
    return t.val[1] if isstr(t) else None


# ---------------------------------------------------------------- arithmetic
def unfull(t):
    """np.ones(shape) and friends act as their fill value in arithmetic."""
    while t.op == "full":
        t = t.args[1]
    return t


def terms_of(t):
    """t as {monomial: coefficient}; the monomial ONE carries constants."""
    if t.op == "num":
        return {ONE: t.val} if t.val else {}
    if t.op == "add":
        return dict(zip(t.args, t.val))
    if t.op == "mul" and t.val is not None:
        return {_mulnode(t.args): t.val}
    return {t: Fraction(1)}


def _mulnode(pairs):
    # pairs: flat (b1, e1, b2, e2, ...) already sorted, coefficient 1
    if len(pairs) == 2 and pairs[1] is ONE:
        return pairs[0]
    return mk("mul", *pairs, val=Fraction(1))


def from_terms(d):
    items = [(m, c) for m, c in d.items() if c]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m is ONE:
            return num(c)
        if c == 1:
            return m
        if m.op == "mul":
            return mk("mul", *m.args, val=m.val * c)
        return mk("mul", m, ONE, val=c)
    items.sort(key=lambda mc: mc[0].key)
    return mk("add", *[m for m, _ in items], val=tuple(c for _, c in items))


def add(*ts):
    d = {}
    for t in ts:
        t = unfull(t)
        for m, c in terms_of(t).items():
            d[m] = d.get(m, 0) + c
    return from_terms(d)


def neg(t):
    return scale(t, Fraction(-1))


def scale(t, c):
    t = unfull(t)
    return from_terms({m: k * c for m, k in terms_of(t).items()})


def sub(a, b):
    return add(a, neg(b))


def split_mul(t):
    """t as (coefficient, {base: exponent term})."""
    if t.op == "num":
        return t.val, {}
    if t.op == "mul":
        return t.val, {t.args[i]: t.args[i + 1]
                       for i in range(0, len(t.args), 2)}
    return Fraction(1), {t: ONE}


EXPAND_LIMIT = 300


def _iroot(fr, n):
    def r(v):
        x = round(v ** (1.0 / n))
        for y in (x - 1, x, x + 1):
            if y >= 0 and y ** n == v:
                return y
        return None
    if fr < 0:
        return None
    a, b = r(fr.numerator), r(fr.denominator)
    if a is None or b is None:
        return None
    return Fraction(a, b)


def lead_negative(t):
    """Canonical sign test: is the leading coefficient negative?"""
    if t.op == "num":
        return t.val < 0
    if t.op == "mul":
        return t.val < 0
    if t.op == "add":
        # leading = the non-constant monomial with the smallest key
        for m, c in zip(t.args, t.val):
            if m is not ONE:
                return c < 0
        return t.val[0] < 0
    return False


def content(t):
    """Positive rational factored out of an add, so that the leading
    non-constant coefficient becomes +-1."""
    if t.op == "add":
        for m, c in zip(t.args, t.val):
            if m is not ONE:
                return abs(c)
    return Fraction(1)


def power(b, e):
    b, e = unfull(b), unfull(e)
    if e is ZERO:
        return ONE
    if e is ONE:
        return b
    if b is ONE:
        return ONE
    if b is I and e.op == "num" and e.val.denominator == 1:
        k = int(e.val) % 4
        return (ONE, I, NEG1, neg(I))[k]
    if e.op == "num":
        ev = e.val
        if b.op == "num":
            if ev.denominator == 1 and abs(ev) <= 64:
                if b.val == 0 and ev < 0:
                    return mk("mul", b, e, val=Fraction(1))
                return num(b.val ** int(ev))
            if b.val > 0:
                r = _iroot(b.val, ev.denominator)
                if r is not None:
                    return num(r ** ev.numerator)
            return mk("mul", b, e, val=Fraction(1))
        if b.op == "mul":
            c, f = split_mul(b)
            if ev.denominator == 1:
                out = num(c ** int(ev)) if c else ZERO
                for bb, ee in f.items():
                    out = mul(out, power(bb, mul(ee, e)))
                return out
            # non-integer power of a product: pull out positive constants
            if len(f) == 1 and abs(c) == 1 and c > 0:
                (bb, ee), = f.items()
                if ee.op == "num":
                    if ee.val.denominator == 1 and ee.val % 2 == 0:
                        return power(absf(bb), mul(ee, e))
                    return power(bb, mul(ee, e))
                if bb is E:
                    return power(E, mul(ee, e))
            if c > 0 and c != 1:
                return mul(power(num(c), e),
                           power(from_terms({_mulnode(b.args): Fraction(1)}), e))
            return mk("mul", b, e, val=Fraction(1))
        if b.op == "add":
            c = content(b)
            if c != 1:
                inner = scale(b, 1 / c)
                return mul(power(num(c), e), power(inner, e))
            if ev.denominator == 1:
                n = int(ev)
                if n < 0 and lead_negative(b):
                    return mul(num(Fraction(-1) ** n), power(neg(b), e))
                if 1 < n <= 4 and len(b.args) ** n <= EXPAND_LIMIT:
                    out = b
                    for _ in range(n - 1):
                        out = mul(out, b)
                    return out
            return mk("mul", b, e, val=Fraction(1))
        if b.op == "fn" and b.val == "abs" and ev.denominator == 1 \
                and ev % 2 == 0:
            return power(b.args[0], e)
        if b.op == "fn" and b.val == "sign" and ev.denominator == 1:
            return ONE if ev % 2 == 0 else b
        return mk("mul", b, e, val=Fraction(1))
    # symbolic exponent
    if b.op == "mul":
        c, f = split_mul(b)
        if c == 1 and len(f) == 1:
            (bb, ee), = f.items()
            return power(bb, mul(ee, e))
    if b.op == "num" and b.val == 0:
        return ZERO
    return mk("mul", b, e, val=Fraction(1))


def _mul2(a, b):
    a, b = unfull(a), unfull(b)
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a.op == "num":
        return scale(b, a.val)
    if b.op == "num":
        return scale(a, b.val)
    if a.op == "add" or b.op == "add":
        na = len(a.args) if a.op == "add" else 1
        nb = len(b.args) if b.op == "add" else 1
        # (p)^-1 * p cancels before expansion
        if a.op == "add" and b.op == "mul":
            c, f = split_mul(b)
            r = _cancel(a, c, f)
            if r is not None:
                return r
        if b.op == "add" and a.op == "mul":
            c, f = split_mul(a)
            r = _cancel(b, c, f)
            if r is not None:
                return r
        if na * nb <= EXPAND_LIMIT:
            d = {}
            for ma, ca in terms_of(a).items():
                for mb, cb in terms_of(b).items():
                    p = _mulmono(ma, mb)
                    for m, c in terms_of(p).items():
                        d[m] = d.get(m, 0) + c * ca * cb
            return from_terms(d)
    return _mulmono(a, b)


def _cancel(p, c, f):
    """p * (c * prod f) where f holds a power of p (up to content/sign)."""
    k = content(p)
    q = scale(p, 1 / k)
    s = Fraction(1)
    if q not in f and lead_negative(q):
        q2 = neg(q)
        if q2 in f:
            q, s = q2, Fraction(-1)
    if q in f:
        g = dict(f)
        e = add(g.pop(q), ONE)
        out = num(c * k * s)
        for bb, ee in g.items():
            out = _mul2(out, power(bb, ee))
        if e is not ZERO:
            out = _mul2(out, power(q, e))
        return out
    return None


def _mulmono(a, b):
    """product of two non-sum terms (or sums kept as factors)"""
    ca, fa = split_mul(a)
    cb, fb = split_mul(b)
    c = ca * cb
    f = dict(fa)
    redo = None
    for bb, ee in fb.items():
        if bb in f:
            e = add(f[bb], ee)
            if e is ZERO:
                del f[bb]
            else:
                f[bb] = e
                p = power(bb, e)
                if p.op != "mul" or bb not in split_mul(p)[1]:
                    redo = True
        else:
            f[bb] = ee
    if redo:
        out = num(c)
        for bb, ee in f.items():
            p = power(bb, ee)
            if p.op == "mul":
                c2, f2 = split_mul(p)
                if len(f2) == 1 and bb in f2:
                    out = _rawmul(out, p)
                    continue
            out = _mul2(out, p)
        return out
    # sign(x)*abs(x) -> x
    for bb in list(f):
        if bb.op == "fn" and bb.val == "sign" and f[bb] is ONE:
            ab = mk("fn", bb.args[0], val="abs")
            if ab in f and f[ab] is ONE:
                del f[bb], f[ab]
                rest = _build(c, f)
                return _mul2(rest, bb.args[0])
    return _build(c, f)


def _rawmul(a, b):
    ca, fa = split_mul(a)
    cb, fb = split_mul(b)
    f = dict(fa)
    for k, v in fb.items():
        f[k] = add(f[k], v) if k in f else v
    return _build(ca * cb, {k: v for k, v in f.items() if v is not ZERO})


def _build(c, f):
    if not c:
        return ZERO
    if not f:
        return num(c)
    items = sorted(f.items(), key=lambda be: be[0].key)
    if c == 1 and len(items) == 1 and items[0][1] is ONE:
        return items[0][0]
    flat = []
    for bb, ee in items:
        flat += [bb, ee]
    return mk("mul", *flat, val=c)


def mul(*ts):
    out = ONE
    for t in ts:
        out = _mul2(out, t)
    return out


def div(a, b):
    return mul(a, power(b, NEG1))


# ---------------------------------------------------------------- functions
def absf(t):
    t = unfull(t)
    if t.op == "num":
        return num(abs(t.val))
    if t.op == "mul":
        c, f = split_mul(t)
        out = num(abs(c))
        for bb, ee in f.items():
            if ee.op == "num" and ee.val.denominator == 1:
                if ee.val % 2 == 0:
                    out = mul(out, power(bb, ee))
                else:
                    out = mul(out, power(_abs1(bb), ee))
            elif ee.op == "num" and ee.val.denominator == 2:
                out = mul(out, power(bb, ee))       # square roots are >= 0
            elif bb is E:
                out = mul(out, power(bb, ee))
            else:
                out = mul(out, mk("fn", power(bb, ee), val="abs"))
        return out
    if t.op == "add":
        c = content(t)
        q = scale(t, 1 / c)
        if lead_negative(q):
            q = neg(q)
        return scale(mk("fn", q, val="abs"), c)
    return _abs1(t)


def _abs1(t):
    if t.op == "fn" and t.val in ("abs",):
        return t
    if t.op == "fn" and t.val == "sign":
        return ONE
    if t in (PI, E):
        return t
    if t.op == "num":
        return num(abs(t.val))
    if t.op == "add":
        return absf(t) if (content(t) != 1 or lead_negative(t)) \
            else mk("fn", t, val="abs")
    return mk("fn", t, val="abs")


def signf(t):
    t = unfull(t)
    if t.op == "num":
        return num((t.val > 0) - (t.val < 0))
    if t.op == "mul":
        c, f = split_mul(t)
        out = num(1 if c > 0 else -1)
        for bb, ee in f.items():
            if ee.op == "num" and ee.val.denominator == 1:
                if ee.val % 2 and bb not in (PI, E):
                    out = mul(out, mk("fn", bb, val="sign")
                              if bb.op != "fn" or bb.val not in ("sign",)
                              else bb)
            elif ee.op == "num" and ee.val.denominator == 2 or bb is E:
                pass
            else:
                return mk("fn", t, val="sign")
        return out
    if t.op == "fn" and t.val == "sign":
        return t
    if t in (PI, E):
        return ONE
    if t.op == "add":
        q = scale(t, 1 / content(t))
        if lead_negative(q):
            return neg(mk("fn", neg(q), val="sign"))
        return mk("fn", q, val="sign")
    return mk("fn", t, val="sign")


# angles are compared up to whole turns unless a rule needs their range
WHOLE_TURNS = [True]


def turned(x, degrees):
    """angle with the second argument of arctan2 made positive, which is
    the same angle up to whole turns"""
    out = []
    for m, c in terms_of(x).items():
        k, fs = split_mul(m)
        at = [b for b in fs if b.op == "fn" and b.val == "arctan2"]
        u = c * k / 180 if degrees else c * k
        rest = {b: e for b, e in fs.items() if b not in at}
        if len(at) == 1 and fs[at[0]] == 1 and u == int(u) and \
                rest == ({PI: -1} if degrees else {}) and \
                lead_negative(at[0].args[1]):
            y, z = at[0].args
            b = scale(fn("arctan2", y, neg(z)), -c * k)
            out += [mul(b, power(PI, NEG1)), num(c * k)] if degrees else \
                [b, scale(PI, c * k)]
        else:
            out.append(scale(m, c))
    return add(*out) if out else x


def _trig(name, x):
    x = turned(unfull(x), False)
    d = terms_of(x)
    k = d.get(PI, Fraction(0))
    # reduce k*pi to [0, 1/2)
    n = math.floor(k * 2)
    if n:
        rest = from_terms({**{m: c for m, c in d.items() if m is not PI},
                           PI: k - Fraction(n, 2)})
    else:
        rest = x
    n %= 4
    s = 1
    if name == "sin":
        name, s = {0: ("sin", 1), 1: ("cos", 1), 2: ("sin", -1),
                   3: ("cos", -1)}[n]
    else:
        name, s = {0: ("cos", 1), 1: ("sin", -1), 2: ("cos", -1),
                   3: ("sin", 1)}[n]
    if rest is ZERO:
        return num(s) if name == "cos" else ZERO
    # sign: leading non-pi coefficient
    lead = None
    dd = terms_of(rest)
    for m in sorted(dd, key=lambda m: m.key):
        if m is not ONE and m is not PI:
            lead = dd[m]
            break
    if lead is not None and lead < 0:
        rest2 = neg(rest)
        if dd.get(PI, 0):
            # -rest has pi part -k; normalise again
            if name == "sin":
                return scale(_trig("sin", rest2), Fraction(-s))
            return scale(_trig("cos", rest2), Fraction(s))
        rest = rest2
        if name == "sin":
            s = -s
    r = mk("fn", rest, val=name)
    return r if s == 1 else neg(r)


def fn(name, *args):
    args = tuple(unfull(a) for a in args)
    a = args[0] if args else None
    if name == "exp":
        return power(E, a)
    if name == "sqrt":
        return power(a, HALF)
    if name == "abs":
        return absf(a)
    if name == "sign":
        return signf(a)
    if name in ("sin", "cos"):
        return _trig(name, a)
    if name == "tan":
        return div(_trig("sin", a), _trig("cos", a))
    if name == "arctan2":
        y, x = args
        if WHOLE_TURNS[0] and lead_negative(x):
            return sub(PI, fn("arctan2", y, neg(x)))
        if lead_negative(y):
            return neg(fn("arctan2", neg(y), x))
        c = content(x) if x.op == "add" else (
            abs(split_mul(x)[0]) if x.op in ("mul", "num") else 1)
        if c and c != 1:
            y, x = scale(y, Fraction(1) / c), scale(x, Fraction(1) / c)
        return mk("fn", y, x, val=name)
    if name == "arctan" and a is ONE:
        return scale(PI, Fraction(1, 4))
    if name == "log":
        if a is E:
            return ONE
        if a is ONE:
            return ZERO
    if name == "mod":
        if args[1].op == "num" and args[1].val == 360 or \
                args[1] is scale(PI, Fraction(2)):
            args = (turned(args[0], args[1].op == "num"), args[1])
        if isnum(args[0]) and isnum(args[1]) and args[1].val:
            return num(args[0].val % args[1].val)
    if name in ("floor", "int", "ceil", "round", "floordiv"):
        if all(isnum(x) for x in args):
            v = args[0].val
            if name == "floordiv":
                if args[1].val:
                    return num(v // args[1].val)
            elif len(args) == 1:
                return num({"floor": math.floor, "ceil": math.ceil,
                            "round": round, "int": int}[name](v))
        if name in ("floor", "int", "ceil", "round") and len(args) == 1 and \
                a.op == "fn" and a.val in ("floor", "int", "ceil"):
            return a
    if name in ("real", "imag"):
        # split complex monomials linearly
        d = terms_of(a)
        if a.op == "add" and len(d) > 1:
            return add(*[scale(fn(name, m), c) for m, c in d.items()])
        c, f = split_mul(a)
        if c != 1:
            return scale(fn(name, _build(Fraction(1), f)), c)
        return mk("fn", a, val=name)
    if name in ("max", "min"):
        return maxmin(name, args)
    return mk("fn", *args, val=name)


def maxmin(name, args):
    flat = []
    for a in args:
        if a.op == name:
            flat += a.args
        else:
            flat.append(a)
    nums = [a for a in flat if isnum(a)]
    rest = {a for a in flat if not isnum(a)}
    if nums:
        v = (max if name == "max" else min)(n.val for n in nums)
        rest.add(num(v))
    rest = sorted(rest, key=lambda t: t.key)
    if len(rest) == 1:
        return rest[0]
    return mk(name, *rest)


# ---------------------------------------------------------------- booleans
BOOLOPS = {"lt0", "le0", "eq0", "ne0", "cmp", "and", "or", "not", "truth"}


def isbool(t):
    if t.op in BOOLOPS:
        return True
    if t.op == "const" and t.val[0] == "bool":
        return True
    if t.op == "phi":
        return isbool(t.args[1]) and isbool(t.args[2])
    if t.op == "idx":
        return isbool(t.args[0])
    if t.op == "call" and t.args and t.args[0].op == "ext":
        return t.args[0].val in BOOLCALLS
    return False


BOOLCALLS = {"numpy.isnan", "numpy.isfinite", "numpy.isinf", "isinstance",
             "numpy.all", "numpy.any", "all", "any", "hasattr", "callable",
             "os.path.exists", "os.path.isfile", "os.path.isdir",
             "numpy.isclose", "numpy.in1d", "numpy.isin"}


def _scaled(p):
    """positive scaling to a canonical representative"""
    p = unfull(p)
    if p.op == "add":
        c = content(p)
        return scale(p, 1 / c)
    if p.op == "mul":
        c, f = split_mul(p)
        if PI in f or E in f:
            p = _build(c, {b: e for b, e in f.items() if b not in (PI, E)})
            if p.op != "mul":
                return p if not isnum(p) or not p.val else \
                    num(1 if p.val > 0 else -1)
        return scale(p, 1 / abs(p.val))
    return p


LOWER = {}          # integer-valued symbols with a known lower bound


def _integer_bound(p, strict):
    """p < 0 (p <= 0) for p = +-x + c with x an integer symbol >= LOWER[x]"""
    d = dict(terms_of(p))
    c = d.pop(ONE, Fraction(0))
    if len(d) != 1:
        return None
    (x, k), = d.items()
    if x not in LOWER or abs(k) != 1 or c.denominator != 1:
        return None
    lo = LOWER[x]
    if k == 1:
        # x < -c  /  x <= -c
        top = -c - 1 if strict else -c
        if top < lo:
            return FALSE
        if top == lo:
            return eq(x, num(lo))
    else:
        # x > c / x >= c
        bot = c + 1 if strict else c
        if bot <= lo:
            return TRUE
        if bot == lo + 1:
            return not_(eq(x, num(lo)))
    return None


def lt(a, b):
    p = _scaled(sub(a, b))
    if isnum(p):
        return TRUE if p.val < 0 else FALSE
    if LOWER:
        r = _integer_bound(p, True)
        if r is not None:
            return r
    return mk("lt0", p)


def le(a, b):
    p = _scaled(sub(a, b))
    if isnum(p):
        return TRUE if p.val <= 0 else FALSE
    if LOWER:
        r = _integer_bound(p, False)
        if r is not None:
            return r
    return mk("le0", p)


def _arith(t):
    t = unfull(t)
    return not (t.op == "const" or t.op in
                ("list", "tuple", "dict", "set", "fmt", "path", "func",
                 "cls", "ext", "closure", "bound", "mod"))


def eq(a, b):
    a, b = unfull(a), unfull(b)
    if a is b:
        return TRUE
    if isconst(a) and isconst(b):
        return FALSE
    if a.op in ("list", "tuple") and b.op == a.op and \
            len(a.args) != len(b.args):
        return FALSE
    if a.op == "const" and a.val[0] == "bool" and isbool(b):
        return b if a is TRUE else not_(b)
    if b.op == "const" and b.val[0] == "bool" and isbool(a):
        return a if b is TRUE else not_(a)
    if _arith(a) and _arith(b):
        p = _scaled(sub(a, b))
        if isnum(p):
            return TRUE if p.val == 0 else FALSE
        if lead_negative(p):
            p = neg(p)
        return mk("eq0", p)
    if a.op == "cls" and b.op == "cls":
        return FALSE
    x, y = sorted((a, b), key=lambda t: t.key)
    return mk("cmp", x, y, val="==")


NONNULL = {"num", "list", "tuple", "dict", "set", "func", "cls", "new",
           "closure", "bound", "mod", "fmt", "path", "add", "mul", "fn",
           "full", "comp"}


def is_(a, b):
    if a is b:
        return TRUE
    if isconst(a) and isconst(b):
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x is NONE and y.op in NONNULL:
            return FALSE
        if y is NONE and x.op == "phi":
            return phi(x.args[0], is_(x.args[1], NONE), is_(x.args[2], NONE))
    x, y = sorted((a, b), key=lambda t: t.key)
    return mk("cmp", x, y, val="is")


def in_(a, b):
    if b.op in ("list", "tuple", "set") and len(b.args) <= 12 and \
            not any(x.op == "star" for x in b.args):
        return or_(*[eq(a, x) for x in b.args])
    if b.op == "dict" and isconst(a) and all(isconst(k) for k in b.args[::2]):
        return TRUE if a in b.args[::2] else FALSE
    if isstr(a) and isstr(b):
        return TRUE if strval(a) in strval(b) else FALSE
    if b.op == "mcall" and b.val == "keys" and len(b.args) == 1:
        b = b.args[0]
    if b.op == "call" and b.args[0].op == "ext" and \
            b.args[0].val in ("list", "set", "tuple") and len(b.args) == 2:
        return in_(a, b.args[1])
    return mk("cmp", a, b, val="in")


def not_(t):
    t = unfull(t)
    if t.op == "const":
        v = t.val[1]
        if t.val[0] in ("bool", "NoneType", "str", "bytes"):
            return TRUE if not v else FALSE
    if t.op == "num":
        return TRUE if t.val == 0 else FALSE
    if t.op == "lt0":
        return le(neg(t.args[0]), ZERO) if LOWER else \
            mk("le0", neg(t.args[0]))
    if t.op == "le0":
        return lt(neg(t.args[0]), ZERO) if LOWER else \
            mk("lt0", neg(t.args[0]))
    if t.op == "eq0":
        return mk("ne0", t.args[0])
    if t.op == "ne0":
        return mk("eq0", t.args[0])
    if t.op == "and":
        return or_(*[not_(a) for a in t.args])
    if t.op == "or":
        return and_(*[not_(a) for a in t.args])
    if t.op == "not":
        return t.args[0]
    if t.op == "phi" and isbool(t):
        return phi(t.args[0], not_(t.args[1]), not_(t.args[2]))
    if t.op in ("list", "tuple", "dict", "set"):
        return TRUE if not t.args else FALSE
    if t.op in ("new", "func", "cls", "closure", "bound", "mod"):
        return FALSE
    return mk("not", t)


def truth(t):
    """bool(t) as a condition"""
    t = unfull(t)
    if t.op == "not":
        return t
    if t.op == "const" or t.op == "num":
        return not_(not_(t))
    if t.op in ("list", "tuple", "dict", "set"):
        return TRUE if t.args else FALSE
    if t.op in ("new", "func", "cls", "closure", "bound", "mod"):
        return TRUE
    if t.op == "phi":
        return phi(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].val == "bool" \
            and len(t.args) == 2:
        return truth(t.args[1])
    if t.op == "len":
        return mk("ne0", t)
    return t


def _nary(op, ts):
    unit, zero = (TRUE, FALSE) if op == "and" else (FALSE, TRUE)
    out = []
    seen = set()

    def put(t):
        if t.op == op:
            for a in t.args:
                if put(a) is zero:
                    return zero
            return None
        if t is unit:
            return None
        if t is zero:
            return zero
        if t in seen:
            return None
        seen.add(t)
        out.append(t)
        return None

    for t in ts:
        t = unfull(t)
        if put(t) is zero:
            return zero
    # complements and absorption
    changed = True
    while changed:
        changed = False
        s = set(out)
        for t in out:
            if not_(t) in s:
                return zero
        other = "or" if op == "and" else "and"
        new = []
        for t in out:
            if t.op == other:
                parts = [x for x in t.args if not_(x) not in s]
                if any(x in s for x in t.args):
                    changed = True
                    continue            # absorbed
                if len(parts) != len(t.args):
                    changed = True
                    r = _nary(other, parts)
                    if r is zero:
                        return zero
                    if r is unit:
                        continue
                    if r.op == op:
                        new += r.args
                    else:
                        new.append(r)
                    continue
            new.append(t)
        out = []
        for t in new:
            if t not in out:
                out.append(t)
        # resolution: (a|x)&(a|~x) -> a   (dual for or)
        if not changed:
            oth = [t for t in out if t.op == other]
            for i in range(len(oth)):
                for j in range(i + 1, len(oth)):
                    A, B = set(oth[i].args), set(oth[j].args)
                    da, db = A - B, B - A
                    if len(da) == 1 and len(db) == 1 and \
                            not_(next(iter(da))) is next(iter(db)):
                        r = _nary(other, list(A & B)) if A & B else None
                        if r is not None:
                            out = [t for t in out
                                   if t is not oth[i] and t is not oth[j]]
                            out.append(r)
                            changed = True
                            break
                if changed:
                    break
    # bounds on the same quantity
    out = _bounds(op, out)
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.key)
    return mk(op, *out)


def _bounds(op, out):
    """drop p<c when p<c' with c' tighter is present (and dually)"""
    groups = {}
    for t in out:
        if t.op in ("lt0", "le0"):
            d = terms_of(t.args[0])
            c = d.get(ONE, Fraction(0))
            rest = frozenset((m, k) for m, k in d.items() if m is not ONE)
            groups.setdefault(rest, []).append((c, t.op == "lt0", t))
    drop = set()
    for rest, lst in groups.items():
        if len(lst) > 1:
            # p + c (<|<=) 0 : larger c is stronger; at equal c, strict is
            best = max(lst, key=lambda x: (x[0], x[1])) if op == "and" \
                else min(lst, key=lambda x: (x[0], x[1]))
            for x in lst:
                if x is not best:
                    drop.add(x[2])
    return [t for t in out if t not in drop] if drop else out


def and_(*ts):
    return _nary("and", ts)


def or_(*ts):
    return _nary("or", ts)


def conjuncts(t):
    return list(t.args) if t.op == "and" else [t]


# ---------------------------------------------------------------- selection
def phi(c, a, b):
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.op == "full" and b.op == "full" and a.args[0] is b.args[0]:
        return mk("full", a.args[0], phi(c, a.args[1], b.args[1]))
    if a.op == "full" and b.op != "full":
        a = unfull(a)
    if b.op == "full" and a.op != "full":
        b = unfull(b)
    if a is b:
        return a
    # canonical polarity
    n = not_(c)
    if n.op not in ("not",) and (c.op == "not" or n.key < c.key):
        c, a, b = n, b, a
    # nested tests of the same condition
    a = _under(a, c, True)
    b = _under(b, c, False)
    if a is b:
        return a
    if isbool(a) and isbool(b):
        if a is TRUE:
            return or_(c, b)
        if b is FALSE:
            return and_(c, a)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
    # running maximum / minimum
    if c.op in ("lt0", "le0") and not isbool(a) and _arith(a) and _arith(b):
        p = c.args[0]
        d = sub(b, a)           # c: b - a < 0  <=> a > b -> max
        if d.op != "num":
            if _scaled(d) is p:
                return maxmin("max", (a, b))
            if _scaled(neg(d)) is p:
                return maxmin("min", (a, b))
    return mk("phi", c, a, b)


def _under(t, c, v):
    """t simplified knowing top-level that condition c has truth value v"""
    for _ in range(30):
        if t.op != "phi":
            break
        if t.args[0] is c:
            t = t.args[1] if v else t.args[2]
            continue
        known = conjuncts(c) if v else (
            [not_(x) for x in c.args] if c.op == "or" else [not_(c)])
        t0 = t.args[0]
        if t0 in known:
            t = t.args[1]
            continue
        if not_(t0) in known:
            t = t.args[2]
            continue
        break
    return t


# ---------------------------------------------------------------- traversal
REBUILD = {}


def rebuild(t, args):
    """t with new arguments, re-normalised"""
    if all(x is y for x, y in zip(args, t.args)) and len(args) == len(t.args):
        return t
    op = t.op
    if op == "add":
        return add(*[scale(a, c) if a.op != "num" else num(a.val * c)
                     for a, c in zip(args, t.val)])
    if op == "mul":
        out = num(t.val)
        for i in range(0, len(args), 2):
            out = mul(out, power(args[i], args[i + 1]))
        return out
    if op == "fn":
        return fn(t.val, *args)
    if op in ("max", "min"):
        return maxmin(op, args)
    if op == "lt0":
        return lt(args[0], ZERO)
    if op == "le0":
        return le(args[0], ZERO)
    if op == "eq0":
        return eq(args[0], ZERO)
    if op == "ne0":
        return not_(eq(args[0], ZERO))
    if op == "cmp":
        if t.val == "==":
            return eq(*args)
        if t.val == "is":
            return is_(*args)
        if t.val == "in":
            return in_(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "not":
        return not_(args[0])
    if op == "phi":
        return phi(*args)
    if op in REBUILD:
        return REBUILD[op](t, args)
    return mk(op, *args, val=t.val)


def subst(t, m, memo=None, stop=None):
    """replace subterms (keys of m) bottom-up"""
    memo = {} if memo is None else memo

    def go(t):
        if t in m:
            return m[t]
        if not t.args:
            return t
        r = memo.get(t)
        if r is not None:
            return r
        r = rebuild(t, tuple(go(a) for a in t.args))
        memo[t] = r
        return r
    import sys
    sys.setrecursionlimit(100000)
    return go(t)


def rewrite(t, f, memo=None):
    """bottom-up rewriting: f(term) -> term or None"""
    memo = {} if memo is None else memo

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        n = rebuild(t, tuple(go(a) for a in t.args)) if t.args else t
        r = f(n)
        if r is None:
            r = n
        memo[t] = r
        return r
    return go(t)


def walk(t, seen=None):
    """all distinct subterms"""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(x.args)


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def has(t, s):
    if t is s:
        return True
    return any(x is s for x in walk(t))


def phis(t):
    """conditions of all selections inside t"""
    return {x.args[0] for x in walk(t) if x.op == "phi"}


def atoms(cond):
    """atomic conditions of a boolean term"""
    out = []
    st = [cond]
    while st:
        c = st.pop()
        if c.op in ("and", "or"):
            st.extend(c.args)
        elif c.op == "not":
            st.append(c.args[0])
        elif c.op == "phi" and isbool(c):
            st.extend(c.args)
        elif not isconst(c):
            out.append(c)
    return out


def assume(t, c, v):
    """t simplified under the assumption that condition c is v"""
    m = {}
    if v:
        for x in conjuncts(c):
            m[x] = TRUE
            m[not_(x)] = FALSE
    else:
        xs = c.args if c.op == "or" else (c,)
        for x in xs:
            m[x] = FALSE
            m[not_(x)] = TRUE
    m[c] = TRUE if v else FALSE
    m[not_(c)] = FALSE if v else TRUE
    # order facts: from p + c0 < 0 other constants follow
    facts = [x for x in m if x.op in ("lt0", "le0") and m[x] is TRUE]

    def f(x):
        if x in m:
            return m[x]
        if x.op in ("lt0", "le0"):
            r = implied(facts, x)
            if r is not None:
                return TRUE if r else FALSE
        if x.op == "eq0" and strict and (x.args[0] in strict or
                                         neg(x.args[0]) in strict):
            return FALSE
        return None
    strict = {x.args[0] for x in facts if x.op == "lt0"}
    t = rewrite(t, f)
    if v and c.op == "eq0":
        d = dict(terms_of(c.args[0]))
        k = d.pop(ONE, Fraction(0))
        if len(d) == 1:
            (x, q), = d.items()
            if x.op in ("sym", "fn", "attr", "idx", "cfg"):
                t = subst(t, {x: num(-k / q)})
    return t


def implied(facts, x):
    """truth value of order atom x given order atoms that hold, or None"""
    d = dict(terms_of(x.args[0]))
    c = d.pop(ONE, Fraction(0))
    key = frozenset(d.items())
    nkey = frozenset((m, -k) for m, k in d.items())
    for f in facts:
        e = dict(terms_of(f.args[0]))
        c1 = e.pop(ONE, Fraction(0))
        k1 = frozenset(e.items())
        if k1 == key:
            # q + c1 <(=) 0 holds ; asks q + c <(=) 0
            if c < c1 or (c == c1 and (f.op == "lt0" or x.op == "le0")):
                return True
        elif k1 == nkey:
            # -q + c1 <(=) 0 : q >(=) c1 ; asks q <(=) -c
            if -c < c1:
                return False
            if -c == c1 and (f.op == "lt0" or x.op == "lt0"):
                return False
    return None


def split_equal(a, b, depth=8):
    """Equality of two terms by case analysis on the conditions in them.
    True: equal in every case; otherwise the list of (condition, value)
    under which they differ."""
    if a is b:
        return True
    if depth == 0:
        return []
    conds = set()
    for t in (a, b):
        for c in phis(t):
            for x in atoms(c):
                conds.add(x)
    for t in (a, b):
        if isbool(t):
            for x in atoms(t):
                if x.op in BOOLOPS or True:
                    conds.add(x)
    conds = [c for c in conds]
    if not conds:
        return []
    # pick the condition occurring in the larger number of places
    c = min(conds, key=lambda x: (x.size, x.key))
    for v in (True, False):
        a2, b2 = assume(a, c, v), assume(b, c, v)
        r = split_equal(a2, b2, depth - 1)
        if r is not True:
            return [(c, v)] + r
    return True


def same(a, b, depth=8):
    return a is b or split_equal(a, b, depth) is True


# ---------------------------------------------------------------- printing
def show(t, d=6):
    if d < 0:
        return "..."
    op = t.op
    s = lambda x: show(x, d - 1)
    if op == "num":
        v = t.val
        return str(v.numerator) if v.denominator == 1 else (
            repr(float(v)) if v.denominator > 1000 or
            v.denominator % 10 == 0 or v.denominator in (2, 4, 5, 8)
            else str(v))
    if op == "const":
        return repr(t.val[1])
    if op == "sym":
        v = t.val
        if isinstance(v, tuple):
            return ":".join(str(x) for x in v)
        return str(v)
    if op in ("ext", "func", "cls", "mod"):
        return str(t.val)
    if op == "add":
        out = ""
        for m, c in zip(t.args, t.val):
            body = s(m) if m is not ONE else ""
            sg = "-" if c < 0 else "+"
            c = abs(c)
            cs = "" if c == 1 and body else show(num(c))
            out += (" %s " % sg if out else ("-" if sg == "-" else "")) + \
                cs + ("*" if cs and body else "") + body
        return "(" + out + ")"
    if op == "mul":
        parts = []
        for i in range(0, len(t.args), 2):
            b, e = t.args[i], t.args[i + 1]
            parts.append(s(b) if e is ONE else "%s^%s" % (s(b), s(e)))
        c = t.val
        pre = "" if c == 1 else ("-" if c == -1 else show(num(c)) + "*")
        return pre + "*".join(parts)
    if op == "fn":
        return "%s(%s)" % (t.val, ", ".join(s(a) for a in t.args))
    if op in ("lt0", "le0", "eq0", "ne0"):
        o = {"lt0": "<", "le0": "<=", "eq0": "==", "ne0": "!="}[op]
        d0 = terms_of(t.args[0])
        c = -d0.get(ONE, Fraction(0))
        l = from_terms({m: k for m, k in d0.items() if m is not ONE})
        return "%s %s %s" % (s(l), o, show(num(c)))
    if op == "cmp":
        return "%s %s %s" % (s(t.args[0]), t.val, s(t.args[1]))
    if op in ("and", "or"):
        return "(" + (" %s " % op).join(s(a) for a in t.args) + ")"
    if op == "not":
        return "not " + s(t.args[0])
    if op == "phi":
        return "[%s ? %s : %s]" % tuple(s(a) for a in t.args)
    if op in ("list", "tuple", "set"):
        o, c = {"list": "[]", "tuple": "()", "set": "{}"}[op]
        return o + ", ".join(s(a) for a in t.args) + c
    if op == "dict":
        return "{" + ", ".join("%s: %s" % (s(t.args[i]), s(t.args[i + 1]))
                               for i in range(0, len(t.args), 2)) + "}"
    if op == "attr":
        return "%s.%s" % (s(t.args[0]), t.val)
    if op == "idx":
        return "%s[%s]" % (s(t.args[0]), ", ".join(s(a) for a in t.args[1:]))
    if op == "slice":
        return ":".join("" if a is NONE else s(a) for a in t.args)
    if op == "store":
        return "store(%s)" % ", ".join(s(a) for a in t.args)
    if op == "call":
        return "%s(%s)" % (s(t.args[0]), ", ".join(s(a) for a in t.args[1:]))
    if op == "kw":
        return "%s=%s" % (t.val, s(t.args[0]))
    if op == "mcall":
        return "%s.%s(%s)" % (s(t.args[0]), t.val,
                              ", ".join(s(a) for a in t.args[1:]))
    if op == "fmt":
        return "fmt<" + "".join(
            (strval(a) if isstr(a) else s(a)) for a in t.args) + ">"
    if op == "fld":
        return "{%s:%s}" % (s(t.args[0]), t.val)
    if op == "path":
        return "path<" + "/".join(
            (strval(a) if isstr(a) else s(a)) for a in t.args) + ">"
    if op == "new":
        return "new %s" % (t.val[0],) if isinstance(t.val, tuple) \
            else "new %s" % t.val
    v = "" if t.val is None else ":" + str(t.val)
    return "%s%s(%s)" % (op, v, ", ".join(s(a) for a in t.args))


# ---------------------------------------------------------------- rational
def zero_rational(t, rounds=12):
    """Is the (expanded) rational expression t identically zero? Decided by
    clearing denominators; True means yes, False means not shown."""
    global EXPAND_LIMIT
    old = EXPAND_LIMIT
    EXPAND_LIMIT = 4000
    try:
        for _ in range(rounds):
            if t is ZERO:
                return True
            den = None
            for m in terms_of(t):
                c, f = split_mul(m)
                for b, e in f.items():
                    if e.op == "num" and e.val < 0:
                        den = (b, e)
                        break
                if den:
                    break
            if den is None:
                return False
            b, e = den
            # largest negative power of b in any monomial
            mx = min(split_mul(m)[1].get(b, ZERO).val
                     for m in terms_of(t)
                     if split_mul(m)[1].get(b, ZERO).op == "num")
            out = []
            for m, c in terms_of(t).items():
                cc, f = split_mul(m)
                f = dict(f)
                eb = f.pop(b, ZERO)
                ne = add(eb, num(-mx))
                r = num(c * cc)
                for bb, ee in f.items():
                    r = _mul2(r, power(bb, ee))
                if ne is not ZERO:
                    if b.op == "add" and ne.op == "num" and \
                            ne.val.denominator == 1 and 0 < ne.val <= 6:
                        for _k in range(int(ne.val)):
                            r = _mul2(r, b)
                    else:
                        r = _mul2(r, power(b, ne))
                out.append(r)
            t = add(*out)
        return t is ZERO
    finally:
        EXPAND_LIMIT = old


_same0 = same


def same(a, b, depth=8):
    if a is b:
        return True
    if _arith(a) and _arith(b) and zero_rational(sub(a, b)):
        return True
    if _split(a, b, depth):
        return True
    a2, b2 = unsign(a, b)
    return (a2 is not a or b2 is not b) and _split(a2, b2, depth)


def unsign(a, b):
    """sign(x) and |x| spelled out where a condition on x occurs"""
    tested = set()
    for t in (a, b):
        for x in walk(t):
            if x.op in ("lt0", "le0", "eq0"):
                tested |= {x.args[0], neg(x.args[0])}

    def f(x):
        if x.op == "fn" and x.val in ("sign", "abs") and \
                x.args[0] in tested:
            y = x.args[0]
            if x.val == "abs":
                return phi(lt(y, ZERO), neg(y), y)
            return phi(lt(y, ZERO), NEG1, phi(eq(y, ZERO), ZERO, ONE))
        return None
    return rewrite(a, f), rewrite(b, f)


def _split(a, b, depth):
    if a is b:
        return True
    if _arith(a) and _arith(b) and not isbool(a) and \
            zero_rational(sub(a, b)):
        return True
    if depth == 0:
        return False
    conds = set()
    for t in (a, b):
        for c in phis(t):
            conds.update(atoms(c))
        if isbool(t):
            conds.update(atoms(t))
    if not conds:
        return False
    c = min(conds, key=lambda x: (x.size, x.key))
    for v in (True, False):
        if not _split(assume(a, c, v), assume(b, c, v), depth - 1):
            return False
    return True
