"""Shared helpers of the rule modules."""
from .terms import *
from . import terms as TM
from . import sample
from .interp import Interp, Budget, select, store
from .lib import RANK, SIZE, CONFIG
from .report import AnchorLost


def analyse(prog, chk, qual, args=None, **kw):
    """value-flow graph of one root function"""
    if qual not in prog.funcs:
        raise AnchorLost("function %s" % qual)
    pre = kw.pop("pre", None)
    selfterm = kw.pop("selfterm", None)
    ip = Interp(prog, **kw)
    ip.result, ip.final = ip.run(qual, args=args, pre=pre, selfterm=selfterm)
    chk.used(ip)
    return ip


def cfg_of(t):
    """(section, option) of a configuration read, or None"""
    if t.op == "cfg" and len(t.args) >= 2 and isstr(t.args[0]) and \
            isstr(t.args[1]):
        return strval(t.args[0]), strval(t.args[1])
    return None


def at_rank(c, rank, size=None):
    """condition specialised to a process"""
    m = {RANK: num(rank)}
    if size is not None:
        m[SIZE] = num(size)
    return subst(c, m)


def mentions(t, *atoms_):
    s = set(atoms_)
    return contains(t, lambda x: x in s)


def calls_to(ip, *names):
    """effects that call one of the named functions (full or simple name)"""
    out = []
    for e in ip.trace:
        if e.kind in ("call", "new") and e.fn is not None and \
                e.fn.op in ("func", "ext", "cls"):
            v = e.fn.val
            if v in names or v.split(".")[-1] in names:
                out.append(e)
        elif e.kind == "mcall" and strval(e.fn) in names:
            out.append(e)
    return out


def strip_iter(c):
    """condition without the loop-membership conjuncts"""
    return and_(*[x for x in conjuncts(c) if x.op != "iter"])


def symbols(t):
    return {x for x in walk(t) if x.op == "sym"}


def opaque_in(t):
    """does the term contain something the analysis could not follow?"""
    bad = ("opaque", "eta", "starred")
    return contains(t, lambda x: x.op in bad or
                    x.op == "sym" and isinstance(x.val, tuple) and
                    x.val[0] in ("guard", "brk", "missing", "excval"))


# ---------------------------------------------------------------- shapes
def dict_items(t):
    """{key constant: value} of a dict display, or None"""
    if t.op != "dict" or len(t.args) % 2:
        return None
    out = {}
    for k, v in zip(t.args[::2], t.args[1::2]):
        if k.op not in ("const", "num"):
            return None
        out[strval(k) if isstr(k) else k.val] = v
    return out


def grid_vars(t):
    """the variables (or dimensions) argument of ncSaveGrid:
    [{'name':.., 'values':.., ..}] in order, or None"""
    d = dict_items(t)
    if d is None:
        return None
    out = []
    for k in sorted(d, key=str):
        v = dict_items(d[k])
        if v is None or "name" not in v:
            return None
        out.append(v)
    return out


def component(t, i):
    return select(t, num(i))


def carried_of(ip, t):
    """(loop, mu, init, next) of the loop-carried location whose value after
    the loop is t"""
    for L in ip.loops:
        for lab, (mu, init, nxt) in L.carried.items():
            if nxt is not mu and ip.eta(L, mu, init, nxt) is t:
                return L, mu, init, nxt
    return None


def tuple_items(t, n=None):
    if t.op in ("tuple", "list") and (n is None or len(t.args) == n):
        return list(t.args)
    return None


def arg(e, name, pos=None):
    """argument of an effect by name or position"""
    if name in e.kw:
        return e.kw[name]
    if pos is not None and pos < len(e.args):
        return e.args[pos]
    return None


def equal(a, b):
    """True when the terms are shown equal, False when they are shown to
    differ, None otherwise"""
    if a is b:
        return True
    bad = opaque_in(a) or opaque_in(b)
    d = None if bad else sample.differ(a, b)
    if d is True:
        return False
    if same(a, b):
        return True
    return None if bad or d is False else False


def variants(t, limit=16):
    """the values of t in the cases its selections distinguish, as a list of
    (conditions, term); None when there are too many"""
    todo, out = [((), t)], []
    while todo:
        cs, x = todo.pop()
        ps = sorted(phis(x), key=lambda c: (c.size, c.key))
        if not ps:
            out.append((cs, x))
        elif len(todo) + len(out) >= limit:
            return None
        else:
            for v in (False, True):
                y = assume(x, ps[0], v)
                if y is x:
                    return None
                todo.append((cs + ((ps[0], v),), y))
    return out


def plain(c):
    """a condition on data that can hold and fail"""
    return not isconst(c) and not contains(c, lambda x: x.op in (
        "opaque", "call", "mcall", "is", "eta", "undef") or x is NONE or
        x.op == "sym" and x.val[0] in ("exc", "guard", "brk"))


def equal_cases(a, b):
    """equality of two terms, by the cases a distinguishes"""
    r = equal(a, b)
    if r is not None:
        return r
    vs = variants(a)
    if not vs or len(vs) == 1:
        return None
    rs = [(cs, equal(x, b)) for cs, x in vs]
    if any(r is False and all(plain(c) for c, _ in cs) for cs, r in rs):
        return False
    return True if all(r is True for _, r in rs) else None
