"""What the data-processing stage writes, record by record.

The files are found where the stage saves them; every value is written as a
function of the records of the input file, so it can be said which records
and which quantities a value depends on."""
from sa.util import *
from sa.pointwise import (Elements, Unknown, Range, Val, REAL, NAN, ANY,
                          MAXSIZE)

ROOT = "DataProcess.DataProcess.DataProcess.processData"
READ = "Utilities.columns.colReadCSV"
NEW = "Utilities.loadData.getInitialPositions"
DT = "Utilities.loadData.getTimeDelta"
JD = "Utilities.loadData.julianDays"
DATES = "Utilities.loadData.parseDates"
AZI = "Utilities.maputils.latLon2Azi"
CONV = "Utilities.metutils.convert"
EXTRACT = "DataProcess.DataProcess.DataProcess.extractTracks"
OPAQUE = [READ, NEW, DT, JD, DATES, AZI, CONV,
          "DataProcess.CalcTrackDomain.CalcTrackDomain.calcDomainFromTracks",
          EXTRACT]
K = sym("k", "rec")
M = float(9223372036854775807)


def iscall(t, *names):
    return t.op == "call" and t.args[0].op in ("func", "ext") and \
        t.args[0].val in names


def savename(t):
    """last component of a path"""
    if t.op == "path":
        x = t.args[-1]
        if isstr(x):
            return strval(x).split("/")[-1]
        return None
    if t.op == "attr":
        return t.val
    if isstr(t):
        return strval(t).split("/")[-1]
    return None


class Saved(object):
    """the files of one configuration of the stage"""

    def __init__(self, prog, chk):
        for q in (READ, NEW, AZI, CONV, DT):
            chk.need(q in prog.funcs, "function " + q)
        ip = analyse(prog, chk, ROOT, opaque=[q for q in OPAQUE
                                              if q in prog.funcs])
        self.ip = ip
        self.files = {}
        self.where = {}
        for e in ip.trace:
            if e.kind == "call" and e.fn.op == "ext" and \
                    e.fn.val == "numpy.savetxt" and len(e.args) >= 2:
                n = savename(e.args[0])
                if n is None:
                    continue
                if n in self.files:
                    continue
                self.files[n] = e.args[1]
                # the call site in the stage, not in the helper
                st = [x for x in e.stack] if e.stack else []
                self.where[n] = e.where
        chk.need(self.files, "files saved by " + ROOT)
        chk.count("files_saved", len(self.files))
        self.excs = sorted({x for t in self.files.values() for x in walk(t)
                            if x.op == "sym" and isinstance(x.val, tuple)
                            and x.val[0] == "exc"}, key=show)
        # the handler that takes the times from the dates
        self.dated = [e for e in self.excs if any(
            self.turns(t, e) for t in self.files.values())]
        self.restrict = sym("param", "restrictToWindfieldDomain")

    @staticmethod
    def turns(t, e):
        for x in walk(t):
            if x.op == "phi" and x.args[0] is e and \
                    contains(x.args[1], lambda y: iscall(y, DT)) and \
                    not contains(x.args[2], lambda y: iscall(y, DT)):
                return True
        return False

    def variant(self, name, dated=True, restrict=False):
        """the saved term when no handler runs but, with dated, the one that
        reads dates instead of ages"""
        t = self.files[name]
        m = {e: FALSE for e in self.excs}
        if dated:
            for e in self.dated:
                m[e] = TRUE
        m[self.restrict] = TRUE if restrict else FALSE
        return subst(t, m)

    def elements(self, kmin=3):
        # the times between observations are one array of their own
        return Elements(lambda t: iscall(t, READ) or iscall(t, NEW) and False,
                        kmin=kmin,
                        calls=(NEW, DT, JD, DATES, AZI, CONV, "sampleGrid"))

    def element(self, name, k=K, column=None, **kw):
        """element k of a saved file (of one of its columns)"""
        t = self.variant(name, **kw)
        while iscall(t, "numpy.transpose", "numpy.array",
                     "numpy.column_stack", "numpy.vstack"):
            t = t.args[1]
        if t.op == "attr" and t.val == "T":
            t = t.args[0]
        if t.op in ("list", "tuple", "arr"):
            if column is None or column >= len(t.args):
                raise Unknown(t)
            t = t.args[column]
        return self.elements().at(t, k)


def positions(t, out=None):
    """record positions an atom is about"""
    out = set() if out is None else out
    if t.op == "pos":
        return out
    if t.op == "idx" and iscall(t.args[0], READ) and not isstr(t.args[1]):
        out.add(t.args[1])
        return out
    for a in t.args:
        positions(a, out)
    return out


def split_ref(t):
    """(quantity, record position) of an atom of an element term, or None"""
    if t.op == "idx" and len(t.args) == 2 and isstr(t.args[1]) and \
            t.args[0].op == "idx" and iscall(t.args[0].args[0], READ):
        return strval(t.args[1]), t.args[0].args[1]
    name = None
    for f, n in ((DT, "dt"), (NEW, "new"), (JD, "jday")):
        if iscall(t, f):
            name = n
    if t.op == "idx" and iscall(t.args[0], AZI) and isnum(t.args[1]):
        name = ("bearing", "distance")[int(t.args[1].val)]
    if name is not None:
        p = positions(t)
        if len(p) == 1:
            return name, p.pop()
    return None


def refs(t, out=None, seen=None):
    """{(quantity, position)} an element depends on; the masks inside a
    position are not followed"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if t in seen:
        return out
    seen.add(t)
    r = split_ref(t)
    if r is not None:
        out.add(r)
        return out
    if t.op == "pos":
        return out
    for a in t.args:
        refs(a, out, seen)
    return out


# ------------------------------------------------------------ scenarios
# an ordinary record, well inside every physical range
TYPICAL = {"pressure": (940., 995.), "rmax": (20., 60.), "vmax": (20., 45.),
           "lon": (148., 150.), "lat": (-17., -15.), "bearing": (20., 340.),
           "distance": (40., 160.), "dt": (3., 6.), "new": (0., 0.),
           "jday": (20., 340.), "season": (1990., 2000.),
           "age": (0., 0.)}
# what a record can hold when nothing is said about it
POSSIBLE = {"new": Val(0, 1), "dt": Val(0.25, 1000.), "lon": Val(-180., 360.),
            "lat": Val(-90., 90.), "bearing": Val(0., 360.),
            "distance": Val(0., 20038.)}
FACTORS = (1.0, 0.01, 33.86389)
NPOINTS = 24


def missing(v):
    return v.nan is True or v.lo >= M and v.nan is False or v.lo >= M


def present(v):
    return v.nan is False and v.hi < M


class Scene(object):
    """facts: {(quantity, offset from the record): value or range}; the key
    (quantity, offset, "converted") is about the value after conversion"""

    def __init__(self, facts, base=K):
        self.facts = facts
        self.base = base

    def key(self, t):
        r = split_ref(t)
        if r is None:
            return None
        s, c = offset_of(r[1], self.base)
        return None if s is None else (r[0], c)

    def converted(self, t):
        if iscall(t, CONV):
            a = [x.args[0] if x.op == "kw" else x for x in t.args[1:]]
            if a:
                return self.key(a[0]), a[0]
        return None, None

    def proof(self):
        def known(t):
            k, a = self.converted(t)
            if a is not None:
                f = self.facts.get((k or ()) + ("converted",))
                if f is not None:
                    return f
                raw = self.facts.get(k)
                if raw is not None and raw.exact and raw.lo == M:
                    return Val(M * 1e-4, M * 1e3)
                if raw is not None and raw.nan is True:
                    return NAN
                return ANY if k is None or k[0] not in POSSIBLE else None
            if t.op == "add":
                # the time between a record and the one before
                d = terms_of(t)
                ks = {c: self.key(m) for m, c in d.items()}
                if len(d) == 2 and set(ks) == {1, -1} and all(
                        k is not None and k[0] == "age" and
                        k not in self.facts for k in ks.values()) and \
                        ks[1][1] == ks[-1][1] + 1:
                    return POSSIBLE["dt"]
                return None
            k = self.key(t)
            if k is None:
                return None
            if k in self.facts:
                return self.facts[k]
            return POSSIBLE.get(k[0], ANY)
        return Range(known)

    def point(self, n, drop=()):
        """one concrete record with its neighbours"""
        factor = FACTORS[n % len(FACTORS)]

        def pick(k, lo, hi):
            h = hash01("%s/%s/%d" % (k[0], k[1], n))
            if lo == -INF_ or hi == INF_:
                return None
            return lo + (hi - lo) * h

        def known(t):
            k, a = self.converted(t)
            if a is not None:
                f = self.facts.get((k or ()) + ("converted",))
                if f is not None:
                    return f if f.nan else Val(pick(k, f.lo, f.hi))
                raw = self.facts.get(k)
                if raw is not None and raw.exact and raw.lo == M:
                    return Val(M * factor)
                if k is not None and k[0] in TYPICAL:
                    return known(a)
                return None
            k = self.key(t)
            if k is None:
                return None
            if k in self.facts:
                f = self.facts[k]
                if f.nan or f.exact:
                    return f
                v = pick(k, f.lo, f.hi)
                return ANY if v is None else Val(v)
            if k[0] == "age":
                return Val(100. + 6. * k[1])
            if k[0] in TYPICAL:
                return Val(pick(k, *TYPICAL[k[0]]))
            return None
        return Range(known)

    def always(self, t, good):
        """(verdict, detail): is good(value) true of every record of the
        scene?  False only with a record for which it is not."""
        r = self.proof()
        v = r.val(t)
        if good(v) or split(t, r, good, [60]):
            return True, repr(v)
        for n in range(NPOINTS):
            w = self.point(n).val(t)
            if (w.exact or w.nan is True) and not good(w):
                return False, "can be %r" % w
        return None, "can only be placed in %r" % v


INF_ = float("inf")


def split(t, r, good, budget, depth=9):
    """good(value) in every case of the conditions the value turns on"""
    if good(r.val(t)):
        return True
    budget[0] -= 1
    if depth == 0 or budget[0] <= 0:
        return False
    # what the value actually depends on
    while t.op == "phi" and r.cond(t.args[0]) is not None:
        t = t.args[1] if r.cond(t.args[0]) else t.args[2]
    best = None
    for x in live(t):
        if x.op != "phi":
            continue
        for c in atoms_of(x.args[0]):
            if c.op != "phi" and r.cond(c) is None and (
                    best is None or c.size < best.size):
                best = c
    if best is None:
        return False
    return all(split(t, r.given(best, v), good, budget, depth - 1)
               for v in (True, False))


def live(t, seen=None):
    """parts of a value, the insides of the input data left out"""
    seen = set() if seen is None else seen
    if t in seen or split_ref(t) is not None or iscall(t, READ):
        return
    seen.add(t)
    for a in t.args:
        yield from live(a, seen)
    yield t


def atoms_of(c):
    if c.op in ("and", "or", "not", "phi"):
        return [y for x in c.args for y in atoms_of(x)]
    return [] if c in (TRUE, FALSE, ONE, ZERO) else [c]


def isfilter(m):
    """rows left out of the whole input, before records are looked up"""
    if iscall(m, NEW):
        return False
    return iscall(m, EXTRACT) or all(isfilter(a) for a in m.args)


def peel(p):
    """(filters, position): the row filters applied to the input file before
    the record is looked up are set aside"""
    layers = []
    while p.op == "pos" and isfilter(p.args[0]):
        layers.append(p.args[0])
        p = p.args[1]
    return tuple(layers), p


def offset_of(p, base):
    d = sub(peel(p)[1], base)
    if isnum(d) and d.val == int(d.val):
        return base, int(d.val)
    return None, None


def hash01(s):
    import hashlib
    h = hashlib.md5(s.encode()).digest()
    return int.from_bytes(h[:4], "big") / 2.0 ** 32


def element_of(chk, saved, rule, name, **kw):
    """the element of a saved file, or None (recorded as not decided)"""
    try:
        return saved.element(name, **kw)
    except Unknown as ex:
        chk.unsure(rule, name, "element not found: %s" % show(ex.args[0], 4))
        return None
