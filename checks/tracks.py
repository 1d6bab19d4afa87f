"""What the track generator hands from step to step and from track to track."""
from sa.util import *
from sa.pointwise import Elements, Range, Val, ANY, Unknown, UNINIT

M = "TrackGenerator.TrackGenerator"
TG = M + ".TrackGenerator"
LEAVE = ["Utilities.maputils.bear2LatLon", "Utilities.loadData.getPoci",
         "Utilities.stats.getCellNum", M + ".ppf"]
GIVEN = ["initLon", "initLat", "initSpeed", "initBearing", "initPressure",
         "initEnvPressure", "initRmax", "initDay"]
SELF = mk("obj", val=(TG, "self"))


def israndom(t):
    """a draw from some random generator"""
    if t.op == "mcall" and any(a.op == "sym" and a.val[0] == "occ"
                               for a in t.args[1:]):
        return True
    return t.op == "call" and t.args[0].op == "ext" and (
        t.args[0].val.startswith("numpy.random.") or
        t.args[0].val.startswith("random."))


def occurrence(t):
    """what tells this draw from others of the same form"""
    for a in t.args[1:]:
        if a.op == "sym" and a.val[0] == "occ":
            return a.val
    return t.val if t.op == "call" else None


class Generation(object):
    """generateTracks with the simulation of one track left opaque"""

    def __init__(self, prog, chk):
        chk.need(TG + ".generateTracks" in prog.funcs, TG + ".generateTracks")
        chk.need(TG + "._singleTrack" in prog.funcs, TG + "._singleTrack")
        self.prog = prog
        self.ip = analyse(prog, chk, TG + ".generateTracks",
                          opaque=LEAVE + [TG + "._singleTrack"])
        calls = calls_to(self.ip, "_singleTrack")
        chk.need(len(calls) == 1, "the call that simulates one track")
        self.call = calls[0]
        chk.need(self.call.loops, "the loop over tracks")
        uid = self.call.loops[0]
        self.loop = [L for L in self.ip.loops if L.uid == uid][0]
        f = prog.funcs[TG + "._singleTrack"]
        names = [a.arg for a in f.node.args.args]
        vals = dict(zip(names, self.call.args))
        vals.update(self.call.kw)
        vals.pop(names[0], None)
        self.vals = vals
        self.carried = {}
        for lab, (mu, init, nxt) in self.loop.carried.items():
            if nxt is not mu:
                self.carried[mu] = (init, nxt)
        self.number = {n: num(1001 + 17 * i) for i, n in enumerate(GIVEN)}
        have = {a.arg for a in prog.funcs[
            TG + ".generateTracks"].node.args.args}
        chk.need(set(GIVEN) <= have, "genesis parameters of generateTracks")
        # which argument carries which quantity
        self.role = {}
        for n, t in vals.items():
            x = self.with_values(self.first(t), {})
            for g in GIVEN:
                if x is self.number[g]:
                    self.role[g] = n
        # an argument that changes the value it is given
        for g in GIVEN:
            if g not in self.role and g in vals and \
                    g not in self.role.values() and \
                    has(vals[g], sym("param", g)):
                self.role[g] = g
        for n, t in vals.items():
            x = self.with_values(self.first(t), {})
            if n not in self.role.values() and "initDay" not in self.role \
                    and has(x, self.number["initDay"]):
                self.role["initDay"] = n

    def first(self, t):
        """the value for the first track"""
        for _ in range(3):
            u = subst(t, {mu: init for mu, (init, _) in self.carried.items()
                          if init.op != "sym" or init.val != ("undef",)})
            if u is t:
                break
            t = u
        return t

    def with_values(self, t, other):
        """all genesis values prescribed, but for those in other"""
        m = {sym("param", g): other.get(g, self.number[g]) for g in GIVEN}
        return subst(t, m)

    def stale(self, t):
        """loop-carried values in t, apart from counters"""
        return {x for x in walk(t) if x in self.carried}

    def inside(self, draw):
        """is the draw made once per track?"""
        tag = occurrence(draw)
        es = [e for e in self.ip.trace if e.term is draw or
              tag is not None and e.kind in ("call", "mcall") and
              occurrence(e.term) == tag]
        if not es:
            return None
        return any(self.loop.uid in e.loops for e in es)


# ------------------------------------------------------------ the time steps
COLUMNS = ["CycloneNumber", "Datetime", "TimeElapsed", "Longitude",
           "Latitude", "Speed", "Bearing", "CentralPressure", "EnvPressure",
           "rMax"]
UNSET = sym("unset")


def leaves_of(t, cs=()):
    """(conditions, value) of the alternatives of a result"""
    if t.op == "phi":
        c = t.args[0]
        return leaves_of(t.args[1], cs + (c,)) + \
            leaves_of(t.args[2], cs + (not_(c),))
    return [(cs, t)]


class Step(object):
    """_singleTrack: the columns it returns and how they advance.

    prev(x) stands for what location x holds before the step; first(x) is
    its value at genesis, step(x) its value after one step, in terms of
    prev()."""

    def __init__(self, prog, chk, gen=None):
        self.prog, self.chk = prog, chk
        self.q = TG + "._singleTrack"
        chk.need(self.q in prog.funcs, self.q)
        self.ip = analyse(prog, chk, self.q, opaque=LEAVE)
        self.where = prog.where(self.q)
        loops = [L for L in self.ip.loops if L.depth == 0 and
                 any(L.uid in e.loops for e in calls_to(
                     self.ip, "bear2LatLon"))] or \
                [L for L in self.ip.loops if L.depth == 0]
        chk.need(loops, "the time step loop")
        self.loop = max(loops, key=lambda L: len(L.carried))
        self.k = self.loop.k
        self.mus = {}
        self.label = {}
        for lab, (mu, init, nxt) in self.loop.carried.items():
            if nxt is not mu:
                self.mus[mu] = (init, nxt)
                self.label[mu] = lab
        # counters kept by hand are functions of the step number
        count = {}
        for mu, (init, nxt) in self.mus.items():
            d = sub(nxt, mu)
            if isnum(init) and isnum(d):
                count[mu] = add(init, mul(d, self.k))
        for mu in count:
            del self.mus[mu]
        self.count = count
        self.mus = {m: (i, subst(n, count)) for m, (i, n)
                    in self.mus.items()}
        self.domain = subst(self.loop.domain, count)
        self.leaves = [(tuple(subst(c, count) for c in cs), subst(t, count))
                       for cs, t in leaves_of(self.ip.result)]
        self.names = column_names(prog, chk, gen)
        self.memo = {}
        self.column = {}        # name -> mu
        for cs, t in self.leaves:
            if t.op not in ("tuple", "list") or \
                    len(t.args) != len(self.names):
                chk.unsure("columns", self.q, "returns %s" % show(t, 2))
                continue
            for n, a in zip(self.names, t.args):
                r = self.root(a)
                if r is not None:
                    self.column.setdefault(n, r)

    def root(self, t):
        """the loop-carried array behind a returned column"""
        while True:
            if t in self.mus:
                return t
            if t.op == "eta":
                m = mk("sym", val=t.val[0])
                return m if m in self.mus else None
            if t.op in ("store", "append"):
                t = t.args[0]
            elif t.op == "phi":
                t = t.args[1]
            elif t.op == "idx" and len(t.args) == 2 and \
                    t.args[1].op == "slice":
                t = t.args[0]
            elif t.op == "call" and t.args[0].op == "ext" and \
                    t.args[0].val in ("numpy.array", "numpy.asarray"):
                t = t.args[1]
            else:
                return None

    # --------------------------------------------------------- elements
    def isarr(self, mu):
        init = self.mus[mu][0]
        return init.op in ("store", "full", "list", "arr") or \
            init.op == "call"

    def element(self, t, i):
        """element i of an array term; UNSET where it was never given"""
        if t.op == "store":
            d = sub(t.args[1], i)
            if d is ZERO:
                return t.args[2]
            if isnum(d):
                return self.element(t.args[0], i)
            return mk("idx", t, i)
        if t.op == "phi":
            return phi(t.args[0], self.element(t.args[1], i),
                       self.element(t.args[2], i))
        if t.op == "full":
            return UNSET if t.args[1] is UNINIT else t.args[1]
        if t.op == "append":
            d = sub(i, add(self.k, ONE))
            if d is ZERO or i is MINUS:
                return t.args[1]
            return self.element(t.args[0], i)
        if t.op in ("list", "arr") and isnum(i):
            j = int(i.val)
            if -len(t.args) <= j < len(t.args):
                return t.args[j]
        if t in self.mus:
            d = sub(i, self.k)
            if isnum(d) and d.val > 0:
                return UNSET
            if d is ZERO or i is MINUS:
                return prev(t)
            if i is ZERO:
                return self.element(self.mus[t][0], ZERO)
        return mk("idx", t, i)

    def tidy(self, t):
        """previous values as prev(), elements of edited arrays looked up"""
        if t in self.memo:
            return self.memo[t]

        def f(x):
            if x.op == "idx" and len(x.args) == 2 and \
                    x.args[1].op != "slice":
                b = x.args[0]
                if b in self.mus and self.isarr(b) or \
                        b.op in ("store", "phi", "append") and \
                        self.root(b) is not None:
                    r = self.element(b, x.args[1])
                    return r if r is not x else None
            if x.op == "last" and self.root(x.args[0]) is not None:
                r = self.element(x.args[0], MINUS)
                return r
            if x in self.mus and not self.isarr(x):
                return prev(x)
            return None
        r = t
        for _ in range(4):
            n = rewrite(r, f)
            if n is r:
                break
            r = n
        self.memo[t] = r
        return r

    def first(self, mu):
        init = self.mus[mu][0]
        if self.isarr(mu):
            return self.tidy(self.element(init, ZERO))
        return self.tidy(init)

    def step(self, mu):
        nxt = self.mus[mu][1]
        if self.isarr(mu):
            return self.tidy(self.element(nxt, add(self.k, ONE)))
        return self.tidy(nxt)

    def holds(self, a, b):
        """does a == b hold between the values of any one instant?  a and b
        are written with prev()"""
        m0, m1 = {}, {}
        for mu in self.mus:
            p = prev(mu)
            if has(a, p) or has(b, p):
                m0[p] = self.first(mu)
                m1[p] = self.step(mu)
        r0 = equal(subst(a, m0), subst(b, m0))
        r1 = equal(subst(a, m1), subst(b, m1))
        if r0 is True and r1 is True:
            return True
        if r0 is False or r1 is False:
            return False
        return None


def prev(mu):
    return mk("sym", val=("prev",) + tuple(
        v for v in mu.val))


MINUS = num(-1)


def column_names(prog, chk, gen=None):
    """names under which the results of _singleTrack are handed on"""
    gen = gen or Generation(prog, chk)
    for e in gen.ip.trace:
        if e.kind not in ("call", "new", "mcall"):
            continue
        for a in list(e.args) + list(e.kw.values()):
            if contains(a, lambda x: x.op == "call" and
                        x.args[0].op == "func" and
                        x.args[0].val == TG + "._singleTrack"):
                for x in walk(a):
                    d = dict_items(x) if x.op == "dict" else None
                    if d and "names" in d:
                        it = tuple_items(d["names"])
                        if it and all(isstr(i) for i in it):
                            return [strval(i) for i in it]
    raise AnchorLost("the names of the track columns")


def item_of(prog, ip, t, which=None):
    """value of an attribute of an object picked from a list of objects made
    one per iteration; other terms unchanged.  The position in the list is
    written as the term which, if given."""
    if t.op != "attr":
        m = {}
        for y in walk(t):
            if y.op == "attr" and y.args[0].op == "idx":
                v = item_of(prog, ip, y, which)
                if v is not None:
                    m[y] = v
        return subst(t, m)
    x = t.args[0]
    i = None
    while x.op == "idx" or x.op == "call":
        if x.op == "idx":
            i = x.args[1]
            x = x.args[0]
            continue
        if x.args[0].op == "ext" and x.args[0].val == "itertools.islice":
            a = x.args[2:]
            if len(a) == 3 and i is not None:
                i = add(a[0], mul(a[2], i))
            elif i is None:
                return None
            x = x.args[1]
        elif x.args[0].op in ("ext", "builtin") and \
                str(x.args[0].val) in ("list", "tuple", "iter"):
            x = x.args[1]
        else:
            return None
    if x.op == "comp" and x.args[-1].op == "new" and i is not None:
        o = x.args[-1]
        made = [e for e in ip.trace if e.kind == "new" and e.term is o]
        q = o.val[0] + ".__init__"
        if len(made) != 1 or q not in prog.funcs:
            return None
        names = [a.arg for a in prog.funcs[q].node.args.args][1:]
        vals = dict(zip(names, made[0].args))
        vals.update(made[0].kw)
        i2 = Interp(prog)
        i2.result, i2.final = i2.run(q)
        me = mk("obj", val=(o.val[0], "self"))
        b = i2.final.heap.get((me, t.val))
        v = i2.final.boxes.get(b)
        if v is None:
            return None
        v = subst(v, {sym("param", n): a for n, a in vals.items()
                      if a is not None})
        ks = {y for y in walk(v) if y.op == "sym" and y.val[0] == "k"}
        if len(ks) > 1:
            return None
        return subst(v, {k: which or i for k in ks})
    return None
