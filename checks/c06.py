"""C06: only physically valid tracks are kept, as many as were drawn, and no
position of a track lies outside the domain."""
import itertools
from fractions import Fraction
from sa.pointwise import Unknown
from .tracks import *
from .c30 import Cells, Outside

GRID = {"xMin": 90., "xMax": 180., "yMin": -40., "yMax": 0.}
INNER = {"xMin": 110., "xMax": 160., "yMin": -30., "yMax": -5.}
N = 20
INF = float("inf")


def check(prog, chk):
    chk.rule("kept", "a track that breaks a requirement is not kept")
    chk.rule("number", "tracks are made until the drawn number is kept")
    chk.rule("domain", "a position outside the track domain ends the track "
             "before that position")
    g = Generation(prog, chk)
    results(chk, g)
    domain(prog, chk, g)
    drawn(prog, chk)


# --------------------------------------------------------------- scenarios
def typical():
    """an admissible track: one dict of column values per instant"""
    out = []
    for i in range(N):
        out.append({"TimeElapsed": Val(1. * i), "Longitude":
                    Val(140. + i / 4.), "Latitude": Val(-15. - i / 4.),
                    "CentralPressure": Val(980. - i), "EnvPressure":
                    Val(1005.), "rMax": Val(40. + i), "Speed": Val(15.),
                    "Bearing": Val(230.), "CycloneNumber": Val(1.)})
    return out


def scenarios():
    """(name, what is wrong, inner domain set, range, points): each range
    or point is a list of (instant, column, value) put into a typical
    track"""
    out = []
    for inner in (False, True):
        i_ = ":inner" if inner else ""
        out.append(("empty" + i_, "has no positions", inner, None, [None]))
        short = [(i, "TimeElapsed", Val(0.5 * i)) for i in range(N - 1)]
        out.append(("short" + i_, "lasts less than 12 hours", inner,
                    short + [(N - 1, "TimeElapsed", Val(9.5, 11.999))],
                    [short + [(N - 1, "TimeElapsed", Val(v))]
                     for v in (9.5, 11.9)] + [10, 12]))
        out.append(("weak" + i_, "starts with a deficit of 1 hPa or less",
                    inner, [(0, "CentralPressure", Val(1004., 1005.))],
                    [[(0, "CentralPressure", Val(v))]
                     for v in (1004., 1004.5, 1004.95)]))
        for k in (0, 1, N // 2, N - 1):
            at = "first" if k == 0 else "last" if k == N - 1 else \
                "step%d" % k
            out.append(("filled:%s%s" % (at, i_), "has a central pressure "
                        "not below the environment (%s)" % at, inner,
                        [(k, "CentralPressure", Val(1005., 1100.))],
                        [[(k, "CentralPressure", Val(v))]
                         for v in (1005., 1006., 1010.)] +
                        [[(k, "EnvPressure", Val(992.)),
                          (k, "CentralPressure", Val(v))]
                         for v in (993., 1003.)]))
            out.append(("small:%s%s" % (at, i_), "has a radius below 5 km "
                        "(%s)" % at, inner, [(k, "rMax", Val(0., 4.999))],
                        [[(k, "rMax", Val(v))] for v in (0.5, 2., 4.9)]))
            out.append(("large:%s%s" % (at, i_), "has a radius above 500 km "
                        "(%s)" % at, inner, [(k, "rMax", Val(500.1, 1e5))],
                        [[(k, "rMax", Val(v))] for v in (501., 800.)]))
            if not inner:
                continue
            for d, c, r, ps in (
                    ("west", "Longitude", (90., 109.9), (95., 109.)),
                    ("east", "Longitude", (160.1, 179.), (161., 175.)),
                    ("south", "Latitude", (-39., -30.1), (-31., -38.)),
                    ("north", "Latitude", (-4.9, -0.1), (-4., -1.))):
                out.append(("outside:%s:%s" % (d, at), "lies %s of the "
                            "inner domain (%s)" % (d, at), True,
                            [(k, c, Val(*r))],
                            [[(k, c, Val(v))] for v in ps]))
        out.append(("wide" + i_, "starts with a radius of 100 km or more",
                    inner, [(0, "rMax", Val(100., 499.))],
                    [[(0, "rMax", Val(v))] for v in (100., 150., 400.)]))
    return out


class Scene(object):
    """truth of an acceptance condition for one track"""

    def __init__(self, track, kinds, inner, facts):
        self.track, self.kinds, self.inner = track, kinds, inner
        self.facts = facts
        self.at = None

    def column(self, t):
        """name of the column of the track a term denotes, or None"""
        n = None
        if t.op == "attr":
            n = t.val
        elif t.op == "idx" and len(t.args) == 2 and isstr(t.args[1]):
            n = strval(t.args[1])
        if n in COLUMNS and istrack(t.args[0], self.track):
            return n
        return None

    def range(self):
        r = Range(self.known)
        r.facts = dict(self.facts)
        return r

    def each(self, body, quantifier):
        """truth of any/all of an element-wise condition"""
        rs = []
        for i in range(len(self.kinds)):
            old, self.at = self.at, i
            rs.append(self.range().cond(body))
            self.at = old
        if quantifier == "any":
            return True if True in rs else None if None in rs else False
        return False if False in rs else None if None in rs else True

    def known(self, t):
        c = self.column(t)
        if c is not None:
            return self.kinds[self.at].get(c, ANY) if self.at is not None \
                else None
        if t.op == "idx" and len(t.args) == 2:
            c = self.column(t.args[0])
            i = t.args[1]
            if c is not None and isnum(i) and i.val.denominator == 1:
                j = int(i.val)
                if -len(self.kinds) <= j < len(self.kinds):
                    return self.kinds[j].get(c, ANY)
                return ANY
            if c is not None and self.at is not None and \
                    i.op == "sym" and i.val[0] == "k":
                return self.kinds[self.at].get(c, ANY)
            if c is not None and i.op == "slice" and all(
                    x is NONE for x in i.args):
                return self.kinds[self.at].get(c, ANY) \
                    if self.at is not None else None
            if t.args[0].op == "attr" and isstr(i):
                d = INNER if t.args[0].val == "innerGridLimit" else \
                    GRID if t.args[0].val == "gridLimit" else None
                if d and strval(i) in d:
                    return Val(d[strval(i)])
        if t.op == "attr" and t.val == "innerGridLimit":
            return Val(1.) if self.inner else Val(0.)
        if t.op == "is" and any(a.op == "attr" and
                                a.val == "innerGridLimit" for a in t.args):
            return Val(0.) if self.inner else Val(1.)
        if t.op == "attr" and t.val == "size" and \
                self.column(t.args[0]) is not None:
            return Val(float(len(self.kinds)))
        if t.op in ("call", "fn", "len"):
            f = t.val if t.op == "fn" else "len" if t.op == "len" else \
                str(t.args[0].val).split(".")[-1]
            a = t.args if t.op in ("fn", "len") else t.args[1:]
            if f == "len" and len(a) == 1 and \
                    self.column(a[0]) is not None:
                return Val(float(len(self.kinds)))
            if f in ("any", "all") and len(a) >= 1:
                b = a[0]
                if b.op == "comp":
                    b = b.args[-1]
                r = self.each(b, f)
                return None if r is None else Val(float(r))
            if f in ("max", "min", "amax", "amin") and len(a) == 1 and \
                    self.kinds and self.at is None:
                vs = []
                for i in range(len(self.kinds)):
                    self.at = i
                    vs.append(self.range().val(a[0]))
                    self.at = None
                g = max if "max" in f else min
                return Val(g(v.lo for v in vs), g(v.hi for v in vs))
        return None


class Exact(Cells):
    """value of an acceptance condition for one track of known values"""

    def __init__(self, ip, track, kinds, inner, facts):
        Cells.__init__(self, ip, {})
        self.scene = Scene(track, kinds, inner, facts)

    def ev(self, t):
        s = self.scene
        if t in s.facts:
            return s.facts[t]
        if t.op in ("attr", "idx"):
            c = s.column(t)
            if c is not None:
                if any(k.get(c) is None for k in s.kinds):
                    raise Unknown("column")
                return [Fraction(k[c].lo) for k in s.kinds]
            if t.op == "attr" and t.args[0].op == "obj":
                if t.val == "innerGridLimit":
                    return INNER if s.inner else {}
                if t.val == "gridLimit":
                    return GRID
                if t.val == "dt":
                    return 1
        return Cells.ev(self, t)


def istrack(t, track):
    return t is track or contains(
        t, lambda x: x.op == "call" and x.args[0].op == "func" and
        x.args[0].val == TG + "._singleTrack")


# ---------------------------------------------------------------- the result
def results(chk, g):
    where = g.call.where
    kept = None
    for mu, (init, nxt) in g.carried.items():
        if init.op == "list" and not init.args:
            apps = [x for x in walk(nxt) if x.op == "append" and
                    x.args[0] is mu]
            if apps:
                kept = (mu, init, nxt, apps)
    chk.need(kept, "the list of kept tracks in generateTracks")
    mu, init, nxt, apps = kept
    # does the function return that list?
    r = g.ip.result
    ok = r.op == "eta" and mk("sym", val=r.val[0]) is mu
    chk.decide("kept", "returned", ok or None, "generateTracks returns %s" %
               show(r, 2), where)
    track = apps[0].args[1]
    if len({a.args[1] for a in apps}) != 1:
        chk.unsure("kept", "track", "several kinds of tracks are kept")
    # inside the loop its own condition holds
    inside = {c: TRUE for c in conjuncts(g.loop.domain)
              if g.loop.domain.op != "dom"}
    inside.update({not_(c): FALSE for c in list(inside)})
    nxt = subst(nxt, inside)
    keep = outcome(nxt, mu, TRUE, FALSE)
    if contains(keep, lambda x: x is mu):
        chk.unsure("kept", "condition", show(keep, 3))
        return
    foreign, pos = [], {}
    own = Scene(track, typical(), False, {})
    for x in atoms(keep):
        if not contains(x, lambda y: own.column(y) is not None) and \
                not contains(x, lambda y: y.op == "attr" and
                             y.val == "innerGridLimit"):
            if x not in pos:
                pos[x] = len(foreign)
                pos[not_(x)] = ~len(foreign)
                foreign.append(x)
    chk.count("other_conditions", len(foreign))
    if len(foreign) > 12:
        chk.unsure("kept", "condition", "%d unrelated conditions" %
                   len(foreign))
        return
    worlds = []
    for vs in itertools.product((True, False), repeat=len(foreign)):
        worlds.append({x: vs[p] if p >= 0 else not vs[~p]
                       for x, p in pos.items()})

    def exact(kinds, inner):
        """kept in some situation, by evaluating the condition"""
        for w in worlds:
            try:
                if Exact(g.ip, track, kinds, inner, w)(keep) is True:
                    return True
            except (Unknown, Outside, ZeroDivisionError, TypeError):
                pass
        return None

    def truth(kinds, inner):
        out = set()
        for w in worlds:
            out.add(Scene(track, kinds, inner, w).range().cond(keep))
            if True in out:
                return True
        return False if out == {False} else None
    # otherwise nothing is decided
    usable = [w for w in worlds if Scene(track, typical(), False, w)
              .range().cond(keep) is True]
    if not usable:
        for w in list(worlds):
            try:
                if Exact(g.ip, track, typical(), False, w)(keep) is True:
                    usable.append(w)
            except (Unknown, Outside, ZeroDivisionError, TypeError):
                pass
    if usable:
        worlds = usable
    else:
        chk.unsure("kept", "condition", "not followed: %s" % show(keep, 4))
    for name, what, inner, rng, points in scenarios():
        kinds = put(rng)
        v = truth(kinds, inner)
        if v is not False:
            rs = [truth(put(p), inner) for p in points]
            if True not in rs:
                rs += [exact(put(p), inner) for p in points]
            v = False if True in rs else None
        else:
            v = True
        chk.decide("kept", name, v, "a track is kept although it " + what,
                   where)
    count(chk, g, mu, nxt, inside, where)


def outcome(nxt, mu, kept, not_kept):
    """the list after one attempt, as a choice of two values"""
    m = {x: kept for x in walk(nxt) if x.op == "append" and x.args[0] is mu}
    return subst(subst(nxt, m), {mu: not_kept})


def put(changes):
    if changes is None:
        return []
    if isinstance(changes, int):
        return typical()[:changes]
    k = typical()
    for i, c, v in changes:
        k[i][c] = v
    return k


def atoms(c, out=None):
    out = [] if out is None else out
    if c.op in ("and", "or", "not"):
        for a in c.args:
            atoms(a, out)
    elif c.op == "phi":
        for a in c.args:
            atoms(a, out)
    elif c not in (TRUE, FALSE):
        out.append(c)
    return out


def count(chk, g, mu, nxt, inside, where):
    """the loop goes on exactly while fewer than nTracks are kept"""
    n = sym("param", "nTracks")
    dom = g.loop.domain
    if dom.op == "dom":
        chk.decide("number", "loop", False if nxt.op == "phi" else True,
                   "the loop makes %s attempts whether or not the track is "
                   "kept" % show(dom.args[0]), where)
        return
    if contains(dom, lambda x: x.op in ("fn", "call", "len") and mu in
                x.args):
        c = subst(dom, {x: sym("kept") for x in walk(dom)
                        if x.op in ("fn", "call", "len") and mu in x.args})
        c = and_(*[x for x in conjuncts(c) if x.op != "iter"])
        chk.decide("number", "loop", equal_cond(c, lt(sym("kept"), n)),
                   "the loop goes on while %s" % show(c), where)
        return
    # another counter that ends the loop whatever was kept
    for c in conjuncts(dom):
        for m in g.carried:
            init, step = g.carried[m]
            d = sub(subst(step, inside), m)
            if has(c, m) and isnum(init) and isnum(d) and d.val > 0 and \
                    c.op in ("lt0", "le0") and len(conjuncts(dom)) > 1:
                chk.violation("number", "loop", "the loop ends when %s, "
                              "whether or not enough tracks are kept" %
                              show(not_(c), 3), where)
                return
    js = [m for m in g.carried if has(dom, m) and isnum(g.carried[m][0])]
    if len(js) != 1:
        chk.unsure("number", "loop", show(dom, 3))
        return
    j = js[0]
    init, step = g.carried[j]
    step = subst(step, inside)
    # a counter set from the length of the list
    step = subst(step, {x: add(j, ONE) if mu not in x.args else j
                        for x in walk(step) if x.op in ("fn", "call", "len")
                        and x.args and (x.args[-1] is mu or
                                        x.args[-1].op == "append" and
                                        x.args[-1].args[0] is mu)})
    want = outcome(nxt, mu, add(j, ONE), j)
    same_ = want is step
    if not same_:
        # the counter moves without a track being kept, or the reverse
        d = set()
        for cs, t in leaves_of(step):
            for cs2, t2 in leaves_of(want):
                if and_(*(cs + cs2)) is FALSE:
                    continue
                x = sub(t, t2)
                d.add(isnum(x) and x.val == 0)
        same_ = True if d == {True} else None
        if same_ is None and step.op != "phi" and want.op == "phi":
            same_ = False
        if same_ is None:
            same_ = False if not opaque_in(step) and not opaque_in(want) \
                else None
    chk.decide("number", "counter", same_, "the counter of kept tracks "
               "becomes %s" % show(step, 2), where)
    chk.decide("number", "start", equal(init, ZERO),
               "the counter starts at %s" % show(init), where)
    chk.decide("number", "loop", equal_cond(dom, lt(j, n)),
               "the loop goes on while %s" % show(dom, 3), where)


def lt(a, b):
    return mk("lt0", sub(a, b))


def equal_cond(a, b):
    if a is b:
        return True
    if a.op in ("lt0", "le0") and b.op in ("lt0", "le0"):
        if a.op == b.op:
            return equal(a.args[0], b.args[0])
        d = sub(a.args[0], b.args[0])
        # integers: x <= y - 1 is x < y
        if isnum(d):
            return d.val == (1 if a.op == "le0" else -1)
    return None


# ------------------------------------------------------------------ domain
SIDES = (("west", 0, (-200., 89.99), (80., 89.9)),
         ("east", 0, (180.01, 400.), (180.1, 190.)),
         ("south", 1, (-90., -40.01), (-40.1, -60.)),
         ("north", 1, (0.01, 90.), (0.1, 20.)))


def limits(t):
    if t.op == "idx" and len(t.args) == 2 and isstr(t.args[1]) and \
            t.args[0].op in ("attr", "sym") and \
            str(t.args[0].val if t.args[0].op == "attr"
                else t.args[0].val[-1]) == "gridLimit":
        d = GRID.get(strval(t.args[1]))
        return None if d is None else Val(d)
    return None


def domain(prog, chk, g):
    s = Step(prog, chk, g)
    lon, lat = (s.step(s.column[c]) if c in s.column else None
                for c in ("Longitude", "Latitude"))
    if lon is None or lat is None:
        chk.unsure("domain", s.q, "columns not found")
        return
    goes = []       # conditions under which position k+1 is kept
    for j, (cs, t) in enumerate(s.leaves):
        it = tuple_items(t)
        c = and_(*[s.tidy(x) for x in cs])
        c = rewrite(c, lambda x: TRUE if x.op == "iter" else None)
        if it is None:
            chk.unsure("domain", "end%d" % j, show(t, 2))
            continue
        his = [x.args[1].args[1] for x in it if x.op == "idx" and
               len(x.args) == 2 and x.args[1].op == "slice"]
        if not his:
            goes.append(("end%d" % j, c))
            continue
        d = sub(his[0], add(s.k, ONE))
        if not isnum(d):
            chk.unsure("domain", "end%d" % j, show(his[0]))
        elif d.val > 0:
            goes.append(("end%d" % j, c))
        else:
            chk.ok("domain", "end%d" % j)
    chk.need(goes, "a way for a position to be kept in _singleTrack")
    for name, c in goes:
        for side, i, r, ps in SIDES:
            v = outside(c, (lon, lat), i, Val(*r))
            if v is False:
                v = True
            else:
                rs = [outside(c, (lon, lat), i, Val(p)) for p in ps]
                v = False if any(x is not False and relies(c, lon, lat)
                                 for x in rs) else None
            chk.decide("domain", "%s:%s" % (name, side), v,
                       "a position %s of the domain is kept" % side,
                       s.where)
    genesis(prog, chk, g)


def outside(c, pos, i, v):
    inside = (Val(140.), Val(-15.))

    def known(t):
        if t is pos[i]:
            return v
        if t is pos[1 - i]:
            return inside[1 - i]
        return limits(t)
    return Range(known).cond(c)


def relies(c, lon, lat):
    """nothing in c that was not followed mentions the position"""
    for x in atoms(c):
        if (has(x, lon) or has(x, lat)) and x.op not in (
                "lt0", "le0", "eq0", "ne0") and not contains(
                    x, lambda y: y.op == "mcall"):
            return False
    return True


def genesis(prog, chk, g):
    """the first position is tested when its cell is looked up"""
    q = "Utilities.stats.getCellNum"
    es = [e for e in calls_to(g.ip, "getCellNum")
          if g.loop.uid in e.loops]
    if not es:
        chk.unsure("domain", "genesis", "no cell lookup")
        return
    want = [g.vals.get(g.role.get("initLon")),
            g.vals.get(g.role.get("initLat"))]
    ok = any(arg(e, "lon", 0) is want[0] and arg(e, "lat", 1) is want[1]
             for e in es)
    chk.decide("domain", "genesis", ok or None, "the cell looked up is not "
               "that of the genesis position", es[0].where)
    ip = analyse(prog, chk, q)
    raises = [e for e in ip.trace if e.kind == "raise"]
    if not raises:
        chk.decide("domain", q, False, "a position outside the domain is "
                   "given a cell", prog.where(q))
        return
    P = (sym("param", "lon"), sym("param", "lat"))
    inside = (140.5, -15.5)
    for side, i, r, ps in SIDES:
        v = []
        for x in [Val(*r)] + [Val(p) for p in ps]:
            def known(t, x=x):
                if t is P[i]:
                    return x
                if t is P[1 - i]:
                    return Val(inside[1 - i])
                return limits(t)
            rs = [Range(known).cond(e.cond()) for e in raises]
            v.append(True if True in rs else None if None in rs else False)
        chk.decide("domain", "genesis:" + side, True if v[0] is True else
                   False if False in v[1:] else None,
                   "a genesis %s of the domain is accepted" % side,
                   prog.where(q))


# ------------------------------------------------------------------- drawn
def drawn(prog, chk):
    q = M + ".run"
    chk.need(q in prog.funcs, q)
    ip = analyse(prog, chk, q, opaque=[TG, TG + ".generateTracks",
                                       "Utilities.track.ncSaveTracks",
                                       TG + ".loadCellStatistics",
                                       TG + ".loadInitialCondition"
                                       "Distributions"])
    es = calls_to(ip, "generateTracks")
    chk.need(es, "call of generateTracks in run")
    for e in es:
        n = item_of(prog, ip, arg(e, "nTracks", 1))
        i = item_of(prog, ip, arg(e, "simId", 2))
        if n is None or i is None:
            chk.unsure("number", "drawn", show(arg(e, "nTracks", 1), 4))
            continue
        def poisson(x):
            return x.op == "mcall" and x.val == "poisson" or \
                x.op == "call" and x.args[0].op == "ext" and \
                x.args[0].val.endswith(".poisson")
        ok = contains(n, poisson)
        pure = n.op == "idx" and poisson(n.args[0])
        v = True if pure and n.args[1] is i else None
        if v is None and ok:
            own = [x for x in walk(n) if x.op == "idx" and
                   len(x.args) == 2 and poisson(x.args[0])]
            for x in own:
                d, e_ = sub(n, x), sub(x.args[1], i)
                if isnum(d) and d.val or isnum(e_) and e_.val:
                    v = False
            if contains(n, lambda x: x.op == "call" and x.args[0].op == "ext"
                        and x.args[0].val.endswith("cumsum")):
                v = False
        if v is None:
            v = shared_counts(ip, n, i, poisson)
        chk.decide("number", "drawn", v, "simulation %s makes %s tracks" % (
            show(i, 3), show(n, 3)), e.where)
        saves = [x for x in calls_to(ip, "ncSaveTracks")]
        for x in saves:
            t = arg(x, "tracks", 1)
            chk.decide("number", "saved", True if t is e.term else
                       False if t.op == "idx" and t.args[0] is e.term
                       else None, "the tracks saved are %s" %
                       show(t, 3), x.where)


def shared_counts(ip, n, i, poisson):
    """the number of tracks evaluated for each of five simulations"""
    draws = [4, 0, 7, 2, 9]
    env = {x: draws for x in walk(n) if poisson(x)}
    try:
        for s, want in enumerate(draws):
            env[i] = s
            if Cells(ip, env)(n) != want:
                return False
        return True
    except (Unknown, Outside, TypeError):
        return None
