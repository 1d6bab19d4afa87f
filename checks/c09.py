"""C09: the columns of a track describe the same instants and advance
consistently."""
from fractions import Fraction
from .tracks import *
from sa.lib import DAY
from sa.kinds import keeps_fractions, returned, used_in

MOVE = "Utilities.maputils.bear2LatLon"
START = {"Longitude": "initLon", "Latitude": "initLat",
         "Speed": "initSpeed", "Bearing": "initBearing",
         "CentralPressure": "initPressure", "rMax": "initRmax",
         "EnvPressure": "initEnvPressure", "Datetime": "initDay"}


def check(prog, chk):
    chk.rule("columns", "every way a track ends returns one array per named "
             "column, all of the same length, with every element given")
    chk.rule("time", "element k of the time columns is k time steps after "
             "genesis")
    chk.rule("move", "position k is position k-1 moved along bearing k-1 "
             "for one time step at speed k-1")
    chk.rule("start", "element 0 of a column is the genesis value of the "
             "quantity the column is named after")
    chk.rule("path", "moving a position follows the great circle of the "
             "bearing")
    g = Generation(prog, chk)
    s = Step(prog, chk, g)
    for n in COLUMNS:
        chk.decide("columns", "named:" + n, n in s.names,
                   "no column is handed on as " + n, g.call.where)
    lengths(chk, s)
    for n in COLUMNS[1:]:
        if n not in s.column:
            chk.unsure("start", n, "column not found")
    start(chk, s, g)
    time(chk, s)
    move(chk, s)
    great_circle(prog, chk)
    fractions(prog, chk)


def fractions(prog, chk):
    for q, f in sorted(prog.funcs.items()):
        if not q.startswith("TrackGenerator.TrackGenerator."):
            continue
        used = used_in(f.node, "bear2LatLon")
        if used:
            names = returned(f.node, first=1) | used
            keeps_fractions(chk, prog, "columns", q, names)


# ---------------------------------------------------------------- lengths
def size_of(t):
    """number of elements a term was allocated with"""
    while t.op in ("store", "phi", "eta"):
        t = t.args[1] if t.op == "phi" else t.args[0]
    return t.args[0] if t.op == "full" else None


def lengths(chk, s):
    chk.count("ways_a_track_ends", len(s.leaves))
    for j, (cs, t) in enumerate(s.leaves):
        if t.op not in ("tuple", "list") or len(t.args) != len(s.names):
            chk.unsure("columns", "end%d" % j, show(t, 2))
            continue
        his = []
        for n, a in zip(s.names, t.args):
            r = s.root(a)
            if r is not None and r is not s.column.get(n):
                other = [m for m in s.column if s.column[m] is r]
                chk.decide("columns", "end%d:%s" % (j, n),
                           False if other else None, "%s is returned as %s "
                           "there" % (", ".join(other) or show(r), n),
                           s.where)
                continue
            if a.op == "idx" and len(a.args) == 2 and \
                    a.args[1].op == "slice":
                lo, hi, st = a.args[1].args
                if lo is not NONE and lo is not ZERO or \
                        st is not NONE and st is not ONE:
                    chk.decide("columns", "end%d:%s" % (j, n), False,
                               "%s starts at element %s" % (n, show(lo)),
                               s.where)
                    continue
                his.append((n, a.args[0], hi))
            elif s.root(a) is not None or a.op == "full":
                his.append((n, a, None))
        if not his:
            chk.unsure("columns", "end%d" % j, show(t, 2))
            continue
        ref = [h for n, _, h in his if n != "CycloneNumber"]
        cut = [h for h in ref if h is not None]
        common = max(cut, key=lambda h: sum(1 for x in cut if x is h)) \
            if len(cut) * 2 >= len(ref) and cut else None
        for n, a, h in his:
            con = "end%d:%s" % (j, n)
            if h is not common:
                d = sub(h, common) if h is not None and common is not None \
                    else None
                chk.decide("columns", con, False if d is None or isnum(d)
                           else None, "%s has %s elements, the other "
                           "columns %s" % (
                               n, "all" if h is None else show(h),
                               "all" if common is None else show(common)),
                           s.where)
                continue
            if common is None:
                full(chk, s, con, n, a)
                continue
            if s.root(a) is None:
                chk.ok("columns", con)
                continue
            e = s.element(a, sub(common, ONE))
            v = True
            if contains(e, lambda x: x is UNSET):
                v = False
            elif opaque_in(e) or e.op == "idx":
                v = None
            # one more than has been simulated?
            d = sub(common, add(s.k, ONE))
            if v is True and not isnum(d):
                v = None
            chk.decide("columns", con, v, "the last of the %s elements of "
                       "%s was never given" % (show(common), n), s.where)


def full(chk, s, con, n, a):
    """a column returned whole: the loop must have filled all of it"""
    mu = s.root(a)
    if mu is None:
        chk.ok("columns", con)
        return
    nxt = s.mus[mu][1]
    e = s.element(nxt, add(s.k, ONE))
    dom = s.domain
    size = size_of(s.mus[mu][0])
    if contains(e, lambda x: x is UNSET):
        chk.decide("columns", con, False, "some element of %s is not given "
                   "in a step" % n, s.where)
    elif size is not None and dom.op == "dom":
        d = sub(dom.args[0], sub(size, ONE))
        chk.decide("columns", con, True if d is ZERO else
                   False if isnum(d) else None,
                   "%s has %s elements but the loop makes %s steps" % (
                       n, show(size), show(dom.args[0])), s.where)
    elif size is None and s.mus[mu][0].op in ("list", "arr"):
        chk.ok("columns", con)
    else:
        chk.unsure("columns", con, show(dom, 3))


# ------------------------------------------------------------------ values
def start(chk, s, g):
    for n, q in sorted(START.items()):
        mu = s.column.get(n)
        p = g.role.get(q)
        if mu is None or p is None:
            continue
        t = s.first(mu)
        want = sym("param", p)
        if n == "EnvPressure":
            # adjusted for the cyclone itself
            ok = True if has(t, want) else False
            if t.op == "call":
                a = {x.val: x.args[0] for x in t.args[1:] if x.op == "kw"}
                if "penv" in a:
                    ok = a["penv"] is want and a.get("pcentre") is \
                        sym("param", g.role.get("initPressure", "?")) and \
                        a.get("lat") is \
                        sym("param", g.role.get("initLat", "?"))
        else:
            ok = equal(t, want)
        chk.decide("start", n, ok, "%s starts with %s" % (n, show(t, 3)),
                   s.where)
    mu = s.column.get("TimeElapsed")
    if mu is not None:
        chk.decide("start", "TimeElapsed", equal(s.first(mu), ZERO),
                   "TimeElapsed starts with %s" % show(s.first(mu), 3),
                   s.where)


def dt_of(s):
    return mk("attr", SELF, val="dt")


def time(chk, s):
    dt = dt_of(s)
    k = s.k
    a, d = s.column.get("TimeElapsed"), s.column.get("Datetime")
    forms = {}
    if a is not None:
        forms[prev(a)] = mul(dt, k)
    if d is not None:
        forms[prev(d)] = add(s.first(d), mul(num(Fraction(1, 24)), dt, k,
                                             DAY))
    # locations that keep pace with them
    for mu in s.mus:
        st = s.step(mu)
        if mu in (a, d):
            continue
        if st is add(prev(mu), dt):
            forms[prev(mu)] = add(s.first(mu), mul(dt, k))
    for n, mu in (("TimeElapsed", a), ("Datetime", d)):
        if mu is None:
            continue
        got = subst(s.step(mu), forms)
        want = subst(forms[prev(mu)], {k: add(k, ONE)})
        r = equal(got, want)
        if r is False and contains(got, lambda x: x.op == "store"):
            r = None
        chk.decide("time", n, r,
                   "%s of step k+1 is %s" % (n, show(s.step(mu), 5)),
                   s.where)


def move(chk, s):
    lon, lat = s.column.get("Longitude"), s.column.get("Latitude")
    sp, be = s.column.get("Speed"), s.column.get("Bearing")
    if None in (lon, lat, sp, be):
        chk.unsure("move", s.q, "columns not found")
        return
    dt = dt_of(s)
    for n, mu, i in (("Longitude", lon, 0), ("Latitude", lat, 1)):
        t = s.step(mu)
        if not (t.op == "idx" and t.args[0].op == "call" and
                t.args[0].args[0].op == "func" and
                t.args[0].args[0].val == MOVE and isnum(t.args[1])):
            # is the position kept or moved in another way?
            chk.decide("move", n, False if not contains(
                t, lambda x: x.op == "call") and not opaque_in(t) else None,
                "%s of step k+1 is %s" % (n, show(t, 4)), s.where)
            continue
        chk.decide("move", n, int(t.args[1].val) == i,
                   "%s is component %s of the new position" %
                   (n, show(t.args[1])), s.where)
        a = {x.val: x.args[0] for x in t.args[0].args[1:] if x.op == "kw"}
        want = {"oLon": prev(lon), "oLat": prev(lat), "bearing": prev(be),
                "distance": mul(dt, prev(sp))}
        if set(a) != set(want):
            chk.unsure("move", n + ":arguments", show(t, 4))
            continue
        for x in sorted(want):
            r = True if a[x] is want[x] else s.holds(a[x], want[x])
            if r is False and not any(has(a[x], prev(m)) for m in s.mus):
                r = False
            chk.decide("move", "%s:%s" % (n, x), r,
                       "the position moves with %s = %s" % (
                           x, show(a[x], 4)), s.where)


RADII = ["6367", "6371", "6378", "6378.1", "6378.137", "6371.0088",
         "6370", "6367.445", "6372.795", "6371.009", "6366.71"]


def great_circle(prog, chk):
    chk.need(MOVE in prog.funcs, MOVE)
    ip = analyse(prog, chk, MOVE)
    P = {n: sym("param", n) for n in ("bearing", "distance", "oLon", "oLat")}
    it = tuple_items(ip.result, 2)
    if it is None:
        chk.unsure("path", MOVE, show(ip.result, 3))
        return
    rad = div(PI, num(180))
    lo, la, b = (mul(P[n], rad) for n in ("oLon", "oLat", "bearing"))
    out = [None, None]
    for R in RADII:
        d = div(P["distance"], num(Fraction(R)))
        y = fn("arcsin", add(mul(fn("sin", la), fn("cos", d)),
                             mul(fn("cos", la), fn("sin", d),
                                 fn("cos", b))))
        x = add(lo, fn("arctan2", mul(fn("sin", b), fn("sin", d),
                                      fn("cos", la)),
                       sub(fn("cos", d), mul(fn("sin", la),
                                             fn("sin", y)))))
        rs = [equal(it[0], div(x, rad)), equal(it[1], div(y, rad))]
        for i in (0, 1):
            if rs[i] is True:
                out[i] = True
            elif rs[i] is False and out[i] is None:
                out[i] = False
        if out == [True, True]:
            break
    for i, n in enumerate(("longitude", "latitude")):
        chk.decide("path", "%s:%s" % (MOVE, n), out[i],
                   "the new %s is %s" % (n, show(it[i], 5)),
                   prog.where(MOVE))
