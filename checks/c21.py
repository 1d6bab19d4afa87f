"""C21: no rate of change is formed across two different cyclones."""
from .records import *
from .c24 import said, Unknown as NotSaid
from .c30 import Cells, Outside
from sa.pointwise import Unknown

ONE_BACK = ("pressure_rate", "rmax_rate", "all_bearing", "all_speed")
TWO_BACK = ("bearing_rate", "speed_rate")
DEPTH = {"pressure_rate": 1, "rmax_rate": 1, "all_bearing": 1,
         "all_speed": 1, "bearing_rate": 2, "speed_rate": 2}
VARIANTS = [("dates", dict(dated=True)), ("ages", dict(dated=False)),
            ("dates in the wind field domain",
             dict(dated=True, restrict=True))]
INIT = "Utilities.loadData.getInitialPositions"
SPB = "Utilities.loadData.getSpeedBearing"


def check(prog, chk):
    chk.rule("first", "at a record flagged as the first of a cyclone the "
             "saved rate (and the displacement it is formed from) is missing")
    chk.rule("second", "at the second record of a cyclone rates of bearing "
             "and speed are missing")
    chk.rule("reach", "a rate at record k uses records k and k-1 only (and "
             "k-2 for rates of bearing and speed), never later ones")
    chk.rule("split", "a jump of position between two records starts a new "
             "cyclone for every rate")
    chk.rule("flag", "the flag is set at every record whose cyclone differs "
             "from the record before")
    s = Saved(prog, chk)
    for tag, kw in VARIANTS:
        for name in ONE_BACK + TWO_BACK:
            chk.need(name in s.files, "saved file " + name)
            e = element_of(chk, s, "first", name, **kw)
            if e is None:
                continue
            con = "%s(%s)" % (name, tag)
            w = s.where[name]
            v, d = Scene({("new", 0): Val(1.)}).always(e, missing)
            chk.decide("first", con, v, "at the first record of a cyclone "
                       "%s %s" % (name, d), w)
            if name in TWO_BACK:
                v, d = Scene({("new", 0): Val(0.), ("new", -1): Val(1.)}
                             ).always(e, missing)
                chk.decide("second", con, v, "at the second record of a "
                           "cyclone %s %s" % (name, d), w)
            for what, side, a, b in (
                    ("lon", "", 100., 130.), ("lat", "", -20., -10.),
                    ("lon", ":west", 170., 60.), ("lat", ":south", 15., -15.)):
                f = {("new", 0): Val(0.), ("new", -1): Val(0.)}
                f[(what, -1)] = Val(a)
                f[(what, 0)] = Val(b)
                v, d = Scene(f).always(e, missing)
                chk.decide("split", con + ":" + what + side, v, "after a jump of "
                           "%s %s %s" % (what, name, d), w)
            reach(chk, e, name, con, w)
    flag(prog, chk)
    loading(prog, chk)
    speedbearing(prog, chk)


def reach(chk, e, name, con, w):
    bad, odd = [], []
    for q, p in refs(e):
        base, c = offset_of(p, K)
        if base is None:
            # the restricted domain selects records first: positions are
            # taken in the selection
            odd.append((q, show(p, 3)))
        elif not -DEPTH[name] <= c <= 0:
            bad.append("%s of record k%+d" % (q, c))
    if bad:
        chk.decide("reach", con, False, "%s at record k uses %s" % (
            name, ", ".join(sorted(bad))), w)
    elif odd:
        chk.unsure("reach", con, repr(odd[:3]))
    else:
        chk.ok("reach", con)
    # records left out of the input are left out of all columns
    kept = {}
    for q, p in refs(e):
        kept.setdefault(frozenset(peel(p)[0]), set()).add(q)
    most = max(kept, key=len) if kept else frozenset()
    for f, qs in sorted(kept.items(), key=lambda x: sorted(x[1])):
        if f != most:
            chk.decide("reach", con + ":rows", False if f < most else None,
                       "%s of %s are those of the records before some are "
                       "left out, %s those after" % (
                           ", ".join(sorted(qs)), name,
                           ", ".join(sorted(kept[most]))), w)
    if len(kept) == 1:
        chk.ok("reach", con + ":rows")


def leaves(t):
    """results of the different ways through the handlers"""
    if t.op == "phi" and all(
            x.op == "sym" and x.val[0] == "exc" or
            x.op == "not" and x.args[0].op == "sym" and
            x.args[0].val[0] == "exc" for x in conjuncts(t.args[0])):
        return leaves(t.args[1]) + leaves(t.args[2])
    return [t]


# identifiers that differ in one part only
SERIALS = [("1990008S12145", "1990009S12145"), ("1990008S12145",
                                                "1991008S12145"),
           ("1990008S12145", "1990008S12146"), ("1990008S12145",
                                                "1990008N12145")]


def serial(e, data, a, b):
    """is the flag 1 for a record with text b after one with text a?"""
    def known(x):
        if x.op in ("eq0", "ne0", "cmp", "call", "mcall") and \
                contains(x, lambda y: y is data):
            try:
                v = said(x, leaf)
            except NotSaid:
                return None
            return Val(float(v)) if isinstance(v, bool) else None
        return None

    def leaf(x):
        if x.op == "idx" and len(x.args) == 2 and isstr(x.args[1]) and \
                x.args[0].op == "idx" and x.args[0].args[0] is data:
            d = sub(x.args[0].args[1], K)
            return b if d is ZERO else a if isnum(d) and d.val == -1 \
                else None
        return None

    class Texts(Range):
        def cond(self, t):
            v = known(t)
            return Range.cond(self, t) if v is None else v.lo == 1

    v = Texts(lambda x: None).val(e)
    return v.lo == 1 if v.exact else None


def flag(prog, chk):
    """getInitialPositions for each kind of identification"""
    chk.need(INIT in prog.funcs, INIT)
    ip = analyse(prog, chk, INIT)
    data = sym("param", "data")
    el = Elements(lambda t: t is data)
    n = 0
    for t in leaves(ip.result):
        cols = sorted({strval(x.args[1]) for x in walk(t) if x.op == "idx"
                       and x.args[0] is data and isstr(x.args[1])})
        con = "%s(%s)" % (INIT, "+".join(cols))
        if not cols or cols == ["index"]:
            continue
        n += 1
        try:
            e, e0 = el.at(t, K), el.at(t, ZERO)
        except Unknown as ex:
            chk.unsure("flag", con, show(ex.args[0], 4))
            continue
        where = prog.where(INIT)
        chk.decide("flag", con + ":first record",
                   True if e0 is ONE or e0 is TRUE else
                   False if isnum(e0) or Range(
                       lambda x: Val(5.) if x.op == "idx" and
                       isstr(x.args[1]) else None).cond(truth(e0)) is False
                   else None,
                   "the flag of the very first record is %s" % show(e0, 3),
                   where)
        for bits in range(1, 2 ** len(cols)):
            for a, b in ((5., 6.), (6., 5.), (5., 9.)):
                differ = {c: bool(bits >> i & 1) for i, c in enumerate(cols)}

                def known(x):
                    if x.op == "idx" and len(x.args) == 2 and \
                            isstr(x.args[1]) and x.args[0].op == "idx" and \
                            x.args[0].args[0] is data:
                        d = sub(x.args[0].args[1], K)
                        if d is ZERO:
                            return Val(b if differ[strval(x.args[1])] else a)
                        if isnum(d) and d.val == -1:
                            return Val(a)
                        if not rest or not isnum(d):
                            return ANY
                        return Val(a if d.val < 0 else b)
                    return None
                rest = False
                v = Range(known).val(e)
                if not v.exact:
                    # the other records like the nearer of the two
                    rest = True
                    w = Range(known).val(e)
                    v = w if w.exact and w.lo == 0 else v
                ch = "+".join(c for c in cols if differ[c])
                ok = True if v.exact and v.lo == 1 else \
                    False if v.exact and v.nan is False else \
                    True if v.nan is False and v.lo > 0 else None
                chk.decide("flag", con + ":" + ch, ok, "a record whose %s "
                           "changes from %g to %g is not flagged as the "
                           "first of a cyclone (%r)" % (ch, a, b, v), where)
        if cols == ["tcserialno"]:
            for a, b in SERIALS:
                r = serial(e, data, a, b)
                chk.decide("flag", con + ":%s" % b, r, "a record with "
                           "identifier %s after one with %s is not flagged "
                           "as the first of a cyclone" % (b, a), where)
    chk.need(n, "identification columns of " + INIT)


def speedbearing(prog, chk):
    """the same rule where track files are read"""
    if SPB not in prog.funcs:
        return
    ip = analyse(prog, chk, SPB, opaque=[AZI])
    parts = tuple_items(ip.result) if ip.result is not None else None
    if parts is None or len(parts) != 2:
        chk.unsure("first", SPB, "result not found")
        return
    names = ("index", "lon", "lat", "deltatime")
    P = {n: sym("param", n) for n in names}
    el = Elements(lambda t: t in P.values(), calls=(AZI,))
    for what, t in zip(("speed", "bearing"), parts):
        con = SPB + ":" + what
        try:
            e = el.at(t, K)
        except Unknown as ex:
            chk.unsure("first", con, show(ex.args[0], 4))
            continue
        mv = sym("param", "missingValue")

        def known(x, n=None):
            if x is mv:
                return Val(M)
            if x.op == "idx" and x.args[0] is P["index"]:
                d = sub(x.args[1], K)
                return Val(1.) if d is ZERO else Val(0., 1.) \
                    if n is None else Val(0.)
            if n is None:
                return None
            if x.op == "idx" and x.args[0] is P["deltatime"]:
                return Val(6.)
            if x.op == "idx" and iscall(x.args[0], AZI):
                return Val(100.)
            return None
        v = Range(known).val(e)
        verdict = True if missing(v) else None
        if verdict is None:
            w = Range(lambda x: known(x, 1)).val(e)
            if w.exact and present(w):
                verdict = False
        chk.decide("first", con, verdict, "at the first record of a cyclone "
                   "the %s can be %r" % (what, v), prog.where(SPB))


# ------------------------------------------------------------ track loading
LD = "Utilities.loadData."
PARTS = [LD + x for x in (
    "getSpeedBearing", "maxWindSpeed", "getInitialPositions", "parseDates",
    "parseAge", "getTimeElapsed", "getTimeDelta", "julianDays",
    "ltmPressure", "getPoci", "filterPressure", "getMinPressure",
    "getMaxWind", "getTime")] + ["Utilities.columns.colReadCSV",
                                 "Utilities.metutils.convert"]
LON = [100, 101, 102, 130, 131, 132, 133, 134, 60, 59, 60]
LAT = [-20, -19, -19, -19, -18, -18, -8, -7, -6, -7, -20]


def loading(prog, chk):
    """the flag of the first record when tracks are loaded"""
    q = LD + "loadTrackFile"
    chk.need(q in prog.funcs, q)
    ip = analyse(prog, chk, q, opaque=[x for x in PARTS if x in prog.funcs])
    n = 0
    used = []
    for e in ip.trace:
        if e.kind == "call" and e.fn.op == "func" and e.fn.val in (
                LD + "getSpeedBearing", LD + "maxWindSpeed"):
            used.append((e.fn.val.split(".")[-1], arg(e, "index", 0), e))
        for a in e.args if e.kind in ("setitem", "setattr") else ():
            for x in walk(a):
                if iscall(x, "numpy.cumsum") and len(x.args) > 1 and \
                        not any(u[1] is x.args[1] and u[0] == "number"
                                for u in used):
                    used.append(("number", x.args[1], e))
    for what, t, e in used:
        if t is None:
            continue
        env = {}
        for x in walk(t):
            if x.op == "idx" and len(x.args) == 2 and isstr(x.args[1]) and \
                    strval(x.args[1]) in ("lon", "lat"):
                env[x] = LON if strval(x.args[1]) == "lon" else LAT
            if iscall(x, LD + "getInitialPositions"):
                env[x] = [1] + [0] * (len(LON) - 1)
        try:
            got = Cells(ip, env)(t)
        except (Unknown, Outside, TypeError, IndexError, ValueError) as x:
            chk.unsure("split", "%s:%s" % (q, what), str(x)[:100])
            continue
        n += 1
        want = [1, 0, 0, 1, 0, 0, 1, 0, 1, 0, 1]
        chk.decide("split", "%s:%s" % (q, what), got == want or (
            False if isinstance(got, list) else None),
            "with jumps before records 3, 6, 8 and 10 the first records are flagged "
            "as %s" % got, e.where)
    chk.count("flags of loaded tracks", n)
