"""C07: prescribed genesis values are used, others are drawn per track."""
from fractions import Fraction
from sa.pointwise import Unknown
from .tracks import *
from .c30 import Cells, Outside
from .c09 import START

# quantity -> distribution it is drawn from, and the file that holds it
FROM = {"initBearing": ("allCDFInitBearing", "all_cell_cdf_init_bearing"),
        "initSpeed": ("allCDFInitSpeed", "all_cell_cdf_init_speed"),
        "initPressure": ("allCDFInitPressure", "all_cell_cdf_init_pressure"),
        "initDay": ("allCDFInitDay", "all_cell_cdf_init_day")}
CELL = "Utilities.stats.getCellNum"
LOAD = TG + ".loadInitialConditionDistributions"


def check(prog, chk):
    chk.rule("given", "a prescribed value reaches the track unchanged, for "
             "any number including 0")
    chk.rule("fresh", "a value that is not prescribed comes from draws made "
             "for this track, not from an earlier track")
    chk.rule("source", "it is drawn from the distribution of its own "
             "quantity, or derived from the track's own genesis")
    chk.rule("cell", "the distribution is that of the cell of the track's "
             "own genesis position")
    chk.rule("file", "the distribution of a quantity is read from the file "
             "of that quantity")
    chk.rule("inverse", "a draw picks the value at which the cumulative "
             "distribution reaches a uniform number")
    g = Generation(prog, chk)
    w = g.call.where
    for q in GIVEN:
        given(chk, g, q, w)
    for q in GIVEN:
        for tag, others in (("alone", []), ("all", GIVEN)):
            drawn(chk, g, q, tag, others, w)
    s = Step(prog, chk, g)
    for col, q in sorted(START.items()):
        mu, n = s.column.get(col), g.role.get(q)
        if mu is None or n is None:
            continue
        t = s.first(mu)
        want = sym("param", n)
        ok = has(t, want) if col == "EnvPressure" else equal(t, want)
        chk.decide("given", "column:" + col, ok, "the track's %s starts with "
                   "%s where %s was chosen" % (col, show(t, 3), q), s.where)
    files(prog, chk)
    inverse(prog, chk)


def value(g, q, other):
    t = g.vals.get(g.role.get(q))
    return None if t is None else g.with_values(g.first(t), other)


def given(chk, g, q, w):
    con = "generateTracks:" + q
    n = g.role.get(q)
    if n is None:
        # does any argument depend on it at all?
        s = sym("param", q)
        used = [x for x, t in g.vals.items() if has(t, s)]
        if not used:
            chk.violation("given", con, "a prescribed %s does not reach the "
                          "simulated track" % q, w)
        else:
            chk.unsure("given", con, "reaches %s" % used)
        return
    t = g.vals[n]
    carried = g.stale(t)
    for what, v in (("zero", ZERO), ("negative", num(-7)),
                    ("positive", num(31)), ("medium", num(187)),
                    ("large", num(640)), ("huge", num(5000))):
        x = value(g, q, {q: v})
        if q == "initDay":
            r = True if has(x, v) and not drawn_from(
                x, FROM[q][0]) else False
            if what not in ("positive", "medium") and r is False and not contains(
                    x, lambda y: y.op == "attr" and y.val == FROM[q][0]):
                r = None
        else:
            r = True if x is v else False if isnum(x) or contains(
                x, israndom) or contains(x, isdist) else None
        chk.decide("given", "%s:%s" % (con, what), r,
                   "prescribed %s = %s gives %s" % (q, show(v), show(x, 3)),
                   w)
    # later tracks
    nxt = {m: g.first(g.carried[m][1]) for m in carried}
    ok = True
    for m in carried:
        later = g.with_values(nxt[m], {})
        x = g.with_values(subst(t, {m: nxt[m]}), {})
        y = g.with_values(g.first(t), {})
        if equal(x, y) is False:
            ok = False
        elif equal(x, y) is None and ok:
            ok = None
    chk.decide("given", con + ":later", ok, "the value of a later track "
               "differs from the prescribed one", w)


def isdist(t):
    return t.op == "attr" and str(t.val).startswith("allCDFInit") or \
        t.op == "mcall" and t.val in ("get_pressure", "ppf")


def drawn_from(t, name):
    return contains(t, lambda y: y.op == "attr" and y.val == name)


def drawn(chk, g, q, tag, others, w):
    con = "generateTracks:%s:%s" % (q, tag)
    n = g.role.get(q)
    if n is None:
        return
    none = {o: NONE for o in others}
    none[q] = NONE
    t = g.vals[n]
    # nothing kept from an earlier track
    keep = g.stale(t)
    if keep:
        bad = None
        for m in keep:
            nxt = g.carried[m][1]
            if contains(nxt, israndom) or contains(nxt, isdist):
                bad = m
        x = g.with_values(subst(t, {m: g.carried[m][1] for m in keep}), none)
        chk.decide("fresh", con, False if bad is not None else None,
                   "%s takes over a value of the previous track (%s)" %
                   (q, ", ".join(show(m) for m in keep)), w)
    x = value(g, q, none)
    draws = [y for y in walk(x) if israndom(y)]
    if q == "initDay":
        # the year and the hour are drawn too
        picks = [y for y in walk(x) if y.op == "call" and
                 y.args[0].op == "func" and y.args[0].val == M + ".ppf"]
        draws = [y for p in picks for y in walk(p) if israndom(y)]
        x = picks[0] if len(picks) == 1 else x
    if q == "initEnvPressure":
        own = [value(g, o, none) for o in ("initLat", "initLon")]
        calls = [y for y in walk(x) if y.op == "mcall" and
                 y.val == "get_pressure"]
        if not calls:
            chk.decide("source", con, False if isnum(x) or x is NONE
                       else None, "environmental pressure is %s" %
                       show(x, 3), w)
            return
        items = leaves(calls[0].args[1])
        if len(items) != 3:
            chk.unsure("source", con, show(calls[0], 4))
            return
        ok = items[1] is own[0] and items[2] is own[1]
        if "initDay" in none:
            ok = ok and drawn_from(items[0], FROM["initDay"][0])
        else:
            ok = ok and has(items[0], g.number["initDay"])
        # the day of the year, not the day of the month
        ok = ok and not (items[0].op == "attr" and items[0].val in (
            "day", "month", "year", "hour", "minute"))
        chk.decide("source", con, bool(ok), "environmental pressure is taken "
                   "at %s" % ", ".join(show(i, 3) for i in items), w)
        return
    if not draws:
        chk.decide("fresh", con, False if isnum(x) or x is NONE or
                   not opaque_in(x) else None,
                   "%s is %s, without any draw" % (q, show(x, 3)), w)
        return
    ins = [g.inside(y) for y in draws]
    chk.decide("fresh", con, False if all(i is False for i in ins) else
               None if None in ins else True,
               "%s is drawn before the loop over tracks" % q, w)
    if q in ("initLon", "initLat"):
        i = 0 if q == "initLon" else 1
        ok = x.op == "idx" and x.args[0].op == "mcall" and \
            x.args[0].val == "ppf" and isnum(x.args[1])
        chk.decide("source", con, (int(x.args[1].val) == i) if ok else None,
                   "%s is component %s of the sampled origin" % (
                       q, show(x.args[1]) if ok else "?"), w)
        if ok:
            us = [y for a in x.args[0].args[1:] for y in walk(a)
                  if israndom(y)]
            chk.decide("source", con + ":pair", len(set(us)) >= 2 if us
                       else None, "longitude and latitude use one draw", w)
        return
    if q == "initRmax":
        lat = value(g, "initLat", none)
        p, e = value(g, "initPressure", none), \
            value(g, "initEnvPressure", none)
        ok = has(x, lat) and has(x, p) and has(x, e)
        if tag == "alone":
            ok = all(value(g, q, dict(none, **{o: num(907)})) is not x
                     for o in ("initLat", "initPressure", "initEnvPressure"))
        dist = {y.val for y in walk(x) if y.op == "attr" and
                str(y.val).startswith("allCDFInit")} - {
                    FROM["initPressure"][0], FROM["initDay"][0]}
        chk.decide("source", con, True if ok or dist == {"allCDFInitSize"}
                   else None if dist else False,
                   "size %s does not depend on the track's own latitude and "
                   "pressure deficit" % show(x, 3), w)
        return
    want = FROM[q][0]
    skip = set()
    if q == "initPressure":
        e = value(g, "initEnvPressure", none)
        skip = set(walk(e))
    dists = {y.val for y in walk(x) if y.op == "attr" and
             str(y.val).startswith("allCDFInit") and y not in skip}
    cells = [y for y in walk(x) if y.op == "call" and
             y.args[0].op == "func" and y.args[0].val == CELL and
             y not in skip]
    chk.decide("source", con, True if dists == {want} else
               False if dists else None,
               "%s is drawn from %s" % (q, sorted(dists)), w)
    lon, lat = value(g, "initLon", none), value(g, "initLat", none)
    if not cells:
        # the cell may be computed in place
        ok = has(x, lon) and has(x, lat)
        chk.decide("cell", con, True if ok else
                   False if not opaque_in(x) else None,
                   "the distribution is not that of the genesis cell", w)
        return
    for y in cells:
        a = dict((k.val, k.args[0]) for k in y.args[1:] if k.op == "kw")
        pos = [k for k in y.args[1:] if k.op != "kw"]
        lo = a.get("lon", pos[0] if pos else None)
        la = a.get("lat", pos[1] if len(pos) > 1 else None)
        chk.decide("cell", con, lo is lon and la is lat,
                   "cell of (%s, %s)" % (show(lo, 3), show(la, 3)), w)
        sel = [z for z in walk(x) if z.op == "eq0" and has(z, y)]
        if not sel:
            rows(chk, g, con, x, y, want, w)
        if sel:
            cols = [z for s in sel for z in walk(s) if z.op == "idx" and
                    len(z.args) == 3 and z.args[0].op == "attr"]
            ok = [z.args[2] is ZERO and z.args[0].val == want for z in cols]
            chk.decide("cell", con + ":column", all(ok) if ok else None,
                       "the cell number is compared with %s" %
                       ", ".join(show(z, 3) for z in cols), w)


def rows(chk, g, con, x, cell, want, w):
    """the rows of the distribution that are used: those whose first column
    is the number of the cell"""
    masks = {z.args[1] for z in walk(x) if z.op == "idx" and
             len(z.args) == 3 and z.args[0].op == "attr" and
             z.args[0].val == want and has(z.args[1], cell)}
    numbers = [0, 1, 1, 2, 2, 2, 3, 5]
    ok = None if masks else True
    for m in masks:
        cols = {z for z in walk(m) if z.op == "idx" and len(z.args) == 3 and
                z.args[0].op == "attr" and isnum(z.args[2])}
        env = {z: numbers if z.args[2] is ZERO else
               [Fraction(i, 9) for i in range(len(numbers))] for z in cols}
        for c in (0, 1, 2, 3, 5):
            env[cell] = c
            try:
                got = Cells(g.ip, env)(m)
            except (Unknown, Outside):
                continue
            if isinstance(got, list) and len(got) == 1 and \
                    isinstance(got[0], list):
                got = got[0]
            if not isinstance(got, list):
                continue
            if got and all(isinstance(v, bool) for v in got):
                got = [i for i, v in enumerate(got) if v]
            if sorted(got) != [i for i, v in enumerate(numbers) if v == c]:
                ok = False
    chk.decide("cell", con + ":column", ok, "the rows of cells other than "
               "the genesis cell are used", w)


def leaves(t):
    if t.op in ("arr", "list", "tuple"):
        return [y for a in t.args for y in leaves(a)]
    if t.op == "call" and t.args[0].op == "ext" and \
            t.args[0].val in ("numpy.array", "numpy.asarray"):
        return leaves(t.args[1])
    return [t]


def files(prog, chk):
    chk.need(LOAD in prog.funcs, LOAD)
    ip = analyse(prog, chk, LOAD, opaque=["Utilities.files.flLoadFile"])
    heap = {a: ip.final.boxes[b] for (o, a), b in ip.final.heap.items()}
    for q in sorted(FROM):
        at, name = FROM[q]
        t = heap.get(at)
        if t is None:
            chk.violation("file", at, "no distribution is loaded",
                          prog.where(LOAD))
            continue
        names = set()
        for x in walk(t):
            for s in ([strval(x)] if isstr(x) else []):
                for part in str(s).replace(".nc", "").split("/"):
                    if part.startswith("all_cell_"):
                        names.add(part)
            if x.op == "fmt" or x.op == "path":
                for a in x.args:
                    if isstr(a) and "all_cell_" in strval(a):
                        names.add(strval(a).replace(".nc", ""))
        chk.decide("file", at, True if names == {name} else
                   False if names else None,
                   "loaded from %s" % sorted(names), prog.where(LOAD))
        cols = [x for x in walk(t) if x.op == "call" and
                x.args[0].op == "ext" and x.args[0].val in (
                    "numpy.vstack", "numpy.column_stack",
                    "numpy.row_stack", "numpy.transpose")
                and x.args[1].op in ("tuple", "list")]
        for x in cols:
            got = []
            for a in x.args[1].args:
                ks = [strval(y) for y in walk(a) if isstr(y) and
                      strval(y) in ("cell", "x", "CDF")]
                got.append(ks[0] if len(ks) == 1 else None)
            chk.decide("file", at + ":columns",
                       None if None in got or len(got) != 3 else
                       got == ["cell", "x", "CDF"],
                       "the columns are %s" % got, prog.where(LOAD))


def inverse(prog, chk):
    q = M + ".ppf"
    if q not in prog.funcs:
        return
    ip = analyse(prog, chk, q)
    f = prog.funcs[q]
    a, b = [sym("param", x.arg) for x in f.node.args.args][:2]
    whole = mk("slice", NONE, NONE, NONE)
    t = ip.result
    # cdf[searchsorted(cdf[:, 1], q), 0]
    ok = None
    if t.op == "idx" and t.args[0] is b and len(t.args) == 3 and \
            isnum(t.args[2]):
        i = t.args[1]
        found = [x for x in walk(i) if x.op == "mcall" and
                 x.val == "searchsorted" or x.op == "call" and
                 x.args[0].op == "ext" and
                 x.args[0].val == "numpy.searchsorted"]
        if len(found) == 1:
            x = found[0]
            args = x.args if x.op == "mcall" else x.args[1:]
            col = args[0]
            good = col.op == "idx" and col.args[0] is b and \
                len(col.args) == 3
            if good and isnum(col.args[2]):
                ok = col.args[2] is ONE and t.args[2] is ZERO and \
                    args[1] is a and i is x
    chk.decide("inverse", q, ok, "a draw is %s" % show(t, 5), prog.where(q))
