"""C14: peak gust, its direction and the lowest pressure are coherent."""
from sa.util import *
from sa.kinds import keeps_fractions, returned

EXT = "wind.WindfieldAroundTrack.regionalExtremes"
LOCAL = "wind.WindfieldAroundTrack.localWindField"
GEN = "wind.WindfieldGenerator."
ROLES = ("gust", "bearing", "ua", "va", "slp")


def check(prog, chk):
    chk.rule("gust", "the kept gust becomes max(kept, new) at every point of "
             "the window and starts at 0")
    chk.rule("pressure", "the kept pressure becomes min(kept, new) and starts "
             "from the environmental pressure")
    chk.rule("coherent", "components and bearing are replaced exactly where "
             "the kept gust is replaced, tested against the gust kept so far")
    chk.rule("speed", "the gust is the magnitude of the components kept with "
             "it, the bearing their direction")
    chk.rule("source", "new values are those of the time step (track) of the "
             "iteration")
    chk.rule("window", "one window per time step, the same for all fields")
    chk.rule("steps", "every time step inside the region is visited")
    chk.rule("saved", "each field is stored under its own name in one "
             "orientation")
    one_track(prog, chk)
    many_tracks(prog, chk)
    saved(prog, chk)
    for q in sorted(prog.funcs):
        if q.startswith("wind.Windfield"):
            keeps_fractions(chk, prog, "source", q,
                            returned(prog.funcs[q].node))


def window(mu, nxt):
    """(index, value written) of the update of a carried array"""
    if nxt.op == "store" and nxt.args[0] is mu:
        return nxt.args[1], nxt.args[2]
    if nxt.op == "store":
        return None
    return None, nxt


def update(v, old):
    """(condition, new value) when v is old outside the condition"""
    if v.op == "max" and old in v.args and len(v.args) == 2:
        x = [a for a in v.args if a is not old][0]
        return lt(old, x), x
    if v.op == "min" and old in v.args and len(v.args) == 2:
        x = [a for a in v.args if a is not old][0]
        return lt(x, old), x
    if v.op == "phi":
        if v.args[2] is old:
            return v.args[0], v.args[1]
        if v.args[1] is old:
            return not_(v.args[0]), v.args[2]
    return None


def ups(chk, ip, parts, tag, where):
    """decompose the five carried fields; None when some shape is lost"""
    out, wins = {}, {}
    for role, t in zip(ROLES, parts):
        c = carried_of(ip, t)
        if c is None:
            chk.decide("source", tag + ":" + role,
                       False if not opaque_in(t) else None,
                       "the %s returned is %s, not accumulated over the loop"
                       % (role, show(t, 4)), where)
            continue
        L, mu, init, nxt = c
        w = window(mu, nxt)
        if w is None:
            chk.unsure("window", tag + ":" + role, show(nxt, 4))
            continue
        ix, v = w
        old = mu if ix is None else select(mu, ix)
        u = update(v, old)
        if u is None:
            chk.decide("coherent", tag + ":" + role,
                       False if not opaque_in(v) and mentions(v, mu) or
                       not has(v, mu) else None,
                       "the kept %s becomes %s" % (role, show(v, 5)), where)
            continue
        out[role] = (L, mu, init, ix, old, u[0], u[1])
    return out


def one_track(prog, chk):
    ip = analyse(prog, chk, EXT, opaque=[LOCAL])
    f = prog.funcs[EXT]
    parts = tuple_items(ip.result)
    chk.need(parts is not None and len(parts) == 7,
             "seven results of regionalExtremes")
    d = ups(chk, ip, parts, "track", f.loc)
    calls = calls_to(ip, LOCAL)
    chk.need(calls, "call of localWindField in regionalExtremes")
    chk.count("wind_field_calls", len(calls))
    self_ = None
    for e in calls:
        self_ = e.kw.get("self", e.args[0])
    loc = calls[0].term
    gf = mk("attr", self_, val="gustFactor")
    want = {"ua": mul(component(loc, 0), gf), "va": mul(component(loc, 1), gf),
            "slp": component(loc, 2)}
    coherent(chk, d, "track", f.loc, want)
    # windows
    ws = {r: x[3] for r, x in d.items()}
    if len(set(ws.values())) > 1:
        ref = ws.get("gust")
        for r, w in ws.items():
            if w is not ref:
                chk.violation("window", "track:" + r, "%s is updated over %s, "
                              "the gust over %s" % (r, show(w, 4),
                                                    show(ref, 4)), f.loc)
    elif ws:
        chk.ok("window", "track")
    if "gust" in d:
        axes(chk, d["gust"][3], calls[0], f)
        i0 = d["gust"][2]
        z = unfull(i0)
        chk.decide("gust", "track:start", z is ZERO if isnum(z) else None,
                   "the kept gust starts at %s" % show(i0, 4), f.loc)
    if "slp" in d:
        i0 = unfull(d["slp"][2])
        tr = mk("attr", self_, val="track")
        env = mul(num(100), select(mk("attr", tr, val="EnvPressure"), ZERO))
        leaves = phi_leaves(i0)
        bad = [x for x in leaves if x is not env and not isnan(x)]
        chk.decide("pressure", "track:start",
                   True if not bad else None if any(
                       opaque_in(x) or not isnum(x) and
                       not mentions(x, mk("attr", tr, val="EnvPressure"))
                       for x in bad) else False,
                   "the kept pressure starts at %s" % show(i0, 5), f.loc)
    steps(chk, ip, d, calls, self_, f)


def phi_leaves(t):
    if t.op == "phi":
        return phi_leaves(t.args[1]) + phi_leaves(t.args[2])
    return [t]


def isnan(t):
    return t.op == "const" and "nan" in show(t) or show(t) == "nan"


def axes(chk, ix, call, f):
    """the first axis follows latitude, the second longitude, alike"""
    if ix is None or ix.op != "ix" or len(ix.args) != 2:
        chk.unsure("window", "track:axes", show(ix) if ix else "")
        return
    tr = mk("attr", call.kw.get("self", call.args[0]), val="track")
    g = sym("param", f.node.args.args[1].arg)
    lat, lon = mk("attr", tr, val="Latitude"), mk("attr", tr, val="Longitude")
    tmp = [sym("swap", i) for i in range(3)]
    pairs = [(lat, lon)] + [(select(g, const("y" + s)),
                             select(g, const("x" + s)))
                            for s in ("Min", "Max")]
    # replace only outside the list of time steps, which uses both
    dom = [x for x in walk(ix) if x.op == "nonzero" or x.op == "comp"]
    stop = {d: sym("dom", i) for i, d in enumerate(dom)}
    a, b = subst(ix.args[0], stop), subst(ix.args[1], stop)
    ab = subst(a, {x: y for x, y in pairs})
    ok = ab is b or same(ab, b)
    uses = mentions(a, lat) and mentions(b, lon)
    chk.decide("window", "track:axes", True if ok and uses else
               False if not opaque_in(ix) else None,
               "rows %s, columns %s" % (show(a, 6), show(b, 6)), f.loc)


def steps(chk, ip, d, calls, self_, f):
    for L in ip.loops:
        if L.uid in calls[0].loops and L.leaves and L.kind == "for":
            chk.violation("steps", "track:break", "the loop over time steps "
                          "can be left early when %s" % show(L.leaves[0], 3),
                          f.loc)
    if not d:
        return
    L = list(d.values())[0][0]
    tr = mk("attr", self_, val="track")
    g = sym("param", f.node.args.args[1].arg)
    lat, lon = mk("attr", tr, val="Latitude"), mk("attr", tr, val="Longitude")
    want = {le(select(g, const("xMin")), lon), le(lon, select(g, const("xMax"))),
            le(select(g, const("yMin")), lat), le(lat, select(g, const("yMax")))}
    i = arg(calls[0], "i", 1)
    if calls[0].loops and strip_iter(calls[0].cond()) is not TRUE:
        c = strip_iter(calls[0].cond())
        extra = [x for x in conjuncts(c)]
    else:
        extra = []
    got = None
    src = None
    if i is not None and i.op == "idx":
        for cs, b in variants(i.args[0]) or [((), i.args[0])]:
            while b.op == "idx" and b.args[1].op == "slice":
                chk.violation("steps", "track:part", "only the part %s of the "
                              "time steps is visited" % show(b.args[1]), f.loc)
                b = b.args[0]
    if i is not None and i.op == "idx" and i.args[0].op == "idx" and \
            i.args[0].args[0].op == "nonzero":
        src = i.args[0].args[0].args[0]
        got = set(conjuncts(src))
        # position in the list must be the loop counter itself and the loop
        # must cover the list
        n = mk("len", i.args[0])
        full = i.args[1] is L.k and L.domain.op == "dom" and \
            L.domain.args[0] is n
        if not full:
            chk.decide("steps", "track:all", None if opaque_in(L.domain)
                       else False, "the loop visits %s of the %s time steps "
                       "in the region" % (show(L.domain, 3), show(n, 3)),
                       f.loc)
            return
    if got is None:
        # loop over all records with a test inside
        k = L.k
        sub = {select(lat, k): lat, select(lon, k): lon}
        if i is k and L.domain.op == "dom":
            got = set(subst(x, sub) for x in extra)
            extra = []
    if got is None:
        chk.unsure("steps", "track", show(i, 5) if i is not None else "")
        return
    if extra:
        chk.violation("steps", "track:skipped", "time steps are skipped "
                      "unless %s" % show(and_(*extra), 4), f.loc)
    chk.decide("steps", "track:region", True if got <= want else
               None if any(opaque_in(x) for x in got - want) else False,
               "time steps are kept only if %s" % show(and_(*got), 6), f.loc)


def coherent(chk, d, tag, where, want):
    if "gust" not in d:
        return
    L, mu, init, ix, old, c, x = d["gust"]
    up = (lt(old, x), le(old, x))
    chk.decide("gust", tag + ":max", c in up if not opaque_in(c) else
               (True if c in up else None),
               "the kept gust is replaced when %s" % show(c, 5), where)
    for role in ("ua", "va", "bearing"):
        if role not in d:
            continue
        r = d[role]
        chk.decide("coherent", tag + ":" + role,
                   True if r[5] in up or same_bool(r[5], up) else
                   None if opaque_in(r[5]) else False,
                   "%s is replaced when %s, the gust when %s"
                   % (role, show(r[5], 5), show(c, 5)), where)
        if r[0] is not L:
            chk.violation("coherent", tag + ":" + role, "updated in a "
                          "different loop than the gust", where)
    if "slp" in d:
        r = d["slp"]
        ok = r[5] in (lt(r[6], r[4]), le(r[6], r[4]))
        chk.decide("pressure", tag + ":min", True if ok else
                   None if opaque_in(r[5]) else False,
                   "the kept pressure is replaced when %s" % show(r[5], 5),
                   where)
    for role, w in want.items():
        if role not in d:
            continue
        got = d[role][6]
        chk.decide("source", tag + ":" + role, True if same(got, w) else
                   None if opaque_in(got) else False,
                   "new %s is %s" % (role, show(got, 6)), where)
    if tag == "track" and "ua" in d and "va" in d:
        u, v = d["ua"][6], d["va"][6]
        s = power(add(mul(u, u), mul(v, v)), HALF)
        chk.decide("speed", "gust", True if same(x, s) else
                   None if opaque_in(x) else False,
                   "gust %s, components %s and %s" % (show(x, 5), show(u, 4),
                                                      show(v, 4)), where)
        if "bearing" in d:
            b = d["bearing"][6]
            at = fn("arctan2", u, v)
            deg = mul(num(180), power(PI, NEG1), at)
            at2 = fn("arctan2", neg(u), neg(v))
            deg2 = mul(num(180), power(PI, NEG1), at2)
            ok = any(same(b, add(deg, num(k))) or same(b, add(deg2, num(k - 180)))
                     or same(b, fn("mod", add(deg, num(k)), num(360)))
                     for k in (-540, -180, 180, 540))
            chk.decide("speed", "bearing", True if ok else
                       False if not opaque_in(b) and
                       contains(b, lambda t: t.op == "fn" and t.val == "arctan2") else None,
                       "bearing %s" % show(b, 6), where)


def same_bool(c, up):
    return any(same(c, u) for u in up)


def many_tracks(prog, chk):
    q = GEN + "calculateExtremesFromTrackfile"
    one = GEN + "calculateExtremesFromTrack"
    load = [x for x in ("wind.loadTracks",) if x in prog.funcs]
    ip = analyse(prog, chk, q, opaque=[one] + load)
    f = prog.funcs[q]
    parts = tuple_items(ip.result)
    chk.need(parts is not None and len(parts) == 7,
             "seven results of calculateExtremesFromTrackfile")
    d = ups(chk, ip, parts, "tracks", f.loc)
    want = {}
    for i, role in enumerate(ROLES):
        if role in d:
            L, mu, init, ix, old, c, x = d[role]
            # x is component i of a track's result and init that of another
            for what, t in (("new", x), ("first", init)):
                ok = t.op == "idx" and t.args[1] is num(i)
                chk.decide("source", "tracks:%s:%s" % (role, what),
                           True if ok else None if opaque_in(t) else False,
                           "%s comes from %s" % (role, show(t, 4)), f.loc)
    xs = {x[6].args[0] for x in d.values() if x[6].op == "idx"}
    if len(xs) > 1:
        chk.violation("source", "tracks", "fields of different results are "
                      "combined", f.loc)
    coherent(chk, d, "tracks", f.loc, want)


def saved(prog, chk):
    q = GEN + "dumpGustsFromTracks"
    one = GEN + "calculateExtremesFromTrack"
    ip = analyse(prog, chk, q, opaque=[one, "Utilities.nctools.ncSaveGrid",
                                       GEN + "calcLocalWindfield",
                                       GEN + "gustFileComplete"])
    f = prog.funcs[q]
    saves = calls_to(ip, "Utilities.nctools.ncSaveGrid")
    chk.need(saves, "ncSaveGrid reached from dumpGustsFromTracks")
    names = {"vmax": 0, "ua": 2, "va": 3, "slp": 4}
    for e in saves:
        dims = grid_vars(arg(e, "dimensions", 1))
        vs = grid_vars(arg(e, "variables", 2))
        if vs is None or dims is None:
            chk.unsure("saved", "wind file", "variables not followed")
            continue
        flips = {}
        for v in vs + dims:
            n = strval(v["name"])
            if n not in names and n not in ("lat", "lon"):
                continue
            t = v.get("values")
            fl = False
            ok = None
            if t is not None:
                t, fl = unflip(t)
                i = names.get(n, {"lat": 6, "lon": 5}.get(n))
                ok = right(t, i, one)
            flips[n] = fl
            chk.decide("saved", n, ok, "%s holds %s" % (n, show(t, 5)),
                       e.where)
        for n in names:
            if n not in flips:
                chk.violation("saved", n, "no variable %s is stored" % n,
                              e.where)
            elif "lat" in flips:
                chk.decide("saved", n + ":orientation",
                           flips[n] == flips["lat"],
                           "%s and the latitude axis are not flipped alike"
                           % n, e.where)
        for v in vs:
            n = strval(v["name"])
            if n in names:
                dd = v.get("dims")
                got = [strval(x) for x in dd.args] if dd is not None and \
                    dd.op in ("tuple", "list") else None
                chk.decide("saved", n + ":dims",
                           None if got is None else got == ["lat", "lon"],
                           "dimensions %s" % got, e.where)


def unflip(t):
    fl = False
    while True:
        if t.op == "call" and t.args and show(t.args[0]) in (
                "numpy.flipud", "numpy.flip"):
            fl = not fl
            t = t.args[1]
            continue
        if t.op == "call" and strval_op(t) == "flipud":
            fl = not fl
            t = t.args[0]
            continue
        if t.op == "idx" and show(t.args[1]) in ("::-1", "::-1,"):
            fl = not fl
            t = t.args[0]
            continue
        return t, fl


def strval_op(t):
    return str(t.val).split(".")[-1] if t.val else ""


def right(t, i, one):
    """is t component i of the second result of the wind calculation?"""
    for x in phi_leaves(t):
        if x.op != "idx" or x.args[1].op != "num":
            return None if opaque_in(x) else False
        ok = x.args[1] is num(i)
        b = x.args[0]
        for y in phi_leaves(b):
            if y.op == "idx" and y.args[1] is not ONE:
                ok = False
        if not ok:
            return False
    return True
