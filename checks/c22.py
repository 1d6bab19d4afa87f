"""C22: every calibration sample is paired with its own position."""
from .records import *

SI = "StatInterface.StatInterface.StatInterface"
DISTS = "StatInterface.GenerateDistributions.GenerateDistributions"
ALLD = DISTS + ".allDistributions"
GS = "StatInterface.generateStats.GenerateStats"
VARIANTS = [("dates", dict(dated=True)), ("ages", dict(dated=False)),
            ("dates in the wind field domain",
             dict(dated=True, restrict=True)),
            ("ages in the wind field domain",
             dict(dated=False, restrict=True))]

# how far from the record of its position the observations of a value lie;
# displacement k leads from record k to record k+1, dt k from record k-1 to k
EXPECT = {
    "all_pressure": {"pressure": {0}},
    "all_rmax": {"rmax": {0}},
    "wind_speed": {"vmax": {0}},
    "pressure_rate": {"pressure": {0, -1}, "dt": {0}, "age": {0, -1}},
    "rmax_rate": {"rmax": {0, -1}, "dt": {0}, "age": {0, -1}},
    "all_bearing": {"bearing": {-1}},
    "all_speed": {"distance": {-1}, "dt": {0}, "age": {0, -1}},
    "bearing_rate": {"bearing": {-1, -2}, "dt": {0}, "age": {0, -1}},
    "speed_rate": {"distance": {-1, -2}, "dt": {0, -1},
                   "age": {0, -1, -2}},
    "init_pressure": {"pressure": {0}},
    "init_rmax": {"rmax": {0}},
    "jdays": {"jday": {0}},
    "init_bearing": {"bearing": {0}},
    "init_speed": {"distance": {0}, "dt": {1}, "age": {0, 1}},
    "origin_year": {"season": {0}},
}
# pairs that are read together whatever the calibration step does
PAIRS = [("all_pressure", "all_lon_lat"), ("pressure_rate", "all_lon_lat"),
         ("all_bearing", "all_lon_lat"), ("bearing_rate", "all_lon_lat"),
         ("all_speed", "all_lon_lat"), ("speed_rate", "all_lon_lat"),
         ("init_pressure", "origin_lon_lat"),
         ("init_rmax", "origin_lon_lat"), ("jdays", "origin_lon_lat"),
         ("init_bearing", "init_lon_lat"), ("init_speed", "init_lon_lat")]
NAMES = {"init_day": "jdays", "init_bearing": "init_bearing",
         "init_speed": "init_speed", "init_pressure": "init_pressure",
         "init_rmax": "init_rmax"}
STATS = {"speed": "all_speed", "speed_rate": "speed_rate",
         "pressure": "all_pressure", "pressure_rate": "pressure_rate",
         "bearing": "all_bearing", "bearing_rate": "bearing_rate"}


def check(prog, chk):
    chk.rule("record", "the observations behind value n of a file are those "
             "of the record whose position is in line n of the position "
             "file it is read with")
    chk.rule("columns", "a position line holds longitude, latitude and "
             "land/sea flag of one record")
    chk.rule("label", "a distribution or set of statistics is stored under "
             "the name of the quantity it was made from")
    chk.rule("select", "the samples of a cell are picked from the complete "
             "list by a condition on the complete list of positions")
    s = Saved(prog, chk)
    pairs = calibrations(prog, chk)
    for tag, kw in VARIANTS:
        for pf in sorted({p for _, p in pairs}):
            if pf in s.files:
                columns(chk, s, pf, tag, kw)
        for vf, pf in pairs:
            if vf == "jdays" and not kw["dated"]:
                continue        # there are no dates in such a file
            chk.need(vf in s.files, "saved file " + vf)
            chk.need(pf in s.files, "saved file " + pf)
            paired(chk, s, vf, pf, tag, kw)
    selection(prog, chk)
    lists(prog, chk)


# ------------------------------------------------------------ what is read
def calibrations(prog, chk):
    chk.need(SI in prog.classes, SI)
    chk.need(ALLD in prog.funcs and GS + ".__init__" in prog.funcs,
             "calibration steps")
    pairs = list(PAIRS)
    n = 0
    for q in sorted(prog.funcs):
        if not q.startswith(SI + ".") or q.count(".") != SI.count(".") + 1:
            continue
        ip = analyse(prog, chk, q, opaque=[ALLD] + [
            f for f in prog.funcs if f.startswith(GS + ".")])
        for e in ip.trace:
            if e.kind == "call" and e.fn.op == "func" and \
                    e.fn.val == ALLD or e.kind == "mcall" and \
                    strval(e.fn) == "allDistributions":
                vals = bound(prog, ALLD, e)
                pos_, par, name = (vals.get(x) for x in (
                    "lonLat", "parameterList", "parameterName"))
                pf, vf = savename_(pos_), savename_(par)
                if pf is None or vf is None:
                    chk.unsure("record", q, "file names not found")
                    continue
                n += 1
                if (vf, pf) not in pairs:
                    pairs.append((vf, pf))
                if name is not None and isstr(name) and \
                        strval(name) in NAMES:
                    chk.decide("label", "%s:%s" % (q, strval(name)),
                               NAMES[strval(name)] == vf,
                               "the distribution %s is made from the file %s"
                               % (strval(name), vf), e.where)
            if e.kind == "new" and e.fn.op == "cls" and e.fn.val == GS:
                vals = bound(prog, GS + ".__init__", e, skip=1)
                pf, vf = (savename_(vals.get(x)) for x in (
                    "lonLat", "parameter"))
                if pf is None or vf is None:
                    if vals.get("lonLat") is not None and \
                            vals["lonLat"] is not NONE:
                        chk.unsure("record", q, "file names not found")
                    continue
                n += 1
                if (vf, pf) not in pairs:
                    pairs.append((vf, pf))
            if e.kind == "call" and e.fn.op == "func" and \
                    e.fn.val == GS + ".save":
                label(prog, chk, ip, q, e)
    chk.need(n, "calibration calls in " + SI)
    chk.count("calibration_calls", n)
    return pairs


def label(prog, chk, ip, q, e):
    vals = bound(prog, GS + ".save", e)
    nm, fn_ = vals.get("description"), vals.get("filename")
    obj = vals.get("self")
    if obj is None or fn_ is None or savename_(fn_) is None:
        return
    base = savename_(fn_)
    if not base.endswith("_stats.nc"):
        return
    # what the object was given to take its statistics from
    held = [ip.final.boxes[b] for (o, a), b in ip.final.heap.items()
            if a == "param" and (o is obj or o == obj.val)]
    src = [x for t in held for x in walk(t) if x.op == "path"]
    names = {savename_(x) for x in src} - {None}
    files = [x for x in names if x in EXPECT]
    want = STATS.get(base[:-len("_stats.nc")])
    if want is None or len(files) != 1:
        chk.unsure("label", "%s:%s" % (q, base), "source file not found")
        return
    chk.decide("label", "%s:%s" % (q, base), files[0] == want,
               "%s holds the statistics of %s" % (base, files[0]), e.where)


def bound(prog, qual, e, skip=0):
    """{parameter: argument} of a call"""
    f = prog.funcs[qual]
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if skip or e.kind == "mcall":
        names = names[1:]
    out = {}
    for n, t in zip(names, e.args):
        out[n] = t
    for k, t in (e.kw or {}).items():
        out[k] = t
    return out


def savename_(t):
    return savename(t) if t is not None else None


# -------------------------------------------------------------- positions
def base_of(s, pf, kw, column=0, what="lon"):
    e = s.element(pf, column=column, **kw)
    ps = {p for q, p in refs(e) if q == what}
    if len(ps) != 1:
        raise Unknown(e)
    return e, ps.pop()


def columns(chk, s, pf, tag, kw):
    con = "%s(%s)" % (pf, tag)
    w = s.where[pf]
    try:
        first = {q for q, _ in refs(s.element(pf, column=0, **kw))}
        if first and "lon" not in first:
            chk.decide("columns", con + ":0", False,
                       "column 0 of %s holds %s" % (pf, sorted(first)), w)
            return
        lon, p = base_of(s, pf, kw)
    except Unknown as ex:
        chk.unsure("columns", con, show(ex.args[0], 4))
        return
    try:
        lat = s.element(pf, column=1, **kw)
        ls = s.element(pf, column=2, **kw)
    except Unknown as ex:
        chk.decide("columns", con, False if reordered(ex.args[0]) else None,
                   "latitudes are put in another order than longitudes: %s"
                   % show(ex.args[0], 4), w)
        return
    for i, (e, want) in enumerate(((lon, {"lon"}), (lat, {"lat"}),
                                   (ls, {"lon", "lat"}))):
        rs = refs(e)
        qs = {q for q, _ in rs}
        if i < 2 and qs != want:
            chk.decide("columns", "%s:%d" % (con, i), False,
                       "column %d of %s holds %s" % (i, pf, sorted(qs)), w)
            continue
        if i == 2 and not qs:
            chk.unsure("columns", "%s:%d" % (con, i), show(e, 3))
            continue
        vs = [same(s, x, p, 0, kw) for _, x in rs]
        chk.decide("columns", "%s:%d" % (con, i),
                   False if False in vs else None if None in vs else True,
                   "column %d of %s does not come from the record of its "
                   "longitude" % (i, pf), w)


def paired(chk, s, vf, pf, tag, kw):
    con = "%s~%s(%s)" % (vf, pf, tag)
    want = EXPECT.get(vf)
    if want is None:
        chk.unsure("record", con, "no rule for this file")
        return
    try:
        _, p = base_of(s, pf, kw)
    except Unknown as ex:
        chk.unsure("record", con, show(ex.args[0], 4))
        return
    try:
        e = s.element(vf, **kw)
    except Unknown as ex:
        chk.decide("record", con, False if reordered(ex.args[0]) else None,
                   "the values are put in another order than the positions: "
                   "%s" % show(ex.args[0], 4), s.where[vf])
        return
    got = {}
    for q, x in refs(e):
        if q in want:
            got.setdefault(q, []).append(x)
    need = {q for q in want if q not in ("dt", "age")}
    w = s.where[vf]
    if not need & set(got):
        other = sorted({q for q, _ in refs(e)})
        chk.decide("record", con, False if other and not opaque_in(e)
                   else None, "%s is made from %s" % (vf, other), w)
        return
    for q, xs in sorted(got.items()):
        for x in xs:
            rs = [same(s, x, p, c, kw) for c in sorted(want[q])]
            v = True if True in rs else None if None in rs else False
            chk.decide("record", "%s:%s" % (con, q), v,
                       "%s of record %s where the position is that of "
                       "record %s" % (q, show(x, 4), show(p, 4)), w)
        # every expected observation takes part
        for c in sorted(want[q]):
            if q in ("dt", "age"):
                continue
            rs = [same(s, x, p, c, kw) for x in xs]
            v = True if True in rs else None if None in rs else False
            chk.decide("record", "%s:%s%+d" % (con, q, c), v,
                       "%s does not use the %s of record %+d" % (vf, q, c),
                       w)


def reordered(t):
    """a list put in an order that is not that of the input"""
    if t.op == "idx" and t.args[-1].op == "slice":
        st = t.args[-1].args[-1]
        return isnum(st) and st.val < 0
    name = show(t.args[0], 3) if t.op == "call" else \
        strval(t.val) if t.op == "mcall" and not isinstance(t.val, str) \
        else t.val if t.op in ("mcall", "fn", "sorted") else ""
    return t.op == "sorted" or str(name).split(".")[-1] in (
        "sort", "sorted", "flip", "flipud", "permutation", "reversed")


N = 24


def same(s, x, p, c, kw):
    """is position x the position p shifted by c?  True / False / None"""
    lx, ix = peel(x)
    lp, ip_ = peel(p)
    if lx == lp and sub(ix, add(ip_, num(c))) is ZERO:
        return True
    got, want = Places(s).of(x), Places(s).of(p)
    if got is None or want is None:
        return None
    for a, b in zip(got, want):
        if a != b + c:
            return False
    return None


class Places(object):
    """positions for some small catalogues, with the flags chosen"""
    CATS = [[int(c) for c in x] for x in (
        "100100100010001000100100",
        "101001100100101000110010",
        "110001010000110100010100")]
    FILTERS = [[1] * N, [0] + [1] * (N - 1)]

    def __init__(self, s):
        self.s = s

    def of(self, p):
        out = []
        for ci, flags in enumerate(self.CATS):
            for fi, filt in enumerate(self.FILTERS):
                r = self.one(p, flags, filt)
                if r is None:
                    return None
                # the first few records only: the end of the list differs
                out.extend(r[:3])
        return out

    def one(self, p, flags, filt):
        el = self.s.elements(kmin=0)
        memo, over = {}, []

        def known(t):
            if iscall(t, CONV):
                a = [x.args[0] if x.op == "kw" else x for x in t.args[1:]]
                v = known(a[0]) if a else None
                return v
            if t.op == "pos":
                i = place(t)
                return None if i is None else Val(float(i))
            r = split_ref(t)
            if r is None:
                return None
            q, x = r
            i = place(x)
            if i is None:
                return None
            if q == "new":
                return Val(float(flags[i % N]))
            if q in ("lon", "lat"):
                return Val(150. + 0.1 * i if q == "lon" else -15. - 0.1 * i)
            if q == "season":
                return Val(2000.)
            if q in ("pressure", "rmax", "vmax"):
                # some observations are missing
                return Val(M if i % 4 == 3 else TYPICAL[q][0])
            if q == "distance":
                # some displacements are too large to be real
                return Val(9000. if i % 6 == 3 else 90.)
            if q == "dt":
                return Val(6.)
            if q == "age":
                return Val(100. + 6. * i)
            return None

        def place(x):
            """index of a position term without k"""
            if isnum(x):
                return int(x.val)
            if x.op == "add":
                t = 0
                for m, c in terms_of(x).items():
                    i = 1 if m is ONE else place(m)
                    if i is None:
                        return None
                    t += int(c) * i
                return t
            if x.op == "pos":
                k = place(x.args[1])
                if k is None:
                    return None
                ps = chosen(x.args[0])
                if ps is None or not 0 <= k < len(ps):
                    over.append(ps is not None and k >= 0)
                    return None
                return ps[k]
            return None

        def chosen(m):
            if m in memo:
                return memo[m]
            out = []
            if isfilter(m):
                out = [i for i in range(N) if filt[i]]
                memo[m] = out
                return out
            rg = Range(known)
            for j in range(N - 3):
                del over[:]
                try:
                    e = el.at(m, num(j))
                except Unknown:
                    memo[m] = None
                    return None
                c = rg.cond(truth(e))
                if c is None:
                    if over and all(over) and out:
                        break       # past the end of the list
                    memo[m] = None
                    return None
                if c:
                    out.append(j)
            memo[m] = out
            return out

        out = []
        for k in range(1, 4):
            i = place(subst(p, {K: num(k)}))
            if i is None:
                return None
            out.append(i)
        return out


# -------------------------------------------------------------- selection
def selection(prog, chk):
    def raw(name):
        return lambda t: t.op in ("attr", "sym") and (
            t.val == name or isinstance(t.val, tuple) and t.val[-1] == name)
    for q, param, get in (
            (GS + ".extractParameter", "param", lambda ip: ip.result),
            (DISTS + ".extractParameter", "pList",
             lambda ip: heap_value(ip, "parameter"))):
        chk.need(q in prog.funcs, q)
        ip = analyse(prog, chk, q)
        t = get(ip)
        israw, isll = raw(param), raw("lonLat")
        found = 0
        for x in walk(t):
            if x.op != "idx" or len(x.args) != 2:
                continue
            b, m = x.args
            onpos = contains(m, isll)
            if not contains(b, israw) or not onpos or contains(m, israw):
                continue
            found += 1
            con = q + ":sample"
            if israw(b):
                cols = {c.args[1:] for c in walk(m) if c.op == "idx" and
                        isll(c.args[0])}
                whole = all(len(c) == 2 and c[0].op == "slice" and
                            all(z is NONE for z in c[0].args)
                            for c in cols)
                filtered = [c for c in walk(m) if c.op == "idx" and
                            contains(c.args[0], isll) and
                            not isll(c.args[0]) and
                            c.args[0].op != "nonzero"]
                chk.decide("select", con, None if not whole else
                           False if filtered and not opaque_in(m) else True,
                           "the condition on positions is taken from a part "
                           "of the positions only: %s" % (
                               show(filtered[0], 4) if filtered else ""),
                           prog.where(q))
            elif contains(b, lambda y: y.op == "idx" and israw(y.args[0])
                          and len(y.args) == 2 and
                          not contains(y.args[1], isll)):
                chk.decide("select", con, False, "values are dropped from "
                           "the list before it is matched with the "
                           "positions: %s" % show(x, 4), prog.where(q))
            else:
                chk.unsure("select", con, show(x, 4))
        if not found:
            chk.unsure("select", q, "no selection by position found")


def lists(prog, chk):
    """both lists are kept as they are handed in or read"""
    for q, names in ((DISTS + ".allDistributions",
                      {"pList": "parameterList", "lonLat": "lonLat"}),
                     (GS + ".__init__",
                      {"param": "parameter", "lonLat": "lonLat"})):
        chk.need(q in prog.funcs, q)
        ip = analyse(prog, chk, q, opaque=[
            x for x in prog.funcs if x.split(".")[-1] in (
                "flLoadFile", "extractParameter", "generateKDE")])
        for name, par in sorted(names.items()):
            try:
                t = heap_value(ip, name)
            except AnchorLost:
                chk.unsure("select", "%s:%s" % (q, name), "not kept")
                continue
            p = sym("param", par)
            for c, x in variants(t):
                if not contains(x, lambda y: y is p):
                    continue
                v = True if x is p or x.op == "call" and \
                    x.args[0].op == "func" else None
                bad = [y for y in walk(x) if contains(y, lambda z: z is p) and
                       (reordered(y) or fewer(y))]
                chk.decide("select", "%s:%s" % (q, name),
                           False if bad and not v else v,
                           "the list of %s is not kept as it is: %s" % (
                               par, show(x, 4)), prog.where(q))


def fewer(t):
    """some entries of a list only"""
    if t.op == "fn" and t.val == "unique" or t.op == "call" and \
            show(t.args[0], 3).split(".")[-1] in ("unique", "statRemoveNum"):
        return True
    if t.op != "idx" or len(t.args) < 2:
        return False
    i = t.args[1]
    if i.op == "ix" and i.args:
        i = i.args[0]
    return i.op == "slice" and any(
        isnum(x) and x.val != d for x, d in zip(i.args, (0, None, 1)))


def heap_value(ip, name):
    for (o, a), box in ip.final.heap.items():
        if a == name:
            return ip.final.boxes[box]
    raise AnchorLost("attribute " + name)
