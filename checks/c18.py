"""C18: hazard values belong to the grid cell they are stored at."""
from sa.util import *
from sa.evaluate import Values
from sa.pointwise import Unknown
from sa.kinds import keeps_fractions, returned, filled as stored

RUN = "hazard.run"
CALC = "hazard.HazardCalculator.calculateHazard"
LOAD = "hazard.loadFile"
FITS = ("hazard.evd.gevfit", "hazard.evd.powerfit", "hazard.evd.empfit",
        "hazard.GPD.gpdfit", "hazard.evd.gpdfit")
METHODS = ("GEV", "GPD", "power", "emp")
SAVE = "Utilities.nctools.ncSaveGrid"
PARTS = {"wspd": 0, "loc": 1, "scale": 2, "shp": 3}
BOUNDS = {"wspdupper": "upper", "wspdlower": "lower"}
DRIVER = '''
import hazard


def tiles(gridLimit, lon, lat, xstep, ystep):
    grid = hazard.TileGrid(gridLimit, lon, lat, xstep, ystep)
    return hazard.getTiles(grid)


def extent(gridLimit, lon, lat, xstep, ystep):
    grid = hazard.TileGrid(gridLimit, lon, lat, xstep, ystep)
    return grid.getDomainExtent()
'''
ALL = mk("slice", NONE, NONE, NONE)


def check(prog, chk):
    chk.rule("tiles", "the tiles cover the hazard grid completely and do not "
             "overlap")
    chk.rule("read", "a tile's wind speeds are the rows and columns of its "
             "limits, over all events")
    chk.rule("cell", "the values stored for a cell are fitted to the wind "
             "speeds of that cell, for every cell of the tile")
    chk.rule("place", "a tile's results are stored at the rows and columns "
             "of its limits, counted from the first row and column of the "
             "grid, with one process and with several")
    chk.rule("name", "each quantity is stored under its own name")
    chk.rule("own", "nothing is left over from another cell or tile")
    for q in (RUN, CALC, LOAD):
        chk.need(q in prog.funcs, q)
    tiles(prog, chk)
    read(prog, chk)
    parts = cells(prog, chk)
    bounds = place(prog, chk, parts)
    limits(prog, chk, bounds)
    fractions(prog, chk)


def fractions(prog, chk):
    mine = {q: f for q, f in prog.funcs.items()
            if q.startswith("hazard.")}
    for q in sorted(mine):
        c = q.rsplit(".", 1)[0]
        if q.endswith(".__init__"):
            names = {n for o in mine if o.startswith(c + ".") and o != q
                     for n in stored(mine[o].node)}
            keeps_fractions(chk, prog, "own", q, names)
        elif ".calculate" in q or "fit" in q:
            keeps_fractions(chk, prog, "own", q, returned(mine[q].node))


# ------------------------------------------------------------------- tiles
def tiles(prog, chk):
    prog.add_source("hazard_tiles_driver", DRIVER, "hazard_tiles_driver.py")
    ip = analyse(prog, chk, "hazard_tiles_driver.tiles")
    lon, lat = sym("param", "lon"), sym("param", "lat")
    sel = [x for x in walk(ip.result) if x.op == "nonzero"]
    xs = [x for x in sel if has(x, lon) and not has(x, lat)]
    ys = [x for x in sel if has(x, lat) and not has(x, lon)]
    if not xs or not ys:
        chk.unsure("tiles", "selection of the grid", show(ip.result, 5))
        return
    ext = analyse(prog, chk, "hazard_tiles_driver.extent")
    ext_ok = True
    n = 0
    for (i0, nx, sx), (j0, ny, sy) in sizes():
        env = {sym("param", "xstep"): sx, sym("param", "ystep"): sy}
        for a, lo, m in ((xs, i0, nx), (ys, j0, ny)):
            for x in a:
                env[mk("idx", x, ZERO)] = list(range(lo, lo + m))
                env[x] = [list(range(lo, lo + m))]
        label = "columns %d-%d by %d, rows %d-%d by %d" % (
            i0, i0 + nx - 1, sx, j0, j0 + ny - 1, sy)
        try:
            got = Values(ip, env)(ip.result)
            cells = [(x, y) for a, b, c, d in got
                     for x in range(a, b) for y in range(c, d)]
        except (Unknown, TypeError, ValueError) as ex:
            chk.unsure("tiles", label, str(ex))
            return
        except IndexError:
            chk.violation("tiles", "tile limits", "%s: a tile number lies "
                          "outside the arrays of limits" % label,
                          where(prog, "hazard.TileGrid.tileGrid"))
            return
        want = {(x, y) for x in range(i0, i0 + nx)
                for y in range(j0, j0 + ny)}
        bad = None
        if len(cells) > len(set(cells)):
            bad = "some cells belong to two tiles"
        elif want - set(cells):
            bad = "%d cells belong to no tile" % len(want - set(cells))
        elif set(cells) - want:
            bad = "tiles reach outside the grid"
        if bad:
            chk.violation("tiles", "tile limits", "%s: %s" % (label, bad),
                          where(prog, "hazard.TileGrid.tileGrid"))
            return
        n += 1
        if ext_ok:
            ext_ok = extent(prog, chk, ext, env, (i0, nx), (j0, ny), lon,
                            lat, label)
    chk.count("grid and tile sizes", n)
    chk.ok("tiles", "tile limits", "%d combinations of grid and tile sizes"
           % n)


def extent(prog, chk, ip, env, x, y, lon, lat, label):
    """the coordinates saved are those of the cells of the tiles"""
    r = tuple_items(ip.result)
    q = "hazard.TileGrid.getDomainExtent"
    if r is None or len(r) != 2:
        chk.unsure("tiles", "coordinates", show(ip.result, 4))
        return False
    for t, (lo, m), p, nm in ((r[0], x, lon, "longitudes"),
                              (r[1], y, lat, "latitudes")):
        try:
            if t.op != "idx" or t.args[0] is not p or len(t.args) != 2:
                raise Unknown(show(t, 3))
            i = t.args[1]
            ev = Values(ip, env)
            if i.op == "slice" and i.args[2] in (NONE, ONE):
                got = list(range(0 if i.args[0] is NONE else
                                 int(ev(i.args[0])), int(ev(i.args[1]))))
            else:
                got = list(ev(i))
        except (Unknown, TypeError, ValueError) as ex:
            chk.unsure("tiles", "coordinates", str(ex))
            return False
        if got != list(range(lo, lo + m)):
            chk.violation("tiles", "coordinates", "%s: the %s saved are "
                          "those at %s to %s" % (
                              label, nm, got[0] if got else None,
                              got[-1] if got else None), where(prog, q))
            return False
    return True


def sizes():
    one = [(0, 1, 1), (2, 5, 2), (1, 6, 3), (3, 4, 4), (0, 7, 10), (5, 3, 1),
           (4, 9, 4)]
    for a in one:
        for b in one:
            yield a, b


def where(prog, q):
    f = prog.funcs.get(q)
    return "%s in %s" % (f.file, q) if f is not None and \
        hasattr(f, "file") else q


# -------------------------------------------------------------------- read
def lim(t, i):
    return select(t, num(i))


def span(a, b):
    return mk("slice", a, b, NONE)


def same_span(s, a, b):
    if s.op != "slice" or s.args[2] not in (NONE, ONE):
        return None
    x, y = equal(s.args[0], a), equal(s.args[1], b)
    return True if x and y else False if x is False or y is False else None


def read(prog, chk):
    ip = analyse(prog, chk, LOAD)
    r = ip.result
    L = sym("param", "limits")
    r = real(r)
    if r.op == "idx" and r.args[0].op == "idx" and len(r.args[0].args) > 1 \
            and any(turned(i) for x in r.args[1:] for i in
                    (x.args if x.op == "ix" else [x])):
        chk.violation("read", LOAD + ":order", "the cells read are given "
                      "back as [%s]" % ", ".join(show(x, 3)
                                                 for x in r.args[1:]),
                      where(prog, LOAD))
        return
    if r.op == "idx" and len(r.args) == 2 and r.args[1].op == "ix":
        r = mk("idx", r.args[0], *r.args[1].args)
    if r.op != "idx" or len(r.args) != 3:
        chk.unsure("read", LOAD, show(r, 6))
        return
    for i, what, a, b in ((1, "rows", 2, 3), (2, "columns", 0, 1)):
        v = same_span(r.args[i], lim(L, a), lim(L, b))
        chk.decide("read", "%s:%s" % (LOAD, what), v, "%s read are %s, the "
                   "tile's are limits[%d] to limits[%d]" % (
                       what, show(r.args[i], 5), a, b), where(prog, LOAD))


def turned(i):
    """a part with fixed limits that is not the whole, or another order"""
    return i.op == "slice" and all(a is NONE or isnum(a) for a in i.args) \
        and (isnum(i.args[0]) and i.args[0].val != 0 or isnum(i.args[1]) or
             isnum(i.args[2]) and i.args[2].val != 1)


def real(t):
    """the value without the alternatives of failures"""
    for _ in range(20):
        if t.op != "phi":
            return t
        c = t.args[0]
        ex = {x: FALSE for x in walk(c) if x.op == "sym" and
              isinstance(x.val, tuple) and x.val[0] in ("exc", "guard")}
        u = subst(t, ex) if ex else t
        if u is t:
            return t
        t = u
    return t


# ------------------------------------------------------------------- cells
class Fill(object):
    """array filled cell by cell: loops, index, value, starting array"""


def filled(ip, t):
    """decompose eta(.., eta(.., phi(c, store(mu, ix, v), mu)))"""
    f = Fill()
    f.loops, f.conds = [], []
    f.init = t.args[0]
    while t.op == "eta":
        L = [l for l in ip.loops if l.uid == t.val[0][1]]
        if not L:
            return None
        f.loops.append((L[0], t.args[-1]))
        f.mu = t.val[0]
        inner = t.args[1]
        t = inner
        while t.op == "phi" or t.op == "eta":
            if t.op == "eta":
                break
            a, b = t.args[1], t.args[2]
            if b.op in ("mu", "sym") and is_mu(b):
                f.conds.append(t.args[0])
                t = a
            elif is_mu(a):
                f.conds.append(not_(t.args[0]))
                t = b
            else:
                return None
    if t.op != "store" or not is_mu(t.args[0]):
        return None
    f.index = list(t.args[1].args) if t.args[1].op == "ix" else [t.args[1]]
    f.value = t.args[2]
    return f


def is_mu(t):
    return t.op == "mu" or t.op == "sym" and isinstance(t.val, tuple) and \
        t.val and t.val[0] == "mu"


def fit_of(t):
    """(call, component) of a result of a fit"""
    if t.op == "idx" and len(t.args) == 2 and isnum(t.args[1]) and \
            t.args[0].op == "call" and t.args[0].args[0].op == "func" and \
            t.args[0].args[0].val in FITS:
        return t.args[0], int(t.args[1].val)
    return None


def call_arg(c, name, pos):
    for a in c.args[1:]:
        if a.op == "kw" and a.val == name:
            return a.args[0]
    p = [a for a in c.args[1:] if a.op != "kw"]
    return p[pos] if pos < len(p) else None


def strip_whole(t):
    """without trailing [:, :, :]"""
    while t.op == "idx" and all(
            i is ALL or i.op == "slice" and whole(i) or
            i.op == "ix" and all(whole(j) for j in i.args)
            for i in t.args[1:]):
        t = t.args[0]
    return t


def whole(i):
    return i.op == "slice" and i.args[0] in (NONE, ZERO) and \
        i.args[1] is NONE and i.args[2] in (NONE, ONE)


def cells(prog, chk):
    """{method: [what each component of calculateHazard's result is]}"""
    ip = analyse(prog, chk, CALC, opaque=list(FITS) + [LOAD])
    out = {}
    for e in ip.trace:
        if e.kind in ("mutate", "mcall") and isstr(e.fn) and \
                strval(e.fn) == "sort" and e.func.qual != "hazard.calculateCI":
            ax = e.kw.get("axis", e.args[0] if e.args else None)
            if not contains(e.term, lambda x: x.op == "call" and
                            x.args[0].op == "func" and
                            x.args[0].val == LOAD):
                continue
            if e.term.op == "idx":
                continue
            chk.decide("cell", "%s:sort" % e.func.qual,
                       True if ax is ZERO else None if ax is not None and
                       not isnum(ax) else False, "wind speeds are sorted "
                       "along axis %s; the events are axis 0" % (
                           "-1" if ax is None else show(ax)), e.where)
    evd = [x for x in walk(ip.result) if x.op == "attr" and x.val == "evd"]
    chk.need(evd, "choice of the distribution")
    ci = [x for x in walk(ip.result) if x.op == "attr" and
          x.val == "calcCI"]
    T = sym("param", "tilelimits")
    for m in METHODS:
        env = {x: const(m) for x in evd}
        env.update({x: FALSE for x in ci})
        r = subst(ip.result, env)
        items = tuple_items(r)
        if items is None:
            chk.unsure("cell", m, show(r, 5))
            continue
        chk.decide("place", "%s:limits" % m, True if items[0] is T else
                   None if opaque_in(items[0]) else False, "the limits "
                   "returned with a tile's results are %s" %
                   show(items[0], 5), where(prog, CALC))
        kinds = [None]
        for n, t in enumerate(items[1:], 1):
            kinds.append(cell(chk, ip, m, n, t, T))
        out[m] = kinds
    own_state(chk, ip)
    return out


def cell(chk, ip, m, n, t, T):
    f = filled(ip, t) if t.op == "eta" else None
    tag = "%s:%d" % (m, n)
    if f is None:
        chk.unsure("cell", tag, show(t, 5))
        return None
    fit = fit_of(strip_whole(f.value))
    if fit is None:
        chk.unsure("cell", tag, show(f.value, 5))
        return None
    call, comp = fit
    w = "%s" % call.args[0].val
    idx = [i for i in f.index if not whole(i)]
    data = call_arg(call, "data", 0)
    if data is not None and spread(chk, tag, f, data, "hazard/__init__.py"):
        return comp
    if data is None or len(idx) != 2 or len(f.loops) != 2:
        chk.unsure("cell", tag, "index %s" % ", ".join(show(i, 3)
                                                       for i in f.index))
        return comp
    d = data
    if d.op == "idx" and len(d.args) == 2 and d.args[1].op == "ix":
        d = mk("idx", d.args[0], *d.args[1].args)
    if d.op != "idx" or len(d.args) != 4:
        chk.unsure("cell", tag, "data %s" % show(data, 5))
        return comp
    pos = "%s:%s" % (m, "wspd loc scale shp".split()[comp]
                     if comp < 4 else comp)
    site = "hazard/__init__.py"
    v = True if whole(d.args[1]) and d.args[2] is idx[0] and \
        d.args[3] is idx[1] else False if plain(d.args[2]) and \
        plain(d.args[3]) and plain(idx[0]) and plain(idx[1]) else None
    chk.decide("cell", "%s:data" % pos, v, "what is stored at [%s, %s] is "
               "fitted to the wind speeds at [%s, %s, %s]" % (
                   show(idx[0], 3), show(idx[1], 3), show(d.args[1], 3),
                   show(d.args[2], 3), show(d.args[3], 3)), site)
    gates(chk, pos, f, idx, site)
    # every cell of the tile
    V = d.args[0]
    for ax, i in ((1, idx[0]), (2, idx[1])):
        size = [dom.args[0] for L, dom in f.loops if L.k is i]
        if not size or not f.loops:
            chk.decide("cell", "%s:axis %d" % (pos, ax),
                       False if plain(i) and any(
                           has(i, L.k) for L, _ in f.loops) else None,
                       "index %s" % show(i, 4), site)
            continue
        want = select(mk("attr", V, val="shape"), num(ax))
        v = True if size[0] is want else bounded(size[0], want)
        chk.decide("cell", "%s:axis %d" % (pos, ax), v, "the cells along "
                   "axis %d number %s, those fitted %s" % (
                       ax, show(want, 3), show(size[0], 4)), site)
    loaded(chk, ip, pos, V, T)
    return comp


def spread(chk, tag, f, d, site):
    """is what is fitted to one cell stored in several cells?"""
    for L, _ in f.loops:
        if has(d, L.k) and all(plain(i) and not has(i, L.k)
                               for i in f.index) and \
                any(i.op == "slice" for i in f.index[-2:]):
            chk.violation("cell", "%s:spread" % tag, "what is fitted to the "
                          "wind speeds of one cell is stored at [%s], in "
                          "the place of other cells too" % ", ".join(
                              show(i, 3) for i in f.index), site)
            return True
    return False


def gates(chk, tag, f, idx, site):
    """whether a cell is calculated depends on its own wind speeds"""
    for c in f.conds:
        for x in walk(c):
            if x.op != "idx":
                continue
            ii = x.args[1].args if len(x.args) == 2 and \
                x.args[1].op == "ix" else x.args[1:]
            if len(ii) != 3:
                continue
            ok = ii[1] is idx[0] and ii[2] is idx[1]
            chk.decide("cell", tag + ":condition", True if ok else
                       False if plain(ii[1]) and plain(ii[2]) and
                       not (whole(ii[1]) or whole(ii[2])) else None,
                       "whether the cell [%s, %s] is calculated depends on "
                       "the wind speeds at [%s, %s]" % (
                           show(idx[0], 3), show(idx[1], 3),
                           show(ii[1], 3), show(ii[2], 3)), site)


def plain(t):
    return not contains(t, lambda x: x.op in ("opaque", "call", "mcall"))


def bounded(a, want):
    """is a number of cells different from the extent?"""
    m = {want: num(5)}
    v = subst(a, m)
    if isnum(v):
        return v.val == 5 or False
    return None


def loaded(chk, ip, pos, V, T):
    """the array the fits take their data from"""
    calls = [x for x in walk(V) if x.op == "call" and
             x.args[0].op == "func" and x.args[0].val == LOAD]
    if not calls:
        chk.unsure("read", pos, show(V, 4))
        return
    for c in calls:
        l = call_arg(c, "limits", 1)
        chk.decide("read", "%s:limits" % pos, True if l is T else
                   None if opaque_in(l) else False, "wind speeds are read "
                   "at %s" % show(l, 5), "hazard/__init__.py")
    for x in walk(V):
        if x.op == "idx" and x.args[0].op == "eta" and any(
                c in set(walk(x.args[0])) for c in calls):
            i = x.args[1]
            i = i.args[0] if i.op == "ix" else i
            if turned(i) and (i.args[2] is NONE or abs(i.args[2].val) != 1
                              or i.args[0] is not NONE or
                              i.args[1] is not NONE):
                chk.violation("read", "%s:all events" % pos, "of the wind "
                              "speeds read only [%s] are used" % show(i),
                              "hazard/__init__.py")
        if x.op == "store" and x.args[2] in calls:
            ix = x.args[1]
            ix = list(ix.args) if ix.op == "ix" else [ix]
            ok = len(ix) in (1, 3) and not whole(ix[0]) and \
                all(whole(i) for i in ix[1:]) and contains(
                    ix[0], lambda y: y.op == "sym" and y.val[0] == "k")
            chk.decide("read", "%s:event" % pos, True if ok else None
                       if not all(map(plain, ix)) else False,
                       "an event's wind speeds are stored at [%s]" %
                       ", ".join(show(i, 3) for i in ix),
                       "hazard/__init__.py")
        if x.op == "full" and x.args[0].op == "tuple" and \
                len(x.args[0].args) == 3:
            s = x.args[0].args
            a = equal(s[1], sub(lim(T, 3), lim(T, 2)))
            b = equal(s[2], sub(lim(T, 1), lim(T, 0)))
            chk.decide("read", "%s:size" % pos, True if a and b else
                       False if a is False or b is False else None,
                       "tile arrays have %s rows and %s columns" % (
                           show(s[1], 4), show(s[2], 4)),
                       "hazard/__init__.py")
        if x.op == "call" and x.args[0].op == "ext" and \
                x.args[0].val in ("numpy.max", "numpy.amax", "numpy.sort",
                                  "numpy.mean", "numpy.nanmax") and any(
                    c in set(walk(x.args[1])) for c in calls):
            ax = call_arg(x, "axis", 1)
            chk.decide("read", "%s:axis" % pos, True if ax is ZERO else
                       None if ax is not None and not isnum(ax) else False,
                       "%s of the wind speeds along axis %s; the events are "
                       "axis 0" % (x.args[0].val, "None" if ax is None else
                                   show(ax)), "hazard/__init__.py")


def own_state(chk, ip):
    """a tile's results depend on the tile alone"""
    n = 0
    for e in ip.trace:
        if e.kind == "setattr" and e.term.op == "obj" or \
                e.kind == "setglobal":
            n += 1
            nm = e.extra
            used = e.kind == "setglobal" or any(
                x.op == "attr" and x.val == nm
                for y in ip.trace for a in y.args if a is not None
                for x in walk(a)) or any(x.op == "attr" and x.val == nm
                                         for x in walk(ip.result))
            if used:
                chk.unsure("own", "%s.%s" % (show(e.term, 2), nm),
                           "changed while a tile is processed")
        elif e.kind == "call" and e.fn.op == "ext" and (
                e.fn.val.startswith("random.") or
                e.fn.val.startswith("numpy.random.")) and \
                not e.fn.val.endswith(".seed"):
            n += 1
            seeded = any(x.kind == "call" and x.fn.op == "ext" and
                         x.fn.val in ("random.seed", "numpy.random.seed")
                         for x in ip.trace)
            chk.decide("own", "%s:%s" % (e.func.qual, e.fn.val),
                       None if seeded else False, "the result depends on "
                       "the state of the random number generator, which "
                       "differs with the number of processes", e.where)
    chk.count("state changes while a tile is processed", n)
    chk.ok("own", "state of the calculator", "%d changes looked at" % n)


# ------------------------------------------------------------------- place
def place(prog, chk, parts):
    ip = analyse(prog, chk, RUN, opaque=[CALC, "hazard.setDomain",
                                         "hazard.getTiles", SAVE])
    saves = [e for e in calls_to(ip, SAVE)
             if grid_vars(arg(e, "variables", 2) or NONE)]
    chk.need(saves, "saving of the hazard grid")
    e = saves[-1]
    dims = {strval(v["name"]): v["values"]
            for v in grid_vars(arg(e, "dimensions", 1) or NONE) or []
            if isstr(v["name"])}
    first = {}
    for d in ("lat", "lon"):
        t = dims.get(d)
        if t is not None and t.op == "idx" and len(t.args) == 2 and \
                t.args[1].op == "slice":
            first[d] = t.args[1].args[0]
            if first[d] is NONE:
                first[d] = ZERO
    if len(first) < 2:
        chk.unsure("place", "coordinates", show(dims.get("lat", NONE), 4))
        return {}
    bounds = {}
    ci = [x for x in walk(mk("list", *[v["values"] for v in grid_vars(
        arg(e, "variables", 2))])) if x.op == "cfg" and cfg_of(x) ==
          ("Hazard", "CalculateCI")]
    for v in grid_vars(arg(e, "variables", 2)):
        if not isstr(v["name"]):
            continue
        nm = strval(v["name"])
        if nm not in PARTS and nm not in BOUNDS:
            continue
        dm = tuple_items(v.get("dims", NONE)) or []
        order = [strval(x) for x in dm if isstr(x)]
        chk.decide("place", "%s:dimensions" % nm, order[-2:] ==
                   ["lat", "lon"] or False, "dimensions are %s" %
                   ", ".join(order), e.where)
        for size in (1, 2, 4):
            t = at_rank(v["values"], 0, size)
            t = subst(t, {x: TRUE for x in ci})
            one(chk, ip, e, nm, size, t, first, parts, bounds, dims)
    worker(chk, ip)
    return bounds


def one(chk, ip, e, nm, size, t, first, parts, bounds, dims):
    tag = "%s:%d process%s" % (nm, size, "" if size == 1 else "es")
    t = real(t)
    if t.op != "eta":
        chk.unsure("place", tag, show(t, 4))
        return
    nxt = real(t.args[1])
    if nxt.op == "phi":
        for a in (1, 2):
            if nxt.args[a].op == "store" and is_mu(nxt.args[3 - a]):
                # stored under a condition
                chk.unsure("place", tag, "stored if %s" % show(
                    nxt.args[0], 4))
                return
    if nxt.op != "store":
        chk.unsure("place", tag, show(nxt, 5))
        return
    ix = nxt.args[1]
    ix = list(ix.args) if ix.op == "ix" else [ix]
    val = real(strip_whole(nxt.args[2]))
    res = [x for x in walk(nxt) if x.op == "call" and
           x.args[0].op == "func" and x.args[0].val == CALC or
           received(x)]
    if len(set(res)) != 1 or len(ix) < 2:
        chk.unsure("place", tag, "%d sources of results" % len(set(res)))
        return
    R = res[0]
    base = t.args[0]
    if base.op == "full":
        sh = tuple_items(base.args[0]) or []
        for i, d in ((-2, "lat"), (-1, "lon")):
            v = None
            if len(sh) >= 2:
                v = equal(sh[i], mk("len", dims[d]))
                if v is False and opaque_in(sh[i]):
                    v = None
            chk.decide("place", "%s:size along %s" % (nm, d), v,
                       "%s cells" % (show(sh[i], 4) if len(sh) >= 2 else
                                     "?"), e.where)
    for i, d, a, b in ((-2, "lat", 2, 3), (-1, "lon", 0, 1)):
        lo = sub(lim(lim(R, 0), a), first[d])
        hi = sub(lim(lim(R, 0), b), first[d])
        r = same_span(ix[i], lo, hi)
        chk.decide("place", "%s:%s" % (tag, d), r, "stored at %s, the "
                   "tile's cells are %s" % (show(ix[i], 5),
                                            show(span(lo, hi), 5)), e.where)
    if not (val.op == "idx" and val.args[0] is R and isnum(val.args[1])):
        chk.unsure("name", tag, show(val, 4))
        return
    p = int(val.args[1].val)
    if nm in PARTS:
        for m, kinds in parts.items():
            got = kinds[p] if p < len(kinds) else None
            chk.decide("name", "%s:%s" % (tag, m), None if got is None
                       else got == PARTS[nm], "%s is stored as '%s'" % (
                           ["the return levels", "the location parameter",
                            "the scale parameter",
                            "the shape parameter"][got]
                           if got is not None and got < 4 else got, nm),
                       e.where)
    else:
        bounds[nm] = p


def received(t):
    return t.op == "call" and t.args[0].op == "ext" and \
        t.args[0].val == "MPI.COMM_WORLD.recv"


def worker(chk, ip):
    """workers return the result for the tile they were given"""
    sent = [e for e in ip.trace if e.kind == "call" and e.fn.op == "ext" and
            e.fn.val in ("MPI.COMM_WORLD.send", "MPI.COMM_WORLD.ssend") and
            e.args and contains(
                e.args[0], lambda x: x.op == "call" and
                x.args[0].op == "func" and x.args[0].val == CALC)]
    if not sent:
        chk.unsure("place", "results of the workers", "no message")
        return
    for e in sent:
        r = e.args[0]
        t = call_arg(r, "tilelimits", 1) if r.op == "call" else None
        chk.decide("place", "results of the workers",
                   True if t is not None and received(t) else None, show(r, 4), e.where)


# ------------------------------------------------------ confidence limits
def limits(prog, chk, bounds):
    q = "hazard.calculateCI"
    chk.need(q in prog.funcs, q)
    ip0 = analyse(prog, chk, CALC, opaque=list(FITS) + [LOAD, q])
    env = {x: TRUE for x in walk(ip0.result) if x.op == "attr" and
           x.val == "calcCI"}
    items = tuple_items(subst(ip0.result, env))
    ip = analyse(prog, chk, q, opaque=list(FITS))
    r = tuple_items(ip.result)
    if r is None or len(r) != 2 or items is None:
        chk.unsure("own", q, show(ip.result, 4))
        return
    side = {}
    for n, t in enumerate(r):
        f = filled(ip, t) if t.op == "eta" else None
        if f is None:
            chk.unsure("own", "%s:%d" % (q, n), show(t, 4))
            continue
        side[n] = which(t)
        fits = {x for x in walk(f.value) if x.op == "call" and
                x.args[0].op == "func" and x.args[0].val in FITS}
        idx = [i for i in f.index if not whole(i)]
        for c in fits:
            d = call_arg(c, "data", 0)
            subs = [x for x in walk(d) if x.op == "idx" and (
                len(x.args) == 4 or len(x.args) == 2 and
                x.args[1].op == "ix" and len(x.args[1].args) == 3)]
            if spread(chk, "%s:%d" % (q, n), f, d, where(prog, q)):
                continue
            if not subs or len(idx) != 2:
                chk.unsure("cell", "%s:%d" % (q, n), show(d, 5))
                continue
            for x in subs:
                ii = x.args[1].args if len(x.args) == 2 else x.args[1:]
                ok = ii[1] is idx[0] and ii[2] is idx[1]
                chk.decide("cell", "%s:%d:data" % (q, n), True if ok else
                           False if plain(ii[1]) and plain(ii[2]) else None,
                           "limits stored at [%s, %s] are fitted to the "
                           "wind speeds at [%s, %s]" % (
                               show(idx[0], 3), show(idx[1], 3),
                               show(ii[1], 3), show(ii[2], 3)),
                           where(prog, q))
        if len(idx) == 2:
            gates(chk, "%s:%d" % (q, n), f, idx, where(prog, q))
        left_over(prog, chk, ip, q, n, f)
    for nm, p in sorted(bounds.items()):
        t = items[p] if p < len(items) else None
        if t is not None and t.op == "idx" and isnum(t.args[1]):
            s = side.get(int(t.args[1].val))
            chk.decide("name", "%s:limit" % nm, None if s is None else
                       s == BOUNDS[nm], "the %s limit is stored as '%s'" % (
                           s, nm), where(prog, q))
        else:
            chk.unsure("name", "%s:limit" % nm, show(t, 4) if t is not None
                       else "not returned")


def which(t):
    """upper or lower percentile?"""
    P = sym("param", "prange")
    v = set()
    for x in walk(t):
        if x.op == "call" and x.args[0].op == "ext" and \
                x.args[0].val.split(".")[-1] in ("scoreatpercentile",
                                                 "percentile"):
            p = call_arg(x, "per", 1) or call_arg(x, "q", 1)
            y = subst(p, {P: num(90)}) if p is not None else None
            if y is not None and isnum(y):
                v.add(float(y.val))
    if v == {95.0}:
        return "upper"
    if v == {5.0}:
        return "lower"
    if len(v) == 1:
        return "%g%%" % v.pop()
    return None


def left_over(prog, chk, ip, q, n, f):
    """carried from one cell to the next"""
    cellloops = {L.uid for L, _ in f.loops}
    carried = {}
    for L in ip.loops:
        if L.uid in cellloops:
            for lab, (m, init, nxt) in L.carried.items():
                carried[m] = (init, nxt)
    seen = set()
    ok = True
    for m in {x for x in walk(f.value) if x in carried}:
        base = start(m, carried)
        if base.op == "sym" or contains(base, lambda x: x.op == "sym" and
                                        x.val[0] == "param" and
                                        x.val[1] == "Vr") and \
                base.op != "full":
            continue        # the wind speeds themselves
        for x in walk(f.value):
            if x.op == "eta" and x.args[0] is m:
                seen.add(m)
                c = covers(x, base)
                if c is False:
                    ok = False
                    chk.violation("own", "%s:%s" % (q, name_of(ip, m)),
                                  "the value stored for a cell can contain "
                                  "results of another cell: the array of "
                                  "fits is changed for this cell only if "
                                  "%s" % (show(x.args[1].args[0], 4)
                                      if x.args[1].op == "phi" else "..."),
                                  where(prog, q))
                elif c is None:
                    ok = False
                    chk.unsure("own", "%s:%s" % (q, name_of(ip, m)),
                               show(x, 4))
        if m not in seen:
            direct = True
            chk.unsure("own", "%s:%s" % (q, name_of(ip, m)), "carried from "
                       "cell to cell")
            ok = False
    if ok:
        chk.ok("own", "%s:%d" % (q, n), "nothing is carried from cell to "
               "cell")


def name_of(ip, m):
    return "array kept between cells"


def start(m, carried):
    t = m
    for _ in range(10):
        if t in carried:
            t = carried[t][0]
        else:
            return t
    return t


def covers(x, base):
    """does a loop set every element of the array?"""
    return sets(x, base, x.args[1])


def sets(x, base, nxt):
    if nxt.op == "phi" and (is_mu(nxt.args[1]) or is_mu(nxt.args[2])):
        return False
    if nxt.op == "phi":
        a, b = sets(x, base, nxt.args[1]), sets(x, base, nxt.args[2])
        return False if a is False or b is False else a and b
    if nxt.op != "store" or not is_mu(nxt.args[0]) or base.op != "full":
        return None
    k = sym("k", x.val[1])
    ix = list(nxt.args[1].args) if nxt.args[1].op == "ix" else [nxt.args[1]]
    shape = base.args[0]
    shape = list(shape.args) if shape.op == "tuple" else [shape]
    dom = x.args[-1]
    for d, i in enumerate(ix):
        if whole(i):
            continue
        if i is not k or d >= len(shape) or dom.args[0] is not shape[d]:
            return None
    return True
