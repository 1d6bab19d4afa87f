"""C30: numbering of the cells of a domain."""
import math
from fractions import Fraction as F
from sa.util import *
from sa.evaluate import whole
from sa.pointwise import Unknown
from checks.c18 import where
from checks.c29 import Table, Outside, UNINIT

ST = "Utilities.stats."
NUM, CORNER = ST + "getCellNum", ST + "getCellLonLat"
VALID, LAST = ST + "validCellNum", ST + "maxCellNum"
GD = "StatInterface.GenerateDistributions.GenerateDistributions"
GS = "StatInterface.generateStats.GenerateStats"
TG = "TrackGenerator.TrackGenerator.TrackGenerator"
SI = "StatInterface.StatInterface.StatInterface"
USERS = [(GD + ".extractParameter", True), (GS + ".extractParameter", True),
         ("PlotInterface.plotCell.PlotCell.extractParameters", False)]
DATA = ("pList", "param", "bearing_list", "speed_list", "pressure_list",
        "bearingRate_list", "speedRate_list", "pressureRate_list")
# (xMin, xMax, yMin, yMax, x, y)
DOMAINS = [
    (110, 120, -25, -15, 5, 5), (100, 106, -12, -8, 2, 1),
    (-6, 4, -3, 5, 2, 2), (0, 3, 0, 4, 1, 2), (-20, -10, 10, 16, 5, 3),
    (355, 365, -10, 0, F(5, 2), F(5, 2)), (170, 190, -30, -24, 5, 1),
    (F(1, 2), F(9, 2), F(-7, 2), F(-1, 2), 1, 1),
    (F(-3, 2), F(5, 2), F(-3, 2), F(3, 2), F(1, 2), F(3, 4)),
    (100, 107, -17, -10, 2, 2), (-7, 3, -4, 5, 3, 2), (10, 12, 3, 4, 2, 1),
    (0, 9, -9, 0, 9, F(9, 4)), (140, 141, -20, -10, 1, 5),
]


def check(prog, chk):
    chk.rule("inside", "a position of the domain lies within the limits "
             "reported for its own cell number")
    chk.rule("range", "the number of a position and the cells of a domain "
             "lie between zero and the last cell; every number has a cell "
             "and no two numbers the same one")
    chk.rule("outside", "a position outside the domain is rejected, a "
             "position inside it is not; a number beyond the cells is not "
             "valid")
    chk.rule("members", "the observations taken for a cell during "
             "calibration are those between the limits of that cell")
    chk.rule("every", "calibration visits every cell of the domain once and "
             "has room for each of them")
    chk.rule("layout", "the cell values stored as a grid stand at the "
             "longitude and latitude of their cell")
    chk.rule("same", "calibration and simulation number the cells over the "
             "limits and spacing of their own domain, with the spacing read "
             "from the same option")
    for q in (NUM, CORNER, VALID, LAST, GD + ".extractParameter",
              GS + ".extractParameter", TG + "._singleTrack"):
        chk.need(q in prog.funcs, q)
    ips = {q: analyse(prog, chk, q) for q in (NUM, CORNER, VALID, LAST)}
    numbering(prog, chk, ips)
    for q, must in USERS:
        if q in prog.funcs:
            members(prog, chk, q)
    visits(prog, chk)
    layout(prog, chk)
    loaded(prog, chk)
    calls(prog, chk)
    options(prog, chk)


class Cells(Table):
    """values of terms for one domain"""

    def __init__(self, ip, env):
        Table.__init__(self, ip, env, [])

    def op_idx(self, t):
        b = self.ev(t.args[0])
        rest = list(t.args[1:])
        while rest and isinstance(b, dict):
            i = rest.pop(0)
            k = self.ev(i.args[0] if i.op == "ix" and
                        len(i.args) == 1 else i)
            if k not in b:
                raise Unknown("key")
            b = b[k]
        p = [whole(x) if isinstance(x, F) else x
             for i in rest for x in self.path(i)]
        for n, x in enumerate(p):
            b = self.take(b, x, p[n + 1:])
            if isinstance(x, slice):
                break
        return b

    def take(self, b, x, rest):
        if not isinstance(b, list):
            raise Unknown("index")
        if isinstance(x, slice):
            b = b[x]
            for y in rest:
                b = [self.take(r, y, ()) for r in b]
            return b
        if isinstance(x, int) and not isinstance(x, bool):
            if not -len(b) <= x < len(b):
                raise Outside("index %d of %d values" % (x, len(b)))
            return b[x]
        raise Unknown("index")

    def op_fn(self, t):
        if t.val in ("floordiv", "mod"):
            a = [self.ev(x) for x in t.args]
            if a[1] == 0:
                raise Unknown("division by zero")
            if t.val == "mod":
                return self.each(lambda x, y: whole(F(x) % F(y)), *a)
            return self.each(lambda x, y: math.floor(F(x) / F(y)), *a)
        if t.val == "ceildiv":
            a = [self.ev(x) for x in t.args]
            return self.each(lambda x, y: -math.floor(-F(x) / F(y)), *a)
        if t.val in ("any", "all", "mean", "sum", "cumsum", "diff", "round",
                     "median") or t.val in ("max", "min") and \
                len(t.args) == 1:
            return self.named(t.val, [self.ev(x) for x in t.args])
        if t.val in ("T", "transpose") and len(t.args) == 1:
            return self.named("transpose", [self.ev(t.args[0])])
        return Table.op_fn(self, t)

    def op_mul(self, t):
        v = Table.op_mul(self, t)
        return self.each(whole, v)

    def op_truth(self, t):
        return self.each(bool, self.ev(t.args[0]))

    def op_nonzero(self, t):
        v = self.ev(t.args[0])
        if any(isinstance(x, list) for x in v):
            raise Unknown("positions in a table")
        # one list of positions for each dimension
        return [[i for i, x in enumerate(v) if x]]

    def op_attr(self, t):
        if t.args[0].op == "attr" and t.args[0].val == "coeffs" and \
                "cells" in self.__dict__:
            return list(range(self.cells))
        if t.val == "T":
            return self.named("transpose", [self.ev(t.args[0])])
        return Table.op_attr(self, t)

    def op_len(self, t):
        v = self.ev(t.args[0])
        if not isinstance(v, (list, dict)):
            raise Unknown("length")
        return len(v)

    def op_dict(self, t):
        return {self.key(t.args[i]): t.args[i + 1]
                for i in range(0, len(t.args) - 1, 2)}

    def key(self, t):
        return strval(t) if isstr(t) else self.ev(t)

    def named(self, name, a):
        if name == "arange" and 1 <= len(a) <= 3:
            lo, hi, st = [(0, a[0], 1), (a[0], a[1] if len(a) > 1 else 0, 1),
                          tuple(a) if len(a) == 3 else None][len(a) - 1]
            if st == 0:
                raise Unknown("step")
            n = max(0, math.ceil((F(hi) - F(lo)) / F(st)))
            return [whole(F(lo) + i * F(st)) for i in range(n)]
        if name in ("mean", "average", "nanmean") and len(a) == 1 and \
                isinstance(a[0], list) and a[0]:
            return sum(F(x) for x in a[0]) / len(a[0])
        if name == "median" and len(a) == 1 and a[0]:
            v = sorted(a[0])
            n = len(v)
            return (F(v[(n - 1) // 2]) + F(v[n // 2])) / 2
        if name == "cumsum" and len(a) == 1:
            out, r = [], 0
            for x in a[0]:
                r = self.plus(r, x)
                out.append(r)
            return out
        if name == "diff" and len(a) == 1:
            return [whole(F(y) - F(x)) for x, y in zip(a[0], a[0][1:])]
        if name in ("hstack", "concatenate", "r_") and len(a) == 1:
            return [y for x in a[0]
                    for y in (x if isinstance(x, list) else [x])]
        if name in ("round", "around", "round_", "rint") and a:
            n = a[1] if len(a) > 1 else 0
            return self.each(lambda x: round(F(x), int(n)), a[0])
        if name in ("abs", "absolute", "fabs") and len(a) == 1:
            return self.each(abs, a[0])
        if name in ("less", "greater", "less_equal", "greater_equal") and \
                len(a) == 2:
            f = {"less": lambda x, y: x < y, "greater": lambda x, y: x > y,
                 "less_equal": lambda x, y: x <= y,
                 "greater_equal": lambda x, y: x >= y}[name]
            return self.each(f, *a)
        if name in ("logical_and", "logical_or") and len(a) == 2:
            return self.each((lambda x, y: bool(x and y)) if name ==
                             "logical_and" else
                             (lambda x, y: bool(x or y)), *a)
        if name == "logical_not" and len(a) == 1:
            return self.each(lambda x: not x, a[0])
        if name == "count_nonzero" and len(a) == 1:
            return len([x for x in a[0] if x])
        if name in ("len", "alen") and len(a) == 1:
            return len(a[0])
        if name in ("zeros", "ones") and len(a) == 1 and \
                isinstance(a[0], int):
            return [int(name == "ones")] * a[0]
        if name == "size" and len(a) == 1 and isinstance(a[0], list):
            return len(a[0])
        if name in ("flatten", "ravel") and len(a) == 1:
            return [y for r in a[0] for y in r] if a[0] and isinstance(
                a[0][0], list) else a[0]
        if name == "reshape" and len(a) in (2, 3):
            shape = a[1] if isinstance(a[1], list) else a[1:]
            flat = a[0]
            if len(shape) == 2 and all(isinstance(x, int) for x in shape):
                r, c = shape
                if r < 0:
                    r = len(flat) // c
                if c < 0:
                    c = len(flat) // r
                if r * c != len(flat):
                    raise Outside("%d values as %d by %d" % (len(flat), r,
                                                             c))
                return [flat[i * c:i * c + c] for i in range(r)]
        if name == "transpose" and len(a) == 1:
            return [list(r) for r in zip(*a[0])]
        if name == "int" and len(a) == 1:
            return int(a[0])
        if name == "bool" and len(a) == 1:
            return bool(a[0])
        if name in ("floor_divide", "mod", "remainder", "divmod") and \
                len(a) == 2 and a[1] and not isinstance(a[0], list):
            q = math.floor(F(a[0]) / F(a[1]))
            r = whole(F(a[0]) - q * F(a[1]))
            return {"floor_divide": q, "divmod": [q, r]}.get(name, r)
        if name == "ceil":
            return math.ceil(a[0])
        if name == "floor":
            return math.floor(a[0])
        if name == "unravel_index" and len(a) == 2 and len(a[1]) == 2:
            return list(divmod(a[0], a[1][1]))
        if name == "ravel_multi_index" and len(a) == 2:
            return a[0][0] * a[1][1] + a[0][1]
        if name in ("searchsorted",) and len(a) == 2 and \
                not isinstance(a[1], list):
            return len([x for x in a[0] if x < a[1]])
        return Table.named(self, name, a)


def limits(d):
    return {"xMin": d[0], "xMax": d[1], "yMin": d[2], "yMax": d[3]}


def spaces(d):
    return {"x": d[4], "y": d[5]}


def text(d):
    return "%s..%s E %s..%s N by %s x %s" % tuple(
        str(float(v)) if isinstance(v, F) else str(v) for v in d)


def shape(d):
    return (math.ceil((F(d[1]) - d[0]) / d[4]),
            math.ceil((F(d[3]) - d[2]) / d[5]))


def positions(d):
    """positions of the domain: inside each cell and on its west and north
    edge (the edges that belong to the domain)"""
    nx, ny = shape(d)
    out = []
    for r in range(ny):
        for c in range(nx):
            w, n = F(d[0]) + c * F(d[4]), F(d[3]) - r * F(d[5])
            e, s = min(w + d[4], F(d[1])), max(n - d[5], F(d[2]))
            for a in (F(0), F(1, 64), F(1, 3), F(1, 2), F(9, 10)):
                for b in (F(0), F(1, 64), F(2, 5), F(63, 64)):
                    out.append((w + a * (e - w), n - b * (n - s)))
    return out


def borders(d):
    """positions on the south and east edges of the domain, where a position
    has a cell of the domain or none"""
    mx, my = (F(d[0]) + d[1]) / 2, (F(d[2]) + d[3]) / 2
    return [(x, F(d[2])) for x in (F(d[0]), mx)] + [
        (F(d[1]), y) for y in (F(d[3]), my)] + [(F(d[1]), F(d[2]))]


def strangers(d):
    mx, my = (F(d[0]) + d[1]) / 2, (F(d[2]) + d[3]) / 2
    for g in (F(1, 64), F(d[4]), F(d[4]) * 7):
        yield "west", (d[0] - g, my)
        yield "east", (d[1] + g, my)
    for g in (F(1, 64), F(d[5]), F(d[5]) * 7):
        yield "south", (mx, d[2] - g)
        yield "north", (mx, d[3] + g)


class Function:
    """one of the four functions as a function of numbers"""

    def __init__(self, ip, names):
        self.ip, self.names = ip, names
        self.raises = [e.cond() for e in ip.trace if e.kind == "raise"]

    def __call__(self, *args):
        env = {sym("param", n): a for n, a in zip(self.names, args)}
        val = Cells(self.ip, env)
        for c in self.raises:
            if val(c):
                return "rejected"
        return val(self.ip.result)


def numbering(prog, chk, ips):
    def names(q):
        f = prog.funcs[q].node.args
        return [a.arg for a in f.args]
    fs = {}
    for q, n in ((NUM, 4), (CORNER, 3), (VALID, 3), (LAST, 2)):
        chk.need(len(names(q)) >= n, "parameters of %s" % q)
        fs[q] = Function(ips[q], names(q))
    num, corner, valid, last = (fs[q] for q in (NUM, CORNER, VALID, LAST))
    at = {q: where(prog, q) for q in fs}
    bad, unknown = {}, {}

    def fail(rule, construct, q, msg):
        bad.setdefault((rule, construct), (q, msg))
    npos = 0
    for d in DOMAINS:
        g, s = limits(d), spaces(d)
        nx, ny = shape(d)
        total = nx * ny
        try:
            n = last(g, s)
            if n != total - 1:
                fail("range", "last", LAST, "the last cell of %s is said to "
                     "be %s; the domain has %d cells" % (text(d), n, total))
        except Unknown as ex:
            unknown[("range", "last")] = str(ex)
        except Outside as ex:
            fail("range", "last", LAST, str(ex))
        seen = {}
        for c in range(-2, total + 3):
            inside = 0 <= c < total
            try:
                v = valid(c, g, s)
                if v != "rejected" and bool(v) != inside or \
                        v == "rejected" and inside:
                    fail("outside", "valid", VALID, "cell %d of %s, which "
                         "has %d cells, is called %s" % (
                             c, text(d), total, "valid" if v is not False
                             else "invalid"))
            except Unknown as ex:
                unknown[("outside", "valid")] = str(ex)
            except Outside as ex:
                fail("outside", "valid", VALID, str(ex))
            if c < 0:
                try:
                    if corner(c, g, s) != "rejected":
                        fail("outside", "negative", CORNER, "cell %d of %s "
                             "has a corner" % (c, text(d)))
                except Outside:
                    pass
                except Unknown as ex:
                    unknown[("outside", "negative")] = str(ex)
            if not inside:
                continue
            try:
                p = corner(c, g, s)
            except Unknown as ex:
                unknown[("range", "corner")] = str(ex)
                continue
            except Outside as ex:
                fail("range", "corner", CORNER, "cell %d of %s: %s" % (
                    c, text(d), ex))
                continue
            if p == "rejected":
                fail("range", "corner", CORNER, "cell %d of %s is rejected"
                     % (c, text(d)))
                continue
            p = tuple(F(x) for x in p)
            if p in seen:
                fail("range", "corner", CORNER, "cells %d and %d of %s are "
                     "the same" % (seen[p], c, text(d)))
            seen[p] = c
            col, row = (p[0] - d[0]) / d[4], (d[3] - p[1]) / d[5]
            if col.denominator != 1 or row.denominator != 1 or not (
                    0 <= col < nx and 0 <= row < ny):
                fail("range", "corner", CORNER, "cell %d of %s has its "
                     "corner at %s, %s" % (c, text(d), float(p[0]),
                                           float(p[1])))
        if len(seen) < total and ("range", "corner") not in unknown:
            fail("range", "corner", CORNER, "%d of the %d cells of %s have "
                 "a corner of their own" % (len(seen), total, text(d)))
        for x, y in positions(d):
            npos += 1
            try:
                c = num(x, y, g, s)
            except Unknown as ex:
                unknown[("inside", "position")] = str(ex)
                break
            except Outside as ex:
                fail("inside", "position", NUM, str(ex))
                break
            pt = "%g, %g of %s" % (float(x), float(y), text(d))
            if c == "rejected":
                fail("outside", "position", NUM, "position %s is rejected"
                     % pt)
                continue
            if isinstance(c, float) or F(c).denominator != 1 or \
                    not 0 <= c < total:
                fail("range", "number", NUM, "position %s has cell number "
                     "%s; the cells are 0 to %d" % (pt, c, total - 1))
                continue
            try:
                p = corner(int(c), g, s)
            except (Unknown, Outside):
                continue
            if p == "rejected":
                continue
            w, n = F(p[0]), F(p[1])
            if not (w <= x <= w + d[4] and n - d[5] <= y <= n):
                fail("inside", "position", NUM, "position %s has cell "
                     "number %d, whose limits are %g to %g E, %g to %g N"
                     % (pt, c, float(w), float(w + d[4]),
                        float(n - d[5]), float(n)))
        for x, y in borders(d):
            try:
                c = num(x, y, g, s)
            except (Unknown, Outside):
                continue
            if c != "rejected" and not 0 <= c < total:
                fail("range", "number", NUM, "position %g, %g on the border "
                     "of %s has cell number %s; the cells are 0 to %d" % (
                         float(x), float(y), text(d), c, total - 1))
        for side, (x, y) in strangers(d):
            try:
                if num(x, y, g, s) != "rejected":
                    fail("outside", side, NUM, "position %g, %g is %s of %s "
                         "and gets a cell number" % (float(x), float(y),
                                                     side, text(d)))
            except Outside:
                pass
            except Unknown as ex:
                unknown[("outside", side)] = str(ex)
    for key in [("range", "last"), ("range", "corner"), ("range", "number"),
                ("inside", "position"), ("outside", "position"),
                ("outside", "valid"), ("outside", "negative"),
                ("outside", "west"), ("outside", "east"),
                ("outside", "south"), ("outside", "north")]:
        if key in bad:
            q, msg = bad[key]
            chk.violation(key[0], key[1], msg, at[q])
        elif key in unknown:
            chk.unsure(key[0], key[1], unknown[key])
        else:
            chk.ok(key[0], key[1], "%d domains" % len(DOMAINS))
    chk.count("domains", len(DOMAINS))
    chk.count("positions", npos)


def own(t, name):
    """an attribute of the object the function belongs to"""
    return t.op == "attr" and t.val == name and t.args[0].op == "obj"


def attrs(t, names):
    return {x for x in walk(t) if x.op == "attr" and x.args[0].op == "obj"
            and x.val in names}


def members(prog, chk, q):
    short = ".".join(q.split(".")[-2:])
    ip = analyse(prog, chk, q)
    masks = {}
    for e in ip.trace:
        for t in list(e.args) + [e.term, e.cond()]:
            if t is None:
                continue
            for x in walk(t):
                if x.op != "idx" or len(x.args) != 2 or \
                        not any(own(x.args[0], n) for n in DATA):
                    continue
                if contains(x, lambda y: y.op == "sym" and isinstance(
                        y.val, tuple) and y.val and y.val[0] == "mu"):
                    continue
                if attrs(x.args[1], {"lonLat", "lonlat"}):
                    masks[x.args[1]] = (x.args[0], e.where)
    if not masks:
        chk.unsure("members", short, "selection of a cell not recognised")
        return
    par = prog.funcs[q].node.args.args
    cellpar = sym("param", par[1].arg) if len(par) > 1 else None
    bad, unknown, n = None, None, 0
    for m, (base, at) in sorted(masks.items(), key=lambda kv: show(kv[0])):
        for d in DOMAINS:
            nx, ny = shape(d)
            pts = [(x, y) for i, (x, y) in enumerate(positions(d))
                   if edge(d, x, y)]
            for land in (False, True):
                rows = [[x, y, int(land)] for x, y in pts]
                env = {cellpar: 0}
                for x in walk(m):
                    if x.op == "attr" and x.args[0].op == "obj":
                        v = {"lonLat": rows, "lonlat": rows,
                             "gridLimit": limits(d),
                             "gridSpace": spaces(d),
                             "gridInc": {"x": F(3, 4) * d[4],
                                         "y": F(2, 3) * d[5]}}.get(x.val)
                        if v is not None:
                            env[x] = v
                    if x.op == "sym" and x.val == ("param", "onLand"):
                        env[x] = land
                env[sym("param", "onLand")] = land
                for c in range(nx * ny):
                    env[cellpar] = c
                    try:
                        got = Cells(ip, env)(m)
                    except Unknown as ex:
                        unknown = str(ex)
                        break
                    except Outside as ex:
                        bad = bad or ("cell %d of %s: %s" % (c, text(d), ex),
                                      at)
                        break
                    if isinstance(got, list) and len(got) == 1 and \
                            isinstance(got[0], list):
                        got = got[0]
                    if isinstance(got, list) and got and all(
                            isinstance(v, bool) for v in got):
                        got = [i for i, v in enumerate(got) if v]
                    if not isinstance(got, list):
                        unknown = "selection of a cell is not a set"
                        break
                    want = [i for i, (x, y) in enumerate(pts)
                            if (x - d[0]) // d[4] + nx * (
                                (d[3] - y) // d[5]) == c]
                    n += 1
                    if sorted(got) != want and bad is None:
                        i = (set(got) ^ set(want)).pop()
                        bad = ("the observation at %g, %g is %s cell %d of "
                               "%s%s" % (
                                   float(pts[i][0]), float(pts[i][1]),
                                   "counted for" if i in got else
                                   "left out of", c, text(d),
                                   " over land" if land else ""), at)
    if bad:
        chk.violation("members", short, bad[0], bad[1])
    elif unknown:
        chk.unsure("members", short, unknown)
    else:
        chk.ok("members", short, "%d selections" % n)
    chk.count("selections", n)


def edge(d, x, y):
    """away from the edges of the cells, whose side is not specified"""
    a = F(x - d[0]) / d[4]
    b = F(d[3] - y) / d[5]
    return a.denominator != 1 and b.denominator != 1


def visits(prog, chk):
    for q, inner, pos in ((GD + ".allDistributions",
                           GD + ".extractParameter", 1),
                          (GS + ".calculateStatistics",
                           GS + ".calculate", 1)):
        if q not in prog.funcs or inner not in prog.funcs:
            chk.unsure("every", q.split(".")[-1], "function not found")
            continue
        ip = analyse(prog, chk, q, opaque=[inner])
        cs = calls_to(ip, inner)
        short = ".".join(q.split(".")[-2:])
        if not cs:
            chk.unsure("every", short, "no cell is visited")
            continue
        byargs = {}
        for e in cs:
            byargs.setdefault(tuple(e.args[2:]), []).append(e)
        for rest, es in sorted(byargs.items(), key=lambda kv: show(
                kv[1][0].term)):
            name = short + "".join(":" + show(r, 2).replace(" ", "")
                                   for r in rest)
            ok, why = True, ""
            for d in DOMAINS:
                nx, ny = shape(d)
                got = []
                for e in es:
                    if len(e.loops) != 1:
                        ok = None
                        break
                    env = {}
                    for t in (e.args[pos], e.cond()):
                        for x in walk(t):
                            if own(x, "gridLimit"):
                                env[x] = limits(d)
                            if own(x, "gridSpace"):
                                env[x] = spaces(d)
                            if own(x, "maxCell"):
                                env[x] = nx * ny - 1
                    try:
                        n = trip(ip, e, env)
                        for k in range(n):
                            env2 = dict(env)
                            env2[sym("k", 0)] = k
                            got.append(Cells(ip, env2)(e.args[pos]))
                    except (Unknown, Outside) as ex:
                        ok, why = None, str(ex)
                        break
                if ok is None:
                    break
                if sorted(got) != list(range(nx * ny)):
                    ok = False
                    why = "of the %d cells of %s the numbers %s are " \
                        "visited" % (nx * ny, text(d),
                                     sorted(set(got))[:3] +
                                     ["..."] + sorted(set(got))[-2:])
                    break
            chk.decide("every", name, ok, why, es[0].where)
    q = GS + ".__init__"
    if q not in prog.funcs:
        return
    ip = analyse(prog, chk, q, opaque=[GS + ".calculateStatistics"])
    room = [e for e in calls_to(ip, "StatInterface.generateStats.parameters")
            if e.args]
    last = [e for e in ip.trace if e.kind == "setattr" and
            e.extra == "maxCell"]
    for name, es, plus in (("room", room, 0), ("maxCell", last, 1)):
        ok, why = (True if es else None), "not found"
        for e in es:
            for d in DOMAINS:
                nx, ny = shape(d)
                env = {sym("param", "gridLimit"): limits(d),
                       sym("param", "gridSpace"): spaces(d)}
                try:
                    v = Cells(ip, env)(e.args[-1])
                except (Unknown, Outside) as ex:
                    ok, why = None, str(ex)
                    break
                if v + plus != nx * ny:
                    ok = False
                    why = "%s is %s for the %d cells of %s" % (
                        "room" if name == "room" else "the last cell", v,
                        nx * ny, text(d))
                    break
        chk.decide("every", "GenerateStats:" + name, ok, why,
                   es[0].where if es else where(prog, q))


def trip(ip, e, env):
    for c in conjuncts(e.cond()):
        if c.op == "iter":
            return Cells(ip, env)(c.args[0].args[0])
    raise Unknown("loop")


def layout(prog, chk):
    save = "Utilities.nctools.ncSaveGrid"
    for q in (GS + ".save", TG + ".dumpAllCellCoefficients"):
        short = ".".join(q.split(".")[-2:])
        if q not in prog.funcs or save not in prog.funcs:
            chk.unsure("layout", short, "function not found")
            continue
        ip = analyse(prog, chk, q, opaque=[save])
        cs = calls_to(ip, save)
        if not cs:
            chk.unsure("layout", short, "no grid saved")
            continue
        for e in cs:
            one_layout(prog, chk, ip, e, short)


def one_layout(prog, chk, ip, e, short):
    dims, variables = arg(e, "dimensions", 1), arg(e, "variables", 2)
    bad, unknown, seen = {}, {}, []
    for d in DOMAINS:
        nx, ny = shape(d)
        env = {}
        for t in (dims, variables):
            for x in walk(t):
                if own(x, "gridLimit"):
                    env[x] = limits(d)
                if own(x, "gridSpace"):
                    env[x] = spaces(d)
                if own(x, "maxCell"):
                    env[x] = nx * ny - 1
        val = Cells(ip, env)
        val.cells = nx * ny
        try:
            axes = {}
            for k, v in val(dims).items():
                v = val(v)
                axes[strval(v["name"])] = [F(x) for x in val(v["values"])]
            vs = {k: val(v) for k, v in val(variables).items()}
        except (Unknown, Outside, KeyError, AttributeError) as ex:
            unknown["axes"] = str(ex)
            break
        for name, n, want in (
                ("lon", nx, [F(d[0]) + i * F(d[4]) for i in range(nx)]),
                ("lat", ny, [F(d[3]) - i * F(d[5]) for i in range(ny)])):
            if name not in axes:
                unknown["axes"] = "axis %s not found" % name
            elif axes[name] != want:
                bad.setdefault("axis:" + name, "the %s of the cells of %s "
                               "is stored as %s" % (name, text(d), [
                                   float(x) for x in axes[name][:4]]))
        if unknown:
            break
        for v in vs.values():
            try:
                name = strval(v["name"])
                order = [strval(x) for x in tuple_items(v["dims"])]
                if order == ["lat", "lon"]:
                    rows = val(v["values"])
                elif order == ["lon", "lat"]:
                    rows = [list(r) for r in zip(*val(v["values"]))]
                else:
                    raise Unknown("dimensions")
            except (Unknown, KeyError, TypeError) as ex:
                unknown[name] = str(ex)
                continue
            except Outside as ex:
                bad.setdefault(name, "%s: %s" % (text(d), ex))
                continue
            seen.append(name)
            want = [[r * nx + c for c in range(nx)] for r in range(ny)]
            if rows != want:
                bad.setdefault(name, "the values of the cells of %s are "
                               "stored in the order %s" % (text(d),
                                                           rows[:2]))
    for name, msg in bad.items():
        chk.violation("layout", short + ":" + name, msg, e.where)
    for name, msg in unknown.items():
        if name not in bad:
            chk.unsure("layout", short + ":" + name, msg)
    for name in sorted(set(seen) - set(bad) - set(unknown)) + \
            [n for n in ("axis:lon", "axis:lat")
             if n not in bad and not unknown]:
        chk.ok("layout", short + ":" + name)


def calls(prog, chk):
    fs = [NUM, CORNER, VALID, LAST]
    steps = [TG + "." + m for m in ("_stepPressureChange", "_stepBearing",
                                    "_stepSpeed")
             if TG + "." + m in prog.funcs]
    for q, keep in ((TG + "._singleTrack", steps),
                    (TG + ".generateTracks", [TG + "._singleTrack"]),
                    (GD + ".extractParameter", []),
                    (GD + ".allDistributions", [GD + ".extractParameter"]),
                    (GS + ".extractParameter", [])):
        if q not in prog.funcs:
            continue
        ip = analyse(prog, chk, q, opaque=fs + keep)
        short = ".".join(q.split(".")[-2:])
        cs = calls_to(ip, *fs)
        if not cs:
            chk.unsure("same", short, "no cell function called")
        for e in cs:
            name = e.fn.val.split(".")[-1]
            g, s = e.args[-2:]
            ok, why = None, "limits not resolved"
            if g.op == s.op == "attr" and g.args[0].op == "obj" and \
                    s.args[0].op == "obj":
                ok = g.val == "gridLimit" and s.val == "gridSpace"
                why = "%s is called with the %s and %s of the object" % (
                    name, g.val, s.val)
            chk.decide("same", short + ":" + name, ok, why, e.where)
            if e.fn.val == NUM:
                position(chk, ip, e, short)


def position(chk, ip, e, short):
    x, y = e.args[:2]
    for a, own_, other, name in ((x, "x", "y", "longitude"),
                                 (y, "y", "x", "latitude")):
        found = set()
        for c in conjuncts(e.cond()):
            for t in walk(c):
                if t.op not in ("lt0", "le0"):
                    continue
                for k in ("x", "y"):
                    for m in ("Min", "Max"):
                        lim = [v for v in walk(t) if v.op == "idx" and
                               own(v.args[0], "gridLimit") and
                               isstr(v.args[-1] if v.args[-1].op != "ix"
                                     else v.args[-1].args[0]) and
                               strval(v.args[-1] if v.args[-1].op != "ix"
                                      else v.args[-1].args[0]) == k + m]
                        for v in lim:
                            r = t.args[0]
                            if equal(r, sub(v, a)) or equal(r, sub(a, v)):
                                found.add(k)
        tracks = calls_to(ip, TG + "._singleTrack")
        for s in tracks:
            p = arg(s, "lon" if own_ == "x" else "lat",
                    2 if own_ == "x" else 3)
            o = arg(s, "lat" if own_ == "x" else "lon",
                    3 if own_ == "x" else 2)
            if p is not None and equal(p, a):
                found.add(own_)
            elif o is not None and equal(o, a):
                found.add(other)
        if other in found and own_ not in found:
            chk.violation("same", short + ":" + name, "the cell number is "
                          "asked for with the %s in the place of the %s" % (
                              "latitude" if own_ == "x" else "longitude",
                              name), e.where)
        elif own_ in found:
            chk.ok("same", short + ":" + name)
        else:
            chk.unsure("same", short + ":" + name, "position of the track "
                       "not recognised")


def options(prog, chk):
    run = "TrackGenerator.TrackGenerator.run"
    init = SI + ".__init__"
    if run not in prog.funcs or init not in prog.funcs:
        chk.unsure("same", "spacing", "function not found")
        return
    got = []
    for q, cls, name, pos in ((run, TG, "gridSpace", 2),
                              (init, GD, "gridSpace", 2)):
        ip = analyse(prog, chk, q)
        es = calls_to(ip, cls)
        if len(es) != 1:
            chk.unsure("same", "spacing", "%s not made once by %s" % (
                cls.split(".")[-1], q.split(".")[-1]))
            return
        t = arg(es[0], name, pos)
        c = cfg_of(t) if t is not None else None
        got.append((c, es[0].where))
    names = [tuple(x.lower() for x in c) if c else None
             for c, w in got]
    chk.decide("same", "spacing", None if None in names else
               names[0] == names[1], "the simulation reads the spacing from "
               "%s, calibration from %s" % tuple(
                   "/".join(n) if n else "?" for n in names), got[0][1])
    for q, cls, ctor in ((TG + ".__init__", TG, 0), (GD + ".__init__", GD, 0),
                         (GS + ".__init__", GS, 0)):
        if q not in prog.funcs:
            continue
        ip = analyse(prog, chk, q, opaque=[GS + ".calculateStatistics"])
        for name in ("gridLimit", "gridSpace"):
            es = [e for e in ip.trace if e.kind == "setattr" and
                  e.extra == name and e.term is not None and
                  e.term.op == "obj"]
            ok = None
            if es:
                v = es[-1].args[-1]
                ok = True if v == sym("param", name) else (
                    False if v.op == "sym" and v.val[0] == "param" else None)
            chk.decide("same", "%s:%s" % (cls.split(".")[-1], name), ok,
                       "the %s of the object is not the one it was made "
                       "with" % name, es[-1].where if es else where(prog, q))


# ------------------------------------------------------------------- loaded
def loaded(prog, chk):
    """cell values read back keep their numbers"""
    q = GS + ".load"
    if q not in prog.funcs:
        return
    ip = analyse(prog, chk, q)
    grid = [[0, 1, 2], [3, 4, 5]]
    for e in ip.trace:
        if e.kind == "call" and e.fn.op in ("ext", "builtin") and \
                str(e.fn.val).split(".")[-1] == "setattr" and \
                len(e.args) == 3:
            v = e.args[2]
        elif e.kind == "setattr" and e.args:
            v = e.args[0]
        else:
            continue
        env = {}
        for x in walk(v):
            if x.op == "idx" and len(x.args) == 2 and \
                    x.args[0].op == "attr" and x.args[0].val == "variables":
                env[x] = env[mk("data", x)] = grid
        if not env:
            continue
        try:
            got = Cells(ip, env)(v)
            flat = [y for r in got for y in r] if got and isinstance(
                got[0], list) else got
        except (Unknown, Outside, TypeError, IndexError):
            chk.unsure("layout", "loaded", show(v, 4))
            continue
        chk.decide("layout", "loaded", flat == [0, 1, 2, 3, 4, 5] or False,
                   "the values of cells 0 to 5 are read back as those of "
                   "cells %s" % flat, e.where)
