"""C29: time series of the stations."""
import math
from fractions import Fraction
from sa import terms as TM
from sa.util import *
from sa.evaluate import Values, whole
from sa.pointwise import Unknown
from checks.c18 import where

TS = "Utilities.timeseries.Timeseries"
WIND = "wind.WindfieldAroundTrack.regionalExtremes"
LOCAL = "wind.WindfieldAroundTrack.localWindField"
HAND = "wind.writer.WriteFoliationCallback.__call__"
MAKE = "wind.writer.WriteFoliationCallback.__init__"
STEP = "wind.WindfieldGenerator.calculateExtremesFromTrack"
DUMP = "wind.WindfieldGenerator.dumpGustsFromTracks"
DUMPF = "wind.WindfieldGenerator.dumpGustsFromTrackfiles"
NSTEP = 12
COLS = ["Station", "Time", "Longitude", "Latitude", "Speed", "UU", "VV",
        "Bearing", "Pressure"]
X = lambda v: 100 + Fraction(3, 5) * (v - 100)
Y = lambda v: -12 + Fraction(7, 5) * (v + 12)
GX = [X(v) for v in (100, 101, 102, 103)]
GY = [Y(v) for v in (-12, -11, -10)]
# steps at which the grid follows the storm away from all stations
AWAY = (4, 9)
# (longitude, latitude, column, row); None: outside, "calm": no wind
STATIONS = [
    (Fraction(1049, 10), -11, None, None), (Fraction(1001, 10), -10, 0, 2),
    (Fraction(1003, 10), Fraction(-116, 10), 0, 0), (101, -12, 1, 0),
    (Fraction(1018, 10), Fraction(-108, 10), 2, 1), (103, -10, 3, 2),
    (100, -12, 0, 0), (Fraction(1024, 10), Fraction(-104, 10), 2, 2),
    (Fraction(1029, 10), Fraction(-121, 10), None, None),
    (Fraction(1029, 10), Fraction(-114, 10), 3, 1),
    (Fraction(1013, 10), Fraction(-111, 10), 1, 1),
    (Fraction(1007, 10), Fraction(-103, 10), 1, 2),
    (Fraction(1001, 10), Fraction(-109, 10), 0, 1),
    (Fraction(1021, 10), Fraction(-119, 10), 2, 0),
    (Fraction(1028, 10), Fraction(-118, 10), "calm", 0),
    (Fraction(1026, 10), Fraction(-103, 10), 3, 2),
]
STATIONS = [(X(x), Y(y), c, r) for x, y, c, r in STATIONS]
SOURCE = """
from Utilities.timeseries import Timeseries, Station


class Probe(Timeseries):
    def __init__(self, stations, out, big, small):
        self.stations = stations
        self.outputPath = out
        self.maxfile = big
        self.minfile = small
        self.meta = False


def drive(ids, lons, lats, dts, spd, uu, vv, prs, gx, gy, out, big, small):
    ts = Probe([%s], out, big, small)
    for t in (%s):
        ts.extract(dts[t], spd[t], uu[t], vv[t], prs[t], gx[t], gy[t])
    ts.shutdown()
"""


def check(prog, chk):
    chk.rule("record", "a record holds the identifier and position of its "
             "station, the time, and the values of the grid point nearest to "
             "that position, in the order of the header")
    chk.rule("summary", "the summaries hold for each station with wind its "
             "complete record at the highest speed and lowest pressure")
    chk.rule("station", "identifier, longitude and latitude of a station are "
             "those of its own line or shape, the identifier as text")
    chk.rule("step", "every time step hands over time, gust, components and "
             "pressure with the coordinates of the part of the grid they "
             "belong to")
    chk.rule("passed", "the values of a time step reach the extraction "
             "unchanged and in the same order")
    for q in (TS + ".extract", TS + ".shutdown", TS + ".__init__", WIND,
              LOCAL, HAND, STEP, DUMP, DUMPF):
        chk.need(q in prog.funcs, q)
    pipeline(prog, chk)
    stations(prog, chk)
    step(prog, chk)
    passed(prog, chk)


# ------------------------------------------------------------- the pipeline
class Uninit(object):
    pass


UNINIT = Uninit()


class Outside(Exception):
    pass


class Table(Values):
    """values of terms over small arrays and records"""

    def __init__(self, ip, env, names):
        Values.__init__(self, ip, env)
        self.names, self.memo = names, {}

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        if id(t) in self.memo:
            return self.memo[id(t)][1]
        v = Values.ev(self, t)
        self.memo[id(t)] = (t, v)
        return v

    def op_uninit(self, t):
        return UNINIT

    def op_sym(self, t):
        if show(t) == "uninit":
            return UNINIT
        if show(t) == "pi":
            return math.pi
        return Values.op_sym(self, t)

    def op_full(self, t):
        n = self.ev(t.args[0])
        if isinstance(n, list) and len(n) == 1:
            n = n[0]
        if isinstance(n, int):
            return [self.ev(t.args[1])] * n
        raise Unknown("shape")

    def op_store(self, t):
        b = self.ev(t.args[0])
        p = self.path(t.args[1])
        if len(p) == 1 and isinstance(p[0], int):
            b = [] if b is UNINIT else b
            if not isinstance(b, list) or p[0] < -len(b):
                raise Unknown("store")
            b = list(b)
            while len(b) <= p[0]:
                b.append(UNINIT)
            b[p[0]] = self.ev(t.args[2])
            return b
        if len(p) == 1 and isinstance(p[0], list) and isinstance(b, list) \
                and all(isinstance(x, bool) for x in p[0]) and \
                len(p[0]) < len(b):
            # the places of the conditions that hold
            v = self.ev(t.args[2])
            if isinstance(v, list):
                raise Unknown("store")
            return [v if x else y for x, y in zip(
                p[0] + [False] * len(b), b)]
        if len(p) == 1 and isinstance(p[0], list) and isinstance(b, list) \
                and not any(isinstance(x, bool) for x in p[0]) and \
                all(isinstance(x, (int, Fraction)) for x in p[0]):
            # the places numbered
            v, b = self.ev(t.args[2]), list(b)
            if isinstance(v, list) and len(v) != len(p[0]):
                raise Unknown("store")
            for n, x in enumerate(map(whole, p[0])):
                if not isinstance(x, int) or not -len(b) <= x < len(b):
                    raise Outside("index %s of %d values" % (x, len(b)))
                b[x] = v[n] if isinstance(v, list) else v
            return b
        return Values.op_store(self, t)

    def op_idx(self, t):
        b = self.ev(t.args[0])
        for i in t.args[1:]:
            for n, p in enumerate(self.path(i)):
                if isinstance(p, Fraction):
                    p = whole(p)
                if isinstance(p, Uninit):
                    b = UNINIT
                if b is UNINIT:
                    if isinstance(p, slice) and isinstance(p.stop, int):
                        b = [UNINIT] * p.stop
                    continue
                if isinstance(p, str):
                    b = self.column(b, p)
                elif isinstance(p, slice) and n == 0:
                    b = b[p]
                elif isinstance(p, int) and isinstance(b, list):
                    if not -len(b) <= p < len(b):
                        raise Outside("index %d of %d values" % (p, len(b)))
                    b = b[p]
                elif isinstance(p, list) and isinstance(b, list) and n == 0:
                    b = chosen(b, p)
                else:
                    raise Unknown("index")
        return b

    def column(self, b, name):
        if name not in self.names:
            raise Unknown("field %s" % name)
        i = self.names.index(name)
        if all(isinstance(r, (list, Uninit)) for r in b):
            if any(isinstance(r, list) and len(r) != len(self.names)
                   for r in b):
                raise Unknown("record")
            return [r[i] if isinstance(r, list) else UNINIT for r in b]
        if len(b) != len(self.names):
            raise Unknown("record")
        return b[i]

    def each(self, f, *a):
        if any(isinstance(x, list) for x in a):
            n = max(len(x) for x in a if isinstance(x, list))
            return [self.each(f, *[x[i] if isinstance(x, list) else x
                                   for x in a]) for i in range(n)]
        if any(isinstance(x, Uninit) for x in a):
            return UNINIT
        if any(isinstance(x, str) or x is None for x in a):
            raise Unknown("text")
        return f(*a)

    def op_mul(self, t):
        c, fs = TM.split_mul(t)
        r = c
        for b, e in (fs.items() if isinstance(fs, dict) else fs):
            v = self.ev(b)
            n = self.ev(e) if hasattr(e, "op") else e
            r = self.each(lambda x, y: x * y, r, self.each(
                lambda x: power(x, n), v))
        return r

    def plus(self, a, b):
        return self.each(lambda x, y: whole(x + y), a, b)

    def times(self, c, v):
        return self.each(lambda x: whole(c * x) if not isinstance(x, float)
                         else float(c) * x, v)

    def op_lt0(self, t):
        return self.each(lambda x: x < 0, self.ev(t.args[0]))

    def op_le0(self, t):
        return self.each(lambda x: x <= 0, self.ev(t.args[0]))

    def op_eq0(self, t):
        return self.each(lambda x: x == 0, self.ev(t.args[0]))

    def op_ne0(self, t):
        return self.each(lambda x: x != 0, self.ev(t.args[0]))

    def op_not(self, t):
        return self.each(lambda x: not x, self.ev(t.args[0]))

    def op_and(self, t):
        r = True
        for x in t.args:
            if x.op == "iter":
                continue
            v = self.ev(x)
            if v is False or v is UNINIT:
                return v
            r = self.each(lambda a, b: bool(a and b), r, v)
        return r

    def op_or(self, t):
        r = False
        for x in t.args:
            v = self.ev(x)
            if v is True:
                return True
            r = self.each(lambda a, b: bool(a or b), r, v)
        return r

    def op_phi(self, t):
        c = self.ev(t.args[0])
        if isinstance(c, list):
            a, b = self.ev(t.args[1]), self.ev(t.args[2])
            if isinstance(b, list) and not isinstance(a, list) \
                    and len(c) < len(b):
                # the mask was made of the positions of a shorter array
                c = c + [False] * (len(b) - len(c))
            return self.each(lambda x, a, b: a if x else b, c, a, b)
        if c is UNINIT:
            return UNINIT
        return self.ev(t.args[1] if c else t.args[2])

    def op_fn(self, t):
        a = [self.ev(x) for x in t.args]
        f = {"abs": abs, "sqrt": lambda x: math.sqrt(x),
             "arctan2": lambda y, x: math.atan2(y, x),
             "mod": lambda x, y: x % y, "fmod": math.fmod,
             "arctan": math.atan, "sin": math.sin, "cos": math.cos,
             "degrees": math.degrees, "radians": math.radians,
             "int": int, "trunc": int, "floor": math.floor,
             "ceil": math.ceil, "hypot": math.hypot}.get(t.val)
        if f is None:
            return Values.op_fn(self, t)
        return self.each(f, *a)

    def op_fmt(self, t):
        out = ""
        for x in t.args:
            if x.op == "fld":
                out += str(self.ev(x.args[0]))
            else:
                out += str(self.ev(x))
        return out

    def op_path(self, t):
        return "/".join(str(self.ev(x)) for x in t.args)

    def op_call(self, t):
        name = show(t.args[0]).replace("numpy.", "").split(".")[-1]
        pos = [x for x in t.args[1:] if x.op != "kw"]
        if any(x.op == "kw" and x.val not in ("axis", "dtype")
               for x in t.args[1:]):
            raise Unknown("call %s" % name)
        return self.named(name, [self.ev(x) for x in pos])

    def op_mcall(self, t):
        return self.named(t.val, [self.ev(x) for x in t.args
                                  if x.op != "kw"])

    def named(self, name, a):
        def flat(v):
            return [y for x in v for y in flat(x)] \
                if isinstance(v, list) else [v]
        if a and name in ("argmin", "argmax", "nanargmin", "nanargmax",
                          "min", "max", "amin", "amax", "any", "all", "sum",
                          "nanmin", "nanmax"):
            v = flat(a[0])
            if any(isinstance(x, Uninit) for x in v):
                return UNINIT
            if not v and name in ("any", "all", "sum"):
                return {"any": False, "all": True, "sum": 0}[name]
            if any(isinstance(x, str) for x in v) or not v:
                raise Unknown("empty")
            name = name.replace("nan", "")
            return {"argmin": lambda: v.index(min(v)),
                    "argmax": lambda: v.index(max(v)),
                    "min": lambda: min(v), "amin": lambda: min(v),
                    "max": lambda: max(v), "amax": lambda: max(v),
                    "any": lambda: any(v), "all": lambda: all(v),
                    "sum": lambda: sum(v)}[name]()
        if name in ("tuple", "list", "array", "asarray", "copy", "float",
                    "str_", "squeeze", "item") and len(a) == 1:
            return a[0]
        if name == "str" and len(a) == 1:
            return str(a[0])
        if name == "resize" and len(a) == 2 and isinstance(a[1], int) and \
                isinstance(a[0], list) and a[0]:
            return [a[0][i % len(a[0])] for i in range(a[1])]
        if name in ("concatenate", "hstack") and len(a) == 1:
            return [y for x in a[0] for y in x]
        if name == "append" and len(a) == 2:
            return a[0] + (a[1] if isinstance(a[1], list) else [a[1]])
        raise Unknown("call %s" % name)


def chosen(b, p):
    """elements of a list chosen by a list of truths or of places"""
    if any(isinstance(x, Uninit) for x in p):
        return [UNINIT] * len(p)
    if all(isinstance(x, bool) for x in p):
        if len(p) != len(b):
            raise Outside("%d choices for %d values" % (len(p), len(b)))
        return [x for x, y in zip(b, p) if y]
    if all(isinstance(x, int) and not isinstance(x, bool) for x in p):
        if any(not -len(b) <= x < len(b) for x in p):
            raise Outside("index %s of %d values" % (p, len(b)))
        return [b[x] for x in p]
    raise Unknown("index")


def power(x, n):
    if n == int(n):
        if x == 0 and n < 0:
            raise Unknown("division by zero")
        return (Fraction(x) if not isinstance(x, float) else x) ** int(n)
    if x < 0:
        raise Unknown("power")
    return float(x) ** float(n)


def scenario():
    """the values of the twelve steps: all of them different"""
    ids = ["Airport%02d" % i for i in range(len(STATIONS))]

    def field(a, b, c, d, m):
        return [[[Fraction((a * t * t + b * j + c * i * i + d * t * i + 7)
                           % m + t % 3, 4) + Fraction(
                               t * 100 + j * 10 + i, 100000)
                  for i in range(len(GX))] for j in range(len(GY))]
                for t in range(NSTEP)]
    spd = field(5, 3, 7, 11, 97)
    uu = field(3, 13, 5, 2, 89)
    vv = field(7, 2, 11, 5, 83)
    prs = [[[97000 + 31 * x for x in r] for r in g]
           for g in field(11, 5, 3, 7, 79)]
    uu = [[[x - 10 for x in r] for r in g] for g in uu]
    vv = [[[x - 9 for x in r] for r in g] for g in vv]
    dts = ["time%02d" % t for t in range(NSTEP)]
    # extremes at the first and the last step
    for t, (j, i), (y, x) in ((0, (0, 0), (1, 1)),
                              (NSTEP - 1, (2, 3), (1, 2))):
        spd[t][j][i] += 40
        prs[t][y][x] -= 5000
    # the calm station has a grid point of its own
    for t in range(NSTEP):
        spd[t][0][3] = uu[t][0][3] = vv[t][0][3] = 0
    for t in AWAY:
        prs[t] = [[x + 9000 for x in r] for r in prs[t]]
    # one point has no wind at the first, a middle and the last step
    for t in (0, NSTEP // 2, NSTEP - 1):
        spd[t][2][1] = 0
    return ids, dts, spd, uu, vv, prs


def pipeline(prog, chk):
    prog.add_source("_c29", SOURCE % (", ".join(
        "Station(ids[%d], lons[%d], lats[%d])" % (i, i, i)
        for i in range(len(STATIONS))), ", ".join(map(str, range(NSTEP)))),
        "_c29.py")
    TM.WHOLE_TURNS[0] = False
    try:
        ip = analyse(prog, chk, "_c29.drive")
    finally:
        TM.WHOLE_TURNS[0] = True
    for e in ip.trace:
        if e.kind == "setattr" and e.args[0].op == "glob" and \
                e.func.qual.startswith("Utilities.timeseries.Station.") and \
                any(x.kind in ("mcall", "mutate", "setattr") and
                    x.term is e.args[0] for x in ip.trace):
            chk.violation("record", "Station.%s:shared" % e.extra, "the "
                          "records of all stations are kept in one object "
                          "of the module", e.where)
    ids, dts, spd, uu, vv, prs = scenario()
    P = lambda n: sym("param", n)
    env = {P("ids"): ids, P("lons"): [s[0] for s in STATIONS],
           P("lats"): [s[1] for s in STATIONS], P("dts"): dts,
           P("spd"): spd, P("uu"): uu, P("vv"): vv, P("prs"): prs,
           P("gx"): [[x + 20 * (t in AWAY) for x in GX]
                                for t in range(NSTEP)],
           P("gy"): [GY] * NSTEP, P("out"): "out", P("big"): "big",
           P("small"): "small"}
    names = fields(ip)
    at = where(prog, TS + ".extract")
    if names is None:
        chk.unsure("record", "records", "names of the fields not found")
        return
    val = Table(ip, env, names)
    files = {}
    rec, summ = True, True
    for e in ip.trace:
        if e.kind != "call" or show(e.fn, 3) not in (
                "numpy.savetxt", "Utilities.files.flSaveFile"):
            continue
        try:
            if e.loops:
                raise Unknown("written in a loop that is not unrolled")
            c = val(e.cond())
            if c is UNINIT:
                chk.violation("record", "written", "whether a series is "
                              "written depends on a value never stored",
                              e.where)
                return
            if not c:
                continue
            tgt = arg(e, "fname", 0)
            if tgt.op == "handle":
                tgt = tgt.args[1]
            name = val(tgt)
            rows = val(arg(e, "X", 1))
            head = arg(e, "header", 5)
            files[name] = (rows, strval(head).split(",")
                           if head is not None and isstr(head) else None, e)
        except Unknown as ex:
            chk.unsure("record", "writes", str(ex))
            return
        except Outside as ex:
            chk.violation("record", "point", "a value is taken outside the "
                          "grid or the records: %s" % ex, at)
            return
    windy = [i for i, s in enumerate(STATIONS) if s[2] not in
             (None, "calm")]
    chk.need(files, "files written by %s" % TS)
    want = {}
    for i, (lon, lat, c, r) in enumerate(STATIONS):
        if i not in windy:
            continue
        rows = []
        for t in range(NSTEP):
            u, v = uu[t][r][c], vv[t][r][c]
            b = math.degrees(math.atan2(-u, -v)) % 360
            if t in AWAY:
                rows.append(dict(zip(COLS, (ids[i], dts[t], lon, lat, 0, 0,
                                            0, None, None))))
                continue
            rows.append(dict(zip(COLS, (
                ids[i], dts[t], lon, lat, spd[t][r][c], u, v, b,
                prs[t][r][c]))))
        want[i] = rows
    for i in windy:
        found = [n for n in files if n.split("/")[-1].startswith("ts.") and
                 ids[i] in n]
        cons = "file-of-station"
        if not found:
            chk.violation("record", cons, "no time series is written for a "
                          "station with wind", at)
            continue
        rows, head, e = files[found[0]]
        compare(chk, "record", "step", rows, head or names, want[i], at,
                e.where)
    for key, col, pick in (("big", "Speed", max), ("small", "Pressure",
                                                   min)):
        if key not in files:
            chk.unsure("summary", key, "file not found")
            continue
        rows, head, e = files[key]
        exp = [pick([d for t, d in enumerate(want[i]) if t not in AWAY],
                    key=lambda d: d[col]) for i in windy]
        compare(chk, "summary", "maxima" if key == "big" else "minima",
                rows, head or names, exp, where(prog, TS + ".shutdown"),
                e.where, True)
    for n, (rows, head, e) in sorted(files.items()):
        if head is not None:
            chk.decide("record", "header-%s" % (
                "series" if "ts." in n else n), sorted(head) == sorted(COLS),
                "columns %s" % head, e.where)


def fields(ip):
    found = set()
    for e in ip.trace:
        ts = list(e.args) + list((e.kw or {}).values())
        for a in ts:
            for x in walk(a):
                if x.op == "dict":
                    items = list(x.args)
                    for k, v in zip(items[::2], items[1::2]):
                        if isstr(k) and strval(k) == "names":
                            n = tuple_items(v) or list(v.args)
                            if n and all(isstr(y) for y in n):
                                found.add(tuple(strval(y) for y in n))
    return list(found.pop()) if len(found) == 1 else None


def compare(chk, rule, cons, rows, head, want, at, write_at, order=False):
    if not isinstance(rows, list) or len(rows) != len(want):
        chk.violation(rule, cons + "-count", "%s records, expected %d" % (
            len(rows) if isinstance(rows, list) else "no", len(want)),
            write_at)
        return
    if order:
        key = "Station"
        if key in head:
            k = head.index(key)
            try:
                rows = sorted(rows, key=lambda r: str(r[k]))
                want = sorted(want, key=lambda r: r[key])
            except (TypeError, IndexError):
                pass
    for n, c in enumerate(head):
        if c not in COLS:
            continue
        ok, text = True, ""
        for t, (r, w) in enumerate(zip(rows, want)):
            g = r[n] if isinstance(r, list) and n < len(r) else None
            if w[c] is None:
                same = True
            elif isinstance(w[c], str):
                same = g == w[c]
            elif g is None or isinstance(g, (str, Uninit, list)):
                same = False
            else:
                same = abs(float(g) - float(w[c])) < 1e-6
            if not same:
                ok = False
                text = "column %s holds %s, expected %s (record %d of %d)" % (
                    c, plain(g), plain(w[c]), t + 1, len(want))
                break
        chk.decide(rule, "%s-%s" % (cons, c), ok, text or c, at)


def plain(x):
    if isinstance(x, (Fraction, float)):
        return "%.5f" % float(x)
    return "nothing" if x is None or isinstance(x, Uninit) else str(x)[:40]


# ----------------------------------------------------------------- stations
def stations(prog, chk):
    ip = analyse(prog, chk, TS + ".__init__",
                 opaque=["Utilities.shptools.shpGetVertices"])
    made = [e for e in ip.trace if e.kind == "new" and
            (e.fn if isinstance(e.fn, str) else show(e.fn, 3)).endswith(
                "timeseries.Station")]
    chk.need(made, "stations created by %s" % TS)
    for e in made:
        sid, lon, lat = (arg(e, "stationid", 0), arg(e, "longitude", 1),
                         arg(e, "latitude", 2))
        if sid is None or lon is None or lat is None:
            chk.unsure("station", "arguments", "not recognised")
            continue
        if any(x.op == "call" and "shpGetVertices" in show(x.args[0], 3)
               for x in walk(sid)):
            shapes(chk, ip, e, sid, lon, lat)
        else:
            table(chk, e, sid, lon, lat)


def shapes(chk, ip, e, sid, lon, lat):
    V = [x for x in walk(sid) if x.op == "call" and
         "shpGetVertices" in show(x.args[0], 3)][0]
    pts = [x for x in list(walk(lon)) + list(walk(lat)) if x.op == "idx" and
           x.args[0] is V]
    if sid.op == "dkey" and pts:
        chk.decide("station", "shape-id", all(
            equal(p.args[1], sid) for p in pts), "position and identifier of "
            "the same shape", e.where)
    else:
        chk.unsure("station", "shape-id", "not recognised")

    def comp(t):
        """which coordinates of the first vertex a term uses"""
        out = set()
        for x in walk(t):
            if x.op == "idx" and isnum(x.args[-1]):
                b = x.args[0]
                if b.op == "idx" and isnum(b.args[-1]):
                    out.add(int(x.args[-1].val))
        return out
    a, b = comp(lon), comp(lat)
    if len(a) == 1 and len(b) == 1:
        chk.decide("station", "shape-position", a == {0} and b == {1},
                   "longitude is coordinate %s and latitude coordinate %s of "
                   "the point" % (a, b), e.where)
    else:
        chk.unsure("station", "shape-position", "not recognised")
        return
    turned(chk, ip, e, lon)


def turned(chk, ip, e, lon):
    """the longitude stays the same meridian, within 0 to 360"""
    own = [x for x in walk(lon) if x.op == "idx" and isnum(x.args[-1]) and
           x.args[0].op == "idx" and isnum(x.args[0].args[-1])]
    if len(set(own)) != 1:
        chk.unsure("station", "shape-meridian", "not recognised")
        return
    bad = None
    for x in (-180, -170, Fraction(-1, 2), 0, 10, 90, Fraction(3001, 20),
              179, 180, 181, 200, Fraction(719, 2)):
        try:
            v = Table(ip, {own[0]: x}, [])(lon)
            if isinstance(v, list) or v is None:
                raise Unknown("value")
        except (Unknown, Outside, AttributeError, TypeError) as ex:
            chk.unsure("station", "shape-meridian", str(ex))
            return
        if v != x % 360:
            bad = "a station at %g E is placed at %g E" % (float(x),
                                                           float(v))
            break
    chk.decide("station", "shape-meridian", bad is None, bad or
               "unchanged meridian", e.where)


def table(chk, e, sid, lon, lat):
    got = []
    for t in (sid, lon, lat):
        t = strip_number(t)
        cols = [x for x in walk(t) if x.op == "idx" and any(
            a.op == "ix" or isnum(a) for a in x.args[1:])]
        got.append(column_of(t))
    if None in got:
        chk.unsure("station", "line", "not recognised: %s" % show(sid, 5))
        return
    (b0, c0, r0), (b1, c1, r1), (b2, c2, r2) = got
    chk.decide("station", "line-columns", (c0, c1, c2) == (0, 1, 2),
               "identifier, longitude and latitude are columns %d, %d and %d"
               % (c0, c1, c2), e.where)
    chk.decide("station", "line-row", True if r0 is r1 and r1 is r2 else
               equal_all(r0, r1, r2), "identifier and position of the same "
               "line", e.where)
    chk.decide("station", "line-id", textual(b0, sid), "the identifier is "
               "read as a number: text becomes nan, and other stations share "
               "it", e.where)


def equal_all(*r):
    rs = [equal(a, b) for a, b in zip(r, r[1:])]
    return True if all(x is True for x in rs) else (
        False if False in rs else None)


def strip_number(t):
    while t.op in ("fn", "call", "mcall") and (
            t.op == "fn" and t.val in ("float", "int") or
            t.op == "mcall" and t.val in ("astype", "strip") or
            t.op == "call" and show(t.args[0]) in ("float", "str")):
        t = t.args[1] if t.op == "call" else t.args[0]
    return t


def column_of(t):
    """(array, column, row) of an element of a table"""
    idx = []
    while t.op == "idx" or t.op == "mcall" and t.val in ("astype", "strip"):
        if t.op == "mcall":
            t = t.args[0]
            continue
        part = []
        for a in t.args[1:]:
            part += list(a.args) if a.op == "ix" else [a]
        idx.append(part)
        t = t.args[0]
    idx.reverse()
    free, out = [None, None], {}
    dims = [0, 1]
    for part in idx:
        left = []
        for n, i in enumerate(part):
            if n >= len(dims):
                return None
            if i.op == "slice":
                if any(a is not NONE for a in i.args):
                    return None
                left.append(dims[n])
            else:
                out[dims[n]] = i
        dims = left + dims[len(part):]
    if 0 in out and 1 in out and isnum(out[1]):
        return t, int(out[1].val), out[0]
    return None


def textual(base, sid):
    """the table is read as text"""
    if base.op != "call":
        return None
    name = show(base.args[0])
    kw = {x.val: x.args[0] for x in base.args[1:] if x.op == "kw"}
    pos = [x for x in base.args[1:] if x.op != "kw"]
    if name not in ("numpy.genfromtxt", "numpy.loadtxt"):
        return None
    d = kw.get("dtype", pos[1] if len(pos) > 1 else None)
    if d is None or d is NONE and name == "numpy.loadtxt":
        return False
    s = strval(d) if isstr(d) else show(d)
    if "str" in s or "U" in s or s in ("object", "O", "builtins.str"):
        return True
    if s in ("float", "int", "numpy.float64", "f8", "f", "d"):
        return False
    return None


# --------------------------------------------------------------- time steps
def step(prog, chk):
    ip = analyse(prog, chk, WIND, opaque=[LOCAL])
    cb = sym("param", "timeStepCallback")
    calls = [e for e in ip.trace if e.kind == "call" and e.fn is cb]
    if len(calls) != 1:
        chk.need(calls, "hand-over of a time step in %s" % WIND)
        chk.unsure("step", "call", "%d calls" % len(calls))
        return
    e = calls[0]
    if len(e.args) != 7 or e.kw:
        chk.unsure("step", "call", "arguments not recognised")
        return
    t, gust, ux, vy, p, lon, lat = e.args
    L = local(e, ux)
    if L is None:
        chk.unsure("step", "field", "local wind field not recognised")
        return
    G = attr_of(ip, "gustFactor", ux)
    c = lambda i: component(L, i)
    for name, got, n in (("eastward", ux, 0), ("northward", vy, 1)):
        if G is None:
            chk.unsure("step", name, "gust factor not found")
        else:
            chk.decide("step", name, equal_cases(got, mul(c(n), G)),
                       show(got, 4)[:120], e.where)
    chk.decide("step", "pressure", equal_cases(p, c(2)), show(p, 4)[:120],
               e.where)
    sq = add(mul(ux, ux), mul(vy, vy))
    chk.decide("step", "gust", equal(mul(gust, gust), sq)
               if not equal(gust, fn("sqrt", sq)) else True,
               "speed is that of the components: %s" % show(gust, 4)[:120],
               e.where)
    # time of the same step
    i = [x.args[0] for x in L.args[1:] if x.op == "kw" and x.val == "i"]
    i = i or [x for x in L.args[2:3]]
    if i and t.op == "idx":
        chk.decide("step", "time", t.args[0].op == "attr" and
                   t.args[0].val == "Datetime" and equal(t.args[1], i[0]),
                   "time of the step: %s" % show(t, 4)[:120], e.where)
    else:
        chk.unsure("step", "time", "not recognised")
    # the part of the grid
    st = [(L2, m, x) for L2 in ip.loops for lab, (m, init, nxt) in
          L2.carried.items() for x in walk(nxt) if x.op == "store" and
          x.args[0] is m and x.args[1].op == "ix" and
          len(x.args[1].args) == 2]
    if not st:
        chk.unsure("step", "window", "stores not recognised")
        return
    for nm, axis, got in (("longitudes", 1, lon), ("latitudes", 0, lat)):
        sl = [x for x in walk(got) if x.op == "slice"]
        if len(sl) != 1:
            chk.unsure("step", nm, "not recognised: %s" % show(got, 4)[:80])
            continue
        rs = [equal(sl[0], s[2].args[1].args[axis]) if sl[0] is not
              s[2].args[1].args[axis] else True for s in st]
        chk.decide("step", nm, True if all(r is True for r in rs) else
                   False if False in rs else None, "the window of the "
                   "coordinates is that of the fields", e.where)
    res = tuple_items(ip.result)
    if res and len(res) == 7:
        for nm, got, grid in (("longitude-values", lon, res[5]),
                              ("latitude-values", lat, res[6])):
            sl = [x for x in walk(got) if x.op == "slice"]
            if len(sl) == 1:
                exp = rewrite(got, lambda x: x.args[0] if x.op == "idx" and
                              len(x.args) == 2 and x.args[1] is sl[0]
                              else None)
                chk.decide("step", nm, equal(exp, grid), "%s against %s" % (
                    show(exp, 4)[:80], show(grid, 4)[:80]), e.where)


def local(e, ux):
    for x in walk(ux):
        if x.op == "call" and show(x.args[0], 3).endswith("localWindField"):
            return x
    return None


def attr_of(ip, name, t):
    for x in walk(t):
        if x.op == "attr" and x.val == name:
            return x
    return None


# ------------------------------------------------------------------ passing
def passed(prog, chk):
    ip = analyse(prog, chk, HAND)
    ps = [a.arg for a in prog.funcs[HAND].node.args.args][1:]
    calls = [e for e in ip.trace if e.kind in ("mcall", "call") and
             e.args and e.args[0] is sym("param", ps[0]) and
             len(e.args) == len(ps)]
    if len(calls) == 1:
        e = calls[0]
        chk.decide("passed", "wrapped", all(
            a is sym("param", p) for a, p in zip(e.args, ps)),
            "arguments %s" % [show(a, 3) for a in e.args], e.where)
        test = [c for c in conjuncts(e.cond())]
        ok = all(mentions(c, sym("param", p)) is False for c in test
                 for p in ps)
        chk.decide("passed", "wrapped-always", True if ok else None,
                   "called whenever there is a wrapped extraction", e.where)
    else:
        own = [e for e in ip.trace if "callback" in show(e.term, 3)] \
            if ip.trace else []
        if not [e for e in ip.trace if e.kind in ("mcall", "call") and
                "callback" in (strval(e.fn) if isstr(e.fn)
                               else show(e.fn, 3))]:
            chk.violation("passed", "wrapped", "the wrapped extraction is "
                          "not called", where(prog, HAND))
        else:
            chk.unsure("passed", "wrapped", "call not recognised")
    # construction keeps the wrapped extraction
    ip = analyse(prog, chk, STEP, opaque=[WIND], args=None)
    cbs = [e for e in ip.trace if (e.kind == "call" or e.kind == "mcall") and
           "regionalExtremes" in (strval(e.fn) if isstr(e.fn)
                                  else show(e.fn, 4))]
    C = sym("param", "callback")
    if len(cbs) != 1:
        chk.unsure("passed", "given", "%d calls" % len(cbs))
    else:
        got = [a for a in list(cbs[0].args) + list(
            (cbs[0].kw or {}).values()) if mentions(a, C) or
            "WriteFoliation" in show(a, 6)]
        chk.decide("passed", "given", True if got else False,
                   "the extraction is given to the calculation",
                   cbs[0].where)
    sets = [e for e in ip.trace if e.kind == "new" and "WriteFoliation" in
            (e.fn if isinstance(e.fn, str) else show(e.fn, 3))]
    for e in sets:
        vals = list(e.args) + list((e.kw or {}).values())
        chk.decide("passed", "wrapping", any(v is C for v in vals),
                   "the extraction is wrapped when the evolution is written",
                   e.where)
    for q, inner in ((DUMP, "calculateExtremesFromTrack"),
                     (DUMPF, "dumpGustsFromTracks")):
        chain(prog, chk, q, inner)
    run(prog, chk)


def chain(prog, chk, q, inner):
    full = q.rsplit(".", 1)[0] + "." + inner
    ip = analyse(prog, chk, q, opaque=[full])
    cb = sym("param", "timeStepCallback")
    es = [e for e in ip.trace if e.kind in ("call", "mcall") and inner in
          (strval(e.fn) if isstr(e.fn) else show(e.fn, 4))]
    if not es:
        chk.unsure("passed", inner, "call not found")
        return
    bad = None
    seen = False
    for e in es:
        vals = list(e.args) + list((e.kw or {}).values())
        if any(v is cb or mentions(v, cb) for v in vals):
            seen = True
        elif not mentions(e.cond(), cb):
            bad = e
    chk.decide("passed", inner, seen and bad is None, "the extraction is "
               "passed on", (bad or es[0]).where)


def run(prog, chk):
    q = "wind.run"
    if q not in prog.funcs:
        chk.unsure("passed", "run", "wind.run not found")
        return
    ip = analyse(prog, chk, q, opaque=[
        DUMPF, TS + ".__init__", TS + ".extract", TS + ".shutdown"])
    dump = [e for e in ip.trace if e.kind in ("call", "mcall") and
            "dumpGustsFromTrackfiles" in (strval(e.fn) if isstr(e.fn)
                                          else show(e.fn, 4))]
    ends = [e for e in ip.trace if e.kind in ("call", "mcall") and
            "shutdown" in (strval(e.fn) if isstr(e.fn)
                           else show(e.fn, 4))]
    if len(dump) != 1:
        chk.unsure("passed", "run", "%d calls" % len(dump))
        return
    vals = list(dump[0].args) + list((dump[0].kw or {}).values())
    got = [v for v in vals if "extract" in show(v, 12)]
    chk.decide("passed", "run", True if got else False, "the extraction of "
               "the stations is given to the calculation", dump[0].where)
    if not ends:
        chk.violation("passed", "written", "the time series are not written "
                      "at the end", where(prog, q))
    else:
        chk.decide("passed", "written", True if all(
            e.seq > dump[0].seq for e in ends) else None,
            "written after the calculation", ends[0].where)
