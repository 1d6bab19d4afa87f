"""C20: missing observations never enter statistics or simulations."""
from .records import *
from sa.kinds import keeps_fractions, divided

VARIANTS = [("dates", dict(dated=True)), ("ages", dict(dated=False))]
HIGH, LOW = Val(1101., 1e6), Val(-1e4, 599.)
FILT = "Utilities.loadData.filterPressure"
LOAD = "Utilities.loadData.loadTrackFile"
STATS = "StatInterface.generateStats.GenerateStats."
DIST = "StatInterface.GenerateDistributions.GenerateDistributions."
KDE = "StatInterface.KDEParameters.KDEParameters.generateKDE"

# file, what is known of the records, in words
SCENES = [
    ("all_pressure", {("pressure", 0): Val(M)}, "pressure missing"),
    ("all_pressure", {("pressure", 0, "converted"): HIGH},
     "pressure above 1100 hPa"),
    ("all_pressure", {("pressure", 0, "converted"): LOW},
     "pressure below 600 hPa"),
    ("pressure_rate", {("pressure", 0): Val(M)}, "pressure missing"),
    ("pressure_rate", {("pressure", -1): Val(M)},
     "previous pressure missing"),
    ("pressure_rate", {("pressure", -1): Val(M), ("pressure", 0): Val(M)},
     "both pressures missing"),
    ("pressure_rate", {("pressure", 0, "converted"): HIGH},
     "pressure above 1100 hPa"),
    ("pressure_rate", {("pressure", 0, "converted"): LOW},
     "pressure below 600 hPa"),
    ("pressure_rate", {("pressure", -1, "converted"): HIGH},
     "previous pressure above 1100 hPa"),
    ("pressure_rate", {("pressure", -1, "converted"): LOW},
     "previous pressure below 600 hPa"),
    ("pressure_rate", {("pressure", 0, "converted"): NAN},
     "pressure not a number"),
    ("pressure_rate", {("pressure", -1, "converted"): NAN},
     "previous pressure not a number"),
    ("all_rmax", {("rmax", 0): Val(M)}, "rmax missing"),
    ("rmax_rate", {("rmax", 0): Val(M)}, "rmax missing"),
    ("rmax_rate", {("rmax", -1): Val(M)}, "previous rmax missing"),
    ("rmax_rate", {("rmax", -1): Val(M), ("rmax", 0): Val(M)},
     "both rmax missing"),
    ("rmax_rate", {("rmax", 0, "converted"): NAN}, "rmax not a number"),
    ("rmax_rate", {("rmax", -1, "converted"): NAN},
     "previous rmax not a number"),
    ("wind_speed", {("vmax", 0): Val(M)}, "wind speed missing"),
    ("wind_speed", {("vmax", 0, "converted"): Val(201., 1e5)},
     "wind speed above 200"),
    ("all_speed", {("distance", -1): Val(6000., 20000.),
                   ("dt", 0): Val(0.25, 24.)}, "speed above 200 km/h"),
    ("speed_rate", {("distance", -1): Val(6000., 20000.),
                    ("dt", 0): Val(0.25, 24.)}, "speed above 200 km/h"),
    ("speed_rate", {("distance", -2): Val(6000., 20000.),
                    ("dt", -1): Val(0.25, 24.)},
     "previous speed above 200 km/h"),
    ("speed_rate", {("distance", -1): NAN}, "distance not a number"),
    ("all_speed", {("distance", -1): NAN}, "distance not a number"),
    ("all_bearing", {("bearing", -1): NAN}, "bearing not a number"),
    ("bearing_rate", {("bearing", -1): NAN}, "bearing not a number"),
    ("bearing_rate", {("bearing", -2): NAN},
     "previous bearing not a number"),
]


def check(prog, chk):
    chk.rule("derived", "when an observation is missing or out of range, "
             "every saved value formed from it is missing")
    chk.rule("loaded", "a missing or impossible observation in a track file "
             "becomes the missing value")
    chk.rule("removed", "the values statistics are calculated from have "
             "passed a selection that rejects the missing value")
    s = Saved(prog, chk)
    for tag, kw in VARIANTS:
        for name, facts, words in SCENES:
            chk.need(name in s.files, "saved file " + name)
            if tag == "ages" and any(q[0] == "dt" for q in facts):
                facts = {k: v for k, v in facts.items() if k[0] != "dt"}
                for k in list(facts):
                    facts[("age", k[1])] = Val(94.)
                    facts[("age", k[1] + 1)] = Val(100.)
            e = element_of(chk, s, "derived", name, **kw)
            if e is None:
                continue
            v, d = Scene(facts).always(e, missing)
            chk.decide("derived", "%s(%s):%s" % (
                name, tag, words.replace(" ", "-")), v,
                "with %s, %s %s" % (words, name, d), s.where[name])
    loader(prog, chk)
    removed(prog, chk)
    for q in sorted(prog.funcs):
        if q.startswith("DataProcess.DataProcess."):
            keeps_fractions(chk, prog, "derived", q,
                            divided(prog.funcs[q].node))


# -------------------------------------------------------------- track files
def loader(prog, chk):
    chk.need(LOAD in prog.funcs, LOAD)
    pre = "Utilities.loadData."
    ip = analyse(prog, chk, LOAD, opaque=[q for q in [
        READ, NEW, DT, JD, DATES, AZI, CONV, pre + "parseAge",
        pre + "ltmPressure", pre + "getPoci", pre + "maxWindSpeed",
        pre + "getMinPressure", pre + "getMaxWind", pre + "getTimeElapsed",
        pre + "getTime"] if q in prog.funcs])
    fields = {}
    for e in ip.trace:
        if e.kind != "setitem" or len(e.args) < 2:
            continue
        k, v = e.args[0], e.args[1]
        if isstr(k):
            fields[strval(k)] = (v, e.where)
        elif k.op == "idx" and v.op == "idx" and k.args[1] is v.args[1] and \
                k.args[0].op in ("tuple", "list", "arr") and \
                v.args[0].op in ("tuple", "list", "arr") and \
                len(k.args[0].args) == len(v.args[0].args):
            for n, x in zip(k.args[0].args, v.args[0].args):
                if isstr(n):
                    fields[strval(n)] = (x, e.where)
    chk.need("CentralPressure" in fields, "columns filled by " + LOAD)
    excs = {x for t, _ in fields.values() for x in walk(t)
            if x.op == "sym" and isinstance(x.val, tuple) and
            x.val[0] == "exc"}
    mv = sym("param", "missingValue")
    calc = sym("param", "calculateWindSpeed")
    el = Elements(lambda t: iscall(t, READ),
                  calls=(NEW, DT, JD, DATES, AZI, CONV))
    scenes = [("CentralPressure", {("pressure", 0): "raw"}, "missing"),
              ("CentralPressure", {("pressure", 0, "converted"): HIGH},
               "above 1100 hPa"),
              ("CentralPressure", {("pressure", 0, "converted"): LOW},
               "below 600 hPa"),
              ("WindSpeed", {("vmax", 0): "raw"}, "missing"),
              ("rMax", {("rmax", 0): "raw"}, "missing")]
    for name, facts, words in scenes:
        if name not in fields:
            continue
        t, where = fields[name]
        for code in (M, 0., -9999.):
            raw = {k: Val(code) if f == "raw" else f
                   for k, f in facts.items()}
            if "raw" in facts.values() and code != M:
                continue
            m = {e: FALSE for e in excs}
            for x in walk(t):
                c = cfg_of(x)
                if c is not None and c[1] == "FilterSeasons":
                    m[x] = FALSE
            m[calc] = FALSE
            m[mv] = MAXSIZE if code == M else num(int(code))
            con = "%s:%s:%s:%g" % (LOAD, name, words.replace(" ", "-"), code)
            try:
                e = el.at(subst(t, m), K)
            except Unknown as ex:
                chk.unsure("loaded", con, show(ex.args[0], 4))
                continue
            v, d = Scene(raw).always(
                e, lambda r: r.exact and r.lo == code or r.nan is True)
            chk.decide("loaded", con, v, "%s %s is read as %s and not the "
                       "missing value %g" % (name, words, d, code), where)


# --------------------------------------------------------------- statistics
CODE = Val(M)
X = sym("element", "x")


class Filter(object):
    """does a list of values still hold missing ones?"""

    def __init__(self, raw, me=(), codes=()):
        self.raw = raw            # predicate: the unfiltered data
        self.me = set(me)         # calls that stand for the function itself
        self.codes = set(codes)   # terms that stand for the missing value
        self.busy = {}
        self.why = None

    def rejects(self, mask, arr):
        """is an element equal to the missing value left out?"""
        def el(t):
            if t is arr:
                return X
            return None
        m = rewrite(mask, el)
        if m.op == "nonzero":
            m = m.args[0]
        if m.op == "idx" and m.args[0].op == "nonzero":
            m = m.args[0].args[0]
        r = Range(lambda t: CODE if t is X or t in self.codes else None)
        return r.cond(truth(m)) is False

    def clean(self, t):
        """True: no missing value; False: the data as read, unfiltered;
        None: not known"""
        if t in self.busy:
            return True
        self.busy[t] = 1
        r = self._clean(t)
        del self.busy[t]
        return r

    def all(self, ts):
        rs = [self.clean(x) for x in ts]
        return False if False in rs else None if None in rs else True

    def _clean(self, t):
        if self.raw(t):
            self.why = t
            return False
        if t.op in ("num", "const"):
            return True
        if t.op == "idx" and len(t.args) == 2:
            if self.rejects(t.args[1], t.args[0]):
                return True
            return self.clean(t.args[0])
        if t.op == "phi":
            return self.all(t.args[1:])
        if t.op == "eta":
            mu = mk("sym", val=t.val[0])
            self.me.add(mu)
            return self.all(t.args[:2])
        if t in self.me or t.op == "sym" and isinstance(t.val, tuple) and \
                t.val[0] == "param":
            return True
        if t.op == "call" and t.args[0] in self.me:
            return True
        if t.op in ("add", "mul"):
            return self.all(t.args)
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].val in (
                "numpy.concatenate", "numpy.append", "numpy.radians",
                "numpy.sort", "numpy.ravel", "numpy.hstack"):
            return self.all(x for x in t.args[1:] if x.op != "kw")
        if t.op in ("list", "tuple", "arr", "concat", "fn"):
            return self.all(t.args)
        return None


def removed(prog, chk):
    mv = mk("attr", sym("param", "self"), val="missingValue")

    def run(qual, sink, raw, label, **kw):
        chk.need(qual in prog.funcs, qual)
        ip = analyse(prog, chk, qual, **kw)
        got = list(sink(ip))
        chk.need(got, "values used by " + qual)
        n = 0
        for what, t in got:
            codes = {x for x in walk(t) if x.op == "attr" and
                     x.val == "missingValue" or
                     x.op == "sym" and x.val == ("param", "missingValue") or
                     x.op == "sym" and isinstance(x.val, tuple) and
                     x.val[-1] == "missingValue"}
            f = Filter(raw, me=[mk("func", val=qual)], codes=codes)
            r = f.clean(t)
            chk.decide("removed", qual + ":" + what, r,
                       "%s takes its values from %s without a selection "
                       "that rejects the missing value" % (
                           what, show(f.why, 3) if f.why is not None
                           else show(t, 3)), prog.where(qual))
            n += 1

    def attr_named(*names):
        def raw(t):
            return t.op in ("attr", "sym") and (
                t.val in names or isinstance(t.val, tuple) and
                t.val[-1] in names)
        return raw

    run(STATS + "extractParameter",
        lambda ip: [("the cell's values", ip.result)],
        attr_named("param"), "cell statistics")
    run(DIST + "extractParameter",
        lambda ip: [("the cell's values", heap_value(ip, "parameter"))],
        attr_named("pList"), "cell distributions")

    def kde(ip):
        for e in ip.trace:
            if e.kind in ("call", "new") and e.fn.op == "ext" and \
                    e.fn.val.endswith("KDEUnivariate") and e.args:
                yield "kernel density estimate", e.args[0]
        for e in ip.trace:
            if e.kind == "call" and e.fn.op == "func" and \
                    e.fn.val == "Utilities.stats.bandwidth":
                yield "bandwidth", e.args[0]

    def raw(t):
        return t.op == "sym" and t.val == ("param", "parameters") or \
            iscall(t, "Utilities.files.flLoadFile", "numpy.genfromtxt")
    run(KDE, kde, raw, "distributions",
        opaque=[q for q in ("Utilities.files.flLoadFile",
                            "Utilities.stats.bandwidth",
                            "Utilities.stats.cdf") if q in prog.funcs])
    # the statistics of a cell use the extracted values only
    q = STATS + "calculate"
    chk.need(q in prog.funcs, q)
    ip = analyse(prog, chk, q, opaque=[STATS + "extractParameter"])
    parts = tuple_items(ip.result) or (ip.result,)
    for i, t in enumerate(parts):
        hit = [x for x in walk(t) if attr_named("param")(x)]
        got = contains(t, lambda x: iscall(x, STATS + "extractParameter"))
        chk.decide("removed", "%s:%d" % (q, i),
                   False if hit else True if got else None,
                   "statistic %d of a cell is calculated from %s" % (
                       i, show(hit[0], 3) if hit else show(t, 3)),
                   prog.where(q))


def heap_value(ip, name):
    for (o, a), box in ip.final.heap.items():
        if a == name:
            return ip.final.boxes[box]
    raise AnchorLost("attribute " + name)
