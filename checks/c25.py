"""C25: winds are scaled by the multiplier of their own direction."""
import ast
from fractions import Fraction
import math
from sa.util import *
import sa.terms as TM
from sa.pointwise import Unknown
from checks.c18 import where
from .c30 import Cells, Outside

P = "ProcessMultipliers.processMultipliers."
SEG, MULT, V2 = P + "processMultiplierSegment", P + "processMult", \
    P + "processMultV2"
BEAR, INIT = P + "calculateBearing", P + "run.__init__"
LOW = "ProcessMultipliers.lowResProcessMultipliers.run.main"
BANDS = P + "loadAllBandArrayData"
RASTER = P + "loadRasterFile"
COMBINE = P + "getMultipliers.combineDirections"
MERGE = P + "getMultipliers.mergeWindMultipliers"
BUILD = P + "getMultipliers.build_combined_multipliers_for_all_directions"
ROSE = ["n", "ne", "e", "se", "s", "sw", "w", "nw"]
PI = TM.PI


def check(prog, chk):
    chk.rule("sector", "every bearing from 0 to 360 degrees is scaled by the "
             "multiplier of the compass direction it is nearest to")
    chk.rule("same", "all code paths map a bearing between two sectors to "
             "the same direction")
    chk.rule("bands", "the n-th band handed to the workers holds the "
             "multipliers of the n-th direction")
    chk.rule("combined", "the multiplier of a direction is made of terrain, "
             "topographic and shielding multipliers of that direction")
    chk.rule("bearing", "bearings are the direction the wind comes from, "
             "clockwise from north, and stay those of the same cell")
    for q in (SEG, MULT, V2, BEAR, INIT, LOW, COMBINE, BUILD):
        chk.need(q in prog.funcs, q)
    dirns = directions(prog, chk)
    if dirns is None:
        chk.unsure("bands", "directions", "list of directions not found")
        return
    edges = {}
    # one segment in a thread
    ip = analyse(prog, chk, SEG, opaque=[BANDS])
    path(prog, chk, ip, SEG, edges, lambda t: band_item(t, dirns))
    # all at once
    ip = analyse(prog, chk, MULT, opaque=[
        P + "createRaster", P + "reprojectDataset", BEAR, RASTER])
    for name, c in (("files", TRUE), ("combined", FALSE)):
        path(prog, chk, ip, MULT, edges, lambda t: raster(t, dirns),
             [(t, c) for t in none_tests(ip)], name)
    rasters(prog, chk, ip, MULT)
    # low resolution
    ip = analyse(prog, chk, LOW)
    path(prog, chk, ip, LOW, edges, lambda t: band_number(t, dirns))
    formula(prog, chk, ip, LOW)
    ip = analyse(prog, chk, BEAR)
    formula(prog, chk, ip, BEAR)
    for b in sorted({b for v in edges.values() for b in v}):
        got = {q: v[b] for q, v in edges.items() if b in v}
        if len(got) > 1:
            chk.decide("same", "%g" % b, len(set(got.values())) == 1 or
                       False, "%g degrees is %s" % (b, ", ".join(
                           "%s in %s" % (v, q) for q, v in
                           sorted(got.items()))), where(prog, SEG))
    missing(prog, chk)
    sources(prog, chk, dirns)
    combined(prog, chk)


def directions(prog, chk):
    ip = analyse(prog, chk, INIT, opaque=[P + "run.main"])
    for e in ip.trace:
        if e.kind == "setattr" and e.extra == "dirns":
            xs = tuple_items(e.args[0])
            if xs and all(isstr(x) for x in xs):
                return [strval(x) for x in xs]
    return None


def none_tests(ip):
    out = []
    for e in ip.trace:
        for t in list(e.args) + ([e.term] if e.term is not None else []):
            for x in walk(t):
                if x.op == "cmp" and x.val == "is" and \
                        mentions(x, sym("param", "combined_mulipliers_file")):
                    out.append(x)
    return list(dict.fromkeys(out))


# ------------------------------------------------------------- directions
def band_item(t, dirns):
    if t.op == "idx" and len(t.args) == 2 and isnum(t.args[1]) and \
            t.args[0].op == "call" and t.args[0].args[0].op == "func" and \
            t.args[0].args[0].val == BANDS:
        n = int(t.args[1].val)
        return dirns[n] if -len(dirns) <= n < len(dirns) else None
    return None


def raster(t, dirns):
    if t.op != "call" or t.args[0].op != "func" or t.args[0].val != RASTER:
        return None
    kw = {a.val: a.args[0] for a in t.args[1:] if a.op == "kw"}
    f, n = kw.get("raster_file"), kw.get("band_number")
    if f is None or not isnum(n):
        return None
    if f.op == "path":
        s = f.args[-1]
        s = strval(s) if isstr(s) else None
        if s and s.startswith("m4_") and s.endswith(".tif"):
            return s[3:-4]
        return None
    n = int(n.val)
    return dirns[n - 1] if 1 <= n <= len(dirns) else None


def band_number(t, dirns):
    g = {x for x in walk(t) if x.op == "mcall" and x.val == "GetRasterBand"}
    if len(g) != 1:
        return None
    x = g.pop()
    if len(x.args) < 2 or not isnum(x.args[1]):
        return None
    n = int(x.args[1].val)
    return dirns[n - 1] if 1 <= n <= len(dirns) else None


def missing(prog, chk):
    """what stands in for multipliers that are missing"""
    got = {}
    for q, fn in ((SEG, BANDS), (MULT, RASTER)):
        ip = analyse(prog, chk, q, opaque=[fn, P + "createRaster", P +
                                           "reprojectDataset", BEAR])
        node = prog.funcs[fn].node.args
        names = [a.arg for a in node.args]
        given = dict(zip(names[len(names) - len(node.defaults):],
                         node.defaults))
        for e in calls_to(ip, fn):
            if "fill_value" not in names:
                continue
            v = arg(e, "fill_value", names.index("fill_value"))
            if v is None and isinstance(given.get("fill_value"),
                                        ast.Constant):
                v = num(given["fill_value"].value)
            if v is not None and isnum(v):
                got.setdefault(float(v.val), (q, fn, e.where))
    if len(got) > 1:
        chk.violation("same", "missing", "missing multipliers count as %s" %
                      " and ".join("%g in %s" % (v, q[1].split(".")[-1])
                                   for v, q in sorted(got.items())),
                      sorted(got.items())[0][1][2])
    else:
        chk.decide("same", "missing", True if got else None, str(list(got)),
                   where(prog, SEG))


def expected(b):
    x = Fraction(b) + Fraction(45, 2)
    i = int(x // 45)
    if x % 45 == 0:
        return {ROSE[i % 8], ROSE[(i - 1) % 8]}
    return {ROSE[i % 8]}


# ------------------------------------------------------------- a code path
def tidy(t):
    """xarray's where as a choice"""
    def f(x):
        if x.op == "mcall" and x.val == "where" and len(x.args) == 3:
            return phi(x.args[1], x.args[0], x.args[2])
        return x
    return rewrite(t, f)


def leaves(t, out, seen):
    if t in seen:
        return
    seen.add(t)
    if t.op in ("add", "mul", "phi", "and", "or", "not", "lt0", "le0", "eq0",
                "ne0"):
        for x in t.args:
            leaves(x, out, seen)
    elif over_all(t):
        leaves(over_all(t)[1], out, seen)
    elif t.op not in ("num", "const") and not is_pi(t):
        out.append(t)


def over_all(t):
    """(any or all, condition) when this asks all cells"""
    if t.op == "call" and t.args[0].op == "ext" and len(t.args) == 2 and \
            t.args[0].val in ("numpy.any", "numpy.all"):
        return t.args[0].val[6:], t.args[1]
    if t.op == "fn" and t.val in ("any", "all") and len(t.args) == 1:
        return t.val, t.args[0]
    return None


def beside(t, v, other):
    """conditions that ask all cells, when a second cell differs"""
    out = {}
    for x in walk(t):
        g = over_all(x)
        if g:
            a, b = subst(g[1], v), subst(g[1], other)
            if a not in (TRUE, FALSE) or b not in (TRUE, FALSE):
                continue
            out[x] = (or_ if g[0] == "any" else and_)(a, b)
    return subst(t, out) if out else t


def is_pi(t):
    return t is PI or t.op in ("const", "sym", "ext", "pi") and \
        "pi" == str(t.val if t.op != "pi" else "pi").split(".")[-1]


def scaled(x, b):
    """the value of a bearing term at b degrees"""
    if x.op == "fn" and x.val == "mod" and len(x.args) == 2:
        m = x.args[1]
        if isnum(m) and m.val == 360:
            return num(b)
        k, fs = TM.split_mul(m)
        if k == 2 and len(fs) == 1 and is_pi(list(fs)[0]):
            return TM.mul(num(Fraction(b) / 180), list(fs)[0])
        return None
    return num(b)


def path(prog, chk, ip, q, edges, name_of, given=(), tag=None):
    short = ".".join(q.split(".")[1:]) + (":" + tag if tag else "")
    w = where(prog, q)
    sub_ = dict(given)
    outs = []
    for e in ip.trace:
        if e.kind == "mcall" and isstr(e.fn) and \
                strval(e.fn) == "WriteArray" and e.args:
            outs.append(tidy(subst(e.args[0], sub_)))
    steps = None
    if not outs:
        steps = []
        for e in ip.trace:
            if e.kind == "setitem" and e.args and (
                    e.args[0].op == "nonzero" or e.args[0].op in
                    ("and", "lt0", "le0")):
                m = e.args[0].args[0] if e.args[0].op == "nonzero" else \
                    e.args[0]
                if e.args[1].op == "mul":
                    steps.append((tidy(m), tidy(e.args[1])))
        conds = [m for m, _ in steps]
    else:
        conds = list(phis(outs[-1]))
    ls = []
    seen = set()
    for c in conds:
        leaves(c, ls, seen)
    ls = list(dict.fromkeys(ls))
    if len(ls) != 1 or not conds:
        chk.unsure("sector", short, "bearing not found: %s" % [
            show(x, 3) for x in ls[:3]])
        return
    B = ls[0]
    pts = points(conds, B)
    if pts is None:
        chk.unsure("sector", short, show(B, 4))
        return
    chk.count("bearings decided", len(pts))
    e_ = edges.setdefault(short, {})
    for b in pts:
        v = {B: scaled(B, b)}
        if steps is None:
            t = subst(outs[-1], v)
            if contains(outs[-1], lambda x: over_all(x) is not None):
                t = alone = subst(beside(outs[-1], v, v), v)
                for b2 in pts:
                    t = subst(beside(outs[-1], v, {B: scaled(B, b2)}), v)
                    if t is not alone:
                        break
        else:
            t = None
            for m, val in steps:
                c = subst(m, v)
                if c is TRUE:
                    t = val
                elif c is not FALSE:
                    t = False
                    break
        d, why = direction(t, name_of)
        t_ = "%s:%g" % (short, b)
        if d is None:
            if why:
                chk.violation("sector", t_, "a bearing of %g degrees: %s" % (
                    b, why), w)
            else:
                chk.unsure("sector", t_, show(t, 4) if t else str(t))
            continue
        chk.decide("sector", t_, d in expected(b) or False, "a bearing of %g "
                   "degrees is scaled by the multiplier of direction %s" % (
                       b, d), w)
        if len(expected(b)) > 1:
            e_[b] = d


def points(conds, B):
    """bearings that stand for all others: where a condition changes, and
    one between each two"""
    cut = {Fraction(0), Fraction(360)}
    for i in range(8):
        cut.add(Fraction(45) * i + Fraction(45, 2))
    for c in conds:
        for x in walk(c):
            if x.op in ("lt0", "le0", "eq0", "ne0"):
                v = []
                for b in (0, 1):
                    s = scaled(B, b)
                    if s is None:
                        return None
                    y = subst(x.args[0], {B: s})
                    ps = [z for z in walk(y) if is_pi(z)]
                    if ps:
                        y = subst(y, {ps[0]: TM.ONE})
                    if not isnum(y):
                        break
                    v.append(Fraction(y.val))
                if len(v) == 2 and v[1] != v[0]:
                    z = -v[0] / (v[1] - v[0])
                    if 0 <= z <= 360:
                        cut.add(z)
    cs = sorted(cut)
    return sorted(set(cs) | {(a + b) / 2 for a, b in zip(cs, cs[1:])})


def direction(t, name_of):
    """(direction of the multiplier, None) or (None, what is wrong)"""
    if t is False:
        return None, None
    if t is None:
        return None, "no multiplier is applied"
    if isnum(t) or t.op == "full":
        return None, "no multiplier is applied"
    k, fs = TM.split_mul(t)
    names = []
    rest = []
    for x, p in fs.items():
        y = x
        while y.op == "idx" and len(y.args) == 2 and y.args[1].op in (
                "nonzero", "and", "lt0", "le0"):
            y = y.args[0]
        n = name_of(y)
        if n is None:
            rest.append((y, p))
        else:
            names.append((n, p))
    if len(names) == 1 and len(rest) == 1 and k == 1 and \
            names[0][1] is TM.ONE and rest[0][1] is TM.ONE:
        return names[0][0], None
    if not names and len(rest) == 1 and k == 1 and not opaque_in(t) and \
            mentions_wind(rest[0][0]):
        return None, "no multiplier is applied"
    return None, None


def mentions_wind(t):
    return any(x.op == "sym" and x.val == ("param", "wind_prj")
               for x in walk(t)) and t.op == "mcall"


# ------------------------------------------------------------- the bands
def sources(prog, chk, dirns):
    lst = "[%s]" % ", ".join(repr(d) for d in dirns)
    prog.add_source("_c25", '''
from ProcessMultipliers.processMultipliers import processMultV2

def launch(wspd, uu, vv, lon, lat, working_dir, threads, size, limit,
           combined):
    return processMultV2(wspd, uu, vv, lon, lat, working_dir, %s,
                         threads, size, limit,
                         combined_mulipliers_file=combined)
''' % lst, "_c25.py")
    ip = analyse(prog, chk, "_c25.launch", opaque=[
        P + "createRaster", P + "reprojectDataset", BEAR])
    rasters(prog, chk, ip, V2)
    C = sym("param", "combined")
    params = [a.arg for a in prog.funcs[SEG].node.args.args]
    n = 0
    for e in ip.trace:
        if e.kind != "mcall" or not isstr(e.fn) or \
                strval(e.fn) != "submit" or not e.args:
            continue
        f = e.args[0]
        if f.op != "func" or f.val == P + "reprojectDataset":
            continue
        for i, t in enumerate(e.args[1:]):
            tests = [x for x in walk(t) if x.op == "cmp" and x.val == "is"
                     and mentions(x, C)]
            for name, c in (("files", TRUE), ("combined", FALSE)):
                u = subst(t, {x: c for x in tests})
                xs = tuple_items(u)
                if not xs or not any(contains(x, lambda y: y.op == "mcall"
                                              and y.val == "GetRasterBand")
                                     for x in xs):
                    continue
                n += 1
                for j, x in enumerate(xs):
                    d = source(x, C, dirns)
                    tag = "%s:%d" % (name, j)
                    if d is None or j >= len(dirns):
                        chk.unsure("bands", tag, show(x, 5))
                    else:
                        chk.decide("bands", tag, d == dirns[j] or False,
                                   "band %d of the list is direction %s, "
                                   "expected %s" % (j, d, dirns[j]), e.where)
                chk.decide("bands", name, len(xs) == len(dirns) or False,
                           "%d bands for %d directions" % (len(xs),
                                                           len(dirns)),
                           e.where)
    if not n:
        chk.unsure("bands", "list", "no list of bands handed to the workers")
    chk.count("band lists", n)


def source(x, C, dirns):
    if x.op != "mcall" or x.val != "GetRasterBand" or len(x.args) < 2 or \
            not isnum(x.args[1]):
        return None
    h, n = x.args[0], int(x.args[1].val)
    if h.op != "handle" or len(h.args) < 2:
        return None
    f = h.args[1]
    if f is C:
        return dirns[n - 1] if 1 <= n <= len(dirns) else "none"
    if f.op == "path" and n == 1:
        s = f.args[-1]
        s = strval(s) if isstr(s) else None
        if s and s.startswith("m4_") and s.endswith(".tif"):
            return s[3:-4]
    return None


# ------------------------------------------------- multipliers of a direction
def combined(prog, chk):
    ip = analyse(prog, chk, COMBINE)
    outs = [e for e in ip.trace if e.kind == "call" and e.fn.op == "ext" and
            e.fn.val.endswith("BandWriteArray") or e.kind == "mcall" and
            isstr(e.fn) and strval(e.fn) == "WriteArray"]
    for e in outs:
        data = e.args[1] if e.kind == "call" else e.args[0]
        band = e.args[0] if e.kind == "call" else e.extra
        create = [x for x in walk(band) if x.op == "mcall" and
                  x.val == "Create"]
        opened = {x for x in walk(data) if x.op == "handle"}
        if not create or not opened:
            chk.unsure("combined", "product", show(data, 4))
            continue
        out = name_parts(create[0].args[1])
        ins = [name_parts(h.args[1]) for h in opened]
        if out is None or None in ins:
            chk.unsure("combined", "product", show(create[0].args[1], 4))
            continue
        kinds = set()
        for text, vals in ins:
            kind = text.strip("/").split("/")[0].split("_")[0]
            kinds.add(kind)
            d = [v for v in vals if v in out[1]]
            chk.decide("combined", "product:%s" % kind, set(vals) ==
                       set(out[1]) or (None if any(opaque_in(v)
                                       for v in vals) else False),
                       "%s multipliers of %s go into those of %s" % (
                           kind, [show(v, 3) for v in vals],
                           [show(v, 3) for v in out[1]]), e.where)
        chk.decide("combined", "kinds", kinds == {
            "terrain", "topographic", "shielding"} or False,
            "made of %s" % ", ".join(sorted(kinds)), e.where)
    if not outs:
        chk.unsure("combined", "product", "nothing written")
    if MERGE in prog.funcs:
        ip = analyse(prog, chk, MERGE)
        for e in ip.trace:
            if e.kind == "call" and e.fn.op == "ext" and \
                    e.fn.val == "os.system" and e.args:
                g = [x for x in walk(e.args[0]) if x.op == "call" and
                     x.args[0].op == "ext" and x.args[0].val == "glob.glob"]
                if len(g) != 1:
                    chk.unsure("combined", "merge", show(e.args[0], 4))
                    continue
                D = sym("param", "dirns")
                cmd = subst(e.args[0], {g[0]: NONE})
                a = {x for x in walk(cmd) if x.op == "idx" and
                     x.args[0] is D}
                b = {x for x in walk(g[0]) if x.op == "idx" and
                     x.args[0] is D}
                chk.decide("combined", "merge", a == b and len(a) == 1 or
                           None if not (a and b) else a == b,
                           "tiles of %s are merged into %s" % (
                               [show(x) for x in b], [show(x) for x in a]),
                           e.where)
    ip = analyse(prog, chk, BUILD, opaque=[
        P + "getMultipliers.download_from_s3"])
    for e in ip.trace:
        if e.kind in ("call",) and e.fn.op == "ext" and \
                e.fn.val.endswith("TranslateOptions"):
            bl = e.kw.get("bandList")
            xs = tuple_items(bl) if bl is not None else None
            if xs and all(isnum(x) for x in xs):
                chk.decide("combined", "translate", [int(x.val) for x in xs]
                           == list(range(1, 9)) or False, "bands %s" % [
                               int(x.val) for x in xs], e.where)
            elif bl is None:
                chk.ok("combined", "translate", "all bands")
            else:
                chk.unsure("combined", "translate", show(bl))


def name_parts(t):
    """(fixed text, values other than the folder) of a file name"""
    if t.op not in ("fmt", "path", "concat"):
        return None
    text, vals = "", []
    xs = list(t.args)
    while xs:
        x = xs.pop(0)
        if x.op in ("fld",):
            x = x.args[0]
        if isstr(x):
            text += strval(x)
        elif x.op in ("fmt", "path", "concat"):
            xs = list(x.args) + xs
        elif x.op == "sym" and x.val == ("param", "working_dir"):
            continue
        else:
            vals.append(x)
            text += ""
    return text, vals


# ------------------------------------------------------------- the bearing
def formula(prog, chk, ip, q):
    short = ".".join(q.split(".")[1:])
    w = where(prog, q)
    ts = [ip.result] + [x for e in ip.trace for t in e.args
                        for x in [t] if x is not None]
    mods = {}
    for t in ts:
        for x in walk(t):
            if x.op == "fn" and x.val == "mod" and contains(
                    x, lambda y: y.op == "fn" and y.val == "arctan2"):
                mods[x] = True
    if len(mods) != 1:
        chk.unsure("bearing", "%s:formula" % short, "%d terms" % len(mods))
        return
    m = list(mods)[0]
    at = [x for x in walk(m) if x.op == "fn" and x.val == "arctan2"][0]
    comp = {}
    for i, x in enumerate(at.args):
        k, fs = TM.split_mul(x)
        if len(fs) != 1 or abs(k) != 1:
            chk.unsure("bearing", "%s:formula" % short, show(x))
            return
        y = list(fs)[0]
        n = str(y.val[1]) if y.op == "sym" else str(y.val)
        comp[i] = (k, "u" if n.startswith("u") else "v" if n.startswith("v")
                   else None)
    if {c[1] for c in comp.values()} != {"u", "v"}:
        chk.unsure("bearing", "%s:formula" % short, show(at))
        return
    modulus = TM.split_mul(m.args[1])
    deg = isnum(m.args[1])
    for u, v, want in ((0, -1, 0), (-1, 0, 90), (0, 1, 180), (1, 0, 270),
                       (-1, -1, 45), (1, 1, 225), (1, -1, 315),
                       (-1, 1, 135)):
        val = {"u": u, "v": v}
        a = math.atan2(float(comp[0][0]) * val[comp[0][1]] + 0.0,
                       float(comp[1][0]) * val[comp[1][1]] + 0.0)
        y = number(m, {at: a})
        if y is None:
            chk.unsure("bearing", "%s:formula" % short, show(m, 5))
            return
        y = y if deg else math.degrees(y)
        ok = min(abs(y - want), 360 - abs(y - want)) < 1e-6
        chk.decide("bearing", "%s:%d,%d" % (short, u, v), ok or False,
                   "wind (%d, %d) has bearing %.1f, expected %d" % (
                       u, v, y, want), w)
    outer = [t for t in ts if t is not m and t.op == "mul" and has(t, m)]
    if q == BEAR:
        around(chk, ip, short, w)
        r = number(ip.result, {m: 1.0})
        want = 1.0 if deg else 180 / math.pi
        chk.decide("bearing", "%s:unit" % short, None if r is None else
                   abs(r - want) < 1e-9, "bearings are scaled by %s" % r, w)


def around(chk, ip, short, w):
    """the bearing of winds from all directions"""
    ps = [x for x in walk(ip.result) if x.op == "sym" and
          x.val[0] == "param"]
    U = [x for x in ps if str(x.val[1]).startswith("u")]
    V = [x for x in ps if str(x.val[1]).startswith("v")]
    if len(set(U)) != 1 or len(set(V)) != 1:
        return
    for b in range(0, 360, 7):
        u, v = -math.sin(math.radians(b)), -math.cos(math.radians(b))
        try:
            y = Cells(ip, {U[0]: u, V[0]: v})(ip.result)
        except (Unknown, Outside):
            chk.unsure("bearing", "%s:around" % short, show(ip.result, 4))
            return
        if not isinstance(y, (int, float, Fraction)):
            return
        d = abs(y - b) % 360
        if min(d, 360 - d) > 1e-6 or not 0 <= y <= 360:
            chk.violation("bearing", "%s:around" % short, "a wind from %d "
                          "degrees has bearing %.2f" % (b, y), w)
            return
    chk.ok("bearing", "%s:around" % short, "52 directions")


def number(t, env):
    for k, v in env.items():
        if t is k:
            return v
    if isnum(t):
        return float(t.val)
    if is_pi(t):
        return math.pi
    if t.op == "add":
        xs = [number(x, env) for x in t.args]
        ks = list(t.val) if t.val is not None else [1] * len(xs)
        if None in xs or len(ks) != len(xs):
            return None
        return sum(float(k) * x for k, x in zip(ks, xs))
    if t.op == "mul":
        k, fs = TM.split_mul(t)
        r = float(k)
        for b, p in fs.items():
            x, y = number(b, env), number(p, env)
            if x is None or y is None:
                return None
            r *= x ** y
        return r
    if t.op == "fn" and t.val == "mod":
        a, b = number(t.args[0], env), number(t.args[1], env)
        return None if a is None or b is None else a % b
    return None


NEAREST = ("GRA_NearestNeighbour", "GRA_Mode")


def rasters(prog, chk, ip, q):
    """bearings and speeds of the same cells"""
    short = q.split(".")[-1]
    made = {}
    for e in ip.trace:
        f = None
        if e.kind == "call" and e.fn.op == "func" and \
                e.fn.val == P + "reprojectDataset":
            a = {"src_file": arg(e, "src_file", 0),
                 "dst_filename": arg(e, "dst_filename", 2),
                 "method": arg(e, "resampling_method", 3)}
        elif e.kind == "mcall" and isstr(e.fn) and \
                strval(e.fn) == "submit" and e.args and \
                e.args[0].op == "func" and \
                e.args[0].val == P + "reprojectDataset":
            a = {"src_file": e.args[1], "dst_filename": e.args[3] if
                 len(e.args) > 3 else None,
                 "method": e.kw.get("resampling_method")}
        else:
            continue
        r = a["src_file"]
        arr = [x.args[0] for x in r.args if x.op == "kw" and
               x.val == "array"] if r is not None and r.op == "call" else []
        d = a["dst_filename"]
        if not arr or d is None or d.op != "path" or not isstr(d.args[-1]):
            chk.unsure("bearing", "%s:raster" % short, show(r, 3)
                       if r is not None else "")
            continue
        made[strval(d.args[-1])] = (arr[0], a["method"], e)
    if "gust_prj.tif" not in made or "bear_prj.tif" not in made:
        chk.unsure("bearing", "%s:raster" % short, ", ".join(sorted(made)))
        return
    (ga, _, ge), (ba, bm, be) = made["gust_prj.tif"], made["bear_prj.tif"]

    def flips(t):
        n = 0
        while t.op == "call" and t.args[0].op == "ext" and \
                t.args[0].val == "numpy.flipud":
            n += 1
            t = t.args[1]
        return n % 2, t
    (gf, gt), (bf, bt) = flips(ga), flips(ba)
    W = sym("param", "wspd")
    chk.decide("bearing", "%s:speed" % short, gt is W or None, show(gt, 3),
               ge.where)
    isb = bt.op == "call" and bt.args[0].op == "func" and \
        bt.args[0].val == BEAR
    chk.decide("bearing", "%s:bearing" % short, isb or (
        False if bt in (W, sym("param", "uu"), sym("param", "vv")) else
        None), show(bt, 3), be.where)
    if isb:
        kw = {x.val: x.args[0] for x in bt.args[1:] if x.op == "kw"}
        ok = kw.get("uu") is sym("param", "uu") and \
            kw.get("vv") is sym("param", "vv")
        chk.decide("bearing", "%s:components" % short, ok or (
            False if set(kw.values()) <= {sym("param", "uu"), sym(
                "param", "vv"), W} else None), show(bt, 3), be.where)
    if isb and gt is W:
        chk.decide("bearing", "%s:orientation" % short, gf == bf or False,
                   "only one of speed and bearing is turned upside down",
                   be.where)
    if bm is None:
        f = prog.funcs[P + "reprojectDataset"]
        chk.violation("bearing", "%s:resampling" % short, "bearings are "
                      "reprojected with the default method, which averages "
                      "across north", be.where)
    else:
        n = str(bm.val).split(".")[-1] if bm.op in ("ext", "attr") else None
        chk.decide("bearing", "%s:resampling" % short, None if n is None or
                   not n.startswith("GRA_") else n in NEAREST or False,
                   "bearings are reprojected with %s, which averages across "
                   "north" % n, be.where)
