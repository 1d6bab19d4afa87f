"""C10: quantities reach each wind calculation in the unit it expects."""
import math
from sa.util import *
from sa.sample import Point, Undefined
from . import compiled

LOCAL = "wind.WindfieldAroundTrack.localWindField"
EXT = "wind.WindfieldAroundTrack.regionalExtremes"
GRID = "Utilities.maputils.makeGrid"
PRS = "PressureInterface.pressureProfile.PrsProfile"
CONVERT = "Utilities.metutils.convert"
P = lambda n: sym("param", n)
compiled.sample.RANGES.update(RM=(1e4, 6e4), F=(-1e-4, 1e-4), VX=(20., 60.))
COLUMNS = ("Latitude", "Longitude", "EnvPressure", "CentralPressure", "rMax",
           "Speed", "Bearing")
# parameter of a calculation -> (track column, factor)
PROFILE = {"lat": ("Latitude", 1.), "lon": ("Longitude", 1.),
           "eP": ("EnvPressure", 100.), "cP": ("CentralPressure", 100.),
           "rMax": ("rMax", 1000.)}
PRESSURE = {"pEnv": ("EnvPressure", 100.), "pCentre": ("CentralPressure",
                                                       100.),
            "rMax": ("rMax", 1.), "cLat": ("Latitude", 1.),
            "cLon": ("Longitude", 1.)}
SCALE = num(7)
SPEEDS = ("m/s", "m s-1", "m s^-1", "ms-1", "mps", "m.s-1", "metres/second",
          "meters/second", "m s**-1")
UNITS = {"vmax": SPEEDS, "ua": SPEEDS, "va": SPEEDS, "slp": ("Pa",),
         "wspd": SPEEDS, "wspdupper": SPEEDS, "wspdlower": SPEEDS,
         "gust_speed": SPEEDS, "velocity_east": SPEEDS,
         "velocity_north": SPEEDS, "pressure": ("Pa",)}
INPUT = {"pressure": ("PressureUnits", "hPa"), "vmax": ("SpeedUnits", "mps"),
         "rmax": ("LengthUnits", "km"), "penv": ("PressureUnits", "hPa"),
         "poci": ("PressureUnits", "hPa")}

HEAD = '''
from wind import windmodels as W
from wind import vmax as VM
from Utilities import maputils as M
from Utilities import metutils as T
from PressureInterface import pressureProfile as Q

'''
PROF = '''
def %(name)s_%(meth)s(%(params)s, RM, F, VX, R):
    p = W.%(name)s(%(params)s)
    p.rMax = RM
    p.f = F
    p.vMax_ = VX
    return p.%(meth)s(R)

'''
BETA = '''
def %(name)s_beta(%(params)s):
    return W.%(name)s(%(params)s).%(attr)s

'''
SPEED = '''
def speed_%(name)s(eP, cP, rMax, beta):
    p = W.HollandWindProfile(10., 150., eP, cP, rMax, beta, W.%(name)s)
    return p.vMax

'''
FIELD = '''
def %(name)s_field(lat, lon, eP, cP, rMax, RM, F, VX, V, Z, R, lam, vFm,
                   thetaFm, thetaMax):
    p = W.SchloemerWindProfile(lat, lon, eP, cP, rMax)
    p.rMax = RM
    p.f = F
    p.vMax_ = VX
    f = W.%(name)s(p)
    f.V = V
    f.Z = Z
    return f.field(R, lam, vFm, thetaFm, thetaMax)

'''
OTHER = '''
def coriolis(lat):
    return T.coriolis(lat)


def distance(cLon, lat, lonArray, latArray):
    return M.gridLatLonDist(cLon, lat, lonArray, latArray)


def bearing(cLon, lat, lonArray, latArray):
    return M.gridLatLonBear(cLon, lat, lonArray, latArray)


def onwards(theta, dist, oLon, oLat):
    return M.bear2LatLon(theta, dist, oLon, oLat)


def prs_powell(R, pEnv, pCentre, rMax, lat, cLon, beta):
    return Q.PrsProfile(R, pEnv, pCentre, rMax, lat, cLon, beta).powell()


def prs_holland(R, pEnv, pCentre, rMax, lat, cLon, beta):
    return Q.PrsProfile(R, pEnv, pCentre, rMax, lat, cLon, beta).holland()

'''


def check(prog, chk):
    chk.rule("wind", "latitude, longitude, pressures (Pa), radius (m), "
             "distance (m), translation speed (m/s) and direction (radians "
             "anticlockwise from east) are passed to the wind models")
    chk.rule("pressure", "pressures (Pa), radius and distance (km) are "
             "passed to the pressure profile")
    chk.rule("angle", "the configured angle of maximum wind reaches the wind "
             "field in degrees and is converted once; latitudes are "
             "converted to radians for the Coriolis parameter")
    chk.rule("length", "the wind is unchanged, the vorticity divided by s, "
             "when all lengths are multiplied and the Coriolis parameter "
             "divided by s")
    chk.rule("vorticity", "the vorticity of a profile is V/R + dV/dR of its "
             "wind, both taken at the same distance in m")
    chk.rule("formula", "maximum wind speed and shape parameter have the "
             "published value for the pressures in Pa and the radius in m")
    chk.rule("distance", "distances between positions are in km, bearings in "
             "the unit their users expect")
    chk.rule("input", "observed pressures, wind speeds and radii are "
             "converted once from the unit of the data source to hPa, m/s "
             "and km")
    chk.rule("climate", "mean sea level pressure read from a file is "
             "converted once, from the unit recorded with it to hPa")
    chk.rule("output", "values are stored in the unit recorded with them")
    calls(prog, chk)
    models(prog, chk)
    inputs(prog, chk)
    climate(prog, chk)
    outputs(prog, chk)


# --------------------------------------------------- what the models are given
def column(t):
    """track column of a value read at one time step"""
    if t.op == "idx" and len(t.args) == 2 and t.args[0].op == "attr" and \
            t.args[0].val in COLUMNS:
        return t.args[0].val
    if t.op == "idx" and len(t.args) >= 2:
        for a in t.args[1:]:
            if isstr(a) and strval(a) in COLUMNS:
                return strval(a)
        b = t.args[0]
        if b.op == "idx" and any(isstr(a) and strval(a) in COLUMNS
                                 for a in b.args[1:]):
            return [strval(a) for a in b.args[1:] if isstr(a)][0]
    return None


def reads(t):
    out = {}
    for x in walk(t):
        c = column(x)
        if c is not None:
            out[x] = c
    return out


def evaluate(t, m):
    """number the term takes when the reads in m have the given values"""
    if free(t, m):
        return None
    p = Point(1)
    for k, v in m.items():
        p.memo[k] = float(v)
    try:
        v = p.ev(t)
    except (Undefined, ZeroDivisionError, OverflowError, ValueError,
            TypeError, KeyError):
        return None
    if isinstance(v, complex):
        v = v.real if abs(v.imag) < 1e-12 else float("nan")
    return v


def free(t, m):
    """does the term hold anything besides numbers and the values given"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen or x in m or x is PI or x is E:
            continue
        seen.add(x)
        if x.op in ("sym", "param", "mu", "idx", "attr", "call", "mcall",
                    "cfg", "eta", "unknown"):
            return True
        todo.extend(x.args)
    return False


def near(a, b, tol=2e-6):
    return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-9


def factor(chk, rule, tag, t, col, fac, where,
           points=(1., 37., 170., 940., 1012.)):
    """decide that t is fac times the track column"""
    rs = reads(t)
    if opaque_in(t):
        chk.unsure(rule, tag, show(t, 4))
        return
    got = set(rs.values())
    if col not in got and got:
        chk.violation(rule, tag, "%s is computed from %s instead of %s: %s" %
                      (tag, ", ".join(sorted(got)), col, show(t, 5)), where)
        return
    if got != {col} or len(rs) != 1:
        chk.unsure(rule, tag, show(t, 4))
        return
    x = next(iter(rs))
    for p in points:
        v = evaluate(t, {x: p})
        if v is None:
            chk.unsure(rule, tag, show(t, 4))
            return
        if not near(v, fac * p):
            chk.violation(rule, tag, "%s is %s; for %s = %g it is %g, "
                          "expected %g" % (tag, show(t, 5), col, p, v,
                                           fac * p), where)
            return
    chk.ok(rule, tag, show(t, 4))


def calls(prog, chk):
    ip = analyse(prog, chk, "wind.run", opaque=[GRID])
    profs = compiled.profiles(prog)
    chk.need(len(profs) >= 6, "wind profile classes")
    flds = compiled.fields(prog)
    chk.need(len(flds) >= 3, "wind field classes")
    grids = [e for e in calls_to(ip, GRID)]
    chk.need(grids, "call of makeGrid in the wind stage")
    # ---- wind profile
    made = [e for e in ip.trace if e.kind in ("call", "new") and
            e.fn is not None and (
                e.fn.op in ("idx", "mcall", "call", "phi") and
                len([a for a in e.args if a is not None and reads(a)]) >= 4
                or e.fn.op in ("cls", "func", "ext") and
                str(e.fn.val) in profs)]
    chk.need(made, "construction of the wind profile")
    for e in made:
        chk.count("profile constructions")
        args = positional(e)
        targets = [str(e.fn.val)] if str(e.fn.val) in profs else sorted(profs)
        for q in targets:
            names = profs[q]
            short = q.split(".")[-1]
            for n in PROFILE:
                if n not in names:
                    chk.unsure("wind", short + "." + n,
                               "parameters " + ", ".join(names))
                    continue
                i = names.index(n)
                t = e.kw.get(n)
                if t is None and i < len(args):
                    t = args[i]
                if t is None or t.op == "star":
                    chk.unsure("wind", short + "." + n, "not found")
                    continue
                c, f = PROFILE[n]
                factor(chk, "wind", "%s.%s" % (short, n), t, c, f, e.where)
    # ---- pressure profile
    news = [e for e in ip.trace if e.kind in ("new", "call") and
            e.fn is not None and str(e.fn.val) in (PRS, PRS + ".__init__")]
    chk.need(news, "construction of the pressure profile")
    init = prog.lookup(PRS, "__init__")
    names = [a.arg for a in init[1].node.args.args[1:]]
    for e in news[:1]:
        args = positional(e)
        for n, (c, f) in PRESSURE.items():
            t = given(e, args, names, n)
            if t is None:
                chk.unsure("pressure", n, "not found")
                continue
            factor(chk, "pressure", "PrsProfile." + n, t, c, f, e.where)
        t = given(e, args, names, "R")
        distance(chk, "pressure", "PrsProfile.R", t, grids, 0, 1., e.where)
    # ---- wind field
    fs = [e for e in ip.trace if e.kind == "mcall" and strval(e.fn) == "field"
          or e.kind == "call" and e.fn is not None and e.fn.op == "func" and
          e.fn.val.split(".")[-1] == "field"]
    chk.need(fs, "call of the wind field")
    fn = prog.lookup(sorted(flds)[0], "field")
    names = [a.arg for a in fn[1].node.args.args[1:]]
    for q in flds:
        g = prog.lookup(q, "field")
        ns = [a.arg for a in g[1].node.args.args[1:]]
        chk.decide("wind", q.split(".")[-1] + ".field", ns[:5] == names[:5]
                   or None, "parameters %s" % ", ".join(ns), g[1].loc)
    for e in fs[:1]:
        args = positional(e)
        if len(args) == 6:
            args = args[1:]
        g = lambda n: given(e, args, names, n)
        distance(chk, "wind", "field.R", g("R"), grids, 0, 1000., e.where)
        distance(chk, "wind", "field.lam", g("lam"), grids, 1, 1., e.where)
        t = g("vFm")
        if t is None:
            chk.unsure("wind", "field.vFm", "not found")
        else:
            factor(chk, "wind", "field.vFm", t, "Speed", 1 / 3.6, e.where)
        direction(chk, "field.thetaFm", g("thetaFm"), e.where)
        t = g("thetaMax")
        c = [x for x in walk(t)] if t is not None else []
        cf = [x for x in c if cfg_of(x) == ("WindfieldInterface", "thetaMax")]
        if not cf:
            chk.unsure("angle", "field.thetaMax", show(t, 4) if t is not None
                       else "not found")
        else:
            v = [evaluate(t, {cf[0]: p}) for p in (1., 70.)]
            chk.decide("angle", "field.thetaMax", None if None in v else
                       near(v[0], 1.) and near(v[1], 70.),
                       "thetaMax is passed as %s" % show(t, 5), e.where)
    # ---- the pressure outside any wind field
    ip = analyse(prog, chk, EXT, opaque=[LOCAL])
    parts = tuple_items(ip.result)
    chk.need(parts is not None and len(parts) == 7,
             "seven results of regionalExtremes")
    c = carried_of(ip, parts[4])
    if c is None:
        chk.unsure("pressure", "background", show(parts[4], 3))
    else:
        init = c[2]
        x = fill(init)
        if x is None and reads(init):
            x = init
        if x is None or not reads(x):
            chk.unsure("pressure", "background", show(init, 4))
        else:
            for lab, leaf in enumerate(leaves(x)):
                if reads(leaf):
                    factor(chk, "pressure", "background", leaf,
                           "EnvPressure", 100., prog.funcs[EXT].loc)
    # ---- positions and distances in between
    step(prog, chk)


def leaves(t):
    if t.op == "phi":
        return leaves(t.args[1]) + leaves(t.args[2])
    return [t]


def branches(t, terms, depth=4):
    """the term with the choices between the given terms decided"""
    for x in walk(t):
        if x.op == "phi" and depth and any(
                mentions(a, *terms) for a in x.args[1:]):
            return branches(subst(t, {x: x.args[1]}), terms, depth - 1) + \
                branches(subst(t, {x: x.args[2]}), terms, depth - 1)
    return [t]


def fill(t):
    """value a filled array holds"""
    if t.op == "full":
        return t.args[-1]
    if t.op == "phi":
        a, b = fill(t.args[1]), fill(t.args[2])
        return None if a is None or b is None else phi(t.args[0], a, b)
    fs = [x for x in walk(t) if x.op == "full"]
    if fs and reads(t):
        return subst(t, {x: x.args[-1] for x in fs})
    return None


def positional(e):
    out = []
    for a in e.args:
        if a is None:
            continue
        if a.op == "star":
            ts = tuple_items(a.args[0]) if a.args else None
            if ts is None:
                out.append(a)
                break
            out.extend(ts)
        else:
            out.append(a)
    return out


def given(e, args, names, n):
    if n in e.kw:
        return e.kw[n]
    if n in names and names.index(n) < len(args):
        t = args[names.index(n)]
        return None if t.op == "star" else t
    return None


def distance(chk, rule, tag, t, grids, i, fac, where):
    if t is None or opaque_in(t):
        chk.unsure(rule, tag, show(t, 4) if t is not None else "not found")
        return
    want = {component(g.term, i) for g in grids}
    other = {component(g.term, 1 - i) for g in grids}
    m1, m2 = {w: 1. for w in want}, {w: 13. for w in want}
    bad, und = None, False
    for x in branches(t, want | other):
        if any(mentions(x, o) for o in other) and not any(
                mentions(x, w) for w in want):
            bad = x
            continue
        v = [evaluate(x, m) for m in (m1, m2)]
        if None in v or not any(mentions(x, w) for w in want):
            und = True
        elif not near(v[0], fac) or not near(v[1], 13. * fac):
            bad = x
    chk.decide(rule, tag, False if bad is not None else None if und else True,
               "%s is %s, expected %g times the result of makeGrid" % (
                   tag, show(bad if bad is not None else t, 5), fac), where)


def direction(chk, tag, t, where):
    rs = {x: c for x, c in reads(t).items()} if t is not None else {}
    if t is None or set(rs.values()) != {"Bearing"} or len(rs) != 1:
        chk.decide("wind", tag, None if t is None or opaque_in(t) or not rs
                   else False, "the direction of motion is %s" %
                   (show(t, 5) if t is not None else "not found"), where)
        return
    x = next(iter(rs))
    for b in (10., 100., 200., 350.):
        v = evaluate(t, {x: b})
        if v is None:
            chk.unsure("wind", tag, show(t, 4))
            return
        d = (v - math.radians(90. - b)) / (2 * math.pi)
        if abs(d - round(d)) > 1e-6:
            chk.violation("wind", tag, "for a bearing of %g degrees the "
                          "direction of motion is %g radians, expected %g "
                          "(%s)" % (b, v, math.radians(90. - b), show(t, 5)),
                          where)
            return
    chk.ok("wind", tag, show(t, 4))


# ------------------------------------------------------ inside the wind models
def models(prog, chk):
    rs = compiled.load(prog)
    profs, flds = compiled.profiles(prog), compiled.fields(prog)
    src = HEAD + OTHER
    jobs = []
    for q, ps in sorted(profs.items()):
        ps = [x for x in ps if x != "windSpeedModel"]
        d = {"name": q.split(".")[-1], "params": ", ".join(ps)}
        for m in ("velocity", "vorticity"):
            e = prog.lookup(q, m)
            if e is None or e[0] != "def":
                continue
            d["meth"] = m
            src += PROF % d
            jobs.append((d["name"], m, e[1]))
    for name, attr in (("PowellWindProfile", "beta"),
                       ("WilloughbyWindProfile", "beta")):
        q = "wind.windmodels." + name
        if q in profs:
            ps = [x for x in profs[q] if x != "windSpeedModel"]
            src += BETA % {"name": name, "attr": attr,
                           "params": ", ".join(ps)}
    speeds = sorted(q.split(".")[-1] for q in prog.subclasses(
        "wind.windmodels.WindSpeedModel"))
    chk.need(speeds, "wind speed models")
    for s in speeds:
        src += SPEED % {"name": s}
    for q in sorted(flds):
        src += FIELD % {"name": q.split(".")[-1]}
    prog.add_source("_c10", src, "checks/c10.py")
    for name, m, f in jobs:
        length(prog, chk, name, m, f)
    for name in sorted({j[0] for j in jobs}):
        vorticity(prog, chk, name, jobs)
    for q in sorted(flds):
        field(prog, chk, q.split(".")[-1], prog.lookup(q, "field")[1])
    formulas(prog, chk, speeds, profs)
    geometry(prog, chk)


def value(prog, chk, name, **kw):
    ip = analyse(prog, chk, "_c10." + name, **(kw or {
        "absent": compiled.MODULES}))
    t = ip.result
    for n in ("beta", "beta1", "beta2"):
        t = assume(t, is_(P(n), NONE), False)
    return t, ip


def storms(a, b):
    """do two values agree for all sampled cyclones"""
    if same(a, b):
        return True
    if opaque_in(a) or opaque_in(b):
        return None
    good = bad = 0
    for n in range(1, 160, 2):
        p = Point(n)
        try:
            x, y = p.ev(a), p.ev(b)
            bad += abs(x - y) > 1e-3 * (abs(x) + abs(y))
            good += 1
        except (Undefined, ZeroDivisionError, OverflowError, ValueError,
                TypeError, RecursionError):
            continue
    if bad > 2:
        return False
    return True if good >= 20 and not bad else None


def length(prog, chk, name, meth, f):
    from .c12 import raises_only
    if raises_only(f):
        return
    m = {P("R"): mul(SCALE, P("R")), P("RM"): mul(SCALE, P("RM")),
         P("F"): mul(P("F"), power(SCALE, NEG1))}
    for x in ("rMax2", "rGale"):
        m[P(x)] = mul(SCALE, P(x))
    for mode in ("absent", "present"):
        t, ip = value(prog, chk, "%s_%s" % (name, meth),
                      **{mode: compiled.MODULES})
        if mode == "present" and not any(
                q.rsplit(".", 1)[0] in compiled.MODULES for q in ip.visited):
            continue
        chk.count("profile methods")
        want = t if meth == "velocity" else mul(t, power(SCALE, NEG1))
        if name.lower().startswith("newholland"):
            # its shape comes from an empirical relation in the radius
            m2 = dict(m)
            m2[P("rMax")] = mul(SCALE, P("rMax"))
        else:
            m2 = m
        chk.decide("length", "%s.%s%s" % (name, meth, ":compiled" if mode ==
                                          "present" else ""),
                   storms(subst(t, m2), want),
                   "with all lengths multiplied by 7 the %s is not %s: %s" %
                   (meth, "unchanged" if meth == "velocity" else
                    "divided by 7", show(t, 6)), f.loc)


STORM = {"lat": -15., "lon": 150., "eP": 101000., "cP": 95000.,
         "rMax": 30000., "beta": 1.5, "beta1": 1.5, "beta2": 1.4,
         "rMax2": 150000., "rGale": 150000., "RM": 30000., "F": -3.8e-5}


def vorticity(prog, chk, name, jobs):
    from .c12 import raises_only
    f = {m: x for n, m, x in jobs if n == name}
    if set(f) != {"velocity", "vorticity"} or any(
            raises_only(x) for x in f.values()):
        return
    for mode in ("absent", "present"):
        v, ip = value(prog, chk, name + "_velocity",
                      **{mode: compiled.MODULES})
        z, jp = value(prog, chk, name + "_vorticity",
                      **{mode: compiled.MODULES})
        if mode == "present" and not any(
                q.rsplit(".", 1)[0] in compiled.MODULES for q in jp.visited):
            continue
        tag = name + (":compiled" if mode == "present" else "")
        base = dict(STORM)
        # the wind at the radius of maximum wind as the profile has it
        at = dict(base, R=base["RM"] * 1.0001, VX=40.)
        vx = evaluate(v, {P(k): x for k, x in at.items()})
        if vx is None:
            chk.unsure("vorticity", tag, show(v, 4))
            continue
        base["VX"] = abs(vx)
        bad, und = None, False
        for R in (12000., 24000., 45000., 90000.):
            g = lambda t, r: evaluate(t, {P(k): x for k, x in dict(
                base, R=r).items()})
            h = 10.
            a, b, c, d = g(v, R - h), g(v, R + h), g(v, R), g(z, R)
            if None in (a, b, c, d):
                und = True
                continue
            w = c / R + (b - a) / (2 * h)
            if abs(w - d) > 0.3 * (abs(c / R) + abs(w)):
                bad = "at %g m the wind %g m/s has the vorticity %g 1/s, " \
                    "the profile gives %g" % (R, c, w, d)
                break
        chk.decide("vorticity", tag, False if bad else None if und else True,
                   bad or show(z, 4), f["vorticity"].loc)


def field(prog, chk, name, f):
    t, ip = value(prog, chk, name + "_field")
    for v in ("V", "Z"):
        t = assume(t, is_(P(v), NONE), False)
    ts = tuple_items(t, 2)
    if ts is None:
        chk.unsure("angle", name, show(t, 3))
        return
    inv = power(SCALE, NEG1)
    inv2 = mul(inv, inv)
    lengths = {P("R"): mul(SCALE, P("R")), P("RM"): mul(SCALE, P("RM"))}
    factor_ = ONE
    if "epert" in name:
        # the eddy diffusivity is a constant: time goes with length squared
        for v in ("V", "vFm", "VX"):
            lengths[P(v)] = mul(inv, P(v))
        for v in ("F", "Z"):
            lengths[P(v)] = mul(inv2, P(v))
        factor_ = inv
    for lab, x in zip(("east", "north"), ts):
        turn = scale(mul(P("thetaMax"), PI), Fraction(1, 180))
        shifted = subst(x, {P("thetaFm"): add(P("thetaFm"), turn),
                            P("thetaMax"): ZERO})
        if mentions(x, P("thetaMax")):
            r = equal(shifted, x)
        else:
            r = None if opaque_in(x) else True
        chk.decide("angle", "%s:%s" % (name, lab), r,
                   "an angle of maximum wind of thetaMax degrees does not "
                   "turn the asymmetry by thetaMax degrees: %s" % show(x, 6),
                   f.loc)
        chk.decide("length", "%s:%s" % (name, lab),
                   storms(subst(x, lengths), mul(factor_, x)),
                   "the wind changes with the unit of length: %s" %
                   show(x, 6), f.loc)


def published(name, d):
    dp = d["eP"] - d["cP"]
    if name == "WilloughbyWindSpeed":
        return 0.6252 * math.sqrt(dp)
    if name == "HollandWindSpeed":
        return math.sqrt(d["beta"] * dp / (math.e * 1.15))
    if name == "AtkinsonWindSpeed":
        return 3.04 * math.pow(1010. - d["cP"] / 100., 0.644)
    return None


def negative_root(t, m):
    """is a fractional power of a negative number taken"""
    x = subst(t, {k: num(Fraction(v)) for k, v in m.items()})
    for y in walk(x):
        if y.op == "mul":
            for b, e in zip(y.args[::2], y.args[1::2]):
                if isnum(b) and isnum(e) and b.val < 0 and \
                        e.val.denominator > 1:
                    return True
    return False


def formulas(prog, chk, speeds, profs):
    pts = [{"eP": 101000., "cP": 95000., "rMax": 30000., "beta": 1.5},
           {"eP": 100800., "cP": 98200., "rMax": 40000., "beta": 1.2},
           {"eP": 101200., "cP": 100600., "rMax": 40000., "beta": 1.2}]
    for s in speeds:
        if published(s, pts[0]) is None:
            chk.unsure("formula", s, "no published relation known")
            continue
        t, ip = value(prog, chk, "speed_" + s)
        loc = prog.lookup("wind.windmodels." + s, "maximum")[1].loc
        for lab, unit in (("Pa", 1.), ("hPa", 100.)):
            bad, und = None, False
            for d in pts:
                m = {P(k): v / unit if k in ("eP", "cP") else v
                     for k, v in d.items()}
                v = evaluate(t, m)
                w = published(s, d)
                if v is None and not free(t, m) and negative_root(t, m):
                    v = float("nan")
                if v is None:
                    und = True
                elif not near(v, w, 1e-4):
                    bad = "for %s the maximum wind is %g m/s, expected %g" % (
                        ", ".join("%s=%g" % (k.val[1], x) for k, x in
                                  m.items()), v, w)
            chk.decide("formula", "%s:%s" % (s, lab), False if bad else
                       None if und else True, bad or show(t, 4), loc)
    pts = [{"lat": -15., "lon": 150., "eP": 101000., "cP": 95000.,
            "rMax": 30000.}, {"lat": 25., "lon": 150., "eP": 100800.,
                              "cP": 97000., "rMax": 60000.},
           {"lat": 12., "lon": 150., "eP": 100800., "cP": 97000.,
            "rMax": 120000.}]

    def beta(name, d):
        dp = d["eP"] - d["cP"]
        if name.startswith("Powell"):
            b = 1.881093 - 0.010917 * abs(d["lat"]) - 0.005567 * \
                d["rMax"] / 1852.
            return min(max(b, 0.8), 2.2)
        b = 1.0036 + 0.0173 * 0.6252 * math.sqrt(dp) - \
            0.0313 * math.log(d["rMax"] / 1000.) + 0.0087 * abs(d["lat"])
        return b
    for name in ("PowellWindProfile", "WilloughbyWindProfile"):
        if "wind.windmodels." + name not in profs:
            chk.unsure("formula", name, "class not found")
            continue
        t, ip = value(prog, chk, name + "_beta")
        points(chk, name + ".beta", t, pts, lambda d: beta(name, d),
               prog.lookup("wind.windmodels." + name, "__init__")[1].loc)
    # the pressure profile takes the radius in km
    t, ip = value(prog, chk, "prs_powell")
    h, _ = value(prog, chk, "prs_holland")
    qs = [{"R": 50., "pEnv": 101000., "pCentre": 95000., "rMax": 30.,
           "lat": -15., "cLon": 150., "beta": 1.3},
          {"R": 80., "pEnv": 101000., "pCentre": 96000., "rMax": 60.,
           "lat": 22., "cLon": 150., "beta": 1.3}]

    def want(d):
        b = beta("Powell", {"lat": d["lat"], "rMax": d["rMax"] * 1000.,
                            "eP": 1., "cP": 0.})
        return d["pCentre"] + (d["pEnv"] - d["pCentre"]) * math.exp(
            -(d["rMax"] / d["R"]) ** b)
    e = prog.lookup(PRS, "powell")
    points(chk, "PrsProfile.powell", t, qs, want, e[1].loc)
    points(chk, "PrsProfile.holland", h, qs, lambda d: d["pCentre"] + (
        d["pEnv"] - d["pCentre"]) * math.exp(-(d["rMax"] / d["R"]) **
                                             d["beta"]),
           prog.lookup(PRS, "holland")[1].loc)


def points(chk, tag, t, pts, want, loc, rule="formula", tol=1e-5):
    und = False
    for d in pts:
        v = evaluate(t, {P(k): x for k, x in d.items()})
        w = want(d)
        if v is None:
            und = True
        elif not near(v, w, tol):
            chk.violation(rule, tag, "for %s the value is %g, expected %g" % (
                ", ".join("%s=%g" % kv for kv in d.items()), v, w), loc)
            return
    if und:
        chk.unsure(rule, tag, show(t, 5))
    else:
        chk.ok(rule, tag, show(t, 4))


def geometry(prog, chk):
    from .c13 import canon
    t, ip = value(prog, chk, "coriolis")
    points(chk, "coriolis", t, [{"lat": -20.}, {"lat": 35.}],
           lambda d: 2 * 2 * math.pi / 86400. * math.sin(math.radians(
               d["lat"])), prog.funcs["Utilities.metutils.coriolis"].loc,
           "angle", 5e-3)
    base = {"cLon": 150., "lat": -20.}
    t, ip = value(prog, chk, "distance")
    t = canon(t)
    km = 6371. * math.radians(1.)
    f = prog.funcs["Utilities.maputils.gridLatLonDist"].loc
    at = lambda lo, la: dict(base, lonArray=lo, latArray=la)
    single(chk, "gridLatLonDist:north", t, at(150., -19.), km, f, 5e-3)
    single(chk, "gridLatLonDist:east", t, at(151., -20.), km * math.cos(
        math.radians(20.)), f, 5e-3)
    t, ip = value(prog, chk, "bearing")
    t = canon(t)
    f = prog.funcs["Utilities.maputils.gridLatLonBear"].loc
    single(chk, "gridLatLonBear:north", t, at(150., -19.), 0., f, 5e-3, True)
    single(chk, "gridLatLonBear:east", t, at(151., -20.), math.pi / 2, f,
           5e-3, True)
    makegrid(prog, chk)
    t, ip = value(prog, chk, "onwards")
    ts = tuple_items(t, 2)
    f = prog.funcs["Utilities.maputils.bear2LatLon"].loc
    if ts is None:
        chk.unsure("distance", "bear2LatLon", show(t, 3))
        return
    for lab, th, lo, la in (("north", 0., 150., 1.), ("east", 90., 151., 0.)):
        d = {"theta": th, "dist": km, "oLon": 150., "oLat": 0.}
        single(chk, "bear2LatLon:%s:longitude" % lab, ts[0], d, lo, f, 5e-3)
        single(chk, "bear2LatLon:%s:latitude" % lab, ts[1], d, la, f, 1e-2)


def makegrid(prog, chk):
    d, b = ("Utilities.maputils.gridLatLonDist",
            "Utilities.maputils.gridLatLonBear")
    ip = analyse(prog, chk, GRID, opaque=[d, b], absent=compiled.MODULES)
    ts = tuple_items(ip.result, 2)
    f = prog.funcs[GRID].loc
    if ts is None:
        chk.unsure("distance", "makeGrid", show(ip.result, 3))
        return
    for i, q, want in ((0, d, lambda x: x),
                       (1, b, lambda x: math.pi / 2 - x)):
        cs = {x for x in walk(ts[i]) if x.op == "call" and
              x.args[0].op == "func" and x.args[0].val == q}
        tag = "makeGrid:" + ("distance", "direction")[i]
        bad, und = None, not cs
        for x in (1.5, 3.):
            v = evaluate(ts[i], {c: x for c in cs})
            if v is None:
                und = True
            elif not near(v, want(x)):
                bad = "for a %s of %g makeGrid gives %g" % (
                    q.split(".")[-1], x, v)
        chk.decide("distance", tag, False if bad else None if und else True,
                   bad or show(ts[i], 4), f)


def single(chk, tag, t, d, want, loc, tol, circle=False):
    m = {P(k): v for k, v in d.items()}
    v = evaluate(t, m)
    if v is None:
        chk.unsure("distance", tag, show(t, 4))
        return
    x = v - want
    if circle:
        x = math.remainder(x, 2 * math.pi)
    chk.decide("distance", tag, abs(x) <= tol * max(1., abs(want)),
               "for %s the value is %g, expected %g" % (
                   ", ".join("%s=%g" % kv for kv in d.items()), v, want), loc)


# ------------------------------------------------------------ tracks and files
def step(prog, chk):
    """distance travelled in a step of a simulated track"""
    from .tracks import Generation
    q = "Utilities.maputils.bear2LatLon"
    es = []
    ip = analyse(prog, chk, "TrackGenerator.TrackGenerator.run", opaque=[q])
    es = [e for e in calls_to(ip, q)]
    chk.need(es, "displacement of simulated tracks")
    names = [a.arg for a in prog.funcs[q].node.args.args]
    seen = 0
    for e in es:
        args = positional(e)
        d = e.kw.get(names[1], args[1] if len(args) > 1 else None)
        if d is None:
            continue
        ts = [x for x in walk(d) if (cfg_of(x) or ("", ""))[1].lower() ==
              "timestep"]
        ts = sorted(set(ts), key=lambda x: x.val if isinstance(
            x.val, str) else "")
        if not ts or opaque_in(d) and not ts:
            continue
        seen += 1
        # km = km/h x h: proportional to the step, without a factor
        r = None
        fac, parts = TM.split_mul(d)
        if parts.get(ts[0]) is ONE:
            r = fac == 1 and len(parts) == 2 and all(
                x is ONE for x in parts.values())
            if not r and fac == 1:
                r = None
        chk.decide("distance", "%s:step" % e.func.qual.split(".")[-1], r,
                   "the distance travelled in a step is %s" % show(d, 4),
                   e.where)
    if not seen:
        chk.unsure("distance", "step", "distance per step not recognised")


def inputs(prog, chk):
    for root in ("Utilities.loadData.loadTrackFile",
                 "DataProcess.DataProcess.DataProcess.processData"):
        ip = analyse(prog, chk, root, opaque=[CONVERT])
        short = root.split(".")[-1]
        got = {}
        for e in calls_to(ip, CONVERT):
            v = e.kw.get("value", e.args[0] if e.args else None)
            c = source_column(v)
            if c is None:
                continue
            chk.count("input conversions")
            i = e.kw.get("inunits", e.args[1] if len(e.args) > 1 else None)
            o = e.kw.get("outunits", e.args[2] if len(e.args) > 2 else None)
            opt, unit = INPUT[c]
            got[c] = True
            ok = isstr(o) and strval(o) == unit
            bad = isstr(o) and strval(o) != unit
            chk.decide("input", "%s:%s:to" % (short, c), True if ok else
                       False if bad else None,
                       "%s is converted to %s, expected %s" % (
                           c, show(o, 3), unit), e.where)
            name = strval(i.args[1]) if i.op == "cfg" and len(i.args) > 1 \
                and isstr(i.args[1]) else None
            r = None
            if name is not None:
                r = name.lower() == opt.lower()
            elif isstr(i):
                r = False
            chk.decide("input", "%s:%s:from" % (short, c), r,
                       "%s is converted from the unit %s, expected the %s of "
                       "its source" % (c, show(i, 3), opt), e.where)
            inner = [x for x in walk(v) if x.op == "call" and
                     x.args[0].op == "func" and x.args[0].val == CONVERT and
                     source_column(x) == c]
            chk.decide("input", "%s:%s:once" % (short, c), not inner,
                       "%s is converted twice: %s" % (c, show(v, 5)), e.where)
        reads_ = {strval(a) for e in ip.trace for t in list(e.args) +
                  [e.term] if t is not None for x in walk(t)
                  if x.op == "idx" for a in x.args[1:] if isstr(a)}
        for c in INPUT:
            if c in got:
                continue
            if c in reads_:
                chk.violation("input", "%s:%s" % (short, c), "%s is used "
                              "without conversion from the unit of its "
                              "source" % c, prog.funcs[root].loc)
            elif c not in ("penv", "poci"):
                chk.unsure("input", "%s:%s" % (short, c), "not read")


def climate(prog, chk):
    """mean sea level pressure: from the unit recorded with it to hPa"""
    for q, kept in (("Utilities.loadData.ltmPressure", None),
                    ("TrackGenerator.TrackGenerator.SamplePressure.__init__",
                     "data")):
        chk.need(q in prog.funcs, q)
        ip = analyse(prog, chk, q, opaque=[CONVERT])
        con = ".".join(q.split(".")[-2:])
        out = [ip.result] if kept is None else [
            ip.final.boxes[b] for (o, a), b in ip.final.heap.items()
            if a == kept]
        if not out or out[0] is None:
            chk.unsure("climate", con, "no value found")
            continue
        def grid(t):
            return t.op == "data" and len(t.args) == 1
        def conv(t):
            return t.op == "call" and t.args[0].op == "func" and \
                t.args[0].val == CONVERT
        cs = [x for x in walk(out[0]) if conv(x)]
        if not cs:
            t = out[0]
            while t.op == "call" and len(t.args) > 1:
                t = t.args[1]
            g = grid(t)
            chk.decide("climate", con, False if g else None,
                       "the pressure is not converted from the unit "
                       "recorded with it", prog.where(q))
            continue
        for x in cs:
            a = {k.val: k.args[0] for k in x.args[1:] if k.op == "kw"}
            v, i, o = a.get("value"), a.get("inunits"), a.get("outunits")
            if v is None or i is None or o is None:
                chk.unsure("climate", con, show(x, 4))
                continue
            g = [y for y in walk(v) if grid(y)]
            chk.decide("climate", con + ":once", not contains(v, conv),
                       "the pressure is converted twice", prog.where(q))
            chk.decide("climate", con + ":to", True if isstr(o) and
                       strval(o) == "hPa" else False if isstr(o) else None,
                       "the pressure is converted to %s" % show(o, 3),
                       prog.where(q))
            r = None
            if isstr(i):
                r = False
            elif i.op == "attr" and i.val == "units" and g:
                r = i.args[0] is g[0].args[0] or (
                    None if opaque_in(i) else False)
            chk.decide("climate", con + ":from", r, "the pressure is "
                       "converted from %s, not from the unit recorded with "
                       "it" % show(i, 4), prog.where(q))


def source_column(t):
    """the input column a value is taken from"""
    if t is None:
        return None
    out = set()

    def go(x, depth=0):
        if x.op == "phi":
            go(x.args[1], depth)
            go(x.args[2], depth)
            return
        if x.op == "idx":
            for a in x.args[1:]:
                if isstr(a) and strval(a) in INPUT:
                    out.add(strval(a))
                    return
            go(x.args[0], depth + 1)
            return
        if x.op in ("store", "masked"):
            go(x.args[0], depth + 1)
            return
        if x.op in ("call", "mcall") and len(x.args) > 1 and depth < 12:
            go(x.args[1] if x.op == "call" else x.args[0], depth + 1)
            return
        if x.op in ("mul", "add"):
            for a in x.args:
                go(a, depth + 1)
    go(t)
    return out.pop() if len(out) == 1 else None


def outputs(prog, chk):
    save = "Utilities.nctools.ncSaveGrid"
    for root, opaque in (("wind.run", [save, LOCAL]),
                         ("hazard.run", [save])):
        ip = analyse(prog, chk, root, opaque=opaque)
        for e in calls_to(ip, save):
            v = e.kw.get("variables", e.args[2] if len(e.args) > 2 else None)
            d = grid_vars(v) if v is not None else None
            if d is None:
                chk.unsure("output", root, "variables not recognised")
                continue
            for y in d:
                if not isstr(y["name"]) or strval(y["name"]) not in UNITS:
                    continue
                n = strval(y["name"])
                at = dict_items(y.get("atts", NONE)) or {}
                u = at.get("units")
                chk.decide("output", "%s:%s" % (root.split(".")[0], n),
                           None if u is None or not isstr(u) else
                           strval(u) in UNITS[n], "%s is stored with the "
                           "unit %s, its values are in %s" % (
                               n, show(u, 2) if u is not None else "none",
                               UNITS[n][0]), e.where)
