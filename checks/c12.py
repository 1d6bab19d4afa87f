"""C12: wind models mirror between hemispheres."""
from sa.util import *
from . import compiled

P = lambda n: sym("param", n)
LAT = P("lat")
HEAD = '''
from wind import windmodels as W
from Utilities import maputils as M
from PressureInterface import pressureProfile as Q

'''
PROF = '''
def %(name)s_velocity(%(params)s, R):
    return W.%(name)s(%(params)s).velocity(R)


def %(name)s_vorticity(%(params)s, R):
    return W.%(name)s(%(params)s).vorticity(R)

'''
FIELD = '''
def %(name)s_given(lat, lon, eP, cP, rMax, beta, V, Z, R, lam, vFm, thetaFm,
                   thetaMax):
    f = W.%(name)s(W.SchloemerWindProfile(lat, lon, eP, cP, rMax))
    f.V = V
    f.Z = Z
    return f.field(R, lam, vFm, thetaFm, thetaMax)


def %(name)s_whole(lat, lon, eP, cP, rMax, beta, R, lam, vFm, thetaFm,
                   thetaMax):
    f = W.%(name)s(W.HollandWindProfile(lat, lon, eP, cP, rMax, beta))
    return f.field(R, lam, vFm, thetaFm, thetaMax)

'''
GRID = '''
def bearing(cLon, lat, lonArray, latArray):
    return M.gridLatLonBear(cLon, lat, lonArray, latArray)


def distance(cLon, lat, lonArray, latArray):
    return M.gridLatLonDist(cLon, lat, lonArray, latArray)

'''


def check(prog, chk):
    chk.rule("profile", "gradient wind and vorticity change sign with the "
             "latitude at every radius")
    chk.rule("field", "with latitude, wind, vorticity and all angles "
             "reflected the eastward wind is unchanged and the northward "
             "wind changes sign")
    chk.rule("pressure", "the pressure depends on the magnitude of the "
             "latitude only")
    chk.rule("geometry", "distances keep their value and directions reflect")
    rs = compiled.load(prog)
    src = HEAD
    profs = compiled.profiles(prog)
    chk.need(len(profs) >= 6, "wind profile classes")
    opt = {"windSpeedModel"}
    for q, ps in sorted(profs.items()):
        ps = [x for x in ps if x not in opt]
        src += PROF % {"name": q.split(".")[-1], "params": ", ".join(ps)}
    flds = compiled.fields(prog)
    chk.need(len(flds) >= 3, "wind field classes")
    for q in sorted(flds):
        src += FIELD % {"name": q.split(".")[-1]}
    src += GRID
    pq = "PressureInterface.pressureProfile.PrsProfile"
    if pq not in prog.classes:
        raise AnchorLost("class " + pq)
    meths = [n for n, e in prog.classes[pq].ns.items()
             if e[-1][0] == "def" and not n.startswith("_")]
    for m in sorted(meths):
        src += ('def prs_%s(R, pEnv, pCentre, rMax, lat, cLon, beta):\n'
                '    p = Q.PrsProfile(R, pEnv, pCentre, rMax, lat, cLon, '
                'beta)\n    return p.%s()\n\n\n' % (m, m))
    prog.add_source("_c12", src, "checks/c12.py")
    for q in sorted(profs):
        for m in ("velocity", "vorticity"):
            e = prog.lookup(q, m)
            if e is None or e[0] != "def":
                continue
            profile(prog, chk, q.split(".")[-1], m, e[1], q)
    for q in sorted(flds):
        e = prog.lookup(q, "field")
        chk.need(e is not None and e[0] == "def", q + ".field")
        field(prog, chk, q.split(".")[-1], e[1])
    for m in sorted(meths):
        f = prog.funcs.get(pq + "." + m)
        for mode in ("absent", "present"):
            t, ip = value(prog, chk, "prs_" + m, mode)
            if f.qual not in ip.visited or t is NONE:
                continue
            chk.decide("pressure", m + suffix(mode),
                       equal(subst(t, {LAT: neg(LAT)}), t),
                       "the pressure is " + show(t, 5), f.loc)
    mir = {LAT: neg(LAT), P("latArray"): neg(P("latArray"))}
    t, _ = value(prog, chk, "bearing", "absent")
    half = scale(PI, Fraction(1, 2))
    t = mesh(t)
    chk.decide("geometry", "gridLatLonBear",
               equal(sub(half, subst(t, mir)), neg(sub(half, t))),
               "the bearing is " + show(t, 6))
    t, _ = value(prog, chk, "distance", "absent")
    t = mesh(t)
    chk.decide("geometry", "gridLatLonDist", equal(subst(t, mir), t),
               "the distance is " + show(t, 6))


def mesh(t):
    from .c13 import canon
    return canon(t)


def suffix(mode):
    return ":compiled" if mode == "present" else ""


def value(prog, chk, name, mode):
    ip = analyse(prog, chk, "_c12." + name, **{mode: compiled.MODULES})
    return ip.result, ip


def uses_compiled(ip):
    return any(q.split(".f")[0] in compiled.MODULES or
               q.rsplit(".", 1)[0] in compiled.MODULES for q in ip.visited)


def profile(prog, chk, cls, meth, f, q):
    if raises_only(f):
        chk.count("methods not implemented")
        return
    for mode in ("absent", "present"):
        t, ip = value(prog, chk, cls + "_" + meth, mode)
        if mode == "present" and not uses_compiled(ip):
            continue
        chk.count("profile methods")
        for lab, x in regions(t):
            m = subst(x, {LAT: neg(LAT)})
            chk.decide("profile", "%s.%s:%s%s" % (cls, meth, lab,
                                                  suffix(mode)),
                       equal(neg(m), x),
                       "at latitude -lat the %s is not minus its value at "
                       "lat: %s" % (meth, show(x, 5)), f.loc)


def raises_only(f):
    import ast
    body = [s for s in f.node.body if not (
        isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return len(body) == 1 and isinstance(body[0], ast.Raise)


def regions(t):
    """inside and outside the radius of maximum wind"""
    R, RM = P("R"), P("rMax")
    cs = {a for c in phis(t) for a in atoms(c)
          if a.op in ("le0", "lt0") and mentions(a, R) and mentions(a, RM)
          and a in (le(R, RM), lt(R, RM), lt(RM, R), le(RM, R))}
    if not cs:
        return [("all", t)]
    inner = {le(R, RM): True, lt(R, RM): True, lt(RM, R): False,
             le(RM, R): False}
    a, b = t, t
    for c in cs:
        a, b = assume(a, c, inner[c]), assume(b, c, not inner[c])
    return [("core", a), ("outer", b)]


def field(prog, chk, cls, f):
    angles = ("lam", "thetaFm", "thetaMax")
    mir = {LAT: neg(LAT)}
    for a in angles:
        mir[P(a)] = neg(P(a))
    jobs = [("given", "absent")]
    jobs.append(("whole", "present"))
    for kind, mode in jobs:
        t, ip = value(prog, chk, "%s_%s" % (cls, kind), mode)
        if kind == "whole" and not any(
                q.endswith(".fkerpert") or q.rsplit(".", 1)[0] in
                compiled.MODULES and "holland" not in q and "fsign" not in q
                for q in ip.visited):
            continue
        m = dict(mir)
        if kind == "given":
            for v in ("V", "Z"):
                t = assume(t, is_(P(v), NONE), False)
            m[P("V")], m[P("Z")] = neg(P("V")), neg(P("Z"))
        ts = tuple_items(t, 2)
        if ts is None:
            chk.unsure("field", cls + ":" + kind, show(t, 3))
            continue
        for lab, x, s in (("east", ts[0], ONE), ("north", ts[1], NEG1)):
            chk.decide("field", "%s:%s%s" % (cls, lab, suffix(mode)),
                       equal(mul(s, subst(x, m)), x),
                       "reflected, the %sward wind is not %s: %s" % (
                           lab, "unchanged" if s is ONE else "reversed",
                           show(x, 6)), f.loc)
            x = subst(x, {P("vFm"): ZERO})
            chk.decide("field", "%s:%s:stationary%s" % (cls, lab,
                                                        suffix(mode)),
                       equal(mul(s, subst(x, m)), x),
                       "for a cyclone that does not move the %sward wind is "
                       "not %s when reflected: %s" % (
                           lab, "unchanged" if s is ONE else "reversed",
                           show(x, 6)), f.loc)
