"""C13: compiled and interpreted calculations agree."""
import ast
from sa.util import *
from . import compiled

DRIVER = '''
from wind import windmodels as W
from Utilities import maputils as M
from PressureInterface import pressureProfile as P


def HollandVelocity(lat, lon, eP, cP, rMax, beta, R):
    return (W.HollandWindProfile(lat, lon, eP, cP, rMax, beta).velocity(R),)


def HollandVorticity(lat, lon, eP, cP, rMax, beta, R):
    return (W.HollandWindProfile(lat, lon, eP, cP, rMax, beta).vorticity(R),)


def PowellVelocity(lat, lon, eP, cP, rMax, R):
    return (W.PowellWindProfile(lat, lon, eP, cP, rMax).velocity(R),)


def PowellVorticity(lat, lon, eP, cP, rMax, R):
    return (W.PowellWindProfile(lat, lon, eP, cP, rMax).vorticity(R),)


def WilloughbyVelocity(lat, lon, eP, cP, rMax, R):
    return (W.WilloughbyWindProfile(lat, lon, eP, cP, rMax).velocity(R),)


def WilloughbyVorticity(lat, lon, eP, cP, rMax, R):
    return (W.WilloughbyWindProfile(lat, lon, eP, cP, rMax).vorticity(R),)


def KepertHolland(lat, lon, eP, cP, rMax, beta, R, lam, vFm, thetaFm,
                  thetaMax):
    p = W.HollandWindProfile(lat, lon, eP, cP, rMax, beta)
    return W.KepertWindField(p).field(R, lam, vFm, thetaFm, thetaMax)


def KepertPowell(lat, lon, eP, cP, rMax, R, lam, vFm, thetaFm, thetaMax):
    p = W.PowellWindProfile(lat, lon, eP, cP, rMax)
    return W.KepertWindField(p).field(R, lam, vFm, thetaFm, thetaMax)


def KepertWilloughby(lat, lon, eP, cP, rMax, R, lam, vFm, thetaFm, thetaMax):
    p = W.WilloughbyWindProfile(lat, lon, eP, cP, rMax)
    return W.KepertWindField(p).field(R, lam, vFm, thetaFm, thetaMax)


def Pressure(R, pEnv, pCentre, rMax, cLat, cLon, beta):
    p = P.PrsProfile(R, pEnv, pCentre, rMax, cLat, cLon, beta)
    return (p.holland(),)


def PressureBeta(R, pEnv, pCentre, rMax, cLat, cLon, beta, b2):
    p = P.PrsProfile(R, pEnv, pCentre, rMax, cLat, cLon, beta)
    return (p.holland(b2),)


def Grid(cLon, cLat, margin, resolution, minLon, maxLon, minLat, maxLat):
    return M.makeGrid(cLon, cLat, margin, resolution, minLon, maxLon, minLat,
                      maxLat)
'''
OUT = {"Grid": ("distance", "bearing"), "Kepert": ("east", "north")}


def check(prog, chk):
    chk.rule("agree", "with the compiled module absent and present the same "
             "value is computed at every point")
    chk.rule("sign", "the sign of the Coriolis parameter is applied in the "
             "same way: sign(a, f) is |a| with the sign of f, not a*sgn(f)")
    chk.rule("sites", "every calculation that chooses between a compiled and "
             "an interpreted version is compared")
    rs = compiled.load(prog)
    for name, (f, r) in sorted(rs.items()):
        chk.count("compiled routines")
        if r.failed:
            chk.unsure("agree", name, "not translated: " + r.failed)
        else:
            chk.count("compiled statements", r.statements)
    prog.add_source("_c13", DRIVER, "checks/c13.py")
    seen = set()
    for n in ast.parse(DRIVER).body:
        if isinstance(n, ast.FunctionDef):
            seen |= compare(prog, chk, n.name)
    for name, (f, r) in sorted(rs.items()):
        if signs(prog, f, r):
            chk.violation("sign", name, "the compiled routine uses sign(a, f)"
                          " on a computed value, the interpreted one "
                          "sgn(f)*a: they differ where a < 0 and at f = 0",
                          "%s:%d" % (f, r.line))
        else:
            chk.ok("sign", name)
    sites(prog, chk, seen)


def signs(prog, f, r):
    """does the routine apply the Fortran sign transfer?"""
    return any("_fsign(" in line for d, line in r.out)


def compare(prog, chk, name):
    res = {}
    seen = set()
    for mode in ("absent", "present"):
        ip = analyse(prog, chk, "_c13." + name, **{mode: compiled.MODULES})
        seen |= ip.visited
        res[mode] = tuple_items(ip.result)
    a, b = res["absent"], res["present"]
    labels = ("value",)
    for k, v in OUT.items():
        if name.startswith(k):
            labels = v
    if a is None or b is None or len(a) != len(labels) or \
            len(b) != len(labels):
        chk.unsure("agree", name, "result is not the expected tuple")
        return seen
    for lab, x, y in zip(labels, a, b):
        x, y = canon(x), canon(y)
        ok = None if uninit(x) or uninit(y) else equal(x, y)
        chk.decide("agree", name + ":" + lab, ok,
                   "interpreted: %s; compiled: %s" % (show(x, 5),
                                                      show(y, 5)))
        chk.count("terms compared", len(set(walk(x)) | set(walk(y))))
    return seen


def uninit(t):
    return contains(t, lambda x: x.op == "sym" and "uninit" in str(x.val)
                    or x.op in ("store",))


def canon(t):
    """element-wise reading of meshgrid; a positive floor on a distance is
    the same as replacing zero"""
    def step(x):
        if x.op == "idx" and len(x.args) == 2 and isnum(x.args[1]) and \
                x.args[0].op == "call" and x.args[0].args[0].op == "ext" and \
                x.args[0].args[0].val == "numpy.meshgrid" and \
                len(x.args[0].args) == 3 and x.args[1].val in (0, 1):
            return x.args[0].args[1 + int(x.args[1].val)]
        if x.op == "max" and len(x.args) == 2:
            tiny = [a for a in x.args if isnum(a) and 0 < a.val < 1e-20]
            if tiny:
                d = [a for a in x.args if a is not tiny[0]][0]
                return phi(eq(d, ZERO), tiny[0], d)
        return x
    return rewrite(t, step)


def sites(prog, chk, seen):
    """functions with a guarded import of a compiled module"""
    for q, f in sorted(prog.funcs.items()):
        if f.module.name in compiled.MODULES or f.module.name == "_c13":
            continue
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Try):
                continue
            for s in n.body:
                if isinstance(s, ast.ImportFrom):
                    base = type(prog)._relative(f.module, s)
                    if base in compiled.MODULES:
                        if q in seen:
                            chk.ok("sites", q)
                        else:
                            chk.unsure("sites", q, "choice not compared")
