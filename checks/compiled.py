"""Compiled routines of the repository, translated for the value-flow
builder, and the drivers that exercise the wind models symbolically."""
import os
from sa import fortran
from sa import sample
from sa.report import AnchorLost

sample.RANGES.update(
    lat=(-35., 35.), lon=(100., 160.), eP=(100500., 101500.),
    cP=(91000., 99500.), rMax=(1e4, 6e4), R=(1e4, 1.2e5), beta=(1., 2.),
    beta1=(1., 2.), beta2=(1., 2.), rMax2=(8e4, 2e5), rGale=(1e5, 2e5),
    vFm=(1., 12.), lam=(-3., 3.), thetaFm=(-3., 3.), thetaMax=(-3., 3.),
    V=(-60., 60.), Z=(-1e-3, 1e-3))

SOURCES = (("wind._windmodels", "wind/windmodels.f90"),
           ("Utilities._maputils", "Utilities/maputils.f90"),
           ("PressureInterface._pressureProfile",
            "PressureInterface/pressureProfile.f90"))
MODULES = tuple(m for m, _ in SOURCES)


def load(prog, exact=False):
    """add the translated modules; {routine: (file, Routine)}"""
    out = {}
    for mod, f in SOURCES:
        p = os.path.join(prog.root, f)
        if not os.path.exists(p):
            raise AnchorLost("compiled source " + f)
        with open(p, encoding="utf-8", errors="replace") as h:
            text, rs = fortran.module(h.read(), exact)
        prog.add_source(mod, text, f)
        for r in rs.values():
            out[r.name] = (f, r)
    return out


def profiles(prog):
    """concrete wind profile classes: {class: constructor parameters}"""
    out = {}
    for q in prog.subclasses("wind.windmodels.WindProfileModel"):
        e = prog.lookup(q, "__init__")
        out[q] = [a.arg for a in e[1].node.args.args[1:]]
    return out


def fields(prog):
    return prog.subclasses("wind.windmodels.WindFieldModel")
