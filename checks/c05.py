"""C05: stages run only when enabled, in dependency order, separated by
barriers."""
from sa.util import *

# stage, switch, functions that do the stage's work
STAGES = [
    ("download", "DownloadData", ["Utilities.datasets.loadDatasets",
                                  "DataSet.download", "loadDatasets"]),
    ("process", "DataProcess",
     ["DataProcess.DataProcess.DataProcess.processData"]),
    ("calibrate", "ExecuteStat",
     ["StatInterface.StatInterface.StatInterface." + m for m in
      ("kdeGenesisDate", "kdeOrigin", "cdfCellBearing", "cdfCellSpeed",
       "cdfCellPressure", "calcCellStatistics")]),
    ("tracks", "ExecuteTrackGenerator", ["TrackGenerator.TrackGenerator.run"]),
    ("wind", "ExecuteWindfield", ["wind.run"]),
    ("hazard", "ExecuteHazard", ["hazard.run"]),
    ("plotdata", "PlotData", ["PlotInterface.plotStats.PlotPressure.plotPressure",
                              "PlotInterface.plotStats.PlotSpeed.plotSpeed"]),
    ("database", "CreateDatabase", ["database.run"]),
    ("evaluate", "ExecuteEvaluate", ["Evaluate.run", "Evaluate.evaluate.run"]),
    ("plothazard", "PlotHazard",
     ["PlotInterface.AutoPlotHazard.AutoPlotHazard.plotMap",
      "PlotInterface.AutoPlotHazard.AutoPlotHazard.plotCurves"]),
]
# stages whose results another stage reads
BEFORE = [("download", "process"), ("process", "calibrate"),
          ("calibrate", "tracks"), ("tracks", "wind"), ("wind", "hazard"),
          ("process", "plotdata"), ("hazard", "database"),
          ("wind", "database"), ("tracks", "database"),
          ("tracks", "evaluate"), ("process", "evaluate"),
          ("hazard", "plothazard"), ("database", "plothazard")]


# stages whose work is shared between the processes
SHARED = ("tracks", "wind", "hazard", "database", "evaluate")


def check(prog, chk):
    chk.rule("processes", "the work of a stage that the processes share is "
             "reached by every process")
    chk.rule("gate", "a stage's work is reached exactly when its own switch "
             "in the Actions section is on")
    chk.rule("once", "a stage's work is called at one place, outside loops")
    chk.rule("order", "a stage follows the stages whose results it reads")
    chk.rule("barrier", "between the work of two stages lies a barrier that "
             "every process reaches unconditionally")
    chk.rule("config", "a stage is given the configuration file of the run")
    opaque = set()
    for _, _, fs in STAGES:
        opaque.update(f for f in fs if f in prog.funcs)
    opaque |= {"PlotInterface.plotStats." + c for c in ()}
    ip = analyse(prog, chk, "tcrm.main", opaque=opaque, maxdepth=8,
                 noinline_prefix=("PlotInterface.", "DataProcess.CalcTrack",
                                  "Utilities.files.flLoad"))
    events = []           # (kind, stage, effect)
    for e in ip.trace:
        if e.kind in ("call", "mcall"):
            if barrier(e):
                events.append(("barrier", None, e))
                continue
            s = stage_of(e)
            if s:
                events.append(("work", s, e))
            elif e.kind == "call" and e.fn.op == "ext" and \
                    e.fn.val in ("os.makedirs", "os.mkdir") and \
                    not any(k[1] not in (None, "dirs") for k in events):
                events.append(("work", "dirs", e))
    seen = {}
    for kind, s, e in events:
        if kind == "work":
            seen.setdefault(s, []).append(e)
    chk.count("stage_calls", sum(len(v) for v in seen.values()))
    chk.count("barriers", sum(1 for k in events if k[0] == "barrier"))
    main = prog.funcs["tcrm.main"]
    for name, switch, fs in STAGES:
        if name not in seen:
            # the switch must at least not be silently ignored
            chk.violation("gate", name, "no call that performs the stage "
                          "switched by Actions/%s is reached from tcrm.main"
                          % switch, main.loc)
            continue
        for e in seen[name]:
            key = "%s<-%s" % (name, short(e))
            gate(chk, e, name, switch, key)
            if name in SHARED:
                everywhere(chk, e, name, switch, key)
            inloop = [c for c in conjuncts(e.cond()) if c.op == "iter"]
            if name != "download":
                chk.decide("once", key, not e.loops,
                           "called inside a loop" if e.loops else "",
                           e.where)
        byfn = {}
        for e in seen[name]:
            byfn.setdefault(e.fn, []).append(e)
        for f, es in byfn.items():
            if name == "download":
                continue
            both = len(es) > 1
            # several call sites are fine if they exclude each other
            if both:
                both = not all(and_(a.cond(), b.cond()) is FALSE
                               for i, a in enumerate(es)
                               for b in es[i + 1:])
            chk.decide("once", "%s calls" % name, not both,
                       "%d call sites of %s can be reached in one run"
                       % (len(es), show(f)), es[0].where)
    for a, b in BEFORE:
        if a not in seen or b not in seen:
            continue
        la = max(e.seq for e in seen[a])
        fb = min(e.seq for e in seen[b])
        chk.decide("order", "%s<%s" % (a, b), la < fb,
                   "" if la < fb else "%s runs before %s" % (b, a),
                   seen[b][0].where)
    # barriers: between consecutive work of different stages
    last = None
    open_ = True
    for kind, s, e in events:
        if kind == "barrier":
            if uncond(e):
                open_ = True
            continue
        if last is not None and s != last[0]:
            chk.decide("barrier", "%s|%s" % (last[0], s), open_,
                       "" if open_ else "no barrier reached by every process "
                       "between %s and %s" % (last[0], s), e.where)
        last = (s, e)
        open_ = False if s != "x" else open_
    # argument of the stage entry points
    P0 = sym("param", prog.funcs["tcrm.main"].node.args.args[0].arg)
    for name in ("tracks", "wind", "hazard", "database", "evaluate"):
        for e in seen.get(name, []):
            a = e.args[0] if e.args else None
            if a is None:
                a = e.kw.get("configFile") or e.kw.get("config_file")
            if a is None:
                chk.unsure("config", name)
            else:
                chk.decide("config", name, a is P0 if a.op in
                           ("sym", "const", "num") else None,
                           "stage receives %s instead of the configuration "
                           "file of the run" % show(a), e.where)
    event_program(prog, chk)


def short(e):
    return e.fn.val.split(".")[-1] if e.fn.op in ("func", "ext", "cls") \
        else (strval(e.fn) or show(e.fn))


def stage_of(e):
    if e.kind == "mcall":
        return "download" if strval(e.fn) == "download" else None
    if e.fn.op != "func":
        return None
    for name, sw, fs in STAGES:
        if e.fn.val in fs:
            return name
    return None


def barrier(e):
    if e.kind == "call" and e.fn.op == "ext":
        return e.fn.val.startswith("MPI.") and \
            e.fn.val.split(".")[-1].lower() == "barrier"
    return e.kind == "mcall" and strval(e.fn) in ("barrier", "Barrier")


def uncond(e):
    c = strip_iter(e.cond())
    return c is TRUE or not contains(
        c, lambda x: x in (RANK, SIZE) or cfg_of(x))


def everywhere(chk, e, name, switch, key):
    for rank in (1, 2):
        c = strip_iter(at_rank(e.cond(), rank, 3))
        for x in [x for x in walk(c) if cfg_of(x) and
                  cfg_of(x)[0] == "Actions"]:
            c = assume(c, x, cfg_of(x)[1] == switch)
        if c is FALSE:
            chk.violation("processes", key, "process %d of 3 does not take "
                          "part in the stage" % rank, e.where)
            return
    chk.ok("processes", key)


def gate(chk, e, name, switch, key):
    c = strip_iter(at_rank(e.cond(), 0))
    sw = [x for x in walk(c) if cfg_of(x) and cfg_of(x)[0] == "Actions"]
    own = [x for x in sw if cfg_of(x)[1] == switch and x.val == "getboolean"]
    off = c
    on = c
    for x in sw:
        o, s = cfg_of(x), x
        off = assume(off, x, o[1] != switch)
        on = assume(on, x, o[1] == switch)
    # with every other switch off and the own one on the stage runs; with
    # every other one on and the own one off it does not
    if not own:
        rest = [cfg_of(x)[1] for x in sw]
        chk.violation("gate", key, "not controlled by Actions/%s but by %s"
                      % (switch, rest or "nothing"), e.where)
        return
    if off is not FALSE:
        chk.violation("gate", key, "reached although Actions/%s is off "
                      "(condition %s)" % (switch, show(c)), e.where)
        return
    if on is FALSE:
        chk.violation("gate", key, "not reached although Actions/%s is on "
                      "(condition %s)" % (switch, show(c)), e.where)
        return
    rest = [x for x in conjuncts(on) if x is not TRUE]
    rest = [x for x in rest if not contains(
        x, lambda y: y.op == "sym" and isinstance(y.val, tuple) and
        y.val[0] in ("exc", "guard"))]
    if rest and name != "download":
        chk.unsure("gate", key, "further condition " + show(and_(*rest)))
    else:
        chk.ok("gate", key, show(c))


def event_program(prog, chk):
    """tcevent.main: the wind field is always computed, once, before the
    plots that read it; plots only when switched on"""
    if "tcevent.main" not in prog.funcs:
        return
    ip = analyse(prog, chk, "tcevent.main", opaque={"wind.run"}, maxdepth=6,
                 noinline_prefix=("PlotInterface.", "Utilities.loadData",
                                  "Utilities.track", "Utilities.interp",
                                  "Utilities.files"))
    winds = [e for e in ip.trace if e.kind == "call" and
             e.fn.op == "func" and e.fn.val == "wind.run"]
    if not winds:
        chk.violation("gate", "tcevent.wind", "tcevent.main does not compute "
                      "the wind field", prog.funcs["tcevent.main"].loc)
        return
    for e in winds:
        c = strip_iter(e.cond())
        c = and_(*[x for x in conjuncts(c) if cfg_of_in(x)])
        chk.decide("gate", "tcevent.wind", c is TRUE and len(winds) == 1,
                   "condition %s" % show(c), e.where)
    plots = {"tcevent.timeseries": ("Timeseries", "Extract",
                                    "PlotInterface.plotTimeseries"),
             "tcevent.windplot": ("WindfieldInterface", "PlotOutput",
                                  "PlotInterface.")}
    for e in ip.trace:
        if e.kind not in ("call", "new") or e.fn is None or \
                e.fn.op not in ("func", "cls"):
            continue
        v = e.fn.val
        if v.startswith("PlotInterface.plotTimeseries"):
            k = "tcevent.timeseries"
        elif v.startswith("PlotInterface."):
            k = "tcevent.windplot"
        else:
            continue
        sec, opt, _ = plots[k]
        c = strip_iter(e.cond())
        sw = [x for x in walk(c) if cfg_of(x) == (sec, opt)]
        off = c
        for x in sw:
            off = assume(off, x, False)
        chk.decide("gate", "%s<-%s" % (k, v.split(".")[-1]),
                   bool(sw) and off is FALSE,
                   "plotting is not controlled by %s/%s" % (sec, opt),
                   e.where)
        chk.decide("order", "%s<-%s" % (k, v.split(".")[-1]),
                   e.seq > winds[0].seq,
                   "plot made before the wind field is computed", e.where)


def cfg_of_in(x):
    return contains(x, lambda y: y.op == "cfg" and y.val == "getboolean")
