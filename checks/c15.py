"""C15: a re-run skips only wind fields that are complete."""
from sa.util import *
from .c17 import written

RUN = "wind.run"
CALC = "wind.WindfieldGenerator.calculateExtremesFromTrack"
OPEN = ("netCDF4.Dataset", "scipy.io.netcdf_file", "h5py.File",
        "xarray.open_dataset", "open", "io.open")
OPENS = ("Dataset", "ncLoadFile", "open", "File", "netcdf_file",
         "open_dataset", "ncFileOpen")
WIDE = ("*", "Exception", "BaseException", "OSError", "IOError",
        "EnvironmentError")


def check(prog, chk):
    chk.rule("crash", "for every state in which an earlier run can have left "
             "the file of a track, the track is computed again unless every "
             "quantity that later stages read had been written")
    chk.rule("name", "the file tested is the file the track is saved to")
    chk.rule("own", "tracks with different identifiers have different files")
    chk.rule("next", "skipping a track does not end the loop over the tracks")
    chk.rule("track", "the track computed is the one whose file was tested")
    chk.need(CALC in prog.funcs, CALC)
    ip = analyse(prog, chk, RUN, opaque=[CALC])
    opens = [e for e in ip.trace if e.kind == "call" and e.fn is not None and
             e.fn.op == "ext" and e.fn.val in OPEN and writing(e)]
    opens = [e for e in opens if mentions_id(name_of(e))]
    chk.need(opens, "creation of the wind field file")
    reads = needed(prog, chk)
    done = 0
    for e in opens:
        F = name_of(e)
        steps = writes(ip, e)
        made = [n for k, n in steps if k == "create"]
        need = [n for n in made if n in reads]
        if "vmax" not in made and not need:
            continue
        done += 1
        tag = e.func.qual.split(".")[-1]
        chk.count("variables written", len(made))
        chk.count("quantities read by later stages", len(need))
        decide(chk, ip, e, F, steps, need)
        which(chk, ip, e, F)
        apart(chk, e, F)
        onward(chk, ip, e)
    chk.need(done, "wind field file with the quantities later stages read")


def writing(e):
    m = e.kw.get("mode", e.args[1] if len(e.args) > 1 else None)
    return m is not None and isstr(m) and any(c in strval(m) for c in "wax")


def name_of(e):
    for n in ("filename", "file", "name"):
        if n in e.kw:
            return e.kw[n]
    return e.args[0] if e.args else NONE


def mentions_id(t):
    return contains(t, lambda x: x.op == "attr" and x.val == "trackId")


def writes(ip, e0):
    """creation and filling of variables of the file, in order"""
    out, names, on = [], {}, False
    h = e0.term
    for e in ip.trace:
        if e is e0:
            on = True
            continue
        if not on or e.stack[:max(0, len(e0.stack) - 1)] != \
                e0.stack[:max(0, len(e0.stack) - 1)]:
            continue
        if e.kind == "mcall" and strval(e.fn) == "createVariable":
            a = [x for x in e.args if x is not None]
            n = e.kw.get("varname", None)
            for x in a:
                if n is None and isstr(x):
                    n = x
            if n is None or not isstr(n):
                continue
            out.append(("create", strval(n)))
            last = strval(n)
            names[e.term] = last
        elif e.kind == "setitem" and out:
            tgt = e.term if e.term is not None else None
            n = None
            for x in ([tgt] if tgt is not None else []) + list(e.args):
                if x is not None and x in names:
                    n = names[x]
            recv = getattr(e, "recv", None)
            if n is None and whole_slice(e):
                n = out[-1][1]
            if n is not None:
                out.append(("fill", n))
        elif e.kind == "mcall" and strval(e.fn) == "close" and \
                not guarded(e, e0):
            out.append(("close", None))
    return out


def whole_slice(e):
    a = [x for x in e.args if x is not None]
    return bool(a) and a[0].op in ("slice", "full", "ellipsis") or \
        bool(a) and show(a[0], 2) == "::"


def guarded(e, e0):
    """is the effect on an error path only"""
    a = set(conjuncts(e.cond()))
    b = set(conjuncts(e0.cond()))
    return bool(a - b)


def needed(prog, chk):
    """names read from netCDF files by the later stages"""
    out = set()
    for root in ("hazard.run", "database.run"):
        chk.need(root in prog.funcs, root)
        ip = analyse(prog, chk, root)
        for e in ip.trace:
            for t in [e.term] + list(e.args) + list(e.kw.values()):
                if t is None:
                    continue
                for x in walk(t):
                    if x.op == "idx" and x.args[0].op == "attr" and \
                            x.args[0].val == "variables":
                        out |= {strval(a) for a in x.args[1:] if isstr(a)}
    chk.need("vmax" in out, "wind speeds read by the later stages")
    return out


def states(steps, need):
    """(label, file state) for all crash points; the state is None when the
    file is absent, 'bad' when it cannot be opened, else the set of variables
    it holds"""
    yield "the file does not exist", None
    yield "the file is empty", ()
    yield "the file cannot be opened", "bad"
    made, full = [], set()
    if all(k != "close" for k, _ in steps):
        steps = steps + [("close", None)]
    for k, n in steps:
        if k == "create":
            made.append(n)
        elif k == "fill":
            full.add(n)
        lack = [x for x in need if x not in full]
        if lack:
            yield ("an earlier run stopped %s %s" % (
                "after creating" if k == "create" else "after writing", n),
                frozenset(made))


def decide(chk, ip, e0, F, steps, need):
    C = strip_iter(e0.cond())
    files = tested(C)
    if not files:
        chk.ok("crash", "no test", "the file is always written")
        return
    moved = [e for e in ip.trace if e.kind == "call" and e.fn is not None and
             e.fn.op == "ext" and e.fn.val in ("os.rename", "os.replace",
                                               "shutil.move")]
    final = F
    atomic = False
    for m in moved:
        if len(m.args) > 1 and equal(m.args[0], F) is True:
            final, atomic = m.args[1], True
    for t in files:
        r = equal(t, final)
        chk.decide("name", "tested file", r, "the file tested is %s, the "
                   "file written %s" % (show(t, 6), show(final, 6)),
                   e0.where)
        if r is not True:
            return
    jobs = list(states(steps, need))
    if atomic:
        jobs = jobs[:3]
    filled = {n for k, n in steps if k == "fill"}
    for n in need:
        if n not in filled:
            chk.unsure("crash", "values of " + n, "no assignment found")
    chk.count("crash points", len(jobs))
    for label, st in jobs:
        r = value(C, final, st)
        why = "%s: the track is skipped when %s" % (show(final, 5), label)
        if r == "uncaught":
            chk.violation("crash", label, "%s: when %s, the error of opening "
                          "it is not caught" % (show(final, 5), label),
                          e0.where)
        else:
            chk.decide("crash", label, r, why, e0.where)


def tested(c):
    """files the condition inspects"""
    out, todo, seen = [], list(conjuncts(c)), set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        f = None
        if x.op == "call" and x.args and x.args[0].op == "ext" and \
                x.args[0].val in ("os.path.isfile", "os.path.exists",
                                  "os.path.getsize", "os.stat",
                                  "os.path.getmtime"):
            f = x.args[1]
        elif x.op == "handle":
            f = handle_file(x)
        if f is not None:
            if f not in out:
                out.append(f)
        elif x.op not in ("path", "fmt", "gen", "eta", "comp", "iter"):
            todo.extend(x.args)
    return out


def handle_file(h):
    for a in h.args:
        if a.op in ("ext", "func"):
            continue
        if a.op == "kw":
            continue
        return a
    return None


def value(C, F, st):
    """value of the condition for a state of the file; 'uncaught' when the
    error of opening the file is not caught"""
    m = {}
    opened = st is not None and st not in ((), "bad")
    caught = None
    for x in walk(C):
        if x.op == "call" and x.args and x.args[0].op == "ext":
            q = x.args[0].val
            if q in ("os.path.isfile", "os.path.exists"):
                m[x] = TRUE if st is not None else FALSE
            elif q == "os.path.getsize":
                m[x] = ZERO if st == () else num(6144)
        elif x.op == "sym" and isinstance(x.val, tuple) and \
                x.val[0] in ("exc", "guard"):
            text = ":".join(str(v) for v in x.val[1:])
            parts = text.split(":")
            calls = parts[-1].split(",") if parts else []
            opening = any(o.split(".")[-1] in OPENS for o in calls)
            if not opening:
                m[x] = FALSE
            elif opened:
                m[x] = FALSE
            else:
                types = parts[-2].split(",") if len(parts) > 1 else ["*"]
                wide = any(t.split(".")[-1] in WIDE for t in types)
                caught = bool(caught) or wide
                m[x] = TRUE if wide else FALSE
    hs = [x for x in walk(C) if x.op == "handle"]
    C = subst(C, m)
    if opened:
        C = rewrite(C, lambda x: member(x, st))
    C = truth(C)
    if C is TRUE:
        return True
    if C is FALSE:
        return False
    if not opened and hs and any(x.op == "handle" for x in walk(C)):
        # decided by the contents of a file that cannot be opened
        return "uncaught" if not caught else None
    return None


def member(x, st):
    if x.op == "cmp" and x.val == "in" and isstr(x.args[0]) and x.args[1].op == "attr" and \
            x.args[1].val == "variables":
        return TRUE if strval(x.args[0]) in st else FALSE
    if x.op == "cmp" and x.val == "in" and isstr(x.args[0]) and contains(
            x.args[1], lambda y: y.op == "attr" and y.val == "variables"):
        return TRUE if strval(x.args[0]) in st else FALSE
    return x


def which(chk, ip, e0, F):
    calls = calls_to(ip, CALC)
    chk.need(calls, "computation of the wind field of a track")
    ids = [x.args[0] for x in walk(F) if x.op == "attr" and
           x.val == "trackId"]
    for e in calls:
        t = e.kw.get("track", e.args[1] if len(e.args) > 1 else None)
        if t is None or not ids:
            chk.unsure("track", "computed track", "not found")
            continue
        t = own(t)
        r = [equal(own(i), t) for i in ids]
        chk.decide("track", "computed track", True if all(
            x is True for x in r) else False if False in r else None,
            "the file belongs to %s, the track computed is %s" % (
                show(ids[0], 5), show(t, 5)), e.where)


IDS = [(1, 2), (2, 1), (1, 12), (11, 2), (1, 1), (2, 2), (12, 1), (0, 0),
       (0, 1), (1, 0), (100, 1), (1000, 1), (1, 10000), (1, 99999)]


def apart(chk, e, F):
    ids = {x for x in walk(F) if x.op == "attr" and x.val == "trackId"}
    names = {}
    for i in IDS:
        v = mk("tuple", num(i[0]), num(i[1]))
        t = rewrite(F, lambda x: v if x in ids else
                    select(*x.args) if x.op == "idx" and len(x.args) == 2 and
                    x.args[0].op == "tuple" else x)
        if t.op == "path":
            t = tuple(written(a) if written(a) is not None else a
                      for a in t.args)
        else:
            t = written(t) if written(t) is not None else t
        names.setdefault(t, []).append(i)
    same = [v for v in names.values() if len(v) > 1]
    parts = list(names)
    clear = all(isinstance(x, str) for x in parts) or \
        all(isinstance(x, tuple) and isinstance(x[-1], str) for x in parts)
    chk.count("track identifiers", len(IDS))
    chk.decide("own", "file name", False if same else True if clear else None,
               "tracks %s share the file %s" % (
                   same[:1], show(F, 5)), e.where)


def onward(chk, ip, e):
    for L in ip.loops:
        if L.uid not in e.loops or L.kind != "for":
            continue
        for b in L.leaves:
            c = truth(strip_iter(b))
            if c is FALSE:
                continue
            if tested(c):
                chk.violation("next", e.func.qual, "the tracks after one for "
                              "which %s are left out" % show(c, 3)[:120],
                              e.where)
            else:
                chk.unsure("next", e.func.qual, show(c, 3)[:120])
            return
        chk.ok("next", e.func.qual + ":" + str(len(e.loops)),
               show(L.domain, 2)[:80])


def own(t):
    """the calculation hands its track back"""
    while t.op == "idx" and t.args[0].op == "call" and \
            t.args[0].args[0].op == "func" and t.args[0].args[0].val == CALC:
        k = [a for a in t.args[0].args[1:] if a.op == "kw" and
             a.val == "track"]
        if not k:
            return t
        t = k[0].args[0]
    return t
