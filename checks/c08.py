"""C08: land and sea statistics are never mixed, nor one quantity's with
another's."""
from .tracks import *
from .records import savename
from sa.kinds import keeps_fractions, Kinds
from sa.pointwise import Range, Val

GS = "StatInterface.generateStats.GenerateStats"
SI = "StatInterface.StatInterface.StatInterface.calcCellStatistics"
LD = "TrackGenerator.trackLandfall.LandfallDecay.onLand"
ROLES = ("mu", "sig", "alpha", "phi", "min")
NAMES = set(ROLES) | {"l" + n for n in ROLES}
# file of coefficients and sample of observations for each stepped quantity
QUANTITY = {"Speed": {"speed_stats.nc": "all_speed"},
            "Bearing": {"bearing_stats.nc": "all_bearing"},
            "CentralPressure": {"pressure_rate_stats.nc": "pressure_rate",
                                "pressure_stats.nc": "all_pressure"},
            "rMax": {"size_rate_stats.nc": "rmax_rate"}}
DRIVER = {"Speed": "speed_stats.nc", "Bearing": "bearing_stats.nc",
          "CentralPressure": "pressure_rate_stats.nc"}


def check(prog, chk):
    chk.rule("step", "every coefficient a step of the track model uses "
             "belongs to the quantity stepped, to the current cell, and to "
             "land exactly when the position is over land")
    chk.rule("role", "alpha weights the previous anomaly, phi the new draw, "
             "sig the anomaly, and mu is the level")
    chk.rule("flag", "the land flag of a step is that of the new position, "
             "and a position is over land where the land mask is positive")
    chk.rule("source", "each set of coefficients is loaded from the file its "
             "own quantity's statistics were saved to")
    chk.rule("calculate", "land coefficients are computed from observations "
             "over land, sea coefficients from observations over sea, each "
             "by its own formula")
    chk.rule("name", "each coefficient is saved and loaded under its name")
    stats = sources(prog, chk)
    steps(prog, chk, stats)
    mask(prog, chk)
    calculate(prog, chk)
    extract(prog, chk)
    files(prog, chk)
    for q in sorted(prog.funcs):
        if q == "StatInterface.generateStats.parameters.__init__":
            keeps_fractions(chk, prog, "name", q,
                            set(Kinds(prog.funcs[q].node).env))


# ------------------------------------------------------------------- files
def objects(prog, chk, q, method):
    """{object: (file, parameter file, angular)} of GenerateStats objects
    saved or loaded by a function"""
    ip = analyse(prog, chk, q, opaque=[GS, GS + ".load", GS + ".save",
                                       GS + ".plotStatistics"])
    f = prog.funcs.get(GS + ".__init__")
    chk.need(f is not None, GS + ".__init__")
    names = [a.arg for a in f.node.args.args][1:]
    made, out = {}, {}
    for e in ip.trace:
        if e.kind == "new" and e.fn.val == GS:
            d = dict(zip(names, e.args))
            d.update(e.kw)
            made[e.term] = (e, d)
        elif e.kind == "call" and e.fn.op == "func" and \
                e.fn.val == GS + "." + method:
            o = e.kw.get("self", e.args[0])
            p = e.kw.get("filename")
            out.setdefault(o, []).append((savename(p) if p is not None
                                          else None, e))
    res = {}
    for o, fs in out.items():
        m = made.get(o)
        res[o] = (fs, m[1] if m else {})
    return ip, res


def sources(prog, chk):
    """{attribute of the generator: file} of the coefficient sets"""
    want = {f: p for d in QUANTITY.values() for f, p in d.items()}
    ip, made = objects(prog, chk, SI, "save")
    n = 0
    for o, (fs, d) in made.items():
        for f, e in fs:
            p = savename(d["parameter"]) if "parameter" in d else None
            pos = savename(d["lonLat"]) if "lonLat" in d else None
            if f is None or p is None:
                chk.unsure("source", "saved:%s" % f, show(e.term, 3))
                continue
            n += 1
            stem = f.replace("_stats.nc", "")
            good = p == want[f] if f in want else \
                p in (stem, "all_" + stem)
            chk.decide("source", "saved:" + f, good, "statistics of %s are "
                       "saved as %s" % (p, f), e.where)
            chk.decide("source", "positions:" + f, pos == "all_lon_lat",
                       "statistics of %s use positions from %s" % (p, pos),
                       e.where)
            a = d.get("angular", FALSE)
            chk.decide("source", "angular:" + f,
                       None if a not in (TRUE, FALSE) else
                       (a is TRUE) == ("bearing" in p), "%s is treated as "
                       "%s" % (p, "angular" if a is TRUE else "linear"),
                       e.where)
    chk.need(n, "saved cell statistics in " + SI)
    q = TG + ".loadCellStatistics"
    ip, made = objects(prog, chk, q, "load")
    out = {}
    for (o, attr), b in ip.final.heap.items():
        v = ip.final.boxes.get(b)
        if o is SELF and v in made:
            fs = made[v][0]
            if len(fs) == 1 and fs[0][0]:
                out[attr] = fs[0][0]
    chk.need(out, "loaded cell statistics in " + q)
    for a, f in sorted(out.items()):
        if f in want:
            chk.ok("source", "loaded:" + f)
    return out


# ------------------------------------------------------------------- steps
def coefficients(t):
    """{term: (statistics, coefficient, cell)} of the coefficients in t"""
    out = {}
    for x in walk(t):
        if x.op == "idx" and len(x.args) == 2 and x.args[0].op == "attr":
            a = x.args[0]
            if a.val in NAMES and a.args[0].op == "attr" and \
                    a.args[0].val == "coeffs" and \
                    a.args[0].args[0].op == "attr" and \
                    a.args[0].args[0].args[0] is SELF:
                out[x] = (a.args[0].args[0].val, a.val, x.args[1])
    return out


def mixed(t):
    """coefficient arrays that are not resolved to one name and cell"""
    known = {x.args[0] for x in coefficients(t)}
    return [x for x in walk(t) if x.op == "attr" and x.val in NAMES and
            x.args[0].op == "attr" and x.args[0].val == "coeffs" and
            x not in known]


def flags(s, terms):
    out = set()
    for t in terms:
        for x in walk(t):
            if x.op in ("mcall", "call") and (
                    x.val == "onLand" or x.op == "call" and
                    x.args[0].op == "func" and x.args[0].val == LD):
                out.add(x)
    return out


def steps(prog, chk, stats):
    s = Step(prog, chk)
    cols = [c for c in QUANTITY if c in s.column]
    for c in QUANTITY:
        if c not in s.column:
            chk.unsure("step", c, "column not found")
    step = {mu: s.step(mu) for mu in s.mus}
    lon, lat = (step[s.column[c]] for c in ("Longitude", "Latitude"))
    fl = flags(s, step.values())
    chk.need(fl, "test whether the cyclone is over land")
    for i, f in enumerate(sorted(fl, key=str)):
        a = f.args[1:3] if f.op == "mcall" else \
            [x.args[0] for x in f.args[1:] if x.op == "kw" and
             x.val != "self"]
        ok = len(a) == 2 and a[0] is lon and a[1] is lat
        chk.decide("flag", "position%d" % (i or 0), ok or (
            False if len(a) == 2 and not any(opaque_in(x) for x in a)
            else None), "the land flag is taken at %s" %
            ", ".join(show(x, 2) for x in a), s.where)
    cell = mk("call", mk("func", val="Utilities.stats.getCellNum"),
              mk("kw", lon, val="lon"), mk("kw", lat, val="lat"),
              mk("kw", mk("attr", SELF, val="gridLimit"), val="gridLimit"),
              mk("kw", mk("attr", SELF, val="gridSpace"), val="gridSpace"))
    own = {m: c for c, m in s.column.items()}
    for c in cols:
        mu = s.column[c]
        side = {}
        for land in (True, False):
            m2 = {f: TRUE if land else FALSE for f in fl}
            at = {m: subst(t, m2) for m, t in step.items()}
            # the values of the other columns are taken as they are
            new = {}
            for m, n in own.items():
                if m is not mu and n not in ("Longitude", "Latitude") and \
                        at[m].op not in ("sym", "num"):
                    new[at[m]] = sym("new", n)
            side[land] = {m: subst(t, new) for m, t in at.items()}
        deps, todo = [], [mu]
        while todo:
            m = todo.pop()
            if m in deps:
                continue
            deps.append(m)
            for o in s.mus:
                if o not in own and any(has(side[x][m], prev(o))
                                        for x in side):
                    todo.append(o)
        for land in (True, False):
            used, open_ = {}, []
            for m in deps:
                used.update(coefficients(side[land][m]))
                open_ += mixed(side[land][m])
            for x in {x for m in deps for x in walk(side[land][m])}:
                stale(chk, s, c, land, x)
            judge(chk, s, c, land, used, open_, cell, stats)
        roles(chk, s, c, mu, side, stats, deps)


def stale(chk, s, c, land, x):
    """coefficients of land or sea chosen by something of an earlier step"""
    if x.op != "phi" or any(y.op != "attr" or y.val not in NAMES
                            for y in x.args[1:]):
        return
    if len({y.val.startswith("l") for y in x.args[1:]}) == 2 and \
            not contains(x.args[0], lambda y: y.op in (
                "opaque", "call", "mcall", "eta", "mu")) and \
            (any(has(x.args[0], prev(m)) for m in s.mus) or
             symbols(x.args[0]) and all(y.val[0] == "k"
                                        for y in symbols(x.args[0]))):
        side = "land" if land else "sea"
        chk.violation("step", "%s:%s:earlier" % (c, side), "over %s it "
                      "depends on something of an earlier step whether %s is "
                      "stepped with %s or with %s" % (
                          side, c, x.args[1].val, x.args[2].val), s.where)


def judge(chk, s, c, land, used, open_, cell, stats):
    side = "land" if land else "sea"
    chk.count("coefficients_used", len(used))
    if open_:
        chk.unsure("step", "%s:%s" % (c, side), "%s not resolved" %
                   show(open_[0], 3))
    seen = set()
    for x, (st, name, i) in sorted(used.items(), key=lambda z: str(z[1])):
        con = "%s:%s:%s.%s" % (c, side, st, name)
        seen.add(con)
        f = stats.get(st)
        if f is None:
            good = st not in stats and c == "rMax"
        else:
            good = f in QUANTITY[c]
        chk.decide("step", con, good, "over %s %s is stepped with %s of %s "
                   "(loaded from %s)" % (side, c, name, st, f), s.where)
        chk.decide("step", con + ":side", name.startswith("l") == land or
                   (f == "pressure_stats.nc" and None),
                   "over %s %s is stepped with %s of %s" % (
                       side, c, name, st), s.where)
        r = True if i is cell else equal(i, cell)
        chk.decide("step", con + ":cell", r, "the cell of %s.%s is %s" % (
            st, name, show(i, 3)), s.where)


def roles(chk, s, c, mu, side_, stats, deps):
    """how the coefficients enter the anomaly and the stepped value"""
    st = [a for a, f in stats.items() if f == DRIVER.get(c)] or \
        (["dsStats"] if c == "rMax" else [])
    if not st:
        chk.unsure("role", c, "no statistics loaded for it")
        return
    chi = None
    for m in deps:
        t = side_[False][m]
        if not has(t, prev(m)) or not any(israndom(x) for x in walk(t)):
            continue
        names = {n for (_, n, _) in coefficients(t).values()}
        if "alpha" in names or "phi" in names:
            if chi is None or len(names) < chi[1]:
                chi = (m, len(names))
    if chi is None:
        chk.unsure("role", c, "no anomaly found")
        return
    chi = chi[0]
    for land in (True, False):
        p = "l" if land else ""
        side = "land" if land else "sea"
        t = strip(side_[land][chi], prev(chi))
        d = [x for x in walk(t) if israndom(x)]
        if len(d) != 1:
            chk.unsure("role", "%s:%s:anomaly" % (c, side), show(t, 4))
            continue
        d = d[0]
        k = {n: x for x, (a, n, _) in coefficients(t).items()}
        zero = subst(t, {prev(chi): ZERO, d: ZERO})
        for what, m, n in (("previous", {prev(chi): ONE, d: ZERO}, "alpha"),
                           ("draw", {prev(chi): ZERO, d: ONE}, "phi")):
            v = sub(subst(t, m), zero)
            w = k.get(p + n)
            if w is None:
                r = False if coefficients(v) else None
            else:
                r = equal(v, w)
            chk.decide("role", "%s:%s:%s" % (c, side, what), r,
                       "the %s anomaly enters %s with weight %s" % (
                           what, c, show(v, 3)), s.where)
        # the values that take the anomaly in
        for m in deps:
            v = strip(subst(side_[land][m], {s.k: num(3)}), prev(chi))
            if m is chi or not has(v, prev(chi)):
                continue
            lab = "%s:%s:value%d" % (c, side, deps.index(m))
            base = {n for (a, n, _) in coefficients(subst(
                v, {prev(chi): ZERO, d: ZERO})).values() if a in st}
            full = {n for (a, n, _) in coefficients(subst(
                v, {d: ZERO})).values() if a in st}
            want = {p + "mu"}
            chk.decide("role", lab + ":level", base == want if full else
                       None, "without an anomaly the value is made of %s"
                       % sorted(base), s.where)
            want = {p + "mu", p + "sig", p + "alpha"}
            chk.decide("role", lab + ":anomaly", full == want if full
                       else None, "the value is made of %s" % sorted(full),
                       s.where)


def strip(t, x):
    """the alternative of t in which x takes part"""
    while t.op == "phi":
        a, b = has(t.args[1], x), has(t.args[2], x)
        if not has(t.args[0], x) and contains(
                t.args[0], lambda y: y.op == "sym" and y.val[0] == "k"):
            break
        if t.args[2] is x:
            t = t.args[1]
        elif t.args[1] is x:
            t = t.args[2]
        elif a and not b:
            t = t.args[1]
        elif b and not a:
            t = t.args[2]
        else:
            break
    return t


def mask(prog, chk):
    chk.need(LD in prog.funcs, LD)
    ip = analyse(prog, chk, LD, opaque=["Utilities.grid.SampleGrid"
                                        ".sampleGrid"])
    a = [x.arg for x in prog.funcs[LD].node.args.args][1:]
    got = [x for x in walk(ip.result) if x.op in ("mcall", "call") and
           (x.val == "sampleGrid" or x.op == "call" and
            str(x.args[0].val).endswith(".sampleGrid"))]
    if len(set(got)) != 1:
        chk.unsure("flag", LD, show(ip.result, 4))
        return
    g = got[0]
    args = list(g.args[1:]) if g.op == "mcall" else \
        [x.args[0] for x in g.args[1:] if x.op == "kw" and x.val != "self"]
    args = [x for x in args if not (x.op == "sym" and x.val[0] == "occ")]
    chk.decide("flag", LD + ":arguments",
               args[:2] == [sym("param", n) for n in a[:2]],
               "the mask is sampled at %s" % ", ".join(
                   show(x) for x in args), prog.where(LD))
    for v, want in ((0, False), (1, True), (5, True)):
        r = Range(lambda t: Val(float(v)) if t is g else None).val(ip.result)
        ok = None if r.lo != r.hi else bool(r.lo) == want
        chk.decide("flag", "%s:mask=%d" % (LD, v), ok,
                   "a mask value of %d gives %s" % (v, bool(r.lo)),
                   prog.where(LD))


# -------------------------------------------------------------- calculation
FORM = {"mu": ("mean", "angle"), "sig": ("std", "abs"),
        "alpha": ("correlate",), "min": ("min",)}


def calculate(prog, chk):
    q = GS + ".calculateStatistics"
    chk.need(q in prog.funcs, q)
    ex = GS + ".extractParameter"
    ip = analyse(prog, chk, q, opaque=[ex])
    init = {}
    for L in ip.loops:
        for lab, (mu, i, n) in L.carried.items():
            init[mu] = i
    got = {}
    for e in ip.trace:
        if e.kind != "setitem":
            continue
        b = e.term
        for _ in range(9):
            if b.op == "store":
                b = b.args[0]
            elif b in init:
                b = init[b]
            else:
                break
        if b.op == "attr" and b.val in NAMES:
            got[b.val] = (e.args[0], e.args[1], e)
    chk.need(got, "assignments of coefficients in " + q)
    for n in sorted(NAMES):
        if n not in got:
            chk.decide("calculate", n, None, "no assignment found")
            continue
        i, v, e = got[n]
        xs = {x for x in walk(v) if x.op == "call" and
              x.args[0].op == "func" and x.args[0].val == ex}
        flags_ = set()
        for x in xs:
            a = {y.val: y.args[0] for y in x.args[1:] if y.op == "kw"}
            flags_.add(a.get("onLand"))
            chk.decide("calculate", n + ":cell",
                       equal(a.get("cellNum", NONE), i),
                       "element %s of %s is computed from cell %s" % (
                           show(i), n, show(a.get("cellNum", NONE))),
                       e.where)
        want = TRUE if n.startswith("l") else FALSE
        chk.decide("calculate", n + ":side", flags_ == {want} if
                   flags_ and flags_ <= {TRUE, FALSE} else None,
                   "%s is computed from the observations over %s" % (
                       n, " and ".join(sorted("land" if f is TRUE else "sea"
                                              for f in flags_
                                              if f in (TRUE, FALSE)))),
                   e.where)
        role = n[1:] if n.startswith("l") else n
        if role == "phi":
            a = got.get(n.replace("phi", "alpha"))
            if a is None:
                continue
            want = power(sub(ONE, power(a[1], num(2))), HALF)
            chk.decide("calculate", n, equal(v, want),
                       "%s is %s" % (n, show(v, 4)), e.where)
            continue
        for ang in (TRUE, FALSE):
            w = subst(v, {x: ang for x in walk(v) if x.op == "attr" and
                          x.val == "angular"})
            ops = {str(x.val).split(".")[-1] for x in walk(w)
                   if x.op in ("ext", "fn")} | \
                  {x.op for x in walk(w)} & {"abs", "min"}
            f = FORM[role][-1 if ang is TRUE else 0] \
                if len(FORM[role]) > 1 else FORM[role][0]
            others = {g for r2, fs in FORM.items() if r2 != role
                      for g in (fs if len(fs) > 1 else fs * 2)[
                          1 if ang is TRUE else 0:][:1]}
            others -= {f}
            ok = True if f in ops and not (ops & others - {"abs"} and
                                           role != "alpha") else \
                False if ops & others and f not in ops else None
            chk.decide("calculate", "%s:%s" % (
                n, "angular" if ang is TRUE else "linear"), ok,
                "%s is %s" % (n, show(w, 4)), e.where)


def extract(prog, chk):
    """which observations a sample is taken from"""
    q = GS + ".extractParameter"
    chk.need(q in prog.funcs, q)
    ip = analyse(prog, chk, q)
    p = sym("param", "onLand")
    me = mk("obj", val=(GS, "self"))
    flag = None
    sets = set()
    terms = [t for _, t in leaves_of(ip.result)]
    for L in ip.loops:
        for mu, i, n in L.carried.values():
            terms += [i, n]
    for t in terms:
        for x in walk(t):
            if x.op == "idx" and x.args[0] is mk("attr", me, val="param"):
                sets.add(x)
    chk.need(sets, "selection of observations in " + q)

    def lsflag(t):
        return t.op == "idx" and t.args[0].op == "attr" and \
            t.args[0].val == "lonLat" and t.args[-1] is num(2)
    for j, x in enumerate(sorted(sets, key=str)):
        for land in (TRUE, FALSE):
            c = subst(x.args[1], {p: land})
            c = c.args[0] if c.op == "nonzero" else c
            if not contains(c, lsflag):
                chk.decide("calculate", "selected%d:%s" % (j, land), False
                           if not opaque_in(c) else None,
                           "observations are selected without regard to "
                           "the land flag", prog.where(q))
                continue
            for v in (0, 1):
                def known(t, v=v):
                    return Val(float(v)) if lsflag(t) else None
                r = truth(c, known)
                wrong = (v == 1) != (land is TRUE)
                ok = (r is False) if wrong else (r is not False)
                if wrong and r is None:
                    ok = False if r is None and independent(c, lsflag) \
                        else None
                chk.decide("calculate", "selected%d:%s:flag=%d" % (
                    j, "land" if land is TRUE else "sea", v), ok,
                    "an observation with land flag %d %s part of the "
                    "sample for %s" % (v, "may be" if wrong else "is no",
                                       "land" if land is TRUE else "sea"),
                    prog.where(q))
    # the fallback keeps to the observations at sea
    for e in ip.trace:
        if e.kind == "call" and e.fn.op == "func" and e.fn.val == q:
            chk.decide("calculate", "fallback", e.kw.get("onLand") is FALSE
                       and e.kw.get("cellNum") is sym("param", "cellNum"),
                       "too few observations: %s" % show(e.term, 3), e.where)


def truth(c, known):
    r = Range(known).val(c)
    if r.lo == r.hi:
        return bool(r.lo)
    return None


def independent(c, lsflag):
    """the flag decided, yet the condition open: then every other conjunct
    can hold"""
    return True


# ------------------------------------------------------------------- files
def left_out(chk, e, a):
    """coefficients for which the condition of loading is false"""
    c = strip_iter(e.cond())
    if c is TRUE:
        return
    for nm in NAMES:
        r = subst(c, {a: const(nm)})
        for x in walk(r):
            if x.op == "mcall" and x.val in ("endswith", "startswith") and \
                    len(x.args) == 2 and all(isstr(y) for y in x.args):
                t, u = strval(x.args[0]), strval(x.args[1])
                r = subst(r, {x: TRUE if getattr(t, x.val)(u) else FALSE})
        if r is FALSE:
            chk.violation("name", "loaded:%s" % nm, "the coefficient %s is "
                          "not loaded" % nm, e.where)
            return
    chk.unsure("name", "loaded", "condition " + show(c, 4))


def files(prog, chk):
    ip = analyse(prog, chk, GS + ".save")
    me = mk("obj", val=(GS, "self"))
    n = 0
    for e in ip.trace:
        if e.kind != "setitem":
            continue
        h = e.term
        while h.op == "store":
            h = h.args[0]
        if h.op != "handle" or h.val[0] != "createVariable" or \
                len(h.args) < 2 or not isstr(h.args[1]):
            continue
        name = strval(h.args[1])
        cs = {x.val for x in walk(e.args[1]) if x.op == "attr" and
              x.val in NAMES and x.args[0].op == "attr" and
              x.args[0].val == "coeffs"}
        if name not in NAMES and not cs:
            continue
        n += 1
        chk.decide("name", "saved:" + name, cs == {name} if cs else None,
                   "variable %s holds %s" % (name, ", ".join(sorted(cs))),
                   e.where)
    chk.need(n, "saved coefficients in " + GS + ".save")
    ip = analyse(prog, chk, GS + ".load")
    m = 0
    for e in ip.trace:
        if e.kind == "call" and e.fn.op in ("ext", "builtin") and \
                str(e.fn.val).split(".")[-1] == "setattr" and \
                len(e.args) == 3:
            a, v = e.args[1:]
            left_out(chk, e, a)
            vs = [x for x in walk(v) if x.op == "idx" and
                  x.args[0].op == "attr" and x.args[0].val == "variables"]
            m += 1
            chk.decide("name", "loaded:%d" % m, all(
                x.args[1] is a for x in vs) if vs else None,
                "%s is set from variable %s" % (show(a, 3), ", ".join(
                    show(x.args[1], 3) for x in vs)), e.where)
        elif e.kind == "setattr" and e.extra in NAMES:
            vs = [x for x in walk(e.args[0]) if x.op == "idx" and
                  x.args[0].op == "attr" and x.args[0].val == "variables"]
            m += 1
            chk.decide("name", "loaded:" + e.extra, all(
                isstr(x.args[1]) and strval(x.args[1]) == e.extra
                for x in vs) if vs else None, "%s is set from %s" % (
                    e.extra, show(e.args[0], 4)), e.where)
    if not m:
        chk.unsure("name", GS + ".load", "no assignment of coefficients")
    dumped(prog, chk)


STATS = {"v": "vStats", "b": "bStats", "p": "pStats", "dp": "dpStats",
         "ds": "dsStats", "s": "sStats"}


def dumped(prog, chk):
    """the grids of coefficients written for further analysis"""
    q = TG + ".dumpAllCellCoefficients"
    if q not in prog.funcs:
        return
    ip = analyse(prog, chk, q, opaque=["Utilities.nctools.ncSaveGrid"])
    for e in calls_to(ip, "Utilities.nctools.ncSaveGrid"):
        vs = arg(e, "variables", 2)
        for d in (grid_vars(vs) if vs is not None else None) or []:
            if not isstr(d["name"]):
                continue
            name = strval(d["name"])
            m = [(p, name[len(p):]) for p in STATS if name.startswith(p) and
                 name[len(p):] in NAMES]
            v = d.get("values")
            if not m or v is None:
                continue
            got = {(x.args[0].args[0].val, x.val) for x in walk(v)
                   if x.op == "attr" and x.args[0].op == "attr" and
                   x.args[0].val == "coeffs" and x.args[0].args[0].op == "attr"}
            chk.decide("name", "dumped:" + name,
                       got == {(STATS[m[0][0]], m[0][1])} if got else None,
                       "variable %s holds %s" % (name, ", ".join(
                           "%s of %s" % (b, a) for a, b in sorted(got))),
                       e.where)
