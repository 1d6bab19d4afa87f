"""C19: cells that cannot be fitted are missing, all of them alike."""
from fractions import Fraction
from sa.util import *
from sa.terms import assume, atoms, rewrite
from checks.c18 import FITS, METHODS, CALC, LOAD, SAVE, RUN, call_arg, \
    filled, fit_of, strip_whole, where, is_mu

# the fit each method uses: (function, parameter holding the missing value)
FIT = {"GEV": "hazard.evd.gevfit", "GPD": "hazard.GPD.gpdfit",
       "power": "hazard.evd.powerfit", "emp": "hazard.evd.empfit"}
NAMES = ("wspd", "loc", "scale", "shp")
# library routines that estimate parameters: position of location, scale and
# shape in what they return, and the failures they report as exceptions
ESTIMATE = {
    "lmoments.pelgev": ((0,), (1,), (2,)),
    "Utilities.lmomentFit.pelgev": ((0,), (1,), (2,)),
    "scipy.stats.genpareto.fit": ((1,), (2,), (0,)),
    "scipy.optimize.curve_fit": ((0, 0), (0, 1), (0, 2)),
}
RAISES = {"scipy.stats.genpareto.fit": {"RuntimeError", "ValueError"},
          "scipy.optimize.curve_fit": {"RuntimeError", "ValueError",
                                       "TypeError"}}
LEAVES = 400


def check(prog, chk):
    chk.rule("few", "with fewer records than the minimum, return levels and "
             "parameters are the missing value")
    chk.rule("failed", "when the fit fails, return levels and parameters are "
             "the missing value")
    chk.rule("rejected", "when the fitted parameters are rejected, the "
             "return levels are the missing value")
    chk.rule("mixed", "location, scale and shape are all fitted or all "
             "missing, and return levels are computed from fitted ones only")
    chk.rule("order", "location, scale and shape are returned in this order")
    chk.rule("passed", "the fit is given the calculator's missing value and "
             "minimum number of records")
    chk.rule("cells", "a cell that is not fitted holds the missing value")
    for q in (RUN, CALC, LOAD, "hazard.calculateCI"):
        chk.need(q in prog.funcs, q)
    nodata = missing_value(prog, chk)
    calls = used(prog, chk)
    done = set()
    for m in METHODS:
        q = calls.get(m, FIT[m])
        done.add(q)
        if q not in prog.funcs:
            chk.unsure("few", m, "%s not found" % q)
            continue
        fit(prog, chk, m, q, nodata)
    for q in sorted(prog.funcs):
        names = [a.arg for a in prog.funcs[q].node.args.args]
        if q.startswith("hazard.") and q.endswith("fit") and \
                q not in done and names[:2] == ["data", "intervals"]:
            fit(prog, chk, q, q, nodata)
    limits(prog, chk)


# ------------------------------------------------------------ missing value
def missing_value(prog, chk):
    """the number that marks missing values in the saved file"""
    ip = analyse(prog, chk, RUN, opaque=[CALC, "hazard.setDomain",
                                         "hazard.getTiles", SAVE])
    saves = [e for e in calls_to(ip, SAVE)
             if grid_vars(arg(e, "variables", 2) or NONE)]
    chk.need(saves, "saving of the hazard grid")
    t = arg(saves[-1], "nodata", 3)
    if t is None or not isnum(t):
        chk.unsure("passed", "missing value of the file",
                   show(t, 4) if t is not None else "none")
        return Fraction(-9999)
    new = [e for e in ip.trace if e.kind == "setattr" and
           e.extra == "nodata" and isnum(e.args[0])]
    for e in new:
        chk.decide("passed", "missing value of the file",
                   e.args[0] is t or False, "the calculator uses %s, the "
                   "file says %s" % (show(e.args[0]), show(t)), e.where)
    return Fraction(t.val)


def used(prog, chk):
    """calls of the fits while a tile is processed"""
    ip = analyse(prog, chk, CALC, opaque=list(FITS) + [LOAD])
    evd = [x for x in walk(ip.result) if x.op == "attr" and x.val == "evd"]
    chk.need(evd, "choice of the distribution")
    ci = [x for x in walk(ip.result) if x.op == "attr" and x.val == "calcCI"]
    out = {}
    for m in METHODS:
        env = {x: const(m) for x in evd}
        env.update({x: FALSE for x in ci})
        r = subst(ip.result, env)
        items = tuple_items(r)
        if items is None:
            chk.unsure("passed", m, show(r, 4))
            continue
        for n, t in enumerate(items[1:], 1):
            f = filled(ip, t) if t.op == "eta" else None
            ft = fit_of(strip_whole(f.value)) if f is not None else None
            if ft is None:
                chk.unsure("cells", "%s:%d" % (m, n), show(t, 4))
                continue
            call, comp = ft
            out[m] = call.args[0].val
            nm = NAMES[comp] if comp < 4 else str(comp)
            N = [x for x in walk(call) if x.op == "attr" and
                 x.val == "nodata" and x.args[0].op == "obj"]
            given(prog, chk, m, call)
            init = f.init
            while init.op == "full":
                init = init.args[1]
            if init.op == "attr" and init.val == "nodata" or \
                    init.op == "sym" and init.val == ("param", "nodata"):
                v = True
            elif isnum(init):
                v = False
                if not f.conds:
                    v = True          # every cell is overwritten
            else:
                v = None
            chk.decide("cells", "%s:%s" % (m, nm), v, "a cell holds %s "
                       "unless it is fitted, which needs %s" % (
                           show(init, 3), ", ".join(
                               show(c, 4) for c in f.conds)),
                       "hazard/__init__.py")
    return out


def given(prog, chk, m, call):
    q = call.args[0].val
    par = missing_name(prog, q)
    for what, name, attr in (("missing value", par, "nodata"),
                             ("minimum", "minrecords", "minRecords")):
        t = None
        for a in call.args[1:]:
            if a.op == "kw" and a.val == name:
                t = a.args[0]
        if t is None:
            chk.unsure("passed", "%s:%s" % (m, what), "not given")
            continue
        ok = t.op == "attr" and t.val == attr
        other = t.op == "attr" and t.val in (
            "nodata", "minRecords", "numSim", "yrsPerSim", "years",
            "sample_size", "prange") or isnum(t)
        chk.decide("passed", "%s:%s" % (m, what), True if ok else
                   False if other else None, "%s of %s is %s" % (
                       what, q, show(t, 4)), "hazard/__init__.py")


def missing_name(prog, q):
    names = [a.arg for a in prog.funcs[q].node.args.args]
    for n in ("nodata", "missingValue", "missing_value", "missing"):
        if n in names:
            return n
    return None


# --------------------------------------------------------------- one method
def estimates(t):
    return {x for x in walk(t) if x.op == "call" and
            x.args[0].op == "ext" and x.args[0].val in ESTIMATE}


def fit(prog, chk, m, q, nodata):
    ip = analyse(prog, chk, q)
    r = ip.result
    par = missing_name(prog, q)
    if par is None:
        chk.unsure("few", m, "no parameter for the missing value")
        return
    w = where(prog, q)
    N = sym("param", par)
    S = Scenarios(chk, m, q, w, r, N, nodata)
    data = sym("param", "data")
    MIN = sym("param", "minrecords")
    est = estimates(r)
    # sizes of the data and of its selections
    sizes = {x: num(3) for x in walk(r) if x.op == "len" and
             of_data(x.args[0], data)}
    sizes[mk("attr", data, val="size")] = num(3)
    sizes[select(mk("attr", data, val="shape"), ZERO)] = num(3)
    enough = dict(sizes)
    enough[MIN] = num(2)
    few = dict(sizes)
    few[MIN] = num(4)
    S.missing("few", "few", few, "with 3 records and a minimum of 4")
    if m == "GEV":
        # blocks without a cyclone are no records
        some = {x: num(3) if x.args[0] is not data and
                x.args[0].op != "sorted" else num(6)
                for x in sizes if x.op == "len"}
        some[mk("attr", data, val="size")] = num(6)
        some[select(mk("attr", data, val="shape"), ZERO)] = num(6)
        some[MIN] = num(4)
        S.missing("few", "few above zero", some, "with 6 values, 3 of them "
                  "above zero, and a minimum of 4")
    ok = {x: FALSE for x in walk(r) if x.op == "sym" and
          isinstance(x.val, tuple) and x.val[0] == "exc"}
    good = dict(enough)
    good.update(ok)
    S.consistent(good, bool(est))
    S.order(good)
    for c in sorted(est, key=lambda c: c.args[0].val):
        name = c.args[0].val
        if name in RAISES:
            failed(chk, S, m, q, w, r, name, enough, ip)
    rejected(chk, S, m, est, r, good)


def of_data(t, data):
    """a selection of the records, never larger than they are"""
    while True:
        if t is data:
            return True
        if t.op in ("idx", "nonzero", "sorted"):
            if t.op == "idx" and t.args[0].op == "nonzero" and \
                    t.args[1] is ZERO:
                t = t.args[0].args[0]
                continue
            t = t.args[0]
        elif t.op in ("lt0", "le0", "ne0", "eq0"):
            return of_data_mask(t.args[0], data)
        elif t.op == "call" and t.args[0].op == "ext" and \
                t.args[0].val in ("numpy.sort", "numpy.flatnonzero",
                                  "numpy.array", "numpy.asarray"):
            t = t.args[1]
        else:
            return False


def of_data_mask(t, data):
    return has(t, data) and not contains(t, lambda x: x.op == "full")


class Scenarios(object):
    def __init__(self, chk, m, q, w, r, N, nodata):
        self.chk, self.m, self.q, self.w = chk, m, q, w
        self.r, self.N, self.nodata = r, N, num(nodata)

    def leaves(self, env):
        """results without alternatives, one for each way of deciding"""
        todo = [(subst(self.r, env), ())]
        out = []
        while todo:
            t, facts = todo.pop()
            c = self.choice(t)
            if c is None:
                out.append((t, facts))
                if len(out) > LEAVES:
                    return None
                continue
            v = subst(c, {self.N: self.nodata})
            if v is TRUE or v is FALSE:
                todo.append((assume(t, c, v is TRUE), facts))
                continue
            for b in (True, False):
                u = assume(t, c, b)
                if u is t:
                    return None
                todo.append((u, facts + ((c, b),)))
        return out

    def choice(self, t):
        ps = [x for x in walk(t) if x.op == "phi"]
        for x in ps:
            c = x.args[0]
            if any(y.op == "phi" for y in walk(c)):
                continue
            a = [y for y in atoms(c)] or [c]
            return a[0]
        return None

    def kind(self, t):
        """missing, fitted, or None"""
        N = self.N
        if t is N or t.op == "full" and self.kind(t.args[1]) == "missing" \
                or t.op == "fn" and t.val == "float" and t.args[0] is N:
            return "missing"
        if t.op == "idx" and self.kind(t.args[0]) == "missing":
            return "missing"
        if t.op == "comp" and self.kind(t.args[-1]) == "missing":
            return "missing"
        if t.op == "eta" and self.kind(t.args[0]) == "missing":
            n = t.args[1]
            if n.op == "store" and is_mu(n.args[0]) and \
                    self.kind(n.args[2]) == "missing" or is_mu(n):
                return "missing"
        if has(t, N) and contains(t, lambda x: x.op in (
                "add", "mul", "fn") and any(y is N for y in x.args)):
            return "computed from the missing value"
        if has(t, sym("param", "data")):
            return "fitted"
        if isnum(t):
            return "constant"
        return None

    def items(self, t):
        i = tuple_items(t)
        return i if i is not None and len(i) == 4 else None

    def missing(self, rule, label, env, what, parts=(0, 1, 2, 3)):
        ls = self.leaves(env)
        tag = "%s:%s" % (self.m, label)
        if not ls:
            self.chk.unsure(rule, tag, "too many alternatives" if ls is None
                            else "no result")
            return
        verdict, why = True, "%d outcomes" % len(ls)
        for t, facts in ls:
            it = self.items(t)
            if it is None:
                verdict, why = None, show(t, 4)
                break
            ks = [self.kind(x) for x in it]
            for i in parts:
                if ks[i] in ("fitted", "constant",
                             "computed from the missing value"):
                    verdict = False
                    why = "%s %s is %s (%s)" % (
                        what, NAMES[i], ks[i], show(it[i], 4))
                elif ks[i] is None and verdict:
                    verdict, why = None, show(it[i], 4)
            if verdict is False:
                break
        self.chk.decide(rule, tag, verdict, why, self.w)

    def consistent(self, env, has_fit):
        ls = self.leaves(env)
        tag = "%s:outcomes" % self.m
        if not ls:
            self.chk.unsure("mixed", tag, "too many alternatives")
            return
        verdict, why, n = True, "", 0
        for t, facts in ls:
            it = self.items(t)
            if it is None:
                verdict, why = None, show(t, 4)
                break
            ks = [self.kind(x) for x in it]
            n += 1
            cond = " and ".join("%s is %s" % (show(c, 4), b)
                                for c, b in facts) or "always"
            bad = None
            if "computed from the missing value" in ks:
                bad = "%s is computed from the missing value" % \
                    NAMES[ks.index("computed from the missing value")]
            elif len({k for k in ks[1:]}) > 1 and None not in ks[1:]:
                bad = ", ".join("%s is %s" % x for x in zip(NAMES[1:],
                                                            ks[1:]))
            elif ks[0] == "fitted" and "missing" in ks[1:] and has_fit:
                bad = "return levels are given with missing parameters"
            if bad:
                verdict, why = False, "%s: %s" % (cond, bad)
                break
            if None in ks and verdict:
                verdict, why = None, "%s: %s" % (
                    NAMES[ks.index(None)], show(it[ks.index(None)], 4))
        self.chk.count("%s outcomes" % self.m, n)
        self.chk.decide("mixed", tag, verdict, why or "%d outcomes" % n,
                        self.w)

    def order(self, env):
        ls = self.leaves(env) or []
        seen = False
        for t, facts in ls:
            it = self.items(t)
            if it is None:
                continue
            for i in (1, 2, 3):
                p, c = [], it[i]
                while c.op == "idx" and len(c.args) == 2 and \
                        isnum(c.args[1]):
                    p.append(int(c.args[1].val))
                    c = c.args[0]
                if c.op != "call" or c.args[0].op != "ext" or \
                        c.args[0].val not in ESTIMATE:
                    continue
                seen = True
                want = ESTIMATE[c.args[0].val][i - 1]
                self.chk.decide("order", "%s:%s" % (self.m, NAMES[i]),
                                tuple(reversed(p)) == want or False,
                                "%s is item %s of what %s returns, which is "
                                "item %s" % (NAMES[i], list(reversed(p)),
                                             c.args[0].val, list(want)),
                                self.w)
            if seen:
                break
        return seen


def failed(chk, S, m, q, w, r, name, env, ip):
    ex = {x for x in walk(r) if x.op == "sym" and isinstance(x.val, tuple)
          and x.val[0] == "exc"}
    short = name.split(".")[-1]
    mine = {x for x in ex if any(short in str(p) for p in x.val[1:])}
    caught = set()
    for x in mine:
        caught |= set(str(x.val[2]).split(","))
    tag = "%s:%s" % (m, short)
    need = RAISES[name]
    if not mine:
        # is the call inside a try statement that leaves no trace?
        chk.decide("failed", tag, False, "nothing handles a failure of %s"
                   % name, w)
        return
    if not (caught & {"*", "Exception", "BaseException"} or need <= caught):
        chk.decide("failed", tag, None if any(
            c not in need and not c.endswith("Error") for c in caught)
            else False, "%s of %s is not handled" % (
                ", ".join(sorted(need - caught)), name), w)
        return
    e = dict(env)
    e.update({x: TRUE for x in mine})
    S.missing("failed", short, e, "when %s fails" % name)


def rejected(chk, S, m, est, r, good):
    for c in est:
        name = c.args[0].val
        if name.endswith("pelgev"):
            shape = mk("idx", c, num(2))
            for v in (Fraction(-1, 10), Fraction(0)):
                e = dict(good)
                e[shape] = num(v)
                S.missing("rejected", "shape %g" % float(v), e,
                          "with a shape of %g" % float(v), parts=(0,))
            fin = [x for x in walk(r) if x.op == "call" and
                   x.args[0].op == "ext" and
                   x.args[0].val == "numpy.isfinite" and
                   any(y in est for y in walk(x))]
            if fin:
                e = dict(good)
                e.update({x: FALSE for x in fin})
                S.missing("rejected", "not finite", e,
                          "with a location that is not finite")
            elif not contains(r, lambda x: x.op in ("call", "fn") and
                              ("isnan" in str(x.val) or x.op == "call" and
                               x.args[0].op == "ext" and
                               x.args[0].val.split(".")[-1] in
                               ("isnan", "isinf", "all", "any"))):
                chk.violation("rejected", "%s:not finite" % m, "parameters "
                              "that are not finite are not rejected", S.w)
            else:
                chk.unsure("rejected", "%s:not finite" % m, "")
            for i, vs in ((1, (Fraction(-1), Fraction(0))),
                          (2, (Fraction(-2), Fraction(-1), Fraction(1),
                               Fraction(2)))):
                lm = {x for x in walk(r) if x.op == "idx" and
                      x.args[0].op == "call" and
                      x.args[0].args[0].op == "ext" and
                      x.args[0].args[0].val.endswith("samlmu") and
                      x.args[1] is num(i)}
                for v in vs:
                    if not lm:
                        chk.unsure("rejected", "%s:moment %d" % (m, i),
                                   "no sample moments")
                        continue
                    e = dict(good)
                    e.update({x: num(v) for x in lm})
                    S.missing("rejected", "moment %d %g" % (i, float(v)), e,
                              "with %s of %g" % (
                                  ("the first", "the second moment",
                                   "the skewness")[i], float(v)))
        elif name.endswith("genpareto.fit"):
            e = dict(good)
            e[mk("idx", c, ZERO)] = num(Fraction(1, 10))
            S.missing("rejected", "shape 0.1", e, "with a shape of 0.1")


# ------------------------------------------------------- confidence limits
def limits(prog, chk):
    q = "hazard.calculateCI"
    ip = analyse(prog, chk, q, opaque=list(FITS))
    N = sym("param", "nodata")
    MIN = sym("param", "minRecords")
    n = 0
    for x in set(walk(ip.result)):
        if x.op == "call" and x.args[0].op == "ext" and \
                x.args[0].val.split(".")[-1] in ("scoreatpercentile",
                                                 "percentile"):
            n += 1
            d = x.args[1]
            tag = "percentile %s" % show(x.args[2], 3) if \
                len(x.args) > 2 else "percentile"
            fits = [y for y in walk(d) if y.op == "call" and
                    y.args[0].op == "func" and y.args[0].val in FITS]
            if not fits:
                chk.unsure("mixed", "%s:%s" % (q, tag), show(d, 4))
                continue
            masks = [y for y in walk(d) if y.op in ("ne0", "lt0", "le0") and
                     any(z in fits for z in walk(y)) and
                     any(y in w.args for w in walk(d) if w.op == "idx"
                         or w.op == "ix")]
            good = [y for y in masks if excludes(y, N)]
            if not good and masks and all(excludes(y, N, TRUE)
                                          for y in masks):
                masks = []
            ok = True if good else None if masks or contains(
                d, lambda y: y.op == "call" and y.args[0].op == "ext" and
                ("ma." in y.args[0].val or "where" in y.args[0].val)) \
                else False
            chk.decide("mixed", "%s:%s" % (q, tag), ok, "percentiles are "
                       "taken over samples that could not be fitted as well",
                       where(prog, q))
    # cells not fitted
    for i, t in enumerate(tuple_items(ip.result) or []):
        f = filled(ip, t) if t.op == "eta" else None
        if f is None:
            chk.unsure("cells", "%s:%d" % (q, i), show(t, 3))
            continue
        init = f.init
        while init.op == "full":
            init = init.args[1]
        chk.decide("cells", "%s:%d" % (q, i), True if init is N else
                   False if isnum(init) and f.conds else None,
                   "a cell without wind records holds %s" % show(init, 3),
                   where(prog, q))
    for c in {x for x in walk(ip.result) if x.op == "call" and
              x.args[0].op == "func" and x.args[0].val in FITS}:
        t = [a.args[0] for a in c.args[1:] if a.op == "kw" and
             a.val == missing_name(prog, c.args[0].val)]
        chk.decide("passed", "%s:missing value" % q, True if t and t[0] is N
                   else None if not t or not (isnum(t[0]) or t[0].op ==
                                              "sym") else False,
                   show(t[0], 3) if t else "", where(prog, q))
        t = [a.args[0] for a in c.args[1:] if a.op == "kw" and
             a.val == "minrecords"]
        chk.decide("passed", "%s:minimum" % q, True if t and has(t[0], MIN)
                   else None if not t or not (isnum(t[0]) or t[0].op ==
                                              "sym") else False,
                   show(t[0], 3) if t else "", where(prog, q))
    chk.count("percentiles", n)


def excludes(mask, N, want=FALSE):
    """false at the missing value?"""
    arr = [x for x in walk(mask.args[0]) if x.op == "idx"]
    for a in arr:
        if is_mu(a.args[0]) or a.args[0].op in ("eta", "store"):
            v = subst(mask, {a: num(-9999), N: num(-9999)})
            if v is want:
                return True
    return False
