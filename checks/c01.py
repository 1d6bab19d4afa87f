"""C01: with the seeds given, the variables of a simulation's track file
depend only on the seeds, the simulation's number and the inputs."""
from sa.pointwise import Unknown
from .tracks import *
from .c30 import Cells, Outside

ROOT = "TrackGenerator.TrackGenerator.run"
MODULE = "TrackGenerator.TrackGenerator"
SIMULATION = sym("simulation")
DRAWS = {"uniform", "normal", "random", "rand", "randn", "randint",
         "random_sample", "ranf", "sample", "poisson", "lognormal",
         "logistic", "standard_normal", "standard_t", "integers", "choice",
         "shuffle", "permutation", "exponential", "gamma", "beta",
         "binomial", "weibull", "gumbel", "laplace", "rvs",
         "multivariate_normal", "triangular", "vonmises", "rayleigh",
         "noncentral_chisquare", "negative_binomial", "geometric",
         "chisquare", "pareto", "power", "wald", "zipf", "normalvariate",
         "betavariate", "expovariate", "gammavariate", "gauss",
         "lognormvariate", "vonmisesvariate", "paretovariate",
         "weibullvariate", "randrange", "getrandbits", "resample"}
# names only generators have
PLAIN = {"uniform", "normal", "random_sample", "poisson", "lognormal", "rvs",
         "logistic", "standard_normal", "standard_t", "normalvariate",
         "lognormvariate", "logisticvariate", "nctvariate", "cauchyvariate"}
CHANGING = ("time.time", "time.localtime", "time.gmtime", "time.ctime",
            "time.perf_counter", "time.monotonic", "time.strftime",
            "time.clock", "time.process_time", "time.time_ns",
            "datetime.datetime.now", "datetime.datetime.utcnow",
            "datetime.datetime.today", "datetime.date.today", "os.getpid",
            "os.getppid", "os.urandom", "os.times", "getpass.getuser",
            "socket.gethostname", "platform.node", "uuid.uuid1",
            "uuid.uuid4", "id", "hash", "threading.get_ident",
            "multiprocessing.current_process", "os.getloadavg",
            "os.cpu_count")


def check(prog, chk):
    chk.rule("generator", "every draw made for a simulation comes from a "
             "generator made in that simulation's turn")
    chk.rule("key", "the generator's key depends on the track seed and the "
             "simulation's number, differs between simulations, and on "
             "nothing else")
    chk.rule("counts", "the numbers of tracks are drawn after seeding with "
             "the season seed")
    chk.rule("history", "nothing carried over from an earlier simulation "
             "reaches the variables of a track file")
    chk.rule("layout", "process number, number of processes, turn, time and "
             "user do not reach the variables of a track file")
    ip = analyse(prog, chk, ROOT)
    saves = [e for e in ip.trace if written(e)]
    chk.need(saves, "writing of track variables below %s" % ROOT)
    L = simulations(ip, saves)
    chk.need(L is not None, "loop over the simulations in %s" % ROOT)
    seeded = Seeded(prog, ip, L)
    drawing(chk, ip, L, seeded)
    season(chk, ip, L)
    saved(chk, ip, L, saves, seeded)


def written(e):
    """does the effect put data into a variable (or its attributes) of an
    output file?"""
    if e.kind not in ("setitem", "setattr") or e.term is None:
        return False
    t = e.term
    return t.op == "handle" and t.val[0] == "createVariable"


def simulations(ip, saves):
    """outermost loop every saved variable is written in"""
    common = None
    for e in saves:
        us = list(e.loops)
        common = us if common is None else [u for u in common if u in us]
    for L in ip.loops:
        if common and L.uid == common[0]:
            return L
    return None


class Seeded(object):
    """terms of the simulation loop with the seed options given"""

    def __init__(self, prog, ip, L):
        self.prog, self.ip, self.L = prog, ip, L
        self.memo = {}

    def __call__(self, t, seed=None):
        if t is None:
            return None
        key = (t, seed)
        if key not in self.memo:
            v = item_of(self.prog, self.ip, mk("tuple", t), SIMULATION)
            v = v.args[0]
            self.memo[key] = given(v, seed)
        return self.memo[key]


def options(t):
    return [x for x in walk(t) if x.op == "cfg"]


def given(t, seed):
    """with every seed option present (and worth seed, if given)"""
    m = {}
    for x in options(t):
        c = cfg_of(x)
        if c is None or c[0] != "TrackGenerator" or "seed" not in c[1].lower():
            continue
        if x.val == "has_option":
            m[x] = TRUE
        elif seed is not None:
            m[x] = num(seed)
        else:
            m[is_(x, NONE)] = FALSE
    return subst(t, m)


def is_generator(t):
    return t.op == "call" and t.args[0].op == "ext" and \
        t.args[0].val.split(".")[-1] in (
            "Generator", "RandomState", "default_rng", "Random")


def draws(e):
    """receiver term of a draw; the string 'global' for draws from the
    process-wide generators; None for anything else"""
    if e.kind == "call" and e.fn is not None and e.fn.op == "ext":
        v = e.fn.val
        last = v.split(".")[-1]
        if v.startswith("numpy.random.") and last in DRAWS or \
                v.startswith("random.") and last in DRAWS or \
                v.startswith("scipy.stats.") and last in ("rvs", "resample"):
            if "random_state" in e.kw:
                return e.kw["random_state"]
            return "global"
        return None
    if e.kind == "call" and e.fn is not None and e.fn.op == "attr" and \
            e.fn.val in PLAIN:
        return e.fn.args[0]
    if e.kind == "mcall" and e.fn is not None and isstr(e.fn) and \
            strval(e.fn) in DRAWS and e.args is not None:
        r = receiver(e)
        if r is not None and (strval(e.fn) in PLAIN or
                              contains(r, is_generator)):
            if strval(e.fn) == "rvs" and "random_state" in e.kw:
                return e.kw["random_state"]
            return r
    return None


def receiver(e):
    t = e.term
    if t is None:
        return None
    if t.op == "mcall":
        return t.args[0]
    return t


def alternatives(t):
    """values a term can have, with branch conditions dropped"""
    if t.op == "phi":
        return alternatives(t.args[1]) + alternatives(t.args[2])
    return [t]


def place(e):
    return e.func.qual if e.func is not None else "?"


def drawing(chk, ip, L, seeded):
    made = {}
    for e in ip.trace:
        if e.kind == "call" and e.term is not None and is_generator(e.term):
            made[e.term] = e
    n = 0
    keys = {}
    seen = {}
    for e in ip.trace:
        if L.uid not in e.loops:
            continue
        r = draws(e)
        if r is None or truth(seeded(e.cond(), 7)) is FALSE and \
                truth(seeded(e.cond(), 0)) is FALSE:
            continue
        n += 1
        label = place(e) + ":" + (strval(e.fn) if isstr(e.fn)
                                  else e.fn.val)
        seen[label] = seen.get(label, 0) + 1
        label = "%s#%d" % (label, seen[label])
        if r == "global":
            chk.violation("generator", label, "drawn from the generator "
                          "shared by the whole process", e.where)
            continue
        for seed in (None, 0, 7):
            if truth(seeded(e.cond(), seed)) is FALSE:
                continue
            for g in alternatives(seeded(r, seed)):
                if not is_generator(g):
                    if opaque_in(g) and not mentions_loop(L, g):
                        chk.unsure("generator", label, show(g)[:100])
                    else:
                        chk.violation(
                            "generator", label, "with seed %s the draw is "
                            "made on %s" % ("given" if seed is None
                                            else seed, show(g, 3)[:120]),
                            e.where)
                    break
                src = [m for t, m in made.items()
                       if g in alternatives(seeded(t, seed))]
                inside = [m for m in src if L.uid in m.loops]
                if not src:
                    chk.unsure("generator", label, show(g)[:100])
                    break
                if not inside:
                    chk.violation(
                        "generator", label, "the generator is made before "
                        "the first simulation and shared by all of them",
                        e.where)
                    break
                deeper = [u for u in inside[0].loops if u not in e.loops]
                if deeper:
                    chk.unsure("generator", label, "made in another loop")
                    break
                keys.setdefault(g, (seed, label, inside[0]))
            else:
                continue
            break
        else:
            chk.ok("generator", label)
    chk.count("draws in a simulation", n)
    chk.need(n, "draws in the loop over simulations")
    for i, (g, (seed, label, e)) in enumerate(sorted(
            keys.items(), key=lambda kv: str(kv[1][0]))):
        key(chk, ip, L, g, seed, e)


def mentions_loop(L, t):
    mus = {mu for mu, a, b in L.carried.values()}
    return contains(t, lambda x: x in mus)


def has_free(t, k, depth, memo=None):
    """does the counter occur outside other loops of the same depth?"""
    memo = {} if memo is None else memo
    if t is k:
        return True
    if t in memo:
        return memo[t]
    memo[t] = False
    a = t.args
    if t.op in ("eta", "comp") and t.val[1] == depth or \
            t.op in ("last", "sum", "runmax", "runmin") and t.val == depth:
        a = t.args[:1] if t.op != "last" else t.args[2:]
    memo[t] = any(has_free(x, k, depth, memo) for x in a)
    return memo[t]


def foreign(ip, L, t, turn=True):
    """name of something in the term that changes between runs, processes
    or turns"""
    mus = {mu for mu, a, b in L.carried.values()}
    if turn and has_free(t, L.k, L.depth):
        return "the turn of the simulation in its process"
    for x in walk(t):
        if x in (RANK, SIZE):
            return "the process layout"
        if x in mus:
            return "state left by earlier simulations (%s)" % show(x)[:80]
        if x.op == "call" and x.args[0].op in ("ext", "builtin") and \
                str(x.args[0].val) in CHANGING:
            return "%s()" % x.args[0].val
        if x.op == "mcall" and x.val in ("Get_rank", "Get_size"):
            return "the process layout"
    return None


def key(chk, ip, L, g, seed, e):
    """the arguments of a generator made for a simulation"""
    where = e.where
    name = "%s:seed=%s" % (place(e), "given" if seed is None else seed)
    bad = foreign(ip, L, g)
    if bad:
        chk.violation("key", name + ":sources", "the key depends on " + bad,
                      where)
    elif not contains(g, lambda x: x is SIMULATION):
        chk.violation("key", name + ":number", "the key does not depend on "
                      "the simulation's number: every simulation draws the "
                      "same values", where)
    else:
        chk.ok("key", name + ":sources")
        k = key_term(g)
        if k is None:
            chk.unsure("key", name + ":distinct", show(g)[:100])
        else:
            distinct(chk, ip, name, k, where)
    if seed is None:
        secret = [x for x in options(g) if x.val != "has_option"]
        chk.decide("key", name + ":seed", True if secret else
                   None if opaque_in(g) else False,
                   "the key does not depend on the track seed", where)


def key_term(g):
    """the single seed expression of a generator construction"""
    while g.op == "call":
        a = [x for x in g.args[1:]]
        if len(a) != 1:
            return None
        g = a[0].args[-1] if a[0].op == "kw" else a[0]
    return g


def distinct(chk, ip, name, k, where):
    """do different simulations of one run have different keys?"""
    if k.op in ("tuple", "list"):
        parts = list(k.args)
    else:
        parts = [k]
    verdict = None
    for p in parts:
        d = sub(subst(p, {SIMULATION: add(SIMULATION, num(1))}), p)
        if d.op == "num" and d.val != 0:
            verdict = True
    if verdict is None and all(not opaque_in(p) for p in parts):
        # any two simulations with the same key?
        for a in range(0, 6):
            for b in range(a + 1, 1030):
                if all(subst(p, {SIMULATION: num(a)}) is
                       subst(p, {SIMULATION: num(b)}) for p in parts):
                    chk.violation("key", name + ":distinct", "simulations "
                                  "%d and %d draw the same values" % (a, b),
                                  where)
                    return
    if verdict is None:
        # simulations without any track between others
        counts = [3, 0, 2, 0, 0, 1]
        env = {}
        for p in parts:
            for x in walk(p):
                if x.op == "call" and x.args[0].op == "ext" and \
                        x.args[0].val.endswith(".poisson"):
                    env[x] = counts
                elif x.op == "cfg":
                    env[x] = 7
        seen = {}
        try:
            for i in range(len(counts)):
                env[SIMULATION] = i
                v = tuple(repr(Cells(ip, env)(p)) for p in parts)
                if v in seen:
                    chk.violation(
                        "key", name + ":distinct", "simulations %d and %d "
                        "draw the same values when %d of the simulations "
                        "between have no tracks" % (
                            seen[v], i, len([c for c in counts[seen[v]:i]
                                             if not c])), where)
                    return
                seen[v] = i
        except (Unknown, Outside, TypeError):
            pass
    chk.decide("key", name + ":distinct", verdict, show(k, 3)[:100], where)


def season(chk, ip, L):
    """draws before the loop: seeded with the season seed"""
    state = {None: False, 0: False, 7: False}
    n = 0
    for e in ip.trace:
        if L.uid in e.loops or e.kind not in ("call", "mcall") or \
                e.fn is None:
            continue
        if e.kind == "call" and e.fn.op == "ext" and \
                e.fn.val in ("numpy.random.seed", "random.seed"):
            for s in state:
                c = truth(given(e.cond(), s))
                a = given(e.args[0], s) if e.args and e.args[0] is not None \
                    else NONE
                if c is TRUE and e.fn.val == "numpy.random.seed":
                    state[s] = not foreign(ip, L, a) and a is not NONE
                elif s is None and c is not FALSE and \
                        truth(given(e.cond(), 7)) is TRUE:
                    state[s] = True
                elif c is not FALSE and e.fn.val == "numpy.random.seed":
                    on = [truth(at_rank(given(e.cond(), s), r, 3))
                          for r in range(3)]
                    if FALSE not in on:
                        state[s] = None
                    elif not state[s]:
                        # a process goes without
                        state[s] = False
            continue
        r = draws(e)
        if r is None:
            continue
        n += 1
        label = "%s:%s" % (place(e), strval(e.fn) if isstr(e.fn)
                           else e.fn.val)
        for t in list(e.args) + list(e.kw.values()) + [e.cond()]:
            bad = t is not None and foreign(ip, L, given(t, 7), False)
            if bad:
                chk.violation("counts", label + ":arguments", "what is "
                              "drawn depends on " + bad, e.where)
                break
        if r == "global" and e.fn.val.startswith("random."):
            chk.unsure("counts", label, "draws from the random module")
        elif r == "global":
            for s in state:
                chk.decide("counts", "%s:seed=%s" % (
                    label, "given" if s is None else s), state[s],
                    "drawn without seeding the generator with the given "
                    "season seed", e.where)
        else:
            for s in state:
                g = given(r, s)
                bad = foreign(ip, L, g)
                if bad:
                    chk.violation("counts", label, "the generator depends "
                                  "on " + bad, e.where)
                elif is_generator(g) and len(g.args) == 1:
                    chk.violation("counts", label, "the generator has no "
                                  "seed", e.where)
                elif is_generator(g):
                    chk.ok("counts", "%s:seed=%s" % (label, s))
                else:
                    chk.unsure("counts", label, show(g)[:80])
    chk.count("draws before the simulations", n)
    if not n:
        chk.unsure("counts", "numbers of tracks", "no draw found")


def closure(ip, L, t):
    """the term together with what the attributes of the objects it reads
    were set to, and where loops over other things started from"""
    set_to = {}
    for e in ip.trace:
        if e.kind == "setattr" and e.term is not None and \
                e.term.op == "new" and e.args and e.args[0] is not None:
            set_to.setdefault((e.term, e.extra), []).append(
                (e.args[0], L.uid in e.loops))
    within = {u for e in ip.trace if L.uid in e.loops for u in e.loops}
    carried = {}
    for M in ip.loops:
        for mu, init, nxt in M.carried.values():
            if M is not L:
                carried[mu] = [(init, M.uid in within),
                               (nxt, M.uid in within)]
    out, todo, seen, done = [], [(t, True)], set(), set()
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        out.append(v)
        for x in walk(v[0]):
            if x in done:
                continue
            done.add(x)
            if x.op == "attr":
                for o in walk(x.args[0]):
                    todo.extend(set_to.get((o, x.val), ()))
            elif x in carried:
                todo.extend(carried[x])
    return out


def saved(chk, ip, L, saves, seeded):
    seen = {}
    for e in ip.trace:
        if e.kind == "call" and L.uid in e.loops and e.term is not None and \
                e.term.op == "handle" and e.term.val[0] == "netCDF4.Dataset" \
                and e.args:
            bad = foreign(ip, L, seeded(e.args[0]))
            chk.decide("layout", place(e) + ":file name", not bad,
                       "the file name depends on %s" % bad, e.where)
    for e in saves:
        nm = next((strval(a) for a in e.term.args if isstr(a)), "?")
        seen[nm] = seen.get(nm, 0) + 1
        label = "%s:%s#%d" % (place(e), nm, seen[nm])
        c = seeded(e.cond())
        bad = None
        for v, turn in closure(ip, L, seeded(e.args[-1])):
            bad = bad or foreign(ip, L, seeded(v), turn)
        rule = "history" if bad and bad.startswith("state") else "layout"
        if bad:
            chk.violation(rule, label, "the saved values depend on " + bad,
                          e.where)
        else:
            chk.ok("history", label)
            chk.ok("layout", label)
        if c is None:
            continue
        bad = foreign(ip, L, strip_iter(c))
        if bad:
            rule = "history" if bad.startswith("state") else "layout"
            chk.violation(rule, label + ":condition", "whether it is saved "
                          "depends on " + bad, e.where)
