"""C03: every work item of a stage is processed exactly once over all
processes."""
from .mpi import *
from . import c02
from .tracks import item_of

W = "wind.WindfieldGenerator."


def check(prog, chk):
    chk.rule("once", "over all processes the work of every item is called "
             "exactly once")
    chk.rule("same", "an item's work is called with the same arguments "
             "whether one process runs or several")
    chk.rule("kept", "what is done with the result of an item is the same "
             "whether one process runs or several")
    chk.rule("all", "the items are all files of the kind the earlier stage "
             "writes, or all simulations of the run")
    chk.rule("order", "items shared out by position are in the same order "
             "on every process")
    for root, (opaque, watch) in sorted(c02.STAGES.items()):
        s = System(prog, chk, root, opaque, watch)
        chk.need(s.count("send") and s.count("recv"),
                 "messages between processes below %s" % root)
        o = Once(chk, root, watch)
        explore(s, chk, "once", root, after=o)
        o.report()
        serial(prog, chk, s, root, watch)
        for X in s.lists:
            complete(chk, root, X)
    shared(prog, chk)
    simulations(prog, chk)


class Once(object):
    """after a run of the extracted communication: which items were worked
    on, how often?"""

    def __init__(self, chk, root, watch):
        self.chk, self.root, self.watch = chk, root, watch
        self.bad = {}
        self.active = set()     # configurations in which the phases run

    def __call__(self, s, ps, size, counts):
        if any(p.log for p in ps):
            self.active.add(s.choice)
        if size == 1:
            return
        done = {}
        for p in ps:
            for kind, e, args in p.log:
                if kind != "call":
                    continue
                for a in args:
                    for x in walk(a):
                        if isstr(x) and strval(x).startswith("item "):
                            done.setdefault(strval(x), []).append(e)
        for i, n in enumerate(counts):
            for j in range(n):
                es = done.get("item %d of %d" % (j, i), [])
                if len(es) != 1:
                    self.bad.setdefault((s.choice, i, len(es) > 1), (
                        "with %d processes and %s items the work of item %d "
                        "is called %d times" % (
                            size, " and ".join(map(str, counts)), j,
                            len(es)), es[0].where if es else ""))
        self.chk.count("items in scenarios", sum(counts))

    def report(self):
        seen = set()
        for (choice, i, many), (what, where) in self.bad.items():
            if choice in self.active and (i, many) not in seen:
                seen.add((i, many))
                self.chk.violation("once", "%s:list%d" % (self.root, i),
                                   what, where)


ITEM, POSITION = sym("item"), sym("position")


def serial(prog, chk, s, root, watch):
    """the branch for a single process and the one for several do the same
    with each item and each result"""
    ip = s.ip
    for w in watch:
        works = [e for op, e in s.events if op is None and
                 e.fn.val.split(".")[-1] == w.split(".")[-1]]
        one = [e for e in works if possible(e, 0, 1)]
        many = [e for e in works if possible(e, 1, 3)]
        if len(one) != 1 or len(many) != 1:
            chk.unsure("same", "%s:%s" % (root, w), "%d and %d calls" % (
                len(one), len(many)))
            continue
        one, many = one[0], many[0]
        recv = [e for op, e in s.events if op == "recv" and
                mentions(mk("tuple", *[a for a in many.args
                                       if a is not None]), e.term)]
        if len(recv) != 1:
            chk.unsure("same", "%s:%s" % (root, w), "message not found")
            continue
        a = serial_args(one, s)
        if a is None:
            cut = [(y, sliced(y)) for x in one.args if x is not None
                   for y in bases(x) if sliced(y)]
            for y, (Y, lo, hi, st) in cut:
                if Y in s.lists and (lo, hi, st) != (ZERO, NONE, ONE) and \
                        lo.op == "num":
                    chk.violation("once", "%s:%s:one process" % (root, w),
                                  "one process works on %s only"
                                  % show(y.args[1]), one.where)
                    break
            chk.unsure("same", "%s:%s" % (root, w), "serial call")
            continue
        covered(chk, s, one, root, w)
        sends = [e for op, e in s.events if op in ("send", "ssend") and
                 e.args and not e.args[0] is NONE and possible(e, 0, 3) and
                 any(X in s.lists for X in bases(e.args[0]))]
        X = base_of(one, s)
        n = 0
        for e in sends:
            if X not in bases(e.args[0]):
                continue
            n += 1
            b = message_args(many, recv[0].term, e.args[0], X)
            b = b and [anyocc(x) for x in b]
            v = None if b is None or len(a) != len(b) else all(
                x is y for x, y in zip(a, b))
            if v is False and not any(opaque_in(x) for x in a + b):
                chk.violation("same", "%s:%s#%d" % (root, w, n),
                              "one process calls it with %s, several with "
                              "%s" % (", ".join(show(x, 3)[:50] for x in a),
                                      ", ".join(show(x, 3)[:50] for x in b)),
                              e.where)
            else:
                chk.decide("same", "%s:%s#%d" % (root, w, n), v or None)
        results(chk, s, one, many, recv[0], root, w)


def possible(e, rank, size):
    c = at_rank(e.cond(), rank, size)
    return truth(c) is not FALSE


def bases(t):
    return [x.args[0] for x in walk(t) if x.op == "idx" and
            len(x.args) == 2 and carried_index(x.args[1])]


def base_of(e, s):
    for a in e.args:
        if a is None:
            continue
        for X in bases(a):
            if X in s.lists:
                return X
    return None


def serial_args(e, s):
    """arguments of the work call in the branch for one process"""
    X = base_of(e, s)
    if X is None:
        return None
    L = s.loops.get(e.loops[0]) if e.loops else None
    if L is None:
        return None
    m = {mk("idx", X, L.k): ITEM}
    out = []
    for a in e.args:
        if a is None:
            continue
        v = subst(a, m)
        # the position itself, not a counter inside the list's own terms
        out.append(POSITION if v is L.k else anyocc(v))
    return out


def anyocc(t):
    """the same query made at another place gives the same"""
    return rewrite(t, lambda x: sym("occ") if x.op == "sym" and
                   isinstance(x.val, tuple) and x.val[0] == "occ" else None)


def covered(chk, s, e, root, w):
    L = s.loops[e.loops[0]]
    X = base_of(e, s)
    n = L.domain.args[0] if L.domain is not None and L.kind == "for" \
        else None
    want = s.ip.length(X) if hasattr(s.ip, "length") else mk("len", X)
    c = strip_iter(e.cond())
    c = truth(at_rank(subst(c, {x: FALSE for x in s.failing}), 0, 1))
    for x in atoms_of(c):
        if not foreign(x, s.lists):
            y = truth(subst(c, {x: TRUE}))
            c = y if y is not FALSE else truth(subst(c, {x: FALSE}))
    label = "%s:%s:one process" % (root, w)
    if n is None:
        chk.unsure("once", label, "not a loop over the items")
    elif equal(n, want) is False and not opaque_in(n):
        chk.violation("once", label, "%s of %s items are worked on" % (
            show(n, 3)[:60], show(want, 2)[:60]), e.where)
    elif c is not TRUE and carried_index(c):
        chk.violation("once", label, "an item is worked on only if %s"
                      % show(c, 3)[:100], e.where)
    else:
        chk.decide("once", label, True if equal(n, want) and c is TRUE
                   else None, show(c, 3)[:100])


def message_args(e, msg, payload, X):
    """arguments of the work call on a worker, for a message"""
    m = None
    pos = None
    for x in walk(payload):
        if x.op == "idx" and x.args[0] is X:
            m, pos = x, x.args[1]
    if m is None:
        return None
    pay = subst(payload, {m: ITEM})
    if pay.op == "tuple":
        pay = mk("tuple", *[POSITION if a is pos else a for a in pay.args])
    out = []
    for a in e.args:
        if a is None:
            continue
        if a.op == "star" and a.args[0] is msg:
            if pay.op not in ("tuple", "list"):
                return None
            out.extend(pay.args)
        else:
            out.append(resolve(subst(a, {msg: pay})))
    return out


def resolve(t):
    """elements of literal tuples"""
    def f(x):
        if x.op == "idx" and x.args[0].op in ("tuple", "list"):
            return select(x.args[0], x.args[1])
        return None
    return rewrite(t, f)


RESULT = sym("result")


def sinks(ip, term, pick):
    """(kind, function, arguments) of effects that use a result"""
    out = []
    for e in ip.trace:
        if not pick(e) or e.kind not in ("call", "setitem", "mcall"):
            continue
        if e.kind == "call" and (operation(e) or e.term is term or
                                 e.fn.op == "ext" and
                                 e.fn.val.startswith("logging")):
            continue
        args = [a for a in e.args if a is not None]
        t = mk("tuple", *args)
        if not mentions(t, term):
            continue
        given = {x: TRUE for x in conjuncts(e.cond()) if x not in args}
        given.update({x: FALSE for a in args for x in walk(a)
                      if x.op == "sym" and isinstance(x.val, tuple) and
                      x.val[0] in ("exc", "guard")})
        args = [anyocc(resolve(subst(subst(a, given), {term: RESULT})))
                for a in args]
        what = show(e.fn) if e.fn is not None else "store"
        base = subst(e.term, {term: RESULT}) if e.kind == "setitem" and \
            e.term is not None else None
        out.append((e.kind, what, root_name(base), tuple(args), e))
    return out


def root_name(t):
    """the object a store goes to, without earlier stores"""
    while t is not None and t.op in ("store", "eta"):
        t = t.args[0]
    if t is None:
        return None
    if t.op == "sym" and isinstance(t.val, tuple) and t.val[0] == "mu":
        return str(t.val[-1])
    if t.op == "attr":
        return t.val
    return show(t, 2)


def results(chk, s, one, many, recv, root, w):
    ip = s.ip
    back = [e for op, e in s.events if op == "send" and
            many.term is not None and e.args and
            mentions(e.args[0], many.term)]
    for e in back:
        v = True if e.args[0] is many.term else None
        chk.decide("kept", "%s:%s:reply" % (root, w), v,
                   show(e.args[0], 3)[:80], e.where)
    master = None
    for op, e in s.events:
        if op == "recv" and e is not recv and possible(e, 0, 3):
            us = sinks(ip, e.term, lambda x, e=e: x.loops[:1] == e.loops[:1])
            ls = [y for o, y in s.events if o in ("send", "ssend") and
                  y.loops[:1] == e.loops[:1] and
                  base_of(one, s) in bases(y.args[0])]
            if ls:
                master = (e, us)
    mine = sinks(ip, one.term, lambda x: x.loops[:1] == one.loops[:1])
    if master is None:
        chk.unsure("kept", "%s:%s" % (root, w), "no replies found")
        return
    for what, us, at in (("one process", mine, one),
                         ("several processes", master[1], master[0])):
        used_once(chk, s, us, at, root, w, what)
    a = {(k, f, b, args): e for k, f, b, args, e in mine}
    b = {(k, f, o, args): e for k, f, o, args, e in master[1]}
    nest = {(k, f): 1 for k, f, b2, x, e in mine if len(e.loops) > 1}
    for key in sorted(set(a) | set(b), key=str):
        if key[:2] in nest:
            continue
        e = a.get(key) or b.get(key)
        label = "%s:%s:%s%s" % (root, w, key[1], "" if key[2] is None
                                else ":" + str(key[2]))
        if key in a and key in b:
            chk.ok("kept", label)
            continue
        if any(opaque_in(x) for x in key[3]) or \
                e.kind == "mcall" and "execute" not in key[1]:
            chk.unsure("kept", label, "only with %s" % (
                "one process" if key in a else "several processes"))
            continue
        other = [k for k in (b if key in a else a) if k[:3] == key[:3]]
        if e.kind == "setitem" and not other and key[2] is None:
            chk.unsure("kept", label)
            continue
        chk.violation("kept", label, "only with %s is the result used as %s"
                      % ("one process" if key in a else "several processes",
                         ", ".join(show(x, 4)[:60] for x in key[3])),
                      e.where)


# ------------------------------------------------------------ item lists
FILES = {"windfield": ["gust.001-00002.nc", "gust.123-04567.nc"],
         "tracks": ["tracks.00000.nc", "tracks.00123.nc"]}


def used_once(chk, s, uses, at, root, w, what):
    """a result is used at most once in the same way, whatever process it
    comes from"""
    rank, size = (0, 1) if what == "one process" else (0, 3)
    have = set(conjuncts(at_rank(strip_iter(at.cond()), rank, size)))
    byway = {}
    for k, f, b, args, e in uses:
        c = truth(at_rank(subst(strip_iter(e.cond()), {
            x: FALSE for x in s.failing}), rank, size))
        label = "%s:%s:%s:%s" % (root, w, f, what.replace(" ", "-"))
        odd = [x for x in conjuncts(c) if x not in have and (
            contains(x, lambda y: y.op == "status") or
            carried_index(x) and not mentions(x, at.term))]
        # the position is bounded where the item is picked
        odd = [x for x in odd if not opaque_in(x) or
               contains(x, lambda y: y.op == "status")]
        if odd:
            chk.violation("kept", label, "the result of an item is used "
                          "only if %s" % show(odd[0], 3)[:100], e.where)
            continue
        if not (e.kind == "call" and e.fn.op == "func" or
                e.kind == "mcall" and "execute" in f):
            continue
        for o, d in byway.get((f, args), []):
            if truth(mk("and", c, d)) is not FALSE and \
                    (o.node is not e.node or o.stack != e.stack):
                chk.violation("kept", label, "the result of an item is used "
                              "twice, at %s and here" % o.where, e.where)
                break
        byway.setdefault((f, args), []).append((e, c))


def complete(chk, root, X):
    """a list of files: everything the producer writes"""
    label = "%s:%s" % (root, folder(X) or "items")
    t = inside(X)
    if t.op != "comp":
        if t.op == "call" and t.args[0].op == "func":
            return
        chk.unsure("all", label, show(t, 3)[:80])
        return
    n, c, elt = t.args
    names = FILES.get(folder(X))
    src = [x for x in walk(n) if listing(x)]
    lst = n.args[0] if n.op == "len" else None
    if names is None or len(src) != 1 or lst is None or \
            inside(lst) is not src[0]:
        if n.op == "len" and n.args[0].op == "idx" and \
                n.args[0].args[1].op == "slice":
            chk.violation("all", label, "only part of the folder's files "
                          "are taken: %s" % show(n, 3)[:80])
        else:
            chk.unsure("all", label, show(n, 3)[:80])
        return
    k = sym("k", t.val[1])
    el = mk("idx", lst, k)
    for nm in names:
        v = decide_name(subst(c, {el: const(nm)}), nm)
        if v is FALSE:
            chk.violation("all", label, "a file named %s is left out" % nm)
            return
        if v is not TRUE:
            chk.unsure("all", label, show(v, 3)[:80])
            return
    chk.ok("all", label)


def inside(t):
    """the list without the calls that only copy or sort it"""
    while True:
        if t.op == "call" and t.args[0].op in ("ext", "builtin") and \
                str(t.args[0].val) in ("sorted", "list", "tuple"):
            t = t.args[1]
        elif t.op == "fn" and t.val in ("sorted", "list"):
            t = t.args[0]
        else:
            return t


def listing(x):
    return x.op == "call" and x.args[0].op == "ext" and \
        x.args[0].val in ("os.listdir", "glob.glob", "os.scandir")


def folder(X):
    for x in walk(X):
        if listing(x):
            for y in walk(x):
                for f in FILES:
                    if isstr(y) and strval(y).rstrip("/") == f:
                        return f
                    if y.op == "attr" and str(y.val).lower().startswith(
                            "wind" if f == "windfield" else "track"):
                        return f
    return None


def decide_name(c, nm):
    def f(x):
        if x.op == "mcall" and x.args and isstr(x.args[0]) and \
                all(isstr(a) for a in x.args[1:]):
            s, a = strval(x.args[0]), [strval(y) for y in x.args[1:]]
            if x.val == "startswith":
                return TRUE if s.startswith(*a) else FALSE
            if x.val == "endswith":
                return TRUE if s.endswith(*a) else FALSE
        if x.op == "call" and x.args[0].op == "ext" and \
                x.args[0].val in ("os.path.isfile", "os.path.exists"):
            return TRUE
        if x.op == "call" and x.args[0].op == "ext" and \
                x.args[0].val == "fnmatch.fnmatch" and len(x.args) == 3 and \
                isstr(x.args[2]):
            import fnmatch
            return TRUE if fnmatch.fnmatch(nm, strval(x.args[2])) else FALSE
        return None
    return truth(rewrite(c, f))


# ------------------------------------------------- items shared by position
FOLD = {"ceildiv": lambda a, b: max(0, -(-a // b)),
        "mod": lambda a, b: a % b, "floordiv": lambda a, b: a // b,
        "floor": lambda a: a}


class Sharing(object):
    """which elements of lists the iterations of loops get"""

    def __init__(self, rank, size, lens):
        self.env = {RANK: num(rank), SIZE: num(size)}
        self.lens = lens            # function: list term -> length

    def count(self, t):
        v = self.value(t)
        if v.op == "num":
            return int(v.val)
        raise Unclear("number of iterations %s" % show(v, 3)[:100])

    def value(self, t):
        return self.go(subst(t, self.env))

    def go(self, t):
        def f(x):
            if x.op == "fn" and x.val in FOLD and \
                    all(a.op == "num" for a in x.args):
                return num(FOLD[x.val](*[int(a.val) for a in x.args]))
            if x.op == "len":
                return self.length(x.args[0])
            if x.op == "idx" and len(x.args) == 2:
                s = sliced(x.args[0])
                if s is not None:
                    X, lo, hi, step = s
                    return mk("idx", X, add(lo, mul(step, x.args[1])))
            return None
        return rewrite(t, f)

    def length(self, X):
        s = sliced(X)
        if s is not None:
            Y, lo, hi, step = s
            n = self.length(Y)
            if n is None or any(v.op != "num" for v in (n, lo, step)):
                return None
            top = int(n.val) if hi is NONE else \
                min(int(n.val), int(hi.val)) if hi.op == "num" else None
            if top is None or step.val == 0:
                return None
            return num(len(range(int(lo.val), top, int(step.val))))
        return self.lens(X)


def sliced(X):
    """(list, first, end, step) of a slice of a list"""
    if X.op == "call" and X.args[0].op == "ext" and \
            X.args[0].val == "itertools.islice":
        a = list(X.args[2:])
        if len(a) == 1:
            return X.args[1], ZERO, a[0], ONE
        if len(a) == 2:
            return X.args[1], a[0], a[1], ONE
        return X.args[1], a[0], a[1], (ONE if a[2] is NONE else a[2])
    if X.op == "idx" and len(X.args) == 2 and X.args[1].op == "slice":
        lo, hi, st = X.args[1].args
        return X.args[0], (ZERO if lo is NONE else lo), hi, \
            (ONE if st is NONE else st)
    return None


def visits(ip, e, sh, loops):
    """values of the effect's term over all iterations of its loops"""
    out = []

    def go(us, env):
        if not us:
            c = truth(sh.value(subst(strip_iter(e.cond()), env)))
            if c is TRUE:
                v = sh.value(subst(e.term, env))
                if v.op == "star":
                    out.extend(sh.value(mk("idx", v.args[0], num(i)))
                               for i in range(sh.count(
                                   mk("len", v.args[0]))))
                else:
                    out.append(v)
            elif c is not FALSE:
                raise Unclear("condition %s" % show(c, 3)[:120])
            return
        L = loops[us[0]]
        c = subst(strip_iter(e.cond()), env)
        part = [truth(sh.value(x)) for x in conjuncts(c)
                if not has(x, L.k)]
        if any(x is FALSE for x in part):
            return
        if L.kind != "for":
            raise Unclear("while loop")
        n = sh.count(subst(L.domain.args[0], env))
        for k in range(n):
            m = dict(env)
            m[L.k] = num(k)
            go(us[1:], m)
    go([u for u in e.loops if u in loops], {})
    return out


def shared(prog, chk):
    """track files over processes"""
    q = "wind.loadTracksFromFiles"
    chk.need(q in prog.funcs, q)
    opaque = [x for x in ("wind.filterTracks", "wind.loadTracks")
              if x in prog.funcs]
    ip = analyse(prog, chk, q, opaque=opaque)
    ys = [e for e in ip.trace if e.kind == "yield"]
    if not ys:
        chk.unsure("once", q, "does not yield tracks one by one")
        return
    loops = {L.uid: L for L in ip.loops}
    files = sym("param", [a.arg for a in prog.funcs[q].node.args.args][0])
    T = 4
    bad = None
    n = 0
    try:
        for nf in (1, 2, 3, 5, 8):
            for size in (1, 2, 3, 4, 5):
                seen = {}

                def lens(X):
                    return num(nf) if X is files or \
                        X.op in ("call", "fn") and files in X.args \
                        else num(T)
                for rank in range(size):
                    sh = Sharing(rank, size, lens)
                    for e in ys:
                        for v in visits(ip, e, sh, loops):
                            seen[v] = seen.get(v, 0) + 1
                n += 1
                ids = {}
                for v, times in seen.items():
                    i = identify(v, files)
                    if i is None:
                        raise Unclear("track %s" % show(v, 4)[:100])
                    ids[i] = ids.get(i, 0) + times
                for i in itertools.product(range(nf), range(T)):
                    if ids.get(i, 0) != 1 and bad is None:
                        bad = (nf, size, i, ids.get(i, 0))
                for i in ids:
                    if not (i[0] < nf and i[1] < T) and bad is None:
                        bad = (nf, size, i, "past the end")
    except Unclear as x:
        chk.unsure("once", q, str(x))
    else:
        chk.decide("once", q, bad is None, "" if bad is None else
                   "with %d files and %d processes track %d of file %d is "
                   "handed out %s times" % (bad[0], bad[1], bad[2][1],
                                            bad[2][0], bad[3]),
                   ys[0].where)
    chk.count("sharing scenarios", n)
    ordered(prog, chk, q)
    filtered(prog, chk)
    dumped(prog, chk)


def dumped(prog, chk):
    """every track handed out leads to one wind field file"""
    q = W + "dumpGustsFromTracks"
    chk.need(q in prog.funcs, q)
    ip = analyse(prog, chk, q, opaque=[
        W + x for x in ("gustFileComplete", "calculateExtremesFromTrack",
                        "saveGustToFile", "gustFilename",
                        "calcLocalWindfield")])
    es = [e for e in ip.trace if e.kind == "call" and e.fn is not None and
          e.fn.op == "func" and e.fn.val == W + "saveGustToFile"]
    chk.need(es, "call of saveGustToFile in %s" % q)
    loops = {L.uid: L for L in ip.loops}
    tracks = sym("param", prog.funcs[q].node.args.args[1].arg)
    if any(len(e.loops) != 1 for e in es):
        chk.unsure("once", q, "not in one loop over the tracks")
        return
    L = loops[es[0].loops[0]]
    n = L.domain.args[0] if L.kind == "for" else None
    cs = []
    for e in es:
        c = strip_iter(e.cond())
        c = truth(rewrite(c, lambda x: FALSE if x.op == "call" and
                          x.args[0].op == "func" and
                          x.args[0].val.endswith("gustFileComplete")
                          else None))
        c = truth(subst(c, {x: FALSE for x in walk(c) if x.op == "sym" and
                            isinstance(x.val, tuple) and
                            x.val[0] in ("exc", "guard")}))
        cs.append(c)
    if any(c not in (TRUE, FALSE) for c in cs):
        if len(cs) == 1 and not opaque_in(cs[0]) and carried(cs[0], L):
            chk.violation("once", q, "a track that has no wind field yet is "
                          "saved only if %s" % show(cs[0], 3)[:100],
                          es[0].where)
            return
        if equal(mk("or", *cs), TRUE) is not True:
            chk.unsure("once", q, " or ".join(show(c, 3)[:60] for c in cs))
            return
    for b in L.leaves:
        c = truth(b)
        if c is not FALSE and contains(c, lambda x: x.op == "call" and
                                       x.args[0].op == "func" and
                                       x.args[0].val.startswith(W)) and \
                not opaque_in(c):
            chk.violation("once", q, "the tracks after one for which %s are "
                          "left out" % show(c, 3)[:100], es[0].where)
            return
    if n is None or equal(n, mk("len", tracks)) is not True or L.leaves:
        v = False if n is not None and not L.leaves and not opaque_in(n) \
            and equal(n, mk("len", tracks)) is False else None
        chk.decide("once", q, v, "%s" % show(L.domain, 3)[:80], es[0].where)
        return
    k = sum(1 for c in cs if c is TRUE)
    chk.decide("once", q, k == 1 or len(cs) > 1 and k == 0,
               "each track is saved %d times" % k, es[0].where)


def carried(c, L):
    return has(c, L.k) or contains(c, lambda x: x in [
        m for m, i, nx in L.carried.values()])


def identify(v, files):
    """(file number, track number) of a track term"""
    if v.op != "idx" or v.args[1].op != "num":
        return None
    fs = [x for x in walk(v.args[0]) if x.op == "idx" and
          (x.args[0] is files or files in x.args[0].args) and
          x.args[1].op == "num"]
    if len(set(fs)) != 1:
        return None
    return int(fs[0].args[1].val), int(v.args[1].val)


def ordered(prog, chk, q):
    """the list handed to the sharing function has one order everywhere"""
    for root in ("wind.run", "wind.loadTracksFromPath"):
        if root not in prog.funcs:
            continue
        ip = analyse(prog, chk, root, opaque=[
            q, W + "calculateExtremesFromTrack", W + "dumpGustsFromTracks",
            "Utilities.timeseries.Timeseries"])
        for e in ip.trace:
            if e.kind == "call" and e.fn is not None and \
                    e.fn.op == "func" and e.fn.val == q and e.args:
                t = e.args[0]
                if not contains(t, listing):
                    chk.unsure("order", root, show(t, 3)[:80])
                    continue
                s = t.op in ("call", "fn") and (
                    t.val == "sorted" or t.args[0].op in ("ext", "builtin")
                    and str(t.args[0].val) in ("sorted", "numpy.sort"))
                chk.decide("order", root, True if s else False,
                           "the files are shared out in the order the "
                           "directory lists them, which need not be the "
                           "same for every process: %s" % show(t, 3)[:80],
                           e.where)
                if s and root == "wind.run":
                    complete(chk, root, t)


def filtered(prog, chk):
    """only tracks outside the region are left out, and none is repeated"""
    q = "wind.filterTracks"
    if q not in prog.funcs:
        return
    ip = analyse(prog, chk, q, opaque=["wind.inRegion"])
    a = [x.arg for x in prog.funcs[q].node.args.args]
    tracks, limit = sym("param", a[0]), sym("param", a[1])
    for none in (True, False):
        r = subst(ip.result, {is_(limit, NONE): TRUE if none else FALSE})
        label = q + (":no region" if none else ":region")
        if r is tracks:
            chk.decide("all", label, True if none else None)
            continue
        if r.op == "comp" and r.args[0] is mk("len", tracks):
            k = sym("k", r.val[1])
            same = r.args[2] is mk("idx", tracks, k)
            c = r.args[1]
            inr = c.op == "call" and c.args[0].op == "func" and \
                c.args[0].val == "wind.inRegion"
            if same and (inr or c is TRUE) and not none:
                chk.ok("all", label)
                continue
        chk.unsure("all", label, show(r, 3)[:80])


# ------------------------------------------------------------- simulations
def simulations(prog, chk):
    root = "TrackGenerator.TrackGenerator.run"
    chk.need(root in prog.funcs, root)
    save = "Utilities.track.ncSaveTracks"
    ip = analyse(prog, chk, root, opaque=[
        "TrackGenerator.TrackGenerator.TrackGenerator", save,
        "TrackGenerator.trackLandfall.LandfallDecay",
        "TrackGenerator.TrackGenerator.SamplePressure"])
    es = [e for e in ip.trace if e.kind == "call" and e.fn is not None and
          e.fn.op == "func" and e.fn.val == save]
    chk.need(es, "call of %s below %s" % (save, root))
    if len(es) != 1 or len(es[0].loops) != 1:
        chk.unsure("once", root, "%d calls" % len(es))
        return
    e = es[0]
    loops = {L.uid: L for L in ip.loops}
    L = loops[e.loops[0]]
    fname = e.args[0]
    idx = [x for x in walk(fname) if x.op == "attr" and
           x.args[0].op == "idx"]
    nsim = [x for x in walk(mk("tuple", L.domain))
            if x.op == "cfg" and cfg_of(x) ==
            ("TrackGenerator", "NumSimulations")]
    for X in walk(mk("tuple", L.domain)):
        if X.op == "comp" and X.args[1] is not TRUE and \
                plain_element(X.args[1]):
            chk.violation("once", root, "only simulations for which %s are "
                          "run" % show(X.args[1], 3)[:100], e.where)
            return
    bad = None
    try:
        for n in (1, 2, 3, 5, 8):
            for size in (1, 2, 3, 4, 5, 9):
                seen = {}
                for rank in range(size):
                    sh = Sharing(rank, size, lambda X: length_of(X, n))

                    class Named(object):
                        cond = e.cond
                        loops = e.loops
                        term = item_of(prog, ip, mk("tuple", fname))
                    for v in visits(ip, Named, sh, loops):
                        seen[v] = seen.get(v, 0) + 1
                for v, times in seen.items():
                    if times != 1 and bad is None:
                        bad = "with %d simulations and %d processes %s is " \
                            "written %d times" % (n, size, show(v)[-60:],
                                                  times)
                if len(seen) != n and bad is None:
                    bad = "with %d simulations and %d processes %d track " \
                        "files are written" % (n, size, len(seen))
    except Unclear as x:
        chk.unsure("once", root, str(x))
    else:
        chk.decide("once", root, bad is None, bad or "", e.where)
    whole(chk, ip, root, e, L)


def plain_element(c):
    """a condition on the drawn number of a simulation"""
    return c.op in ("lt0", "le0", "eq0", "ne0") and \
        contains(c, lambda x: x.op == "idx") and \
        contains(c, lambda x: x.op in ("call", "mcall") and
                 "poisson" in show(x, 3)) and \
        not contains(c, lambda x: x in (RANK, SIZE))


def length_of(X, n):
    """length of the list of simulations"""
    if X.op == "comp" and X.args[1] is TRUE:
        t = X.args[0]
        return num(n) if t.op == "len" or t.op == "cfg" else \
            subst(t, {y: num(n) for y in walk(t)
                      if y.op in ("len", "cfg")})
    if X.op in ("call", "mcall"):
        return num(n)
    return None


def whole(chk, ip, root, e, L):
    """as many simulations as configured, numbered from 0"""
    draws = [x for x in ip.trace if x.kind == "call" and x.fn is not None and
             x.fn.op == "ext" and x.fn.val == "numpy.random.poisson"]
    if len(draws) != 1:
        chk.unsure("all", root, "%d draws of track numbers" % len(draws))
        return
    d = draws[0]
    size = d.kw.get("size", d.args[1] if len(d.args) > 1 else None)
    ok = size is not None and cfg_of(size) == ("TrackGenerator",
                                               "NumSimulations")
    chk.decide("all", root, True if ok else
               None if size is None or opaque_in(size) else False,
               "%s simulations are made" % (show(size, 3) if size is not None
                                            else "?"), d.where)
