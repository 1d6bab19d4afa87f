"""The communication of a stage as a transition system read from the source:
the synchronisation, send and receive calls of a root function with the
conditions, loop counters and loop bounds they stand under."""
import itertools
from sa.util import *

COMM = "MPI.COMM_WORLD."
WANTED = ("send", "recv", "barrier", "Barrier", "isend", "irecv", "bcast",
          "gather", "scatter", "allreduce", "reduce", "allgather", "Send",
          "Recv", "Bcast", "ssend", "sendrecv")
ANY = ("any",)


class Unclear(Exception):
    pass


class Beyond(Exception):
    pass


def operation(e):
    """name of the communication call of an effect, or None"""
    if e.kind == "call" and e.fn is not None and e.fn.op == "ext" and \
            e.fn.val.startswith(COMM) and e.fn.val[len(COMM):] in WANTED:
        return e.fn.val[len(COMM):]
    return None


class System(object):
    """what one root function communicates"""

    def __init__(self, prog, chk, root, opaque=(), watch=()):
        self.root = root
        self.prog = prog
        self.mode, self.guessed = None, set()
        self.ip = ip = analyse(prog, chk, root, opaque=list(opaque))
        self.watch = watch
        self.events = []
        for e in ip.trace:
            op = operation(e)
            if op or self.watched(e):
                self.events.append((op, e))
        self.loops = {L.uid: L for L in ip.loops}
        self.lists = self.item_lists()
        self.failing = set()
        ts = [t for op, e in self.events
              for t in [e.cond()] + list(e.args) + list(e.kw.values())
              if t is not None]
        for L in ip.loops:
            ts += [t for mu, a, b in L.carried.values() for t in (a, b)]
        seen = set()
        for t in ts:
            for x in walk(t):
                if x not in seen:
                    seen.add(x)
                    if x.op == "sym" and isinstance(x.val, tuple) and \
                            x.val[0] in ("exc", "guard"):
                        self.failing.add(x)

    def watched(self, e):
        if e.kind == "call" and e.fn is not None and e.fn.op == "func":
            return e.fn.val in self.watch or \
                e.fn.val.split(".")[-1] in self.watch
        return False

    def count(self, *ops):
        return sum(1 for op, e in self.events if op in ops)

    def item_lists(self):
        """lists that work items are picked from: their elements are sent"""
        out = []
        for op, e in self.events:
            if op not in ("send", "isend", "ssend") or not e.args:
                continue
            todo = [e.args[0]]
            while todo:
                x = todo.pop()
                if x.op == "idx" and len(x.args) == 2 and \
                        carried_index(x.args[1]):
                    if x.args[0] not in out:
                        out.append(x.args[0])
                elif x.op not in ("comp", "eta", "new"):
                    todo.extend(x.args)
        return out

    def free_atoms(self):
        """conditions of communication that depend on neither the process
        nor counters"""
        out = []
        for op, e in self.events:
            if not op:
                continue
            cs = [e.cond()]
            for x in atoms_of(cs[0]):
                if not foreign(x, self.lists) and x not in out:
                    out.append(x)
        return out


def carried_index(t):
    return contains(t, lambda x: x.op == "sym" and
                    isinstance(x.val, tuple) and x.val[0] in ("mu", "k"))


def atoms_of(c):
    """leaves of a condition"""
    if c.op in ("and", "or", "not"):
        out = []
        for a in c.args:
            out += atoms_of(a)
        return out
    if c in (TRUE, FALSE) or c.op == "iter":
        return []
    return [c]


def foreign(x, lists):
    """does the condition depend on the process, a counter, a message or the
    number of items?"""
    def bad(y):
        if y in (RANK, SIZE):
            return True
        if y.op == "sym" and isinstance(y.val, tuple) and \
                y.val[0] in ("mu", "k"):
            return True
        if y.op == "len" and y.args[0] in lists:
            return True
        return y.op == "call" and y.args[0].op == "ext" and \
            y.args[0].val.startswith(COMM)
    return contains(x, bad)


ASKS = ("isinstance", "issubclass", "hasattr", "callable", "type",
        "getattr")


def of_contents(x):
    """a condition on the contents of items or results and nothing else"""
    if contains(x, lambda y: y in (RANK, SIZE) or y.op == "sym" and
                isinstance(y.val, tuple) and
                y.val[0] in ("mu", "k", "exc", "guard", "brk", "glob") or
                y.op in ("glob", "status") or
                y.op in ("ext", "builtin") and
                str(y.val).split(".")[-1] in ASKS):
        return False
    return contains(x, lambda y: y.op == "call" and
                    y.args[0].op == "func" or y.op == "mcall" or
                    y.op == "const" and isinstance(y.val, tuple) and
                    str(y.val[1]).startswith("item "))


def never_none(prog, x):
    """'is None' of a function that does not return None"""
    if x.op != "cmp" or x.val != "is" or NONE not in x.args:
        return None
    c = [a for a in x.args if a is not NONE]
    if len(c) != 1 or c[0].op != "call" or c[0].args[0].op != "func" or \
            c[0].args[0].val not in prog.funcs:
        return None
    import ast
    f = prog.funcs[c[0].args[0].val].node
    rets = [n for n in ast.walk(f) if isinstance(n, ast.Return)]
    if not rets or not isinstance(f.body[-1], ast.Return):
        return None
    for r in rets:
        v = r.value
        if v is None or isinstance(v, ast.Constant) and v.value is None:
            return None
        if isinstance(v, (ast.List, ast.Tuple, ast.Dict, ast.ListComp)):
            continue
        if isinstance(v, ast.Name) and all(
                isinstance(n.value, (ast.List, ast.Tuple, ast.ListComp))
                for n in ast.walk(f) if isinstance(n, ast.Assign) and
                any(isinstance(t, ast.Name) and t.id == v.id
                    for t in n.targets)):
            continue
        return None
    return FALSE


class Process(object):
    """one process of the system as a coroutine of communications"""

    def __init__(self, system, rank, size, counts, choice):
        self.s = system
        self.env = {RANK: num(rank), SIZE: num(size)}
        self.got, self.about = {}, {}
        self.count = 0
        for X, n in zip(system.lists, counts):
            i = system.lists.index(X)
            self.env[mk("len", X)] = num(n)
            self.env[X] = mk("items", val=i)
            for j in range(n):
                self.about[mk("idx", mk("items", val=i), num(j))] = mk(
                    "const", val=("str", "item %d of %d" % (j, i)))
        # nothing fails on the way
        for x in system.failing:
            self.env[x] = FALSE
        self.env.update(choice)
        self.rank = rank
        self.log = []
        self.gen = self.run()
        self.want = None
        self.done = False

    def value(self, t, extra=None):
        m = dict(self.env)
        m.update(self.got)
        if extra:
            m.update(extra)
        return subst(subst(t, m), self.about)

    def holds(self, t, extra=None):
        v = truth(self.value(strip_iter(t), extra))
        if v is TRUE:
            return True
        if v is FALSE:
            return False
        if contains(v, lambda x: x.op == "idx" and x.args[0] is NONE):
            raise Beyond(None, "process %d takes an element of the stop "
                         "message None" % self.rank)
        if self.s.mode is not None:
            g = self.guess(v)
            if g is not None:
                return g
        raise Unclear("condition %s" % show(v, 4)[:160])

    def guess(self, c):
        """value of a condition on what items and results contain, when all
        such conditions hold or none does"""
        m = {}
        for x in atoms_of(c):
            if not of_contents(x):
                return None
            n = never_none(self.s.prog, x)
            m[x] = n if n is not None else self.s.mode
        self.s.guessed.add(c)
        v = truth(subst(c, m))
        return v is TRUE if v in (TRUE, FALSE) else None

    def run(self):
        i = 0
        ev = self.s.events
        while i < len(ev):
            op, e = ev[i]
            if not e.loops:
                yield from self.one(op, e, {})
                i += 1
                continue
            u = e.loops[0]
            j = i
            while j < len(ev) and ev[j][1].loops[:1] == (u,):
                j += 1
            yield from self.loop(self.s.loops[u], ev[i:j])
            i = j

    def loop(self, L, body):
        if any(len(e.loops) > 1 for op, e in body):
            inner = [e for op, e in body if len(e.loops) > 1 and op]
            if inner:
                raise Unclear("communication in nested loops")
            body = [(op, e) for op, e in body if len(e.loops) == 1]
        # outside the branch the loop stands in?
        mus = {}
        for mu, init, nxt in L.carried.values():
            mus[mu] = self.value(init)
        limit = None
        if L.kind == "for":
            n = self.value(L.domain.args[0])
            if n.op != "num":
                if not any(op for op, e in body):
                    return
                if not self.possible(body, mus):
                    return
                raise Unclear("number of iterations %s" % show(n, 3)[:120])
            limit = int(n.val)
        k = 0
        while True:
            env = dict(mus)
            env[L.k] = num(k)
            if limit is not None and k >= limit:
                break
            if limit is None:
                outer = self.context(L, body, env)
                if outer is False:
                    break
                if L.domain is not None and not self.holds(L.domain, env):
                    break
            for op, e in body:
                yield from self.one(op, e, env)
            stop = any(self.holds(b, env) for b in L.leaves)
            new = {mu: self.value(nxt, env)
                   for mu, init, nxt in L.carried.values()}
            if stop:
                break
            mus = new
            k += 1
            if k > 200:
                raise Beyond(body[0][1], "process %d goes on for ever" %
                             self.rank)
        for mu, init, nxt in L.carried.values():
            if nxt is not mu:
                self.env[self.s.ip.eta(L, mu, init, nxt)] = mus[mu]

    def possible(self, body, mus):
        for op, e in body:
            try:
                if self.holds(e.cond(), mus):
                    return True
            except Unclear:
                return True
        return False

    def context(self, L, body, env):
        """False if the branch the loop stands in is not taken"""
        for op, e in body:
            for c in conjuncts(e.cond()):
                v = self.value(c, env)
                if v is FALSE and not carried_index(c):
                    break
            else:
                return True
        return False

    def one(self, op, e, env):
        if not self.holds(e.cond(), env):
            return
        if op is None:
            self.log.append(("call", e, [self.value(a, env) for a in e.args
                                         if a is not None]))
            return
        if op in ("barrier", "Barrier"):
            yield ("barrier", e)
        elif op in ("send", "ssend"):
            a = dict(e.kw)
            names = ["obj", "dest", "tag"]
            for nme, v in zip(names, e.args):
                a.setdefault(nme, v)
            v = self.value(a["obj"], env)
            for x in walk(v):
                if x.op == "idx" and x.args[0].op == "items":
                    raise Beyond(e, "process %d picks item %s" % (
                        self.rank, show(x.args[1])))
            yield ("send", self.number(a.get("dest"), env),
                   self.number(a.get("tag", ZERO), env),
                   v, e)
        elif op == "recv":
            a = dict(e.kw)
            for nme, v in zip(["buf", "source", "tag"], e.args):
                a.setdefault(nme, v)
            src = self.number(a["source"], env) if "source" in a else ANY
            tag = self.number(a["tag"], env) if "tag" in a else ANY
            m = yield ("recv", src, tag, e)
            # the message and what the status object says about it
            self.got[e.term] = m[2]
            self.count += 1
            st = mk("message", val=(self.rank, self.count))
            self.got[mk("status", e.term)] = st
            for name, v in (("source", num(m[0])), ("tag", num(m[1]))):
                self.about[mk("attr", st, val=name)] = v
            for name, v in (("Get_source", num(m[0])),
                            ("Get_tag", num(m[1]))):
                self.about[mk("mcall", st, val=name)] = v
            self.log.append(("recv", e, m))
        else:
            raise Unclear("%s is not modelled" % op)

    def number(self, t, env):
        if t is None:
            raise Unclear("addressee")
        v = self.value(t, env)
        if v.op == "ext" and "ANY" in v.val:
            return ANY
        if v.op == "attr" and v.args[0].op == "call" and \
                v.args[0].args[0].op == "ext" and \
                v.args[0].args[0].val == "MPI.Status":
            raise Beyond(None, "process %d uses the sender of a message "
                         "before it has received one" % self.rank)
        if v.op != "num":
            raise Unclear("address or tag %s" % show(v, 3)[:100])
        return int(v.val)

    def advance(self, message=None):
        try:
            self.want = self.gen.send(message)
        except StopIteration:
            self.want = None
            self.done = True


class Problem(object):
    def __init__(self, kind, detail, e):
        self.kind, self.detail, self.e = kind, detail, e


def simulate(system, size, counts, choice, order):
    """let the processes communicate; returns (processes, problem or None).
    A send completes when its addressee receives it."""
    ps = [Process(system, r, size, counts, choice) for r in range(size)]
    for p in ps:
        p.advance()
    for step in range(5000):
        if all(p.done for p in ps):
            return ps, None
        # synchronisation point
        if all(p.want and p.want[0] == "barrier" for p in ps):
            if len({p.want[1] for p in ps}) > 1:
                pass        # any barrier matches any other
            for p in ps:
                p.advance()
            continue
        pairs = []
        for s in ps:
            if not s.want or s.want[0] != "send":
                continue
            dest, tag = s.want[1], s.want[2]
            if not 0 <= dest < size:
                return ps, Problem("address", "process %d sends to process "
                                   "%d of %d" % (s.rank, dest, size),
                                   s.want[4])
            d = ps[dest]
            if d.want and d.want[0] == "recv" and \
                    d.want[1] in (ANY, s.rank) and d.want[2] in (ANY, tag):
                pairs.append((s, d))
        if not pairs:
            return ps, stuck(ps)
        s, d = pairs[order % len(pairs)] if order >= 0 else pairs[-1]
        m = (s.rank, s.want[2], s.want[3])
        s.advance()
        d.advance(m)
    return ps, Problem("endless", "does not end", None)


def stuck(ps):
    """what the processes that cannot go on are waiting for"""
    best = None
    for p in ps:
        if p.done:
            continue
        w = p.want
        if w[0] == "recv":
            text = "waits for a message from %s with tag %s" % (
                "anyone" if w[1] == ANY else "process %d" % w[1],
                "any" if w[2] == ANY else w[2])
            rank = 1
        elif w[0] == "send":
            text = "sends %s to process %d with tag %s, which never " \
                "receives it" % (show(w[3], 2)[:60], w[1], w[2])
            rank = 0
        else:
            text = "waits at a synchronisation point"
            rank = 2
        cand = (rank, p.rank, "process %d %s" % (p.rank, text), w[-1])
        if best is None or cand[:2] < best[:2]:
            best = cand
    others = ", ".join("process %d %s" % (
        p.rank, "has finished" if p.done else "is at %s" % p.want[0])
        for p in ps if p.rank != best[1])
    return Problem("stuck", best[2] + " (" + others + ")", best[3])


def explore(system, chk, rule, label, sizes=(1, 2, 3, 4), most=6,
            after=None):
    """all small numbers of processes and items, all configurations, several
    orders in which replies arrive"""
    free = system.free_atoms()
    if len(free) > 6:
        chk.unsure(rule, label, "%d independent conditions" % len(free))
        return
    n = len(system.lists)
    runs = 0
    problems = {}
    unclear = None
    for size in sizes:
        for counts in item_counts(n, most if size > 1 else 4):
            for bits in itertools.product((TRUE, FALSE), repeat=len(free)):
                choice = dict(zip(free, bits))
                system.choice = bits
                for order in (0, -1, 1) if size > 2 and any(counts) else (0,):
                    runs += 1
                    try:
                        ps, bad = simulate(system, size, counts, choice,
                                           order)
                    except Unclear as x:
                        unclear = str(x)
                        break
                    except Beyond as x:
                        bad = Problem("item", x.args[1], x.args[0])
                    if bad is not None:
                        problems.setdefault(bad.kind, (bad, size, counts))
                    elif after is not None:
                        after(system, ps, size, counts)
                if unclear:
                    break
            if unclear:
                break
        if unclear:
            break
    chk.count("communication scenarios", runs)
    if unclear and system.mode is None:
        # a condition on contents: try it both ways
        for mode in (TRUE, FALSE):
            system.mode, system.guessed = mode, set()
            for size, counts, bits in itertools.product(
                    sizes, item_counts(n, 3), itertools.product(
                        (TRUE, FALSE), repeat=len(free))):
                try:
                    ps, bad = simulate(system, size, counts, dict(
                        zip(free, bits)), 0)
                except Unclear:
                    continue
                except Beyond as x:
                    bad = Problem("item", x.args[1], x.args[0])
                if bad is not None and bad.kind == "stuck":
                    c = sorted(show(g, 3) for g in system.guessed)
                    system.mode = None
                    chk.violation(
                        rule, "%s:%s" % (label, bad.kind),
                        "with %d processes and %s work items, when %s "
                        "is %s, %s" % (
                            size, " and ".join(map(str, counts)),
                            " and ".join(c)[:120],
                            "true" if mode is TRUE else "false",
                            bad.detail),
                        bad.e.where if bad.e is not None else "")
                    return
            system.mode = None
    if unclear:
        chk.unsure(rule, label, unclear)
        return
    if problems:
        for kind, (bad, size, counts) in sorted(problems.items()):
            chk.violation(rule, "%s:%s" % (label, kind),
                          "with %d processes and %s work items %s" % (
                              size, " and ".join(map(str, counts)) or "no",
                              bad.detail),
                          bad.e.where if bad.e is not None else "")
    else:
        chk.ok(rule, label)


def item_counts(n, most):
    if n == 0:
        return [()]
    out = []
    for i in range(n):
        for c in range(most + 1):
            v = tuple(c if j == i else 2 for j in range(n))
            if v not in out:
                out.append(v)
    return out
