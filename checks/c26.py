"""C26: threads share the segments of a raster."""
import ast
from sa.util import *
import sa.terms as TM
from sa.evaluate import Values, Unknown
from checks.c18 import where

P = "ProcessMultipliers.processMultipliers."
V2, SEG = P + "processMultV2", P + "processMultiplierSegment"
BANDS = P + "loadAllBandArrayData"
OPAQUE = [P + "createRaster", P + "reprojectDataset", P + "calculateBearing"]
LOCKS = ("Lock", "RLock", "Semaphore", "BoundedSemaphore", "Condition")
SIZES = [(c, r, s) for c in (1, 2, 3, 4, 5, 7) for r in (1, 2, 3, 6)
         for s in (1, 2, 3, 4, 8)]


def check(prog, chk):
    chk.rule("cover", "the segments put in the queue cover the raster "
             "exactly once")
    chk.rule("room", "all segments fit in the queue before the threads start")
    chk.rule("taken", "every segment taken from the queue is read and "
             "written once, at its own place")
    chk.rule("locked", "a raster object used by several threads is only "
             "touched while the same lock is held")
    chk.rule("released", "every lock taken is released on all paths")
    chk.rule("order", "no lock is waited for while another thread can hold "
             "it and wait in turn")
    chk.rule("ends", "threads end when no segment is left, and the output "
             "is used only after they have ended")
    chk.rule("own", "what a thread works on is its own: no name shared by "
             "the threads is set without a lock")
    chk.rule("started", "at least one thread is started, whatever their "
             "number is set to")
    chk.rule("errors", "an error in a thread is not lost")
    for q in (V2, SEG, BANDS):
        chk.need(q in prog.funcs, q)
    main = analyse(prog, chk, V2, opaque=OPAQUE)
    tasks = submitted(prog, chk, main)
    chk.need(tasks, "functions handed to threads in " + V2)
    for t in tasks:
        t.ip = analyse(prog, chk, t.qual)
    chk.count("thread functions", len({t.qual for t in tasks}))
    locked(prog, chk, main, tasks)
    released(prog, chk, [main] + [t.ip for t in tasks])
    ordered(prog, chk, tasks)
    waits(prog, chk, main, tasks)
    own(prog, chk, tasks)
    started(prog, chk, main, tasks)
    errors(chk, main, tasks)
    for t in tasks:
        q = [p for p, a in t.args.items() if is_queue(a)]
        if q:
            worker(prog, chk, main, t, q[0])
    if not any(is_queue(a) for t in tasks for a in t.args.values()):
        each(prog, chk, main, tasks)


class Task(object):
    pass


def own(prog, chk, tasks):
    seen = set()
    for t in tasks:
        if t.qual in seen:
            continue
        seen.add(t.qual)
        bad = set()
        for f in {e.func for e in t.ip.trace if e.func is not None} | {
                prog.funcs[t.qual]}:
            shared = {n for x in ast.walk(f.node) if isinstance(
                x, ast.Global) for n in x.names}
            loads = {x.id for x in ast.walk(f.node) if isinstance(
                x, ast.Name) and isinstance(x.ctx, ast.Load)}
            for n in sorted(shared & loads):
                sets = [x for x in ast.walk(f.node) if isinstance(
                    x, ast.Name) and x.id == n and
                    isinstance(x.ctx, ast.Store)]
                free = [x for x in sets if not enclosing(
                    f.node, x, (ast.With,))]
                if free:
                    bad.add((n, f.qual.split(".")[-1],
                             "%s:%d in %s" % (f.module.path, free[0].lineno,
                                              f.qual)))
            for n, x in written_globals(f):
                if not enclosing(f.node, x, (ast.With,)):
                    bad.add((n, f.qual.split(".")[-1], "%s:%d in %s" % (
                        f.module.path, x.lineno, f.qual)))
        for n, fn, w in sorted(bad):
            chk.violation("own", "%s:%s" % (fn, n), "%s is shared by the "
                          "threads and set without a lock" % n, w)
        if not bad:
            chk.ok("own", t.qual.split(".")[-1])


def started(prog, chk, main, tasks):
    for t in tasks:
        if not any(is_queue(a) for a in t.args.values()):
            continue
        name = t.qual.split(".")[-1]
        for n in (1, 2, 5):
            env = {sym("param", "max_working_threads"): n}
            count = 1
            try:
                for u in t.e.loops:
                    L = [x for x in main.loops if x.uid == u][0] \
                        if not isinstance(main.loops, dict) \
                        else main.loops[u]
                    d = L.domain
                    if d is None or d.op != "dom":
                        raise Unknown(str(d))
                    count *= Values(main, env)(d.args[0])
            except (Unknown, TypeError, ValueError, IndexError) as ex:
                chk.unsure("started", name, str(ex)[:100])
                break
            chk.decide("started", "%s:%d" % (name, n), count >= 1 or False,
                       "with %d threads asked for, %s are started" % (
                           n, count), t.e.where)


def errors(chk, main, tasks):
    if not any(t.e.kind == "mcall" and strval(t.e.fn) == "submit"
               for t in tasks):
        return
    asked = [e for e in main.trace if e.kind == "mcall" and strval(e.fn) in (
        "result", "exception", "add_done_callback")]
    chk.decide("errors", V2.split(".")[-1], bool(asked) or False, "the "
               "results of the threads are never asked for, so an error in "
               "one leaves its segments unwritten unnoticed",
               tasks[0].e.where)


def submitted(prog, chk, main):
    out = []
    for e in main.trace:
        if e.kind == "mcall" and strval(e.fn) in ("submit", "map",
                                                  "apply_async"):
            f, args, kw = e.args[0] if e.args else None, e.args[1:], e.kw
        elif e.kind in ("call", "new") and e.term.op == "call" and \
                e.term.args[0].op == "ext" and \
                e.term.args[0].val == "threading.Thread":
            f = arg(e, "target", 1)
            a = arg(e, "args", 3)
            args, kw = tuple_items(a) if a is not None else (), {}
        else:
            continue
        if f is None or f.op not in ("func", "bound") or args is None:
            chk.unsure("taken", "thread", "thread function not resolved: %s"
                       % show(e.term, 3))
            continue
        q = funcname(f)
        if q not in prog.funcs:
            chk.unsure("taken", "thread", "thread function not resolved")
            continue
        t = Task()
        t.qual, t.e, t.many = q, e, bool(e.loops)
        names = [a.arg for a in prog.funcs[q].node.args.args]
        t.args = dict(zip(names, args))
        for k, v in (kw.items() if isinstance(kw, dict) else kw or ()):
            t.args[k] = v
        out.append(t)
    return out


def funcname(f):
    v = f.val
    if isinstance(v, tuple):
        v = v[0]
    return getattr(v, "qual", v)


def is_queue(t):
    return t.op == "call" and t.args[0].op == "ext" and \
        str(t.args[0].val).startswith("queue.")


# ------------------------------------------------------------------ locks
def is_lock(prog, t):
    if t.op == "glob":
        m = prog.modules.get(t.val[0])
        ent = m.ns.get(t.val[1]) if m else None
        if ent and ent[0][0] == "assign":
            v = ent[0][1][1]
            return isinstance(v, ast.Call) and \
                ast.unparse(v.func).split(".")[-1] in LOCKS
        return None
    if t.op == "call" and t.args[0].op == "ext":
        return str(t.args[0].val).startswith("threading.")
    return None


def label(t):
    return t.val[1] if t.op == "glob" else show(t, 2)


def frame_node(e, i):
    return e.stack[i + 1][1] if i + 1 < len(e.stack) else e.node


def within(w, e):
    """e happens in the body of the with statement entered by w"""
    n = len(w.stack)
    if len(e.stack) < n or any(
            a[1] is not b[1] for a, b in zip(w.stack, e.stack)):
        return False
    x = frame_node(e, n - 1)
    return any(y is x for s in w.node.body for y in ast.walk(s))


def held(prog, trace, e):
    """(locks certainly held at e, whether other locks may be held)"""
    out, maybe = set(), False
    for w in trace:
        if w.seq >= e.seq:
            break
        if w.kind == "enter" and within(w, e):
            k = is_lock(prog, w.term)
            if k:
                out.add(w.term)
            elif k is None and not (w.term.op == "call" and "Executor" in
                                    show(w.term, 1)):
                maybe = True
        elif w.kind == "mcall" and strval(w.fn) in ("acquire", "release"):
            lk = w.extra if w.extra is not None else w.term.args[0]
            k = is_lock(prog, lk)
            if not k:
                maybe = True
                continue
            c = w.cond()
            sure = all(x in conjuncts(e.cond()) for x in conjuncts(c))
            if strval(w.fn) == "acquire":
                if sure and not w.args and not w.kw:
                    out.add(lk)
                else:
                    maybe = True
            else:
                out.discard(lk)
    return out, maybe


def roots(t, depth=0):
    """raster objects a term stands for: the datasets bands belong to"""
    if depth > 30:
        return set()
    if t.op == "handle":
        return {t}
    if t.op == "mcall":
        if t.val == "Create":
            return {t}
        if t.val in ("GetRasterBand", "GetDataset"):
            return roots(t.args[0], depth + 1)
        return set()
    if t.op == "call":
        f = t.args[0]
        n = str(funcname(f) if f.op != "ext" else f.val)
        if n.split(".")[-1] in ("createRaster", "Open", "OpenEx"):
            return {t}
        return set()
    if t.op in ("phi", "concat", "append", "list", "tuple", "comp", "store",
                "update", "eta", "last", "idx", "select"):
        r = set()
        for a in t.args:
            r |= roots(a, depth + 1)
        return r
    return set()


def touches(ip, names):
    """effects on objects reached from the given parameters"""
    def base(t, own):
        while True:
            if t.op == "idx" or own and t.op == "attr" or t.op == "mcall" and t.val in (
                    "GetRasterBand", "GetDataset"):
                t = t.args[0]
            else:
                return t

    def reach(t, own=True):
        b = base(t, own)
        if b.op == "phi":
            return reach(b.args[1], own) | reach(b.args[2], own)
        if b.op == "sym" and b.val[0] == "param" and b.val[1] in names:
            return {b.val[1]}
        return set()
    for e in ip.trace:
        if e.kind == "mcall":
            for n in reach(e.extra if e.extra is not None
                           else e.term.args[0]):
                yield n, e
        if e.kind in ("mcall", "call") and e.term.op in ("call", "mcall") \
                and not (e.term.op == "call" and
                         e.term.args[0].op == "func"):
            for a in e.args:
                if hasattr(a, "op"):
                    for n in reach(a, False):
                        yield n, e


def locked(prog, chk, main, tasks):
    users = {}
    for t in tasks:
        t.objs = {p: roots(a) for p, a in t.args.items()}
        for p, rs in t.objs.items():
            for r in rs:
                users.setdefault(r, []).append((t, p))
    shared = {r: u for r, u in users.items()
              if len({id(t) for t, _ in u}) > 1 or any(t.many for t, _ in u)}
    chk.count("shared raster objects", len(shared))
    seen = {}
    for t in tasks:
        for p, e in touches(t.ip, set(t.args)):
            for r in t.objs.get(p, ()):
                if r in shared:
                    seen.setdefault(r, []).append((t, e, held(
                        prog, t.ip.trace, e)))
    # the thread that started them
    for r in shared:
        us = [t for t, _ in shared[r]]
        first = min(t.e.seq for t in us)
        for e in main.trace:
            if e.seq <= first or e.kind != "mcall" or strval(e.fn) == \
                    "submit":
                continue
            o = e.extra if e.extra is not None else e.term.args[0]
            if r not in roots(o):
                continue
            running = [t for t in us if t.e.seq < e.seq and
                       not joined(main, t, e)]
            if running:
                seen.setdefault(r, []).append((None, e, held(
                    prog, main.trace, e)))
    groups = {}
    for r, ts in seen.items():
        names = frozenset(p for _, p in shared[r])
        groups.setdefault(names, []).extend(ts)
    for names, ts in groups.items():
        nm = "/".join(sorted(names))
        common, maybe = None, False
        bad = None
        for t, e, (ls, m) in ts:
            own = {x for x in ls if x.op == "glob" or
                   x.op == "sym"}   # a lock made in the thread protects
            # nothing
            maybe = maybe or m
            if not own and bad is None:
                bad = e
            common = own if common is None else common & own
        if common:
            for e in {id(e): e for _, e, _ in ts}.values():
                chk.ok("locked", "%s %s" % (nm, strval(e.fn) or "call"),
                       "under " + ", ".join(sorted(label(x)
                                                   for x in common)))
        elif maybe:
            chk.unsure("locked", nm, "lock not resolved")
        else:
            e = bad or ts[-1][1]
            chk.violation("locked", nm, "%s is used by several threads and "
                          "%s is called %s" % (
                              nm, strval(e.fn) or "a function",
                              "without a lock" if bad is not None else
                              "under another lock than elsewhere"), e.where)


def joined(main, t, e):
    """the main thread has waited for t before e"""
    for w in main.trace:
        if w.seq <= t.e.seq:
            continue
        if w.seq >= e.seq:
            return False
        if w.kind == "exit" and isinstance(w.node, ast.With):
            ent = [x for x in main.trace if x.kind == "enter" and
                   x.node is w.node]
            if any(t.e.kind == "mcall" and x.term is (
                    t.e.extra if t.e.extra is not None
                    else t.e.term.args[0]) for x in ent):
                return True
        if waiting(w, t):
            return True
    return False


def waiting(w, t):
    if w.kind == "call" and w.term.op == "call" and \
            w.term.args[0].op == "ext" and \
            str(w.term.args[0].val) == "concurrent.futures.wait":
        rw = arg(w, "return_when", 2)
        if arg(w, "timeout", 1) not in (None, NONE):
            return False
        if rw is not None and "FIRST_COMPLETED" in show(rw, 2):
            return False
        return bool(w.args) and mentions(w.args[0], t.e.term)
    if w.kind == "mcall" and strval(w.fn) in ("result", "join", "exception"):
        o = w.extra if w.extra is not None else w.term.args[0]
        return mentions(o, t.e.term) and not w.args
    if w.kind == "mcall" and strval(w.fn) == "shutdown":
        x = arg(w, "wait", 0)
        return x in (None, TRUE)
    return False


def waits(prog, chk, main, tasks):
    """nothing is returned while threads still write"""
    class End(object):
        seq, stack = 10 ** 9, ()
    for t in tasks:
        ok = joined(main, t, End)
        w = t.qual.split(".")[-1]
        if ok:
            chk.ok("ends", "wait for " + w)
        elif t.e.kind != "mcall" or any(
                x.kind == "mcall" and strval(x.fn) in (
                    "result", "join", "shutdown", "exception")
                for x in main.trace) or any(
                    "as_completed" in show(x.term, 2) for x in main.trace
                    if x.kind == "call"):
            chk.unsure("ends", "wait for " + w, "waiting not resolved")
        else:
            chk.violation("ends", "wait for " + w, "%s returns without "
                          "waiting for the threads that run %s" % (
                              V2.split(".")[-1], w), t.e.where)


class Paths(object):
    """locks held at every way out of a function"""

    def __init__(self):
        self.lost = []

    def lock_call(self, node):
        if isinstance(node, ast.Call) and isinstance(
                node.func, ast.Attribute) and node.func.attr in (
                    "acquire", "release"):
            return node.func.attr, ast.unparse(node.func.value), node
        return None

    def block(self, body, st):
        outs = set()
        cur = {st}
        for s in body:
            nxt = set()
            for c in cur:
                for k, h in self.stmt(s, c):
                    (nxt.add(h) if k == "next" else outs.add((k, h)))
            cur = nxt
        return outs | {("next", c) for c in cur}

    def stmt(self, s, h):
        out = set()
        if isinstance(s, ast.Expr):
            lc = self.lock_call(s.value)
            if lc:
                return {("next", h | {lc[1]} if lc[0] == "acquire"
                         else h - {lc[1]})}
        if isinstance(s, ast.If):
            if raises(s.test):
                out.add(("raise", h))
            return out | self.block(s.body, h) | self.block(s.orelse, h)
        if isinstance(s, (ast.For, ast.While)):
            out.add(("raise", h))
            endless = isinstance(s, ast.While) and isinstance(
                s.test, ast.Constant) and s.test.value
            todo, seen = {h}, set()
            while todo:
                x = todo.pop()
                seen.add(x)
                if not endless:
                    out |= self.block(s.orelse, x)
                for k, y in self.block(s.body, x):
                    if k in ("next", "continue"):
                        if y not in seen:
                            todo.add(y)
                    elif k == "break":
                        out.add(("next", y))
                    else:
                        out.add((k, y))
            return out
        if isinstance(s, (ast.With,)):
            return {("raise", h)} | self.block(s.body, h)
        if isinstance(s, ast.Try):
            res = set()
            everything = any(x.type is None or ast.unparse(x.type).split(
                ".")[-1] in ("Exception", "BaseException")
                for x in s.handlers)
            for k, x in self.block(s.body, h):
                if k == "raise" and s.handlers:
                    for hd in s.handlers:
                        res |= self.block(hd.body, x)
                    if not everything:
                        res.add((k, x))
                elif k == "next":
                    res |= self.block(s.orelse, x)
                else:
                    res.add((k, x))
            fin = set()
            for k, x in res:
                for k2, y in self.block(s.finalbody, x):
                    fin.add((k if k2 == "next" else k2, y))
            return fin
        if isinstance(s, ast.Return):
            return ({("raise", h)} if s.value is not None and
                    raises(s.value) else set()) | {("return", h)}
        if isinstance(s, ast.Raise):
            return {("raise", h)}
        if isinstance(s, ast.Break):
            return {("break", h)}
        if isinstance(s, ast.Continue):
            return {("continue", h)}
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return {("next", h)}
        if raises(s):
            out.add(("raise", h))
        return out | {("next", h)}


def raises(n):
    for x in ast.walk(n):
        if isinstance(x, ast.Call):
            f = ast.unparse(x.func)
            if f.split(".")[0] in ("log", "logging", "logger", "LOG") or \
                    f.split(".")[-1] in ("acquire", "release") or \
                    f in ("len", "int", "list", "range", "isinstance"):
                continue
            return True
    return False


def released(prog, chk, ips):
    done = set()
    n = 0
    for ip in ips:
        for e in ip.trace:
            f = e.func
            if e.kind == "enter" and is_lock(prog, e.term):
                if id(e.node) not in done:
                    done.add(id(e.node))
                    chk.ok("released", "%s with %s" % (
                        f.qual.split(".")[-1], label(e.term)),
                        "with statement")
                    n += 1
            if e.kind == "mcall" and strval(e.fn) == "acquire":
                o = e.extra if e.extra is not None else e.term.args[0]
                if not is_lock(prog, o):
                    continue
                if f.qual in done:
                    continue
                done.add(f.qual)
                n += 1
                if any(lc is not None and not simple(lc[2], f.node)
                       for lc in (Paths().lock_call(x)
                                  for x in ast.walk(f.node))):
                    chk.unsure("released", f.qual.split(".")[-1],
                               "result of acquire is used")
                    continue
                outs = Paths().block(f.node.body, frozenset())
                bad = sorted((k, sorted(h)) for k, h in outs if h)
                if bad:
                    k, h = bad[0]
                    chk.violation("released", f.qual.split(".")[-1],
                                  "%s is still held when the function is "
                                  "left by %s" % (h[0], {
                                      "next": "its last statement",
                                      "raise": "an exception"}.get(k, k)),
                                  e.where)
                else:
                    chk.ok("released", f.qual.split(".")[-1],
                           "acquire and release on all paths")
    chk.count("places a lock is taken", n)


def simple(call, fn):
    for x in ast.walk(fn):
        if isinstance(x, ast.Expr) and x.value is call:
            return not call.args and not call.keywords
    return False


def ordered(prog, chk, tasks):
    """locks taken while others are held must not form a cycle"""
    edges = {}
    for t in tasks:
        for e in t.ip.trace:
            lk = None
            if e.kind == "enter":
                lk = e.term
            elif e.kind == "mcall" and strval(e.fn) == "acquire":
                lk = e.extra if e.extra is not None else e.term.args[0]
            if lk is None or lk.op != "glob" or not is_lock(prog, lk):
                continue
            hs, _ = held(prog, t.ip.trace, e)
            hs |= {w.term for w in t.ip.trace if w.kind == "enter" and
                   e.kind == "enter" and w.node is e.node and
                   w.seq < e.seq and w.stack == e.stack}
            for h in hs:
                if h is lk:
                    m = prog.modules[lk.val[0]].ns[lk.val[1]][0][1][1]
                    if ast.unparse(m.func).endswith("RLock"):
                        continue
                    chk.violation("order", label(lk), "%s is waited for "
                                  "while it is already held by the same "
                                  "thread" % label(lk), e.where)
                elif h.op == "glob":
                    edges.setdefault(h, {})[lk] = e
    for a in edges:
        todo, seen = list(edges[a]), set()
        while todo:
            b = todo.pop()
            if b is a:
                e = list(edges[a].values())[0]
                chk.violation("order", label(a), "locks are taken in "
                              "different orders: %s while %s is held, and "
                              "the other way round" % (
                                  label(list(edges[a])[0]), label(a)),
                              e.where)
                break
            if b not in seen:
                seen.add(b)
                todo.extend(edges.get(b, ()))
    chk.ok("order", "lock order", "%d locks taken while another is held"
           % sum(len(v) for v in edges.values()))


# ------------------------------------------------------------- the queue
def blocking(e):
    if strval(e.fn) == "get_nowait":
        return False
    b, t = arg(e, "block", 0), arg(e, "timeout", 1)
    if b is FALSE or t is not None and t is not NONE:
        return False
    return True if b in (None, TRUE) else None


def worker(prog, chk, main, t, qname):
    name = t.qual.split(".")[-1]
    ip, q = t.ip, sym("param", qname)
    gets = [e for e in ip.trace if e.kind == "mcall" and
            strval(e.fn) in ("get", "get_nowait") and
            (e.extra if e.extra is not None else e.term.args[0]) is q]
    if not gets:
        chk.unsure("ends", name, "no segment taken from the queue found")
        return
    chk.count("takes from the queue", len(gets))
    for e in ip.trace:
        if e.kind == "mcall" and strval(e.fn) in ("put", "put_nowait") and \
                (e.extra if e.extra is not None else e.term.args[0]) is q \
                and any(has(x, g.term) for x in e.args for g in gets):
            # handing on an end mark is no segment
            if any(c.op == "cmp" and c.val == "is" and NONE in c.args
                   for c in conjuncts(e.cond())):
                continue
            chk.violation("ends", "%s:back" % name, "a segment that was "
                          "taken is put in the queue again", e.where)
    for e in gets:
        taken(prog, chk, main, t, e, q, name, len(gets))
        ends(prog, chk, main, t, e, q, name)
    cover(prog, chk, main, t, qname)


def stays(h, loop):
    """does the handler go on when the queue is empty?"""
    if not (isinstance(loop, ast.While) and isinstance(
            loop.test, ast.Constant) and loop.test.value):
        return False
    for x in h.body:
        if isinstance(x, ast.If) and isinstance(x.test, ast.Call) and \
                isinstance(x.test.func, ast.Attribute) and \
                x.test.func.attr == "empty" and any(
                    isinstance(y, ast.Continue) for y in x.body):
            return True
        if isinstance(x, (ast.Break, ast.Return, ast.Raise)):
            return False
    return False


def root_name(x):
    while isinstance(x, (ast.Subscript, ast.Attribute)):
        x = x.value
    return x.id if isinstance(x, ast.Name) else None


def written_globals(f):
    """(name, node) of module-level objects that a function writes into"""
    top = set()
    for x in f.module.tree.body:
        if isinstance(x, ast.Assign):
            top |= {t.id for t in x.targets if isinstance(t, ast.Name)}
    mine = {a.arg for a in f.node.args.args}
    alias = {}
    for x in ast.walk(f.node):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(
                x.targets[0], ast.Name):
            mine.add(x.targets[0].id)
    names = top - mine
    for x in ast.walk(f.node):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(
                x.targets[0], ast.Name) and isinstance(
                    x.value, (ast.Name, ast.Subscript)) and \
                root_name(x.value) in names:
            # a plain element may be a value; a range is a view
            if isinstance(x.value, ast.Name) or any(isinstance(
                    y, ast.Slice) for y in ast.walk(x.value.slice)):
                alias[x.targets[0].id] = root_name(x.value)
    for x in ast.walk(f.node):
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
            r = root_name(x)
            if r in alias:
                yield alias[r], x
            elif r in names:
                yield r, x


def enclosing(fn, node, kinds):
    out = []

    def go(x, path):
        if x is node:
            out.extend(path)
            return True
        for f, v in ast.iter_fields(x):
            for y in v if isinstance(v, list) else [v]:
                if isinstance(y, ast.AST) and go(
                        y, path + ([(x, f)] if isinstance(x, kinds) else [])):
                    return True
        return False
    go(fn, [])
    return out


def ends(prog, chk, main, t, e, q, name):
    b = blocking(e)
    hs, maybe = held(prog, t.ip.trace, e)
    atomic = False
    for x in t.ip.trace:
        if x.kind == "mcall" and strval(x.fn) in ("empty", "qsize") and \
                x.seq < e.seq and hs:
            a, _ = held(prog, t.ip.trace, x)
            if a & hs and same_region(prog, t.ip.trace, x, e):
                atomic = True
    if b is None:
        chk.unsure("ends", name, "whether the thread waits is not known")
        return
    if b:
        if atomic:
            chk.ok("ends", name, "tested and taken under one lock")
        elif maybe or sentinels(main, t):
            chk.unsure("ends", name, "the thread waits for the queue")
        else:
            chk.violation("ends", name, "the thread waits for a segment that "
                          "another thread may have taken since the queue was "
                          "tested; nothing is put in the queue any more, so "
                          "it waits forever", e.where)
        return
    # Empty is raised: where does it go
    caught = None
    for i in reversed(range(len(e.stack))):
        f = e.func if i == len(e.stack) - 1 else e.stack[i + 1][0]
        node = frame_node(e, i)
        enc = enclosing(f.node, node, (ast.Try, ast.While, ast.For, ast.With))
        for j in reversed(range(len(enc))):
            x, field = enc[j]
            if isinstance(x, ast.Try) and field == "body":
                for h in x.handlers:
                    if catches(h):
                        caught = (f, h, enc[:j])
                        break
            if isinstance(x, ast.With) and any(
                    "suppress" in ast.unparse(it.context_expr)
                    for it in x.items):
                chk.unsure("ends", name, "exception suppressed")
                return
            if caught:
                break
        if caught:
            break
    if not caught:
        if atomic:
            chk.ok("ends", name, "tested and taken under one lock")
        else:
            chk.violation("ends", name, "no handler for an empty queue: a "
                          "thread that finds the last segment taken ends "
                          "with an exception and the run fails", e.where)
        return
    f, h, enc = caught
    kinds = {k for k, _ in Paths().block(h.body, frozenset())}
    if len(h.body) and isinstance(h.body[-1], ast.Raise):
        chk.violation("ends", name, "the exception for an empty queue is "
                      "passed on and the run fails", e.where)
        return
    loops = [x for x, fld in enc if isinstance(x, (ast.While, ast.For)) and
             fld == "body"]
    if kinds <= {"break", "return", "raise"}:
        chk.ok("ends", name, "the loop is left when the queue is empty")
    elif not loops:
        chk.ok("ends", name, "no loop around the handler")
    elif isinstance(loops[-1], ast.While) and isinstance(
            loops[-1].test, ast.Constant) and loops[-1].test.value and not \
            any(isinstance(x, (ast.Break, ast.Return))
                for x in ast.walk(loops[-1])):
        chk.violation("ends", name, "the loop goes on when the queue is "
                      "empty and never ends", e.where)
    elif stays(h, loops[-1]):
        chk.violation("ends", name, "the loop goes on while the queue is "
                      "empty, and it stays empty", e.where)
    else:
        chk.unsure("ends", name, "what happens on an empty queue is not "
                   "resolved")


def same_region(prog, trace, a, b):
    """one lock region holds both"""
    for w in trace:
        if w.kind == "enter" and is_lock(prog, w.term) and within(w, a) and \
                within(w, b):
            return True
        if w.kind == "mcall" and strval(w.fn) == "release" and \
                a.seq < w.seq < b.seq:
            return False
    return any(w.kind == "mcall" and strval(w.fn) == "acquire" and
               w.seq < a.seq for w in trace)


def catches(h):
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any(ast.unparse(x).split(".")[-1] in (
        "Empty", "Exception", "BaseException") for x in ts)


def puts(main, t):
    for e in main.trace:
        if e.kind == "mcall" and strval(e.fn) in ("put", "put_nowait"):
            yield e


def sentinels(main, t):
    return any(e.args and e.args[0].op in ("const", "num")
               for e in puts(main, t))


def taken(prog, chk, main, t, g, q, name, n):
    """what happens with the segment that was taken"""
    item = g.term
    ip = t.ip
    writes = [e for e in ip.trace if e.kind == "mcall" and
              strval(e.fn) in ("WriteArray", "WriteRaster")]
    mine = [e for e in writes if any(mentions(a, item) for a in e.args)]
    if not writes:
        chk.unsure("taken", name, "no raster written")
        return
    if not mine:
        if n > 1:
            chk.violation("taken", name, "a segment is taken from the queue "
                          "and not written", g.where)
        else:
            chk.unsure("taken", name, "segment not found in what is written")
        return
    for e in mine:
        xy = [arg(e, "xoff", 1), arg(e, "yoff", 2)]
        window(chk, "taken", "written at", e, xy, item, (0, 1))
        extra = [c for c in conjuncts(e.cond())
                 if c not in conjuncts(g.cond()) and
                 not str(strip_iter(c)) == "True"]
        extra = [c for c in extra if c.op != "iter" and not (
            c.op == "sym" and c.val[0] == "exc")]
        if not extra:
            chk.ok("taken", "every segment is written")
        else:
            skipped(chk, prog, main, t, extra, item, e)
    if len(mine) > 1 and len({id(e.node) for e in mine}) > 1:
        chk.unsure("taken", "every segment is written", "several writes")
    for e in ip.trace:
        if e.kind == "mcall" and strval(e.fn) == "ReadAsArray":
            if not e.args and not e.kw:
                if any("None is" in show(c, 3) or "is" == c.val
                       for c in conjuncts(e.cond())):
                    continue        # the variant without a window
                chk.violation("taken", "read " + recv(e), "the whole raster "
                              "is read for one segment", e.where)
                continue
            w = [arg(e, n_, i) for i, n_ in enumerate(
                ("xoff", "yoff", "win_xsize", "win_ysize"))]
            window(chk, "taken", "read " + recv(e), e, w, item, (0, 1, 2, 3))


def recv(e):
    o = e.extra if e.extra is not None else e.term.args[0]
    while o.op in ("idx", "attr", "mcall"):
        o = o.args[0]
    return str(o.val[1]) if o.op == "sym" and len(o.val) > 1 else "raster"


def idx_of(item, i):
    return select(item, num(i))


def window(chk, rule, label, e, got, item, want):
    names = ("column", "row", "width", "height")
    for g, i in zip(got, want):
        lab = "%s %s" % (label, names[i])
        if g is None:
            chk.violation(rule, lab, "%s: the %s of the segment is not used"
                          % (label, names[i]), e.where)
            continue
        w = [j for j in range(6) if g is idx_of(item, j)]
        if w:
            chk.decide(rule, lab, w[0] == i, "%s of the segment used as %s"
                       % ((names + ("number", "total"))[w[0]], names[i]),
                       e.where)
        else:
            d = equal(g, idx_of(item, i))
            chk.decide(rule, lab, d, "%s used as %s" % (show(g, 3), names[i]),
                       e.where)


def segments(prog, chk, main, t):
    """terms of the list of segments, from a copy of the module in which the
    queue is a list"""
    qn = "_c26"
    if qn not in prog.modules:
        tree = ast.parse(ast.unparse(prog.funcs[V2].module.tree))

        class L(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr in (
                        "put", "put_nowait") and n.args:
                    return ast.Call(ast.Attribute(
                        f.value, "append", ast.Load()), n.args[:1], [])
                if ast.unparse(f).split(".")[-1] in (
                        "Queue", "SimpleQueue", "LifoQueue"):
                    return ast.List([], ast.Load())
                return n
        tree = ast.fix_missing_locations(L().visit(tree))
        prog.add_source(qn, ast.unparse(tree), "_c26.py")
    ip = analyse(prog, chk, V2.replace(P, qn + "."), opaque=[
        o.replace(P, qn + ".") for o in OPAQUE])
    return ip


def size_terms(ip):
    cols, rows = set(), set()
    for e in ip.trace:
        for x in [e.term] + [a for a in e.args if hasattr(a, "op")]:
            for y in walk(x):
                if y.op == "attr" and y.val in ("XSize", "RasterXSize"):
                    cols.add(y)
                if y.op == "attr" and y.val in ("YSize", "RasterYSize"):
                    rows.add(y)
    return cols, rows


def cover(prog, chk, main, t, qname):
    name = t.qual.split(".")[-1]
    ip = segments(prog, chk, main, t)
    ts = [x for x in submitted(prog, chk, ip)
          if x.qual.split(".")[-1] == name]
    if len(ts) != 1 or qname not in ts[0].args:
        chk.unsure("cover", "segments", "queue handed to the threads not "
                   "found")
        return
    lst = ts[0].args[qname]
    fill = [e for e in puts(main, t)]
    after = [e for e in fill if e.seq > t.e.seq]
    cap = None
    for e in main.trace:
        if e.kind in ("call", "new") and is_queue(e.term):
            cap = arg(e, "maxsize", 0)
    cols, rows = size_terms(ip)
    mc, mr = size_terms(main)
    for c, r, s in SIZES:
        env = {x: c for x in cols | mc}
        env.update({x: r for x in rows | mr})
        for n in ("processing_segment_size", "max_working_threads"):
            env[sym("param", n)] = s if n != "max_working_threads" else 3
        lab = "%d columns, %d rows, segments of %d" % (c, r, s)
        try:
            got = Values(ip, env)(lst)
            segs = [tuple(int(v) for v in list(g)[:4]) for g in got]
        except (Unknown, TypeError, ValueError, IndexError) as ex:
            chk.unsure("cover", "segments", "%s: %s" % (lab, ex))
            return
        hit = {}
        for x, y, w, h in segs:
            if w <= 0 or h <= 0:
                hit[(x, y, "empty")] = 2
            for i in range(x, x + w):
                for j in range(y, y + h):
                    hit[(i, j)] = hit.get((i, j), 0) + 1
        want = {(i, j) for i in range(c) for j in range(r)}
        miss = sorted(want - set(hit))
        out = sorted(str(k) for k in set(hit) - want)
        dup = sorted(k for k in hit if hit[k] > 1 and len(k) == 2)
        if miss or out or dup:
            what = "pixel %s lies in no segment" % (miss[0],) if miss else \
                "pixel %s lies in several segments" % (dup[0],) if dup else \
                "a segment reaches %s outside the raster" % out[0]
            e = fill[0] if fill else t.e
            chk.violation("cover", "segments", "%s: %s" % (lab, what),
                          e.where)
            break
        chk.ok("cover", lab, "%d segments" % len(segs))
        if cap is not None and not after and cap is not NONE:
            try:
                k = Values(main, env)(cap)
            except (Unknown, TypeError, ValueError):
                chk.unsure("room", "queue", show(cap, 3))
                cap = None
                continue
            if k and k < len(segs):
                chk.violation("room", "queue", "%s: %d segments do not fit "
                              "in a queue of %d and no thread takes any yet"
                              % (lab, len(segs), k), fill[0].where)
                cap = None
            else:
                chk.ok("room", lab)
    order(chk, main, t, fill)


def order(chk, main, t, fill):
    """the queue is filled before the threads start"""
    late = [e for e in fill if e.seq > t.e.seq]
    if late:
        chk.violation("ends", "filled first", "segments are put in the queue "
                      "after the threads are started: a thread that finds "
                      "it empty ends early", late[0].where)
    elif fill:
        chk.ok("ends", "filled first")


def skipped(chk, prog, main, t, extra, item, e):
    """conditions under which a segment is not written"""
    ip = segments(prog, chk, main, t)
    ts = [x for x in submitted(prog, chk, ip)
          if x.qual.split(".")[-1] == t.qual.split(".")[-1]]
    cols, rows = size_terms(ip)
    for c, r, s in SIZES:
        env = {x: c for x in cols}
        env.update({x: r for x in rows})
        env[sym("param", "processing_segment_size")] = s
        try:
            lst = next(a for p, a in ts[0].args.items()
                       if is_queue(t.args[p]))
            segs = Values(ip, env)(lst)
            for g in segs:
                e2 = {idx_of(item, i): v for i, v in enumerate(g)}
                ev = Values(t.ip, e2)
                for x in extra:
                    if ev(x) is False:
                        chk.violation(
                            "taken", "every segment is written",
                            "%d columns, %d rows, segments of %d: the "
                            "segment %s is not written because %s fails" % (
                                c, r, s, list(g), show(x, 4)), e.where)
                        return
        except (Unknown, TypeError, ValueError, IndexError, StopIteration):
            chk.unsure("taken", "every segment is written", "condition %s"
                       % show(extra[0], 3))
            return
    chk.ok("taken", "every segment is written")


def each(prog, chk, main, tasks):
    """one thread call per segment"""
    ws = [t for t in tasks if t.many]
    if not ws:
        chk.unsure("cover", "segments", "no queue and no call per segment")
    for t in ws:
        chk.unsure("cover", "segments", "segments handed over one by one")
