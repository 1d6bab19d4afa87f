"""Gated value-flow graph construction.

One forward pass over the statements of a root function. Repository helpers
are inlined, branches are merged with phi, loops become loop records with
mu (value at the start of an iteration) and eta (value after the loop)
terms. Nothing is executed and no path is enumerated; a loop body is
visited twice (once to find what it modifies, once to build the terms).
"""
import ast
import sys
from fractions import Fraction
from .terms import *
from . import terms as TM
from .program import Program, Func, dotted_of
from . import lib

sys.setrecursionlimit(100000)

UNDEF = sym("undef")


class Effect(object):
    __slots__ = ("kind", "term", "fn", "args", "kw", "guards", "loops",
                 "node", "func", "extra", "seq", "stack")

    def cond(self):
        return and_(*self.guards)

    @property
    def loc(self):
        f = self.func
        return "%s:%d" % (f.module.path if f else "?",
                          getattr(self.node, "lineno", 0))

    @property
    def where(self):
        return "%s in %s" % (self.loc, self.func.qual if self.func else "?")

    def __repr__(self):
        return "<%s %s @%s>" % (self.kind, self.term, self.loc)


class Loop(object):
    def __init__(self):
        self.carried = {}
        self.effects = []

    def __repr__(self):
        return "<loop %s %s>" % (self.uid, self.domain)


class State(object):
    __slots__ = ("boxes", "slots", "heap", "globs", "guard", "dead", "why")

    def __init__(self):
        self.boxes, self.slots, self.heap, self.globs = {}, {}, {}, {}
        self.guard = TRUE
        self.dead = False
        self.why = None

    def copy(self):
        s = State.__new__(State)
        s.boxes = self.boxes.copy()
        s.slots = self.slots.copy()
        s.heap = self.heap.copy()
        s.globs = self.globs.copy()
        s.guard = self.guard
        s.dead = self.dead
        s.why = self.why
        return s

    def become(self, o):
        self.boxes, self.slots = o.boxes, o.slots
        self.heap, self.globs = o.heap, o.globs
        self.guard, self.dead, self.why = o.guard, o.dead, o.why


class Frame(object):
    def __init__(self, fid, func, module, parent=None, cls=None):
        self.fid, self.func, self.module = fid, func, module
        self.parent = parent
        self.globals = set()
        self.nonlocals = set()
        self.returns = []
        self.loops = []          # stack of LoopCtl
        self.cls = cls
        self.keep = False
        self.yields = []
        self.locals = None


class LoopCtl(object):
    def __init__(self):
        self.breaks, self.continues = [], []


class Budget(Exception):
    pass


class Interp(object):
    def __init__(self, prog, opaque=(), hints=None, maxdepth=25,
                 budget=200000, inline=True, unroll=16, models=None,
                 noinline_prefix=(), absent=(), present=()):
        self.p = prog
        self.absent = tuple(absent)      # modules assumed not importable
        self.present = tuple(present)    # modules assumed importable
        self.opaque = set(opaque)
        self.noinline_prefix = tuple(noinline_prefix)
        self.hints = dict(hints or {})
        self.maxdepth = maxdepth
        self.budget = budget
        self.inline = inline
        self.unroll = unroll
        self.models = dict(models or {})
        self.trace = []
        self.loops = []
        self.raises = []
        self.closures = {}
        self.bases = []            # enclosing relative guards
        self.loopstack = []
        self.stack = []            # inlining stack of Func
        self.callsites = []
        self.recording = True
        self.uid = 0
        self.aid = 0
        self.elems = {}
        self.views, self.views_of = {}, {}
        self.origin = {}
        self.fids = 0
        self.frames = []
        self.tries = []
        self.unknown = []          # constructs treated as opaque
        self.visited = set()       # functions visited
        self.stats = {"stmts": 0, "calls": 0, "inlined": 0}
        self.gcache = {}
        self._geval = set()

    # ------------------------------------------------------------- helpers
    def newid(self):
        self.uid += 1
        return self.uid

    def alloc(self, st, term):
        self.aid += 1
        st.boxes[self.aid] = term
        return self.aid

    def frame(self):
        return self.frames[-1]

    def effect(self, kind, term, st, node, fn=None, args=(), kw=None,
               extra=None):
        e = Effect()
        e.kind, e.term, e.fn, e.args = kind, term, fn, tuple(args)
        e.kw = dict(kw or {})
        e.guards = tuple(self.bases) + (st.guard,)
        e.loops = tuple(self.loopstack)
        e.node = node
        e.func = self.stack[-1] if self.stack else None
        e.extra = extra
        e.stack = tuple(self.callsites)
        e.seq = len(self.trace)
        if self.recording:
            self.trace.append(e)
        return e

    # ----------------------------------------------------------- root entry
    def run(self, qual, args=None, selfterm=None, pre=None):
        """Interpret function `qual` with symbolic parameters. Returns
        (value term, final state)."""
        f = self.p.funcs[qual]
        st = State()
        vals = {}
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if f.cls is not None and names and not is_static(f.node):
            if selfterm is None:
                selfterm = mk("obj", val=(f.cls.qual, "self"))
            vals[names[0]] = selfterm
            names = names[1:]
        for n in names + [x.arg for x in a.kwonlyargs]:
            vals[n] = sym("param", n)
        if a.vararg:
            vals[a.vararg.arg] = sym("param", "*" + a.vararg.arg)
        if a.kwarg:
            vals[a.kwarg.arg] = sym("param", "**" + a.kwarg.arg)
        for k, v in (args or {}).items():
            vals[k] = v
        if pre:
            pre(self, st)
        aids = {k: self.alloc(st, v) for k, v in vals.items()}
        for k, b in aids.items():
            if vals[k].op == "sym":
                self.origin[b] = vals[k]
        v = self.call_body(f, aids, st, f.node, None)
        return v, st

    # ------------------------------------------------------- function bodies
    def call_body(self, f, aids, st, node, parent):
        """Inline function f with parameters bound to boxes; returns the
        result term and leaves the state after the call in st."""
        self.visited.add(f.qual)
        self.fids += 1
        fr = Frame(self.fids, f, f.module, parent, f.cls)
        fr.locals = assigned_names(f.node)
        fr.keep = has_inner(f.node)
        self.frames.append(fr)
        self.stack.append(f)
        self.callsites.append((self.stack[-2] if len(self.stack) > 1
                               else None, node))
        for k, a in aids.items():
            st.slots[(fr.fid, k)] = a
        self.bases.append(st.guard)
        outer_guard = st.guard
        st.guard = TRUE
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, st)
                result = v
            else:
                self.block(f.node.body, st)
                result = self.finish(fr, st)
        finally:
            self.bases.pop()
            self.frames.pop()
            self.stack.pop()
            self.callsites.pop()
        if not fr.keep:
            st.slots = {k: v for k, v in st.slots.items()
                        if k[0] != fr.fid}
        dead = st.dead
        st.guard = outer_guard
        st.dead = dead and not fr.returns_alive
        return result

    def finish(self, fr, st):
        outs = list(fr.returns)
        fr.returns_alive = True
        gen = is_generator(fr.func.node)
        if not st.dead:
            outs.append((st.guard, NONE, st.copy(), None))
        if not outs:
            # all paths raise
            fr.returns_alive = False
            return UNDEF
        if len(outs) == 1:
            g, v, s, el = outs[0]
            s.guard, s.dead = TRUE, False
            st.become(s)
            if gen:
                return self.gen_term(fr, st)
            self.last_elems = el
            return v
        self.last_elems = None
        g, v, s, el = outs[-1]
        for g2, v2, s2, el2 in reversed(outs[:-1]):
            v = phi(g2, v2, v)
            s = self.merge(g2, s2, s)
        s.guard, s.dead = TRUE, False
        st.become(s)
        if gen:
            return self.gen_term(fr, st)
        return v

    def gen_term(self, fr, st):
        return mk("gen", *fr.yields, val=fr.func.qual)

    # ------------------------------------------------------------- merging
    def merge(self, c, a, b):
        """state that is a where c holds and b elsewhere"""
        if a.dead and not b.dead:
            return b
        if b.dead and not a.dead:
            return a
        o = State()
        ba, bb = a.boxes, b.boxes
        out = bb.copy()
        for k, t in ba.items():
            u = bb.get(k)
            if u is None:
                out[k] = t
            elif u is not t:
                out[k] = phi(c, t, u)
        o.boxes = out
        for name in ("slots", "heap", "globs"):
            da, db = getattr(a, name), getattr(b, name)
            od = db.copy()
            for k, x in da.items():
                y = db.get(k)
                if y == x:
                    continue
                if y is None:
                    tb = UNDEF
                    if name == "heap":
                        tb = self.fresh_attr(k[0], k[1])
                    elif name == "globs":
                        tb = self.glob_initial(k)
                    ta = ba[x]
                    od[k] = self._newbox(o, phi(c, ta, tb) if tb is not UNDEF
                                         else ta)
                    if tb is UNDEF:
                        od[k] = x
                else:
                    od[k] = self._newbox(o, phi(c, ba[x], bb[y]))
            for k, y in db.items():
                if k not in da and name in ("heap", "globs"):
                    ta = self.fresh_attr(k[0], k[1]) if name == "heap" \
                        else self.glob_initial(k)
                    od[k] = self._newbox(o, phi(c, ta, bb[y]))
            setattr(o, name, od)
        o.guard = or_(a.guard, b.guard)
        if o.guard.size > 600:
            o.guard = sym("guard", self.newid())
        o.dead = a.dead and b.dead
        return o

    def _newbox(self, o, t):
        self.aid += 1
        o.boxes[self.aid] = t
        return self.aid

    # ---------------------------------------------------------- statements
    def block(self, body, st):
        for s in body:
            if st.dead:
                return
            self.stmt(s, st)

    def stmt(self, s, st):
        self.stats["stmts"] += 1
        if self.stats["stmts"] > self.budget:
            raise Budget()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknown.append((s, "statement"))
            return
        m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, st)

    def s_Pass(self, s, st):
        pass

    def s_Global(self, s, st):
        self.frame().globals.update(s.names)

    def s_Nonlocal(self, s, st):
        self.frame().nonlocals.update(s.names)

    def s_Import(self, s, st):
        for a in s.names:
            if a.asname:
                self.bind(a.asname, self.p.resolve(a.name), st)
            else:
                top = a.name.split(".")[0]
                self.bind(top, self.p.resolve(top), st)

    def s_ImportFrom(self, s, st):
        base = Program._relative(self.frame().module, s)
        for a in s.names:
            if a.name == "*":
                continue
            full = base + "." + a.name if base else a.name
            if base in self.p.modules:
                t = self.p.member(base, a.name)
                if t is None:
                    t = mk("ext", val=full)
                if t.op == "glob":
                    t = self.read_glob(t.val, st)
            else:
                t = self.p.resolve(full)
            if full in ("mpi4py.MPI",):
                t = mk("ext", val="MPI")
            self.effect("import", t, st, s)
            self.bind(a.asname or a.name, t, st)

    def s_FunctionDef(self, s, st):
        t = self.closure(s, st)
        for d in reversed(s.decorator_list):
            t = self.decorate(d, t, st)
        self.bind(s.name, t, st)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st):
        self.bind(s.name, mk("localcls", val=s.name), st)

    def closure(self, node, st, cls=None):
        u = self.newid()
        fr = self.frame()
        fr.keep = True
        qual = fr.func.qual + "." + getattr(node, "name", "<lambda>")
        f = Func(qual, node, fr.module, None, fr.func)
        self.closures[u] = (f, fr)
        return mk("closure", val=u)

    def decorate(self, d, t, st):
        dn = dotted_of(d) or ""
        if dn in ("staticmethod", "classmethod", "property"):
            return t
        try:
            dt = self.ev(d, st)
        except Budget:
            raise
        return self.apply(dt, [self.alloc(st, t)], {}, st, d)

    def s_Return(self, s, st):
        fr = self.frame()
        el = None
        if s.value is None:
            v = NONE
        else:
            a = self.ref(s.value, st)
            v = st.boxes[a]
            el = (a, self.elems.get(a))
        fr.returns.append((st.guard, v, st.copy(), el))
        st.dead, st.why = True, "return"

    def s_Raise(self, s, st):
        t = self.ev(s.exc, st) if s.exc is not None else sym("reraise")
        name = exc_name(s.exc)
        self.effect("raise", t, st, s, extra=name)
        if self.tries:
            self.tries[-1].append((st.guard, name, st.copy(),
                                   len(self.bases)))
        st.dead, st.why = True, "raise"

    def s_Assert(self, s, st):
        self.cond(s.test, st)

    def s_Delete(self, s, st):
        fr = self.frame()
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                try:
                    a = self.ref(t.value, st)
                    i = self.index(t.slice, st)
                    st.boxes[a] = mk("delitem", st.boxes[a], i)
                except Budget:
                    raise

    def s_Assign(self, s, st):
        a = self.ref(s.value, st)
        for t in s.targets:
            self.assign(t, a, st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ref(s.value, st), st)

    def s_AugAssign(self, s, st):
        t = s.target
        op = s.op
        if isinstance(t, ast.Name):
            a = self.lookup(t.id, st)
            old = st.boxes[a] if a is not None else UNDEF
            r = self.ev(s.value, st)
            new = self.binop(op, old, r, st, s)
            if a is not None and old.op in ("list", "append", "extend",
                                            "concat"):
                st.boxes[a] = new          # in-place
            elif a is not None and self.maybe_array(old) and \
                    not self.is_scalar_name(t.id):
                self.put(st, a, new)
            else:
                self.bind(t.id, new, st)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            a = self.attr_ref(b, t.attr, st, t)
            old = st.boxes[a]
            new = self.binop(op, old, self.ev(s.value, st), st, s)
            self.set_attr(b, t.attr, self.alloc(st, new), st, s)
        elif isinstance(t, ast.Subscript):
            base = self.ref(t.value, st)
            i = self.index(t.slice, st)
            old = self.select(st.boxes[base], i, st)
            new = self.binop(op, old, self.ev(s.value, st), st, s)
            self.store_sub(t, i, new, st, s)

    def maybe_array(self, t):
        return known_array(t)

    def is_scalar_name(self, n):
        return False

    def s_If(self, s, st):
        c = self.cond(s.test, st)
        if c is TRUE:
            self.block(s.body, st)
            return
        if c is FALSE:
            self.block(s.orelse, st)
            return
        a, b = st.copy(), st.copy()
        a.guard = and_(st.guard, c)
        b.guard = and_(st.guard, not_(c))
        pre = st.guard
        # a branch contradicting the path condition is dead code here
        if a.guard is FALSE:
            self.block(s.orelse, st)
            return
        if b.guard is FALSE:
            self.block(s.body, st)
            return
        self.block(s.body, a)
        self.block(s.orelse, b)
        self.join(st, c, a, b, pre)

    def join(self, st, c, a, b, pre):
        if a.dead and b.dead:
            why = a.why if a.why == b.why else "mixed"
            st.become(a)
            st.dead, st.why = True, why
            return
        if a.dead:
            if a.why == "raise":
                b.guard = pre if b.guard is and_(pre, not_(c)) else b.guard
            st.become(b)
            return
        if b.dead:
            if b.why == "raise":
                a.guard = pre if a.guard is and_(pre, c) else a.guard
            st.become(a)
            return
        o = self.merge(c, a, b)
        if a.guard is and_(pre, c) and b.guard is and_(pre, not_(c)):
            o.guard = pre
        st.become(o)

    # loops ---------------------------------------------------------------
    def s_For(self, s, st):
        it = self.ref(s.iter, st)
        t = st.boxes[it]
        items = self.literal_items(it, t, st)
        fr = self.frame()
        if items is not None and len(items) <= self.unroll:
            ctl = LoopCtl()
            fr.loops.append(ctl)
            for a in items:
                if st.dead:
                    break
                ctl.continues = []
                self.assign(s.target, a, st)
                self.block(s.body, st)
                self.rejoin(st, ctl.continues)
            fr.loops.pop()
            if not st.dead and s.orelse:
                self.block(s.orelse, st)
            self.rejoin(st, ctl.breaks)
            return
        dom, binder = self.domain(t, st)
        self.loop(s, st, dom, lambda q: binder(s.target, q))

    def s_While(self, s, st):
        self.loop(s, st, None, None)

    def rejoin(self, st, others):
        for (g, o) in others:
            if st.dead:
                o2 = o.copy()
                st.become(o2)
                st.dead = False
            else:
                m = self.merge(g, o, st)
                m.dead = False
                st.become(m)

    def domain(self, t, st):
        """(domain term, binder(target, state)) of iteration over t"""
        depth = len(self.loopstack)
        k = sym("k", depth)

        def elem_of(t):
            # (length-giving term, element term)
            if t.op == "call" and t.args[0].op == "ext":
                f = t.args[0].val
                pos = [a for a in t.args[1:] if a.op != "kw"]
                if f == "range" and 1 <= len(pos) <= 3:
                    lo, hi, step = (ZERO, pos[0], ONE) if len(pos) == 1 else \
                        (pos[0], pos[1], pos[2] if len(pos) > 2 else ONE)
                    n = sub(hi, lo) if step is ONE else \
                        mk("fn", sub(hi, lo), step, val="ceildiv")
                    return n, add(lo, mul(step, k))
                if f == "numpy.arange" and 1 <= len(pos) <= 3:
                    lo, hi, step = (ZERO, pos[0], ONE) if len(pos) == 1 else \
                        (pos[0], pos[1], pos[2] if len(pos) > 2 else ONE)
                    n = sub(hi, lo) if step is ONE else \
                        mk("fn", sub(hi, lo), step, val="ceildiv")
                    return n, add(lo, mul(step, k))
                if f == "enumerate":
                    n, e = elem_of(pos[0])
                    start = pos[1] if len(pos) > 1 else ZERO
                    for a in t.args[1:]:
                        if a.op == "kw" and a.val == "start":
                            start = a.args[0]
                    return n, mk("tuple", add(k, start), e)
                if f == "zip":
                    es = [elem_of(p) for p in pos]
                    if es:
                        n = es[0][0] if all(e[0] is es[0][0] for e in es) \
                            else mk("minlen", *[e[0] for e in es])
                        return n, mk("tuple", *[e[1] for e in es])
                if f in ("tqdm.tqdm", "list", "tuple", "iter") and \
                        len(pos) == 1:
                    return elem_of(pos[0])
                if f == "reversed" and len(pos) == 1:
                    n, e = elem_of(pos[0])
                    return n, subst(e, {k: sub(sub(n, ONE), k)})
            if t.op == "mcall" and len(t.args) == 1:
                if t.val == "items":
                    d = t.args[0]
                    key = mk("dkey", d, k)
                    return mk("len", d), mk("tuple", key,
                                            self.select(d, key, st))
                if t.val == "keys":
                    return mk("len", t.args[0]), mk("dkey", t.args[0], k)
                if t.val == "values":
                    key = mk("dkey", t.args[0], k)
                    return mk("len", t.args[0]), \
                        self.select(t.args[0], key, st)
            if t.op == "comp" and t.val[0] in ("list", "gen"):
                n, cnd, elt = t.args
                if cnd is TRUE and elt.op != "new":
                    kk = sym("k", t.val[1])
                    return n, subst(elt, {kk: k}) if kk is not k else elt
            return self.length(t), self.select(t, k, st)

        n, e = elem_of(t)

        def binder(target, q):
            self.assign(target, self.alloc(q, e), q)
        dom = mk("dom", n, t)
        return dom, binder

    def length(self, t):
        if t.op in ("list", "tuple", "set", "arr") and \
                not any(x.op == "star" for x in t.args):
            return num(len(t.args))
        if t.op == "dict":
            return num(len(t.args) // 2)
        if t.op == "comp" and t.args[1] is TRUE:
            return t.args[0]
        if t.op == "const" and t.val[0] in ("str", "bytes"):
            return num(len(t.val[1]))
        if t.op == "full":
            sh = t.args[0]
            if sh.op == "tuple" and sh.args:
                return sh.args[0]
            if sh.op != "tuple":
                return sh
        if t.op == "store":
            return self.length(t.args[0])
        return mk("len", t)

    def diff(self, a, b):
        """locations of state a that state b (derived from a) changed"""
        boxes = {k for k, t in a.boxes.items()
                 if b.boxes.get(k, t) is not t}
        slots = {k for k, v in b.slots.items() if a.slots.get(k) != v}
        heap = {k for k, v in b.heap.items() if a.heap.get(k) != v and
                (k in a.heap or b.boxes.get(v) is not self.fresh_attr(*k))}
        globs = {k for k, v in b.globs.items() if a.globs.get(k) != v and
                 (k in a.globs or b.boxes.get(v) is not self.glob_initial(k))}
        return boxes, slots, heap, globs

    def loop(self, s, st, dom, binder):
        fr = self.frame()
        # -- pass 1: what does the body change?
        rec, self.recording = self.recording, False
        ntr, nlo, nra = len(self.trace), len(self.loops), len(self.raises)
        uid0 = self.uid
        nre = [(f, len(f.returns), len(f.yields)) for f in self.frames]
        nret = len(fr.returns) if fr is not None else 0
        ch = [set(), set(), set(), set()]
        live_fids = {f.fid for f in self.frames}
        for rnd in range(2):
            q = st.copy()
            self._havoc(q, ch, "probe", 0)
            base = q.copy()
            self._loop_body(s, q, dom, binder, fr, TRUE)
            d = self.diff(base, q)
            # (locations of frames already left are gone)
            new = [set(x) for x in ch]
            new[0] |= {k for k in d[0] if k in st.boxes}
            new[1] |= {k for k in d[1] if k[0] in live_fids or k in st.slots}
            new[2] |= d[2]
            new[3] |= d[3]
            # what these passes returned does not count
            for f, a, b in nre:
                del f.returns[a:]
                del f.yields[b:]
            if new == ch:
                break
            ch = new
        self.recording = rec
        # -- pass 2
        L = Loop()
        L.uid = self.newid()
        L.node, L.func = s, self.stack[-1]
        L.depth = len(self.loopstack)
        L.k = sym("k", L.depth)
        L.guards = tuple(self.bases) + (st.guard,)
        L.kind = "while" if dom is None else "for"
        L.stack = tuple(self.callsites)
        init = st.copy()
        q = st.copy()
        mus = self._havoc(q, ch, "mu", L.uid)
        start = q.copy()
        tr0 = len(self.trace)
        self.loopstack.append(L.uid)
        ctl, c = self._loop_body(s, q, dom, binder, fr, st.guard, push=False)
        self.loopstack.pop()
        L.domain = dom if dom is not None else c
        L.cond = c
        L.breaks = [g for g, _ in ctl.breaks]
        L.leaves = L.breaks + [r[0] for r in fr.returns[nret:]]
        if self.recording:
            self.loops.append(L)
        # -- exit values
        out = st
        out.dead = False

        def exitval(mu, i, nxt, label):
            L.carried[label] = (mu, i, nxt)
            return self.eta(L, mu, i, nxt)
        qd = q.dead
        for key, (mu, where) in mus.items():
            kind, k = where
            if kind == "box":
                i = init.boxes[k]
                n = q.boxes.get(k, mu) if not qd else mu
                out.boxes[k] = exitval(mu, i, n, ("box", k))
            else:
                src = {"slot": (init.slots, q.slots, out.slots),
                       "heap": (init.heap, q.heap, out.heap),
                       "glob": (init.globs, q.globs, out.globs)}[kind]
                ia = src[0].get(k)
                if ia is not None:
                    i = init.boxes[ia]
                elif kind == "heap":
                    i = self.fresh_attr(*k)
                elif kind == "glob":
                    i = self.glob_initial(k)
                else:
                    i = UNDEF
                na = src[1].get(k)
                n = q.boxes.get(na, mu) if na is not None and not qd else mu
                lab = k[1] if kind == "slot" else (
                    "attr:%s.%s" % (show(k[0], 2), k[1])
                    if kind == "heap" else "glob:%s.%s" % k)
                v = exitval(mu, i, n, (kind, k, lab))
                src[2][k] = self.alloc(out, v)
        if st.dead:
            st.dead = False
        if s.orelse:
            self.block(s.orelse, st)
        for g, o in ctl.breaks:
            # state leaving through break: merge on an opaque condition
            cb = sym("brk", L.uid, len(L.breaks))
            o2 = o.copy()
            o2.guard, o2.dead = st.guard, False
            g0 = st.guard
            m = self.merge_live(cb, o2, st, live_fids)
            m.guard, m.dead = g0, False
            st.become(m)
            L.brk = cb

    def merge_live(self, c, a, b, live):
        a.slots = {k: v for k, v in a.slots.items() if k in b.slots or
                   k[0] in live}
        return self.merge(c, a, b)

    def _havoc(self, q, ch, tag, uid):
        """replace every changed location by a fresh mu symbol"""
        mus = {}
        boxes, slots, heap, globs = ch
        for k in sorted(boxes):
            if k not in q.boxes:
                continue
            mu = sym("mu", uid, "box", k) if tag == "mu" else \
                sym("probe", "box", k)
            q.boxes[k] = mu
            mus[("box", k)] = (mu, ("box", k))
        for k in sorted(slots):
            mu = sym("mu", uid, k[1]) if tag == "mu" else \
                sym("probe", "slot", k)
            q.slots[k] = self.alloc(q, mu)
            mus[("slot", k)] = (mu, ("slot", k))
        for k in sorted(heap, key=lambda x: (x[0].key, x[1])):
            mu = sym("mu", uid, "attr", k[0].key, k[1]) if tag == "mu" else \
                sym("probe", "heap", k[0].key, k[1])
            q.heap[k] = self.alloc(q, mu)
            mus[("heap", k)] = (mu, ("heap", k))
        for k in sorted(globs):
            mu = sym("mu", uid, "glob") + () if False else (
                sym("mu", uid, "glob", k) if tag == "mu"
                else sym("probe", "glob", k))
            q.globs[k] = self.alloc(q, mu)
            mus[("glob", k)] = (mu, ("glob", k))
        return mus

    def _loop_body(self, s, q, dom, binder, fr, guard, push=True):
        ctl = LoopCtl()
        fr.loops.append(ctl)
        if push:
            self.loopstack.append(0)
        c = TRUE
        self.bases.append(q.guard)
        q.guard = TRUE
        if dom is None:
            c = self.cond(s.test, q)
            q.guard = TRUE
            if c is not TRUE:
                q.guard = c
        else:
            binder(q)
            q.guard = mk("iter", dom)
        self.block(s.body, q)
        conts = ctl.continues
        self.rejoin(q, conts)
        self.bases.pop()
        if push:
            self.loopstack.pop()
        fr.loops.pop()
        return ctl, c

    def eta(self, L, mu, init, nxt):
        if nxt is mu:
            return init
        dom = L.domain if L.domain is not None else TRUE
        # list building: init ++ [elt for k if cond]
        if L.kind == "for" and not L.breaks:
            r = self.list_idiom(L, mu, init, nxt)
            if r is not None:
                return r
            # value of the last iteration
            if not contains(nxt, lambda x: x.op == "sym" and
                            isinstance(x.val, tuple) and x.val[0] == "mu"
                            and x.val[1] == L.uid):
                return mk("last", dom, nxt, init, val=L.depth)
            # accumulation: init + sum(step)
            if nxt.op == "add":
                d = dict(terms_of(nxt))
                if d.get(mu) == 1:
                    d.pop(mu)
                    step = from_terms(d)
                    if not contains(step, lambda x: x.op == "sym" and
                                    isinstance(x.val, tuple) and
                                    x.val[0] == "mu" and x.val[1] == L.uid):
                        if not has(step, L.k):
                            return add(init, mul(dom.args[0], step))
                        return add(init, mk("sum", dom.args[0], step,
                                            val=L.depth))
            # running maximum / minimum
            if nxt.op in ("max", "min") and mu in nxt.args and \
                    len(nxt.args) == 2:
                o = [a for a in nxt.args if a is not mu][0]
                if not contains(o, lambda x: x.op == "sym" and
                                isinstance(x.val, tuple) and
                                x.val[0] == "mu" and x.val[1] == L.uid):
                    return fn(nxt.op, init,
                              mk("run" + nxt.op, dom.args[0], o,
                                 val=L.depth))
            r = self.map_idiom(L, mu, init, nxt, dom)
            if r is not None:
                return r
        return mk("eta", init, nxt, dom, val=(mu.val, L.depth))

    def map_idiom(self, L, mu, init, nxt, dom):
        """a loop that sets each element of an array from elements at the
        same position is the same operation on whole arrays"""
        if known_array(init) is False and init.op in ("list", "dict",
                                                      "tuple", "num"):
            return None
        k = L.k
        me = mk("idx", mu, k)

        def elem(t):
            if t is mu:
                return me
            if t.op == "phi":
                a, b = elem(t.args[1]), elem(t.args[2])
                return None if a is None or b is None else \
                    phi(t.args[0], a, b)
            if t.op == "store" and t.args[1] is k and t.args[0] is mu:
                return t.args[2]
            return None
        e = elem(nxt)
        if e is None:
            return None
        arrays = []

        def lift(t):
            if t.op == "idx" and len(t.args) == 2 and t.args[1] is k and \
                    not has(t.args[0], k):
                a = init if t.args[0] is mu else t.args[0]
                arrays.append(a)
                return a
            return None
        r = rewrite(e, lift)
        if has(r, k) or contains(r, lambda x: x.op == "sym" and
                                 isinstance(x.val, tuple) and
                                 x.val[0] == "mu" and x.val[1] == L.uid):
            return None
        n = dom.args[0] if dom.op == "dom" else None
        if n is None or not any(
                x is n or has(n, x) for a in arrays + [init]
                for x in (mk("len", a), self.length(a),
                          mk("attr", a, val="size"))):
            return None
        return r

    def list_idiom(self, L, mu, init, nxt):
        c, elt = None, None
        if nxt.op == "append" and nxt.args[0] is mu:
            c, elt = TRUE, nxt.args[1]
        elif nxt.op == "phi":
            a, b = nxt.args[1:]
            if a.op == "append" and a.args[0] is mu and b is mu:
                c, elt = nxt.args[0], a.args[1]
            elif b.op == "append" and b.args[0] is mu and a is mu:
                c, elt = not_(nxt.args[0]), b.args[1]
        if elt is None:
            return None
        for t in (c, elt):
            if contains(t, lambda x: x.op == "sym" and
                        isinstance(x.val, tuple) and x.val[0] == "mu" and
                        x.val[1] == L.uid):
                return None
        comp = mk("comp", L.domain.args[0], c, elt,
                  val=("list", L.depth))
        comp = comp_norm(comp)
        if init.op == "list" and not init.args:
            return comp
        return mk("concat", init, comp)

    def s_Break(self, s, st):
        ctl = self.frame().loops[-1] if self.frame().loops else None
        if ctl is not None:
            ctl.breaks.append((st.guard, st.copy()))
        st.dead, st.why = True, "break"

    def s_Continue(self, s, st):
        ctl = self.frame().loops[-1] if self.frame().loops else None
        if ctl is not None:
            ctl.continues.append((st.guard, st.copy()))
        st.dead, st.why = True, "continue"

    # try / with ------------------------------------------------------------
    def imported(self, s):
        """absolute module names an import statement needs"""
        if isinstance(s, ast.Import):
            return [a.name for a in s.names]
        base = Program._relative(self.frame().module, s)
        return [base] + [base + "." + a.name for a in s.names]

    def s_Try(self, s, st):
        if self.absent or self.present:
            hs = [h for h in s.handlers
                  if set(handler_names(h)) & {"ImportError", "Exception", "*",
                                              "ModuleNotFoundError"}]
            for i, x in enumerate(s.body):
                if not hs or not isinstance(x, (ast.Import, ast.ImportFrom)):
                    continue
                mods = self.imported(x)
                if any(m in self.absent for m in mods):
                    self.block(s.body[:i], st)
                    if not st.dead:
                        self.block(hs[0].body, st)
                    if not st.dead:
                        self.block(s.finalbody, st)
                    return
                if any(m in self.present for m in mods) and \
                        len(hs) == len(s.handlers):
                    self.block(s.body + s.orelse + s.finalbody, st)
                    return
        pre = st.copy()
        raised = []
        self.tries.append(raised)
        nb = len(self.bases)
        nr = len(self.frames[-1].returns) if self.frames else 0
        self.block(s.body, st)
        self.tries.pop()
        body_dead = st.dead
        if not st.dead and s.orelse:
            self.block(s.orelse, st)
        nr = range(nr, len(self.frames[-1].returns) if self.frames else 0)
        alive = None if st.dead else st.copy()
        outs = []
        handled = set()
        sites = try_key(s)
        for h in s.handlers:
            names = handler_names(h)
            cs = sym("exc", self.stack[-1].qual if self.stack else "",
                     ",".join(names), sites)
            entry = pre.copy()
            entry.guard = and_(pre.guard, cs)
            for (g, nm, rs, lvl) in raised:
                if id(rs) in handled:
                    continue
                if nm in names or "*" in names or "Exception" in names or \
                        "BaseException" in names:
                    handled.add(id(rs))
                    r2 = rs.copy()
                    r2.dead = False
                    if lvl != nb:
                        # raised inside an inlined helper
                        r2 = pre.copy()
                        r2.guard = and_(pre.guard, cs)
                    live = {f.fid for f in self.frames}
                    r2.slots = {k: v for k, v in r2.slots.items()
                                if k in entry.slots or k[0] in live}
                    gg = entry.guard
                    entry = self.merge(r2.guard, r2, entry)
            if h.name:
                self.bind(h.name, sym("excval", h.name), entry)
            self.block(h.body, entry)
            outs.append((cs, entry, h))
            if not (entry.dead and entry.why == "raise"):
                # a return in the body happens only when this handler is
                # not entered
                for i in nr:
                    r = self.frames[-1].returns[i]
                    self.frames[-1].returns[i] = \
                        (and_(r[0], not_(cs)),) + r[1:]
        for r in raised:
            if id(r[2]) not in handled and self.tries:
                self.tries[-1].append(r)
        # merge
        cur = alive
        for cs, o, h in reversed(outs):
            if o.dead:
                continue
            if cur is None:
                cur = o
            else:
                g = cur.guard
                m = self.merge(cs, o, cur)
                if cs in conjuncts(o.guard):
                    m.guard = g
                cur = m
        if cur is None:
            st.become(pre)
            st.dead = True
            whys = {o.why for _, o, _ in outs} | ({"return"} if body_dead
                                                  else set())
            st.why = whys.pop() if len(whys) == 1 else "mixed"
        else:
            st.become(cur)
            st.dead = False
        if s.finalbody:
            d, w = st.dead, st.why
            st.dead = False
            self.block(s.finalbody, st)
            st.dead = st.dead or d
            st.why = w if d else st.why

    s_TryStar = s_Try

    def s_With(self, s, st):
        for it in s.items:
            v = self.ref(it.context_expr, st)
            t = st.boxes[v]
            self.effect("enter", t, st, s)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        self.block(s.body, st)
        if not st.dead:
            for it in reversed(s.items):
                self.effect("exit", TRUE, st, s)

    s_AsyncWith = s_With

    # ------------------------------------------------------------- bindings
    def bind(self, name, term, st):
        self.bind_ref(name, self.alloc(st, term), st)

    def bind_ref(self, name, a, st):
        fr = self.frame()
        if name in fr.globals:
            k = (fr.module.name, name)
            st.globs[k] = a
            self.effect("setglobal", st.boxes[a], st, None, extra=k)
            return
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if (p.fid, name) in st.slots:
                    st.slots[(p.fid, name)] = a
                    return
                p = p.parent
        st.slots[(fr.fid, name)] = a

    def lookup(self, name, st):
        """box of a local/enclosing variable or global, None if unknown"""
        fr = self.frame()
        if name not in fr.globals:
            f = fr
            while f is not None:
                a = st.slots.get((f.fid, name))
                if a is not None:
                    return a
                f = f.parent
        k = (fr.module.name, name)
        a = st.globs.get(k)
        if a is not None:
            return a
        return None

    def name(self, name, st):
        a = self.lookup(name, st)
        if a is not None:
            return a
        fr = self.frame()
        if fr.locals and name in fr.locals and name not in fr.globals:
            return self.alloc(st, UNDEF)
        return self.alloc(st, self.module_name(fr.module, name, st))

    def module_name(self, module, name, st):
        r = self.p.member(module.name, name)
        if r is None:
            if name in lib.BUILTIN_CONST:
                return lib.BUILTIN_CONST[name]
            return mk("ext", val=name)
        if r.op == "glob":
            return self.read_glob(r.val, st)
        if r.op == "ext" and r.val in ("mpi4py.MPI",):
            return mk("ext", val="MPI")
        return r

    def glob_initial(self, k):
        return mk("glob", val=k)

    def read_glob(self, k, st):
        """value of a module-level variable"""
        a = st.globs.get(k)
        if a is not None:
            return st.boxes[a]
        if k in self.gcache:
            return self.gcache[k]
        mod, name = k
        m = self.p.modules[mod]
        if name in m.mutable:
            r = self.mutable_global(m, name)
            if r is None:
                r = mk("glob", val=k)
            self.gcache[k] = r
            return r
        ent = m.ns[name]
        if k in self._geval or len(ent) != 1:
            return mk("glob", val=k)
        kind, (target, value) = ent[0] if ent[0][0] == "assign" \
            else (None, (None, None))
        if kind != "assign":
            return mk("glob", val=k)
        self._geval.add(k)
        saved = (self.frames, self.bases, self.loopstack, self.stack,
                 self.recording, self.tries)
        try:
            self.fids += 1
            dummy = Func(mod + ".<module>", ast.parse("def _m(): pass").body[0], m)
            self.frames = [Frame(self.fids, dummy, m)]
            self.stack = [dummy]
            self.bases, self.loopstack, self.tries = [], [], []
            self.recording = False
            s2 = State()
            s2.globs = {}
            a = self.ref(value, s2)
            self.frame().locals = set()
            self.assign(target, a, s2)
            b = s2.slots.get((self.fids, name))
            b = s2.slots.get((self.frames[0].fid, name), b)
            r = s2.boxes[b] if b is not None else mk("glob", val=k)
            if r.op in ("new",):
                r = mk("glob", val=k)
            if r.op == "call" and r.args[0].op == "ext" and \
                    str(r.args[0].val).startswith("threading."):
                r = mk("glob", val=k)   # identity matters, not the value
        except Budget:
            r = mk("glob", val=k)
        finally:
            (self.frames, self.bases, self.loopstack, self.stack,
             self.recording, self.tries) = saved
            self._geval.discard(k)
        self.gcache[k] = r
        return r

    def mutable_global(self, m, name):
        """A global rebound in functions: if every assignment is the
        communicator, resolve it; otherwise opaque."""
        if name == "MPI":
            return mk("ext", val="MPI")
        vals = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        vals.add(dotted_of(n.value) or "?")
        vals.discard("None")
        if vals and all(v.endswith("COMM_WORLD") for v in vals):
            return mk("ext", val="MPI.COMM_WORLD")
        return None

    def assign(self, t, a, st):
        if isinstance(t, ast.Name):
            self.bind_ref(t.id, a, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            el = self.elems.get(a)
            term = st.boxes[a]
            n = len(t.elts)
            star = [i for i, x in enumerate(t.elts)
                    if isinstance(x, ast.Starred)]
            if star:
                for i, x in enumerate(t.elts):
                    if isinstance(x, ast.Starred):
                        self.assign(x.value, self.alloc(
                            st, mk("starred", term, val=i)), st)
                    else:
                        self.assign(x, self.alloc(st, self.select(
                            term, num(i if i < star[0] else i - n), st)), st)
                return
            for i, x in enumerate(t.elts):
                if el is not None and len(el) == n and el[i] in st.boxes:
                    self.assign(x, el[i], st)
                else:
                    self.assign(x, self.alloc(
                        st, self.select(term, num(i), st)), st)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            self.set_attr(b, t.attr, a, st, t)
        elif isinstance(t, ast.Subscript):
            i = self.index(t.slice, st)
            self.store_sub(t, i, st.boxes[a], st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, a, st)

    def store_sub(self, t, i, v, st, node):
        """t.value[i] = v"""
        b = t.value
        if isinstance(b, ast.Subscript):
            outer = self.ref(b.value, st)
            j = self.index(b.slice, st)
            inner = self.select(st.boxes[outer], j, st)
            if is_handle(inner):
                self.effect("setitem", inner, st, node, args=(i, v))
                return
            new = store(inner, i, v)
            self.effect("setitem", inner, st, node, args=(i, v))
            self.store_sub(b, j, new, st, node)
            return
        a = self.ref(b, st)
        base = st.boxes[a]
        self.effect("setitem", base, st, node, args=(i, v),
                    extra=self.origin_of(a))
        if is_handle(base):
            return
        self.put(st, a, store(base, i, v))
        self.elems.pop(a, None)

    def origin_of(self, a):
        """the storage outside the analysed functions that a box shares"""
        while a in self.views:
            a = self.views[a][0]
        return self.origin.get(a)

    def put(self, st, a, term):
        """change a box in place; slices of an array share its storage"""
        st.boxes[a] = term
        up = self.views.get(a)
        if up is not None and up[0] in st.boxes:
            p, i = up
            self.put(st, p, store(st.boxes[p], i, term))
            return
        self.refresh(st, a)

    def refresh(self, st, a):
        for v in self.views_of.get(a, ()):
            if v in st.boxes:
                st.boxes[v] = select(st.boxes[a], self.views[v][1])
                self.refresh(st, v)

    def set_attr(self, b, name, a, st, node):
        q = class_of(b)
        if q is not None and q in self.p.classes:
            s = self.p.lookup(q, name + ".setter")
            if s is not None and s[0] == "def":
                f = s[1]
                pn = [x.arg for x in f.node.args.args]
                self.call_body(f, {pn[0]: self.alloc(st, b), pn[1]: a},
                               st, node, None)
                return
        self.effect("setattr", b, st, node, args=(st.boxes[a],), extra=name)
        if b.op == "phi":
            pass
        st.heap[(b, name)] = a

    def fresh_attr(self, b, name):
        return mk("attr", b, val=name)

    # ----------------------------------------------------------- attributes
    def attr_ref(self, b, name, st, node):
        a = st.heap.get((b, name))
        if a is not None:
            return a
        t = self.attr(b, name, st, node)
        a = st.heap.get((b, name))
        if a is not None and st.boxes[a] is t:
            return a
        a = self.alloc(st, t)
        if b.op in ("obj", "new", "sym", "glob") and t.op not in \
                ("bound", "func", "closure") and not self.is_property(b, name):
            st.heap[(b, name)] = a
        if t.op == "attr":
            self.origin[a] = t
        return a

    def is_property(self, b, name):
        q = class_of(b)
        if q is None or q not in self.p.classes:
            return False
        e = self.p.lookup(q, name)
        return bool(e and e[0] == "def")

    def attr(self, b, name, st, node):
        a = st.heap.get((b, name))
        if a is not None:
            return st.boxes[a]
        op = b.op
        if op == "mod":
            r = self.p.member(b.val, name)
            if r is None:
                return mk("ext", val=b.val + "." + name)
            if r.op == "glob":
                return self.read_glob(r.val, st)
            return r
        if op == "ext":
            d = b.val + "." + name
            if d in lib.EXT_CONST:
                return lib.EXT_CONST[d]
            return mk("ext", val=d)
        if op == "super":
            selfterm, = b.args
            e = self.p.lookup(class_of(selfterm) or b.val, name, after=b.val)
            if e and e[0] == "def":
                return mk("bound", selfterm, val=e[1].qual)
            return mk("attr", b, val=name)
        if op == "phi" and (class_of(b.args[1]) or class_of(b.args[2])):
            return phi(b.args[0], self.attr(b.args[1], name, st, node),
                       self.attr(b.args[2], name, st, node))
        q = b.val if op == "cls" else class_of(b)
        if q is not None and q in self.p.classes:
            e = self.p.lookup(q, name)
            if e is not None:
                kind, pl = e
                if kind == "def":
                    decs = [dotted_of(d) or "" for d in
                            pl.node.decorator_list]
                    if "property" in decs:
                        if op == "cls":
                            return mk("attr", b, val=name)
                        pn = pl.node.args.args[0].arg
                        return self.invoke(pl, {pn: self.alloc(st, b)}, st,
                                           node)
                    if op == "cls" or "staticmethod" in decs:
                        return mk("func", val=pl.qual)
                    return mk("bound", b, val=pl.qual)
                if kind == "assign" and isinstance(pl[0], ast.Name):
                    m = self.p.classes[q].module
                    return self.eval_in_module(m, pl[1], st)
                if kind == "class":
                    return mk("cls", val=pl.qual)
            h = self.hints.get((q, name))
            if h is None:
                for anc in self.p.mro(q):
                    h = self.hints.get((anc, name))
                    if h is not None:
                        break
            if h is not None:
                return h if isinstance(h, T) else \
                    mk("obj", val=(h, show(b, 2) + "." + name))
            if op != "cls" and op != "new":
                return self.fresh_attr(b, name)
            if op == "new":
                g = self.p.lookup(q, "__getattr__")
                return self.fresh_attr(b, name)
        return lib.attribute(self, b, name)

    def eval_in_module(self, m, expr, st):
        saved = (self.frames, self.stack)
        self.fids += 1
        dummy = Func(m.name + ".<class>", ast.parse("def _m(): pass").body[0], m)
        self.frames = [Frame(self.fids, dummy, m)]
        self.stack = [dummy]
        try:
            return self.ev(expr, st)
        finally:
            self.frames, self.stack = saved

    # ---------------------------------------------------------- expressions
    def cond(self, e, st):
        """expression as a condition"""
        if isinstance(e, ast.BoolOp):
            vals = []
            g = st.guard
            for v in e.values:
                c = self.cond(v, st)
                vals.append(c)
                st.guard = and_(st.guard, c if isinstance(e.op, ast.And)
                                else not_(c))
                if st.guard is FALSE:
                    st.guard = g
                    break
            st.guard = g
            return (and_ if isinstance(e.op, ast.And) else or_)(*vals)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand, st))
        return truth(self.ev(e, st))

    def ref(self, e, st):
        """box holding the value of e (sharing it where Python would)"""
        if isinstance(e, ast.Name):
            return self.name(e.id, st)
        if isinstance(e, ast.Attribute):
            b = self.ev(e.value, st)
            return self.attr_ref(b, e.attr, st, e)
        if isinstance(e, ast.Subscript):
            b = self.ref(e.value, st)
            i = self.index(e.slice, st)
            t = self.select(st.boxes[b], i, st)
            a = self.alloc(st, t)
            if any(x.op == "slice" for x in ixs(i)) and \
                    not listlike(st.boxes[b]) and not is_handle(t):
                self.views[a] = (b, i)
                self.views_of.setdefault(b, []).append(a)
            return a
        if isinstance(e, (ast.Tuple, ast.List)) and \
                not any(isinstance(x, ast.Starred) for x in e.elts):
            aids = [self.ref(x, st) for x in e.elts]
            t = mk("tuple" if isinstance(e, ast.Tuple) else "list",
                   *[st.boxes[a] for a in aids])
            a = self.alloc(st, t)
            self.elems[a] = aids
            return a
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) \
                and e.func.attr == "ravel" and not e.args and \
                not e.keywords:
            # the flattened array shares its storage
            a = self.ref(e.func.value, st)
            if st.boxes[a].op not in ("mod", "ext", "cls"):
                return a
        if isinstance(e, ast.Call):
            self.last_elems = None
            self.last_ref = None
            t = self.ev(e, st)
            if self.last_ref is not None and \
                    st.boxes.get(self.last_ref) is t:
                r, self.last_ref = self.last_ref, None
                return r
            le = self.last_elems
            self.last_elems = None
            if le is not None:
                a0, el = le
                if st.boxes.get(a0) is t:
                    return a0
            return self.alloc(st, t)
        return self.alloc(st, self.ev(e, st))

    last_elems = None
    last_ref = None

    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unknown.append((e, "expression"))
            return mk("opaque", val=self.newid())
        return m(e, st)

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        a = self.name(e.id, st)
        return st.boxes[a]

    def e_NamedExpr(self, e, st):
        a = self.ref(e.value, st)
        self.assign(e.target, a, st)
        return st.boxes[a]

    def e_Attribute(self, e, st):
        b = self.ev(e.value, st)
        a = self.attr_ref(b, e.attr, st, e)
        return st.boxes[a]

    def e_Tuple(self, e, st):
        return self.display("tuple", e.elts, st)

    def e_List(self, e, st):
        return self.display("list", e.elts, st)

    def e_Set(self, e, st):
        return self.display("set", e.elts, st)

    def display(self, op, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                t = self.ev(x.value, st)
                if t.op in ("list", "tuple"):
                    out += t.args
                else:
                    out.append(mk("star", t))
            else:
                out.append(self.ev(x, st))
        return mk(op, *out)

    def e_Dict(self, e, st):
        flat = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                t = self.ev(v, st)
                if t.op == "dict":
                    flat += t.args
                else:
                    flat += [mk("star", t), NONE]
            else:
                flat += [self.ev(k, st), self.ev(v, st)]
        return mk("dict", *flat)

    def e_Starred(self, e, st):
        return mk("star", self.ev(e.value, st))

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand, st))
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.USub):
            if v.op == "full":
                return mk("full", v.args[0], neg(v.args[1]))
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isbool(v):
                return not_(v)
            return mk("fn", v, val="invert")
        return mk("opaque", val=self.newid())

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(e.op, a, b, st, e)

    def binop(self, op, a, b, st, node):
        return lib.binop(self, op, a, b)

    def e_BoolOp(self, e, st):
        g = st.guard
        vals = []
        is_and = isinstance(e.op, ast.And)
        for v in e.values:
            t = self.ev(v, st)
            vals.append(t)
            c = truth(t)
            ng = and_(st.guard, c if is_and else not_(c))
            if ng is FALSE:
                break
            st.guard = ng
        st.guard = g
        if all(isbool(v) or v.op == "not" for v in vals):
            return (and_ if is_and else or_)(*vals)
        out = vals[-1]
        for v in reversed(vals[:-1]):
            out = phi(truth(v), out, v) if is_and else phi(truth(v), v, out)
        return out

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            out.append(lib.compare(op, left, right))
            left = right
        return and_(*out) if len(out) > 1 else out[0]

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        if c is TRUE:
            return self.ev(e.body, st)
        if c is FALSE:
            return self.ev(e.orelse, st)
        g = st.guard
        st.guard = and_(g, c)
        a = self.ev(e.body, st)
        st.guard = and_(g, not_(c))
        b = self.ev(e.orelse, st)
        st.guard = g
        return phi(c, a, b)

    def e_Lambda(self, e, st):
        return self.closure(e, st)

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        i = self.index(e.slice, st)
        return self.select(b, i, st)

    def index(self, s, st):
        """index expression as a term; several indices as an 'ix' tuple"""
        if isinstance(s, ast.Tuple):
            return mk("ix", *[self.index(x, st) for x in s.elts])
        if isinstance(s, ast.Slice):
            return mk("slice",
                      self.ev(s.lower, st) if s.lower else NONE,
                      self.ev(s.upper, st) if s.upper else NONE,
                      self.ev(s.step, st) if s.step else NONE)
        t = self.ev(s, st)
        if t.op == "tuple":
            return mk("ix", *t.args)
        return t

    def select(self, b, i, st):
        return select(b, i)

    def e_Slice(self, e, st):
        return self.index(e, st)

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                t = self.ev(v.value, st)
                spec = ""
                if v.format_spec is not None:
                    sp = self.ev(v.format_spec, st)
                    spec = strval(sp)
                    if spec is None:
                        spec = "?"
                parts.append(lib.field(t, spec))
        return lib.fmt(parts)

    def e_FormattedValue(self, e, st):
        return lib.fmt([lib.field(self.ev(e.value, st), "")])

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        t = self.ev(e.value, st) if e.value is not None else NONE
        self.frame().yields.append(t)
        self.effect("yield", t, st, e)
        return mk("opaque", val=self.newid())

    def e_YieldFrom(self, e, st):
        t = self.ev(e.value, st)
        self.frame().yields.append(mk("star", t))
        self.effect("yield", mk("star", t), st, e)
        return mk("opaque", val=self.newid())

    # comprehensions --------------------------------------------------------
    def e_ListComp(self, e, st):
        return self.comp("list", e.generators, e.elt, None, st)

    def e_SetComp(self, e, st):
        return self.comp("set", e.generators, e.elt, None, st)

    def e_GeneratorExp(self, e, st):
        return self.comp("gen", e.generators, e.elt, None, st)

    def e_DictComp(self, e, st):
        return self.comp("dict", e.generators, e.key, e.value, st)

    def comp(self, kind, gens, elt, val, st):
        fr = self.frame()
        saved = {}
        names = set()
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        for n in names:
            saved[n] = st.slots.get((fr.fid, n))
        r = self.comp_rec(kind, gens, elt, val, st)
        for n, a in saved.items():
            if a is None:
                st.slots.pop((fr.fid, n), None)
            else:
                st.slots[(fr.fid, n)] = a
        return r

    def comp_rec(self, kind, gens, elt, val, st):
        g = gens[0]
        it = self.ref(g.iter, st)
        t = st.boxes[it]
        items = self.literal_items(it, t, st)
        fr = self.frame()
        if items is not None and len(items) <= self.unroll:
            out = []
            ok = True
            for a in items:
                self.assign(g.target, a, st)
                c = and_(*[self.cond(x, st) for x in g.ifs])
                if c is FALSE:
                    continue
                if c is not TRUE:
                    ok = False
                    break
                if len(gens) > 1:
                    sub_ = self.comp_rec(kind, gens[1:], elt, val, st)
                    if sub_.op in ("list", "set", "dict"):
                        out += sub_.args
                    else:
                        ok = False
                        break
                elif val is not None:
                    out += [self.ev(elt, st), self.ev(val, st)]
                else:
                    out.append(self.ev(elt, st))
            if ok:
                return mk({"gen": "list"}.get(kind, kind), *out)
        dom, binder = self.domain(t, st)
        depth = len(self.loopstack)
        self.loopstack.append(-self.newid())
        self.bases.append(st.guard)
        g0 = st.guard
        st.guard = mk("iter", dom)
        try:
            binder(g.target, st)
            c = and_(*[self.cond(x, st) for x in g.ifs])
            st.guard = and_(st.guard, c)
            if len(gens) > 1:
                body = self.comp_rec(kind, gens[1:], elt, val, st)
                return mk("comp", dom.args[0], c, body,
                          val=("flat" + kind, depth))
            if val is not None:
                body = mk("tuple", self.ev(elt, st), self.ev(val, st))
            else:
                body = self.ev(elt, st)
        finally:
            self.loopstack.pop()
            self.bases.pop()
            st.guard = g0
        return comp_norm(mk("comp", dom.args[0], c, body, val=(
            {"gen": "list"}.get(kind, kind), depth)))

    def literal_items(self, a, t, st):
        """boxes of the elements of a literal sequence, or None"""
        el = self.elems.get(a)
        if el is not None and t.op in ("list", "tuple") and \
                all(x in st.boxes for x in el) and len(el) == len(t.args) \
                and all(st.boxes[x] is y for x, y in zip(el, t.args)):
            # nested displays keep their element boxes
            return list(el)
        if t.op in ("list", "tuple", "set", "arr") and \
                not any(x.op == "star" for x in t.args):
            return [self.alloc_disp(st, x) for x in t.args]
        if t.op == "dict" and not any(x.op == "star" for x in t.args):
            return [self.alloc(st, x) for x in t.args[::2]]
        if t.op == "mcall" and t.args[0].op == "dict" and len(t.args) == 1:
            d = t.args[0]
            if any(x.op == "star" for x in d.args):
                return None
            if t.val == "items":
                return [self.alloc(st, mk("tuple", d.args[i], d.args[i + 1]))
                        for i in range(0, len(d.args), 2)]
            if t.val == "keys":
                return [self.alloc(st, x) for x in d.args[::2]]
            if t.val == "values":
                return [self.alloc(st, x) for x in d.args[1::2]]
        if t.op == "call" and t.args[0].op == "ext":
            f = t.args[0].val
            pos = [x for x in t.args[1:] if x.op != "kw"]
            if f == "range" and pos and all(isnum(x) for x in pos):
                r = range(*[int(x.val) for x in pos])
                if len(r) <= self.unroll:
                    return [self.alloc(st, num(i)) for i in r]
            if f in ("enumerate",) and len(pos) >= 1:
                inner = self.literal_items(-1, pos[0], st)
                if inner is not None:
                    s0 = int(pos[1].val) if len(pos) > 1 and isnum(pos[1]) \
                        else 0
                    out = []
                    for i, x in enumerate(inner):
                        n = self.alloc(st, num(i + s0))
                        b = self.alloc(st, mk("tuple", num(i + s0),
                                              st.boxes[x]))
                        self.elems[b] = [n, x]
                        out.append(b)
                    return out
            if f == "zip" and pos:
                cols = [self.literal_items(-1, p, st) for p in pos]
                if all(c is not None for c in cols):
                    out = []
                    for row in zip(*cols):
                        b = self.alloc(st, mk("tuple",
                                              *[st.boxes[x] for x in row]))
                        self.elems[b] = list(row)
                        out.append(b)
                    return out
            if f in ("list", "tuple", "sorted", "reversed", "iter") and \
                    len(pos) == 1 and len(t.args) == 2:
                inner = self.literal_items(-1, pos[0], st)
                if inner is not None:
                    if f == "reversed":
                        return inner[::-1]
                    if f == "sorted":
                        ts = [st.boxes[x] for x in inner]
                        if all(isstr(x) for x in ts) or \
                                all(isnum(x) for x in ts):
                            return [self.alloc(st, x) for x in
                                    sorted(ts, key=lambda q: cval(q))]
                        return None
                    return inner
        return None

    def alloc_disp(self, st, t):
        a = self.alloc(st, t)
        return a

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, st):
        self.stats["calls"] += 1
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            fr = self.frame()
            f = fr
            while f is not None and f.cls is None:
                f = f.parent
            if f is not None and f.cls is not None and f.func.node.args.args:
                s = st.slots.get((f.fid, f.func.node.args.args[0].arg))
                if s is not None:
                    return mk("super", st.boxes[s], val=f.cls.qual)
        if isinstance(e.func, ast.Attribute):
            recv = self.ref(e.func.value, st)
            b = st.boxes[recv]
            return self.method(b, recv, e, st)
        f = self.ev(e.func, st)
        args, kw = self.arguments(e, st)
        return self.apply(f, args, kw, st, e)

    def arguments(self, e, st):
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                t = self.ev(x.value, st)
                if t.op in ("list", "tuple") and \
                        not any(y.op == "star" for y in t.args):
                    args += [self.alloc(st, y) for y in t.args]
                else:
                    args.append(self.alloc(st, mk("star", t)))
            else:
                args.append(self.ref(x, st))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                t = self.ev(k.value, st)
                if t.op == "dict" and all(isstr(x) for x in t.args[::2]):
                    for i in range(0, len(t.args), 2):
                        kw[strval(t.args[i])] = self.alloc(st, t.args[i + 1])
                else:
                    kw["**"] = self.alloc(st, t)
            else:
                kw[k.arg] = self.ref(k.value, st)
        return args, kw

    def method(self, b, recv, e, st):
        name = e.func.attr
        # logging is not behaviour
        if lib.is_logger(b):
            if not (b.op == "ext" and name in ("getLogger",)):
                for x in e.args:
                    if any(isinstance(n, ast.Call) for n in ast.walk(x)) and \
                            not isinstance(x, ast.Constant):
                        pass
                return NONE
        f = None
        if b.op in ("mod", "ext", "cls", "super") or \
                class_of(b) is not None or (b, name) in st.heap or \
                (b.op == "phi" and (class_of(b.args[1]) or
                                    class_of(b.args[2]))):
            f = self.attr(b, name, st, e.func)
            if f.op == "phi" and f.args[1].op == "bound" and \
                    f.args[2].op == "bound":
                args, kw = self.arguments(e, st)
                return self.apply(f, args, kw, st, e)
            if f.op not in ("attr",) or f.args[0] is not b:
                args, kw = self.arguments(e, st)
                return self.apply(f, args, kw, st, e)
        args, kw = self.arguments(e, st)
        return lib.method(self, b, recv, name, args, kw, st, e)

    def apply(self, f, args, kw, st, node):
        """call of a function value with argument boxes"""
        op = f.op
        if op == "func":
            fn_ = self.p.funcs[f.val]
            return self.call_func(fn_, args, kw, st, node, f)
        if op == "bound":
            fn_ = self.p.funcs[f.val]
            decs = [dotted_of(d) or "" for d in fn_.node.decorator_list]
            selfbox = self.alloc(st, f.args[0])
            if "classmethod" in decs:
                q = class_of(f.args[0])
                selfbox = self.alloc(st, mk("cls", val=q))
            return self.call_func(fn_, [selfbox] + list(args), kw, st, node,
                                  f, bound=True)
        if op == "closure":
            fn_, fr = self.closures[f.val]
            if self.depth_ok(fn_):
                b = self.bind_args(fn_, args, kw, st)
                if b is not None:
                    return self.inline_call(fn_, b, st, node, fr)
        if op == "cls":
            return self.instantiate(f, args, kw, st, node)
        if op == "phi":
            c = f.args[0]
            if c not in (TRUE, FALSE):
                a, b = st.copy(), st.copy()
                g = st.guard
                a.guard, b.guard = and_(g, c), and_(g, not_(c))
                x = self.apply(f.args[1], args, kw, a, node)
                y = self.apply(f.args[2], args, kw, b, node)
                m = self.merge(c, a, b)
                m.guard, m.dead = g, False
                st.become(m)
                return phi(c, x, y)
        if op == "partial":
            pre = [self.alloc(st, x) for x in f.args[1:] if x.op != "kw"]
            pk = {x.val: self.alloc(st, x.args[0]) for x in f.args[1:]
                  if x.op == "kw"}
            pk.update(kw)
            return self.apply(f.args[0], pre + list(args), pk, st, node)
        if op == "identity_dec":
            return st.boxes[args[0]]
        q = class_of(f)
        if q is not None and q in self.p.classes:
            e = self.p.lookup(q, "__call__")
            if e and e[0] == "def":
                return self.call_func(e[1], [self.alloc(st, f)] + list(args),
                                      kw, st, node, f)
        return lib.external(self, f, args, kw, st, node)

    def depth_ok(self, fn_):
        if len(self.stack) >= self.maxdepth:
            return False
        return sum(1 for s in self.stack if s.node is fn_.node) < 1

    def may_inline(self, fn_):
        if not self.inline:
            return False
        if fn_.qual in self.opaque or fn_.name in self.opaque:
            return False
        if self.noinline_prefix and fn_.qual.startswith(self.noinline_prefix):
            return False
        return self.depth_ok(fn_)

    def call_func(self, fn_, args, kw, st, node, fterm, bound=False):
        mod = self.models.get(fn_.qual) or self.models.get(fn_.name)
        if mod is not None:
            r = mod(self, fn_, args, kw, st, node)
            if r is not None:
                return r
        r = lib.repo_model(self, fn_, args, kw, st, node)
        if r is not None:
            return r
        # decorated functions: apply repository decorators
        decs = [d for d in fn_.node.decorator_list
                if (dotted_of(d) or "") not in
                ("property", "staticmethod", "classmethod") and
                not (isinstance(d, ast.Attribute) and d.attr == "setter")]
        if decs and not getattr(fn_, "_undecorated", False) and \
                self.may_inline(fn_):
            inner = Func(fn_.qual, fn_.node, fn_.module, fn_.cls, fn_.outer)
            inner._undecorated = True
            u = self.newid()
            self.closures[u] = (inner, None)
            t = mk("closure", val=u)
            saved = self.frames, self.stack
            for d in reversed(decs):
                # decorator expressions belong to the defining module
                self.fids += 1
                dummy = Func(fn_.module.name + ".<module>",
                             ast.parse("def _m(): pass").body[0], fn_.module)
                self.frames = self.frames + [Frame(self.fids, dummy,
                                                   fn_.module)]
                dt = self.ev(d, st)
                self.frames = self.frames[:-1]
                if dt.op == "func" or dt.op == "closure":
                    t = self.apply(dt, [self.alloc(st, t)], {}, st, node)
            if t.op == "closure":
                f2, fr2 = self.closures[t.val]
                b = self.bind_args(f2, args, kw, st)
                if b is not None:
                    return self.inline_call(f2, b, st, node, fr2)
            return self.opaque_call(fterm, fn_, args, kw, st, node, bound)
        if self.may_inline(fn_):
            b = self.bind_args(fn_, args, kw, st)
            if b is not None:
                return self.inline_call(fn_, b, st, node, None)
        return self.opaque_call(fterm, fn_, args, kw, st, node, bound)

    def invoke(self, fn_, binding, st, node):
        if self.depth_ok(fn_):
            return self.inline_call(fn_, binding, st, node, None)
        return mk("call", mk("func", val=fn_.qual),
                  *[st.boxes[a] for a in binding.values()])

    def inline_call(self, fn_, binding, st, node, parent):
        self.stats["inlined"] += 1
        self.last_elems = None
        v = self.call_body(fn_, binding, st, node, parent)
        return v

    def opaque_call(self, fterm, fn_, args, kw, st, node, bound):
        ts = [st.boxes[a] for a in args]
        q = fn_.qual
        # keyword arguments in parameter order -> canonical positional form
        names = [x.arg for x in fn_.node.args.posonlyargs +
                 fn_.node.args.args]
        if is_static(fn_.node) and fn_.cls is not None and bound:
            pass
        full = dict(zip(names, ts)) if not any(t.op == "star" for t in ts) \
            else None
        kwt = {k: st.boxes[a] for k, a in kw.items()}
        if full is not None and "**" not in kwt and len(ts) <= len(names):
            full.update(kwt)
            defaults = dict(zip(names[len(names) -
                                      len(fn_.node.args.defaults):],
                                fn_.node.args.defaults))
            for n, d in defaults.items():
                if n not in full and isinstance(d, (ast.Constant,
                                                    ast.UnaryOp)):
                    full[n] = self.eval_in_module(fn_.module, d, st)
            extra = [k for k in full if k not in names]
            pos = [full[n] for n in names if n in full]
            allk = [mk("kw", full[n], val=n) for n in names if n in full] + \
                   [mk("kw", full[k], val=k) for k in extra]
            t = mk("call", mk("func", val=q), *allk)
            named = {k: v for k, v in full.items()}
        else:
            t = mk("call", mk("func", val=q), *ts,
                   *[mk("kw", v, val=k) for k, v in sorted(kwt.items())])
            named = kwt
            pos = ts
        self.effect("call", t, st, node, fn=mk("func", val=q),
                    args=ts, kw=named, extra=tuple(args))
        return t

    def bind_args(self, fn_, args, kw, st):
        a = fn_.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        rest = []
        for i, x in enumerate(args):
            t = st.boxes[x]
            if t.op == "star":
                # spread an unknown sequence over remaining parameters
                base = t.args[0]
                left = names[i:]
                ndef = len(a.defaults)
                req = [n for n in left if n not in kw]
                if a.vararg and not left:
                    rest.append(x)
                    break
                for j, n in enumerate(req):
                    if n in names[len(names) - ndef:] and ndef and \
                            i == 0 and False:
                        break
                    out[n] = self.alloc(st, self.select(base, num(j), st))
                if a.vararg:
                    out[a.vararg.arg] = self.alloc(st, base)
                break
            if i < len(names):
                out[names[i]] = x
            else:
                rest.append(x)
        if a.vararg and a.vararg.arg not in out:
            if len(rest) == 1 and st.boxes[rest[0]].op == "star":
                out[a.vararg.arg] = self.alloc(st, st.boxes[rest[0]].args[0])
            else:
                b = self.alloc(st, mk("tuple",
                                      *[st.boxes[x] for x in rest]))
                self.elems[b] = list(rest)
                out[a.vararg.arg] = b
        elif rest and not a.vararg:
            return None
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, x in kw.items():
            if k in names or k in kwonly:
                out[k] = x
            else:
                extra[k] = x
        if a.kwarg:
            flat = []
            star = extra.pop("**", None)
            if star is not None and not extra:
                out[a.kwarg.arg] = star
            else:
                for k, x in extra.items():
                    flat += [const(k), st.boxes[x]]
                out[a.kwarg.arg] = self.alloc(st, mk("dict", *flat))
        elif extra and set(extra) != {"**"}:
            return None
        # defaults
        nd = len(a.defaults)
        for n, d in zip(names[len(names) - nd:], a.defaults):
            if n not in out:
                out[n] = self.alloc(st, self.eval_default(fn_, d, st))
        for n, d in zip(kwonly, a.kw_defaults):
            if n not in out and d is not None:
                out[n] = self.alloc(st, self.eval_default(fn_, d, st))
        for n in names + kwonly:
            if n not in out:
                out[n] = self.alloc(st, sym("missing", fn_.qual, n))
        return out

    def eval_default(self, fn_, d, st):
        if isinstance(d, ast.Constant):
            return const(d.value)
        return self.eval_in_module(fn_.module, d, st)

    def instantiate(self, f, args, kw, st, node):
        q = f.val
        mod = self.models.get(q)
        if mod is not None:
            r = mod(self, f, args, kw, st, node)
            if r is not None:
                return r
        r = lib.class_model(self, q, args, kw, st, node)
        if r is not None:
            return r
        obj = mk("new", val=(q, self.newid()))
        init = self.p.lookup(q, "__init__")
        ts = [st.boxes[a] for a in args]
        self.effect("new", obj, st, node, fn=f, args=ts,
                    kw={k: st.boxes[a] for k, a in kw.items()})
        if init is not None and init[0] == "def" and \
                q not in self.opaque:
            fn_ = init[1]
            if self.depth_ok(fn_):
                b = self.bind_args(fn_, [self.alloc(st, obj)] + list(args),
                                   kw, st)
                if b is not None:
                    self.inline_call(fn_, b, st, node, None)
        elif q in self.opaque or init is None:
            for i, t in enumerate(ts):
                st.heap[(obj, "arg%d" % i)] = args[i]
            for k, a in kw.items():
                st.heap[(obj, k)] = a
        return obj


# ------------------------------------------------------------------ helpers
def class_of(t):
    if t.op in ("obj", "new"):
        return t.val[0]
    return None


def is_static(node):
    return any((dotted_of(d) or "") == "staticmethod"
               for d in getattr(node, "decorator_list", []))


def is_handle(t):
    if t.op == "mcall" and t.val in ("ReadAsArray", "read", "readline",
                                     "readlines", "fetchall", "fetchone"):
        return False
    return lib.handle_root(t) is not None


def exc_name(e):
    if e is None:
        return "*reraise"
    if isinstance(e, ast.Call):
        e = e.func
    d = dotted_of(e)
    return d.split(".")[-1] if d else "?"


def handler_names(h):
    if h.type is None:
        return ["*"]
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return [(dotted_of(t) or "?").split(".")[-1] for t in ts]


def try_key(s):
    """what is attempted: names called/imported in the body"""
    out = []
    for n in s.body:
        for x in ast.walk(n):
            if isinstance(x, ast.ImportFrom):
                out += [a.name for a in x.names]
            elif isinstance(x, ast.Import):
                out += [a.name for a in x.names]
            elif isinstance(x, ast.Call):
                d = dotted_of(x.func)
                if d:
                    out.append(d)
    return ",".join(sorted(set(out))[:6])


_an_cache = {}


def assigned_names(node):
    r = _an_cache.get(node)
    if r is not None:
        return r
    out = set()
    if isinstance(node, ast.Lambda):
        return out
    glob = set()

    def visit(n, top=False):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.ClassDef)):
                out.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp,
                              ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, ast.Name) and isinstance(
                    c.ctx, (ast.Store, ast.Del)):
                out.add(c.id)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    out.add((a.asname or a.name).split(".")[0])
            elif isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            elif isinstance(c, (ast.Global, ast.Nonlocal)):
                glob.update(c.names)
            visit(c)
    visit(node)
    out -= glob
    _an_cache[node] = out
    return out


def has_inner(node):
    return any(isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not node
               for n in ast.walk(node))


_gen_cache = {}


def is_generator(node):
    r = _gen_cache.get(node)
    if r is None:
        r = False
        if not isinstance(node, ast.Lambda):
            st = list(node.body)
            while st:
                n = st.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                                  ast.GeneratorExp)):
                    continue
                st.extend(ast.iter_child_nodes(n))
        _gen_cache[node] = r
    return r


# ------------------------------------------------------- indexing of values
def ixs(i):
    return i.args if i.op == "ix" else (i,)


def mask_of(i):
    """boolean mask equivalent to index i, or None"""
    if isbool(i):
        return i
    if i.op == "nonzero":
        return i.args[0]
    if i.op == "idx" and i.args[0].op == "nonzero" and len(i.args) == 2 \
            and i.args[1] is ZERO:
        return i.args[0].args[0]
    return None


def full_slice(i):
    if i.op == "slice":
        return all(a is NONE for a in i.args)
    return i.op == "const" and i.val[0] == "ellipsis"


def select(b, i):
    ii = ixs(i)
    if len(ii) == 1:
        i = ii[0]
        if b.op in ("list", "tuple", "arr") and isnum(i) and \
                i.val.denominator == 1 and \
                not any(x.op == "star" for x in b.args):
            n = int(i.val)
            if -len(b.args) <= n < len(b.args):
                return b.args[n]
        if b.op in ("list", "tuple", "arr") and i.op == "slice" and \
                all(a is NONE or isnum(a) for a in i.args) and \
                not any(x.op == "star" for x in b.args):
            sl = slice(*[None if a is NONE else int(a.val) for a in i.args])
            return mk(b.op, *b.args[sl])
        if b.op == "dict":
            for k in range(0, len(b.args), 2):
                if b.args[k] is i:
                    return b.args[k + 1]
            if isconst(i) and all(isconst(x) for x in b.args[::2]):
                return mk("idx", b, i)
        if b.op == "comp" and b.val[0] == "list" and b.args[1] is TRUE and \
                i.op not in ("slice",) and mask_of(i) is None and \
                i.op != "ix" and not (isnum(i) and i.val < 0) and \
                b.args[2].op != "new":
            kk = sym("k", b.val[1])
            return subst(b.args[2], {kk: i})
        if b.op == "idx" and b.args[0].op == "attr" and False:
            pass
    if b.op == "phi" and all(x.op in ("list", "tuple", "arr", "dict", "phi")
                             for x in b.args[1:]):
        return phi(b.args[0], select(b.args[1], i), select(b.args[2], i))
    if b.op == "full":
        if any(x.op == "slice" for x in ii) or mask_of(i) is not None:
            return b.args[1]
        return b.args[1]
    if b.op == "store":
        base, j, v = b.args
        if j is i:
            return v
        if distinct_index(i, j):
            return select(base, i)
    if len(ii) == 1 and full_slice(ii[0]):
        if lib.handle_root(b) is not None:
            return mk("data", b)
        return b
    m = mask_of(i) if len(ii) == 1 else None
    if m is not None:
        return mk("idx", b, m)
    if b.op == "attr" and b.val == "shape" and i is ZERO:
        return mk("len", b.args[0])
    return mk("idx", b, *ii)


def listlike(t):
    """slices of these are copies"""
    if t.op in ("list", "tuple", "append", "extend", "concat", "fmt", "path",
                "sorted", "dict"):
        return True
    if t.op == "const":
        return True
    if t.op == "comp":
        return True
    return False


ARRAY_MAKERS = {"numpy." + n for n in (
    "arange", "linspace", "where", "meshgrid", "empty", "concatenate",
    "append", "interp", "cumsum", "diff", "gradient", "flipud", "fliplr",
    "hstack", "vstack", "loadtxt", "genfromtxt", "histogram", "unique",
    "sort", "argsort", "roll", "random.rand", "random.randn")}
_ka = {}


def known_array(t, depth=0):
    r = _ka.get(t)
    if r is None:
        r = _known_array(t, depth)
        if depth == 0 or r:
            _ka[t] = r
    return r


def _known_array(t, depth):
    if depth > 30:
        return False
    if t.op in ("arr", "full", "data"):
        return True
    if t.op in ("store", "eta"):
        return known_array(t.args[0], depth + 1)
    if t.op == "idx":
        return any(x.op == "slice" or x.op in ("cmp", "and", "or", "not")
                   for x in t.args[1:]) and not listlike(t.args[0])
    if t.op == "call" and t.args and t.args[0].op == "ext":
        return t.args[0].val in ARRAY_MAKERS
    if t.op in ("add", "mul", "fn", "max", "min"):
        return any(known_array(x, depth + 1) for x in t.args)
    if t.op == "phi":
        return known_array(t.args[1], depth + 1) and \
            known_array(t.args[2], depth + 1)
    return False


def distinct_index(i, j):
    a, b = ixs(i), ixs(j)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.op in ("slice",) or y.op in ("slice",):
            continue
        if isstr(x) and isstr(y) and x is not y:
            return True
        if isstr(x) or isstr(y):
            continue
        if mask_of(x) is not None or mask_of(y) is not None:
            continue
        if not TM._arith(x) or not TM._arith(y):
            continue
        d = sub(x, y)
        if isnum(d) and d.val != 0:
            return True
    return False


def unmask(v, m):
    """value stored under mask m, as a full-size value"""
    def f(x):
        if x.op == "idx" and len(x.args) == 2 and x.args[1] is m:
            return x.args[0]
        return None
    return rewrite(v, f)


def store(b, i, v):
    ii = ixs(i)
    if len(ii) == 1:
        i = ii[0]
        if full_slice(i):
            if b.op == "full":
                return v if v.op != "num" else mk("full", b.args[0], v)
            return v
        m = mask_of(i)
        if m is not None:
            return phi(m, unmask(v, m), b)
        if b.op == "dict":
            for k in range(0, len(b.args), 2):
                if b.args[k] is i:
                    a = list(b.args)
                    a[k + 1] = v
                    return mk("dict", *a)
            if isconst(i) and all(isconst(x) for x in b.args[::2]):
                return mk("dict", *b.args, i, v)
        if b.op in ("list", "arr") and isnum(i) and i.val.denominator == 1:
            n = int(i.val)
            if -len(b.args) <= n < len(b.args):
                a = list(b.args)
                a[n] = v
                return mk(b.op, *a)
    elif all(full_slice(x) for x in ii):
        return v
    if b.op == "store":
        if b.args[1] is i:
            return store(b.args[0], i, v)
        # keep independent stores in a canonical order
        if distinct_index(i, b.args[1]) and i.key < b.args[1].key:
            return store(store(b.args[0], i, v), b.args[1], b.args[2])
    return mk("store", b, i, v)


def comp_norm(t):
    """[x[k] for k in range(len(x))] is x"""
    n, c, elt = t.args
    k = sym("k", t.val[1])
    if t.val[0] == "list" and c is TRUE and elt.op == "idx" and \
            len(elt.args) == 2 and elt.args[1] is k and \
            n is mk("len", elt.args[0]) and not has(elt.args[0], k):
        return elt.args[0]
    return t


def _rb_idx(t, args):
    if len(args) == 2:
        return select(args[0], args[1])
    return select(args[0], mk("ix", *args[1:]))


def _rb_store(t, args):
    return store(*args)


def _rb_attr(t, args):
    return mk("attr", *args, val=t.val)


TM.REBUILD["idx"] = _rb_idx
TM.REBUILD["store"] = _rb_store
