"""C28: files are closed and database changes committed."""
import ast
from sa.util import *

SKIP = ("tests", "docs", "installer", "conf", "setup", "input", "_c")
ALWAYS = {"shapefile.Writer"}
OPEN = {"open": "r", "io.open": "r", "gzip.open": "r", "codecs.open": "r",
        "bz2.open": "r", "netCDF4.Dataset": "r",
        "scipy.io.netcdf_file": "r", "scipy.io.netcdf.netcdf_file": "r",
        "h5py.File": "r"}
DERIVE = {"createVariable", "createGroup", "createDimension",
          "createCompoundType"}
DERIVE_FN = {"ncGetVar", "ncCreateVar"}
LIMIT = 3000
PROG = [None]
WRITES = ("INSERT", "UPDATE", "DELETE", "REPLACE")


def check(prog, chk):
    chk.rule("closed", "a file opened for writing is closed on every normal "
             "path before the function returns, or handed to the caller")
    chk.rule("after", "a file is not used after it has been closed")
    chk.rule("owned", "a file kept by an object is closed by the function "
             "that uses the object")
    chk.rule("commit", "database changes are committed before the connection "
             "is closed or the stage ends")
    fs = [f for q, f in sorted(prog.funcs.items())
          if q.split(".")[0] not in SKIP and not q.startswith("_c")]
    PROG[0] = prog
    res = Resolver(prog)
    n = 0
    givers = hand_over(prog, res, fs)
    for f in fs:
        sites = creations(res, f, givers)
        chk.functions.add(f.qual)
        if sites:
            n += len(sites)
            files(prog, chk, res, f, sites, givers)
    chk.need(n > 5, "places files are opened")
    chk.count("places files are opened", n)
    owned(prog, chk, res, fs)
    commits(prog, chk, res, fs)


class Resolver(object):
    """full name of what a call refers to"""

    def __init__(self, prog):
        self.prog = prog

    def name(self, f, node):
        if isinstance(node, ast.Name):
            for ns in self.local(f) + [f.module.ns]:
                ent = ns.get(node.id)
                if ent:
                    k, v = ent[-1]
                    if k == "import":
                        return v
                    if k == "from":
                        return "%s.%s" % (v[0], v[1])
                    if k in ("def", "class"):
                        return v.qual
                    return None
            return node.id
        if isinstance(node, ast.Attribute):
            b = self.name(f, node.value)
            return "%s.%s" % (b, node.attr) if b else None
        return None

    def local(self, f):
        ns = {}
        for x in ast.walk(f.node):
            if isinstance(x, ast.ImportFrom) and x.module and not x.level:
                for a in x.names:
                    ns.setdefault(a.asname or a.name, []).append(
                        ("from", (x.module, a.name)))
            elif isinstance(x, ast.Import):
                for a in x.names:
                    ns.setdefault(a.asname or a.name.split(".")[0],
                                  []).append(("import", a.name if a.asname
                                              else a.name.split(".")[0]))
        return [ns]

    def func(self, f, node):
        """function of the repository a call goes to"""
        if isinstance(node, ast.Attribute) and isinstance(
                node.value, ast.Name) and node.value.id == "self" and f.cls:
            ent = self.prog.method(f.cls.qual, node.attr) if hasattr(
                self.prog, "method") else f.cls.ns.get(node.attr, [None])[-1]
            if ent and ent[0] == "def":
                return ent[1]
        q = self.name(f, node)
        return self.prog.funcs.get(q) if q else None


def mode_of(res, f, call):
    """'w', 'r' or None if the call opens no file"""
    q = res.name(f, call.func)
    if q in ALWAYS:
        return "w"
    if q not in OPEN:
        return None
    m = None
    if len(call.args) > 1:
        m = call.args[1]
    for k in call.keywords:
        if k.arg == "mode":
            m = k.value
    if m is None:
        return "r"
    if isinstance(m, ast.Name):
        args = f.node.args
        for a, d in zip(args.args[len(args.args) - len(args.defaults):],
                        args.defaults):
            if a.arg == m.id:
                m = d
    if not (isinstance(m, ast.Constant) and isinstance(m.value, str)):
        return "r"
    return "w" if set(m.value) & set("wax+") else "r"


def own_nodes(fn):
    """nodes of a function without nested functions"""
    todo = list(fn.body)
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            todo.extend(ast.iter_child_nodes(x))


def creations(res, f, givers):
    out = {}
    for x in own_nodes(f.node):
        if isinstance(x, ast.Call):
            m = mode_of(res, f, x)
            if m is None:
                g = res.func(f, x.func)
                if g is not None and g.qual in givers and gives(
                        givers[g.qual], g, x):
                    m = "w"
            if m:
                out[id(x)] = (x, m)
    return out


def hand_over(prog, res, fs):
    """functions that may return a file they opened"""
    out = {}
    for f in fs:
        sites = {id(x): (x, "w") for x in own_nodes(f.node)
                 if isinstance(x, ast.Call) and mode_of(res, f, x) == "w"}
        if sites and returned(res, f, sites, State()):
            out[f.qual] = (res, sites)
    return out


def returned(res, f, sites, start):
    try:
        outs = Files(res, f, sites, {}, start).run()
    except (TooMany, RecursionError):
        return False
    return any(k in ("next", "return") and "returned" in s.st.values()
               for k, s in outs)


def gives(giver, g, call):
    """the call can return an open file"""
    args = g.node.args
    names = [a.arg for a in args.args]
    vals = {}
    for a, d in zip(names[len(names) - len(args.defaults):], args.defaults):
        vals[a] = d
    for a, v in zip(names, call.args):
        vals[a] = v
    for k in call.keywords:
        if k.arg:
            vals[k.arg] = k.value
    facts = {n: v.value for n, v in vals.items()
             if isinstance(v, ast.Constant) and
             (v.value is None or isinstance(v.value, bool))}
    return returned(giver[0], g, giver[1], State((), (), facts))


class State(object):
    """one set of paths: where names point, what is open, what is known"""
    __slots__ = ("env", "st", "facts")

    def __init__(self, env=(), st=(), facts=()):
        self.env, self.st, self.facts = dict(env), dict(st), dict(facts)

    def copy(self):
        return State(self.env, self.st, self.facts)

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.st.items()),
                frozenset(self.facts.items()))


class TooMany(Exception):
    pass


class Files(object):
    def __init__(self, res, f, sites, givers, start=None):
        self.res, self.f, self.sites, self.givers = res, f, sites, givers
        self.used = {}          # (site, node) -> set of closed? seen
        self.again = set()
        texts = {}
        for x in own_nodes(f.node):
            if isinstance(x, (ast.If, ast.IfExp, ast.While)):
                t = positive(x.test)[0]
                texts[t] = texts.get(t, 0) + 1
        self.keep = {t for t, n in texts.items() if n > 1}
        self.count = 0
        self.start = start

    def run(self):
        s0 = self.start or State()
        return self.block(self.f.node.body, [s0])

    def merge(self, outs):
        seen, r = set(), []
        for k, s in outs:
            key = (k, s.key())
            if key not in seen:
                seen.add(key)
                r.append((k, s))
        self.count += len(r)
        if len(r) > LIMIT or self.count > 400000:
            raise TooMany()
        return r

    def block(self, body, states):
        outs, cur = [], states
        for s in body:
            nxt = []
            for c in cur:
                for k, h in self.stmt(s, c):
                    if k == "next":
                        nxt.append(h)
                    else:
                        outs.append((k, h))
            cur = [h for _, h in self.merge([("next", h) for h in nxt])]
            if not cur:
                break
        return self.merge(outs + [("next", c) for c in cur])

    # -- expressions
    def key_of(self, e):
        if isinstance(e, ast.Name):
            return e.id
        if isinstance(e, ast.Attribute):
            b = self.key_of(e.value)
            return "%s.%s" % (b, e.attr) if b else None
        return None

    def site_of(self, e, s):
        k = self.key_of(e)
        while k:
            if k in s.env:
                return s.env[k]
            k = None
        return None

    def derived(self, e, s):
        """site whose variable or group the expression gives"""
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in DERIVE:
                return self.base(e.func.value, s)
            n = ast.unparse(e.func).split(".")[-1]
            if n in DERIVE_FN and e.args:
                return self.base(e.args[0], s)
        if isinstance(e, ast.Subscript) and isinstance(
                e.value, ast.Attribute) and e.value.attr in (
                    "variables", "groups"):
            return self.base(e.value.value, s)
        return None

    def base(self, e, s):
        k = self.key_of(e)
        v = s.env.get(k) if k else None
        return v[1] if isinstance(v, tuple) else v

    def uses(self, e, s):
        """files touched by evaluating e (not by closing them)"""
        skip = set()
        for x in ast.walk(e):
            if isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Attribute) and x.func.attr in (
                        "close", "isopen"):
                skip.update(id(y) for y in ast.walk(x.func))
            if isinstance(x, ast.Attribute) and x.attr in (
                    "closed", "name", "filepath"):
                skip.update(id(y) for y in ast.walk(x))
            if isinstance(x, ast.Compare) and all(
                    isinstance(o, (ast.Is, ast.IsNot)) for o in x.ops):
                skip.update(id(y) for y in ast.walk(x))
        for x in ast.walk(e):
            if id(x) in skip or isinstance(x, (ast.Lambda,)):
                continue
            # only what is done with the file: attribute, item or argument
            parts = []
            if isinstance(x, ast.Attribute):
                parts = [x.value]
            elif isinstance(x, ast.Subscript):
                parts = [x.value]
            elif isinstance(x, ast.Call):
                parts = list(x.args) + [k.value for k in x.keywords]
                if isinstance(x.func, ast.Name):
                    parts.append(x.func)
            for p in parts:
                if id(p) in skip:
                    continue
                k = self.key_of(p)
                v = s.env.get(k) if k else None
                if v is None and isinstance(x, ast.Call) and p is x.func:
                    for kk, vv in s.env.items():
                        if kk.startswith(str(k) + "."):
                            v = vv
                if v is not None:
                    yield v[1] if isinstance(v, tuple) else v, x

    def expr(self, e, s):
        """effects of an expression on a state (in place)"""
        for site, x in self.uses(e, s):
            self.used.setdefault((site, id(x)), (x, set()))[1].add(
                s.st.get(site))
        for x in ast.walk(e):
            if not isinstance(x, ast.Call):
                continue
            fn = x.func
            if isinstance(fn, ast.Attribute) and fn.attr == "close":
                v = self.base(fn.value, s)
                k = self.key_of(fn.value)
                if v is not None and not isinstance(s.env.get(k), tuple):
                    s.st[v] = "closed"
                continue
            if isinstance(fn, ast.Attribute) and fn.attr in (
                    "register", "enter_context", "callback", "append",
                    "add", "put"):
                for a in x.args:
                    for y in ast.walk(a):
                        v = s.env.get(self.key_of(y)) \
                            if self.key_of(y) else None
                        if v is not None and not isinstance(v, tuple):
                            s.st[v] = "moved"
            g = self.res.func(self.f, fn)
            if g is not None:
                for a, p in zip(x.args, [q.arg for q in g.node.args.args]):
                    v = s.env.get(self.key_of(a)) if self.key_of(a) else None
                    if v is not None and not isinstance(v, tuple) and \
                            closes(g, p):
                        s.st[v] = "closed"
                    elif v is not None and not isinstance(v, tuple) and \
                            keeps(g, p):
                        s.st[v] = "moved"
            elif isinstance(fn, (ast.Name, ast.Attribute)):
                q = self.res.name(self.f, fn)
                if q in self.res.prog.classes:
                    for a in x.args:
                        v = s.env.get(self.key_of(a)) \
                            if self.key_of(a) else None
                        if v is not None and not isinstance(v, tuple):
                            s.st[v] = "moved"

    def forget(self, names, s):
        for t in list(s.facts):
            ns = {y.id for y in ast.walk(ast.parse(t, mode="eval"))
                  if isinstance(y, ast.Name)}
            if ns & names:
                del s.facts[t]

    def assign(self, targets, value, s):
        names = {y.id for t in targets for y in ast.walk(t)
                 if isinstance(y, ast.Name)}
        self.forget(names, s)
        site = None
        if isinstance(value, ast.Call) and id(value) in self.sites:
            site = id(value)
        elif isinstance(value, (ast.Name, ast.Attribute)):
            v = s.env.get(self.key_of(value)) if self.key_of(value) else None
            site = v
        d = self.derived(value, s) if value is not None else None
        for t in targets:
            k = self.key_of(t)
            if k is None:
                if isinstance(t, (ast.Tuple, ast.List)):
                    for y in t.elts:
                        kk = self.key_of(y)
                        if kk:
                            s.env.pop(kk, None)
                elif isinstance(t, ast.Subscript) and site is not None and \
                        not isinstance(site, tuple):
                    s.st[site] = "moved"
                continue
            for kk in [x for x in s.env if x.startswith(k + ".")]:
                s.env.pop(kk)
            if site is not None:
                s.env[k] = site
            elif d is not None:
                s.env[k] = ("part", d)
            else:
                s.env.pop(k, None)
            if isinstance(value, ast.Constant) and (
                    value.value is None or isinstance(value.value, bool)):
                s.facts[k] = bool(value.value) if value.value is not None \
                    else None
        if isinstance(value, ast.Call) and id(value) in self.sites:
            if s.st.get(id(value)) == "open" and self.sites[
                    id(value)][1] == "w":
                self.again.add(id(value))
            s.st[id(value)] = "open"
            if any((self.key_of(t) or "").startswith("self.")
                   for t in targets):
                s.st[id(value)] = "moved"
        elif site is not None and not isinstance(site, tuple) and any(
                (self.key_of(t) or "").startswith("self.") for t in targets):
            s.st[site] = "moved"

    def branch(self, test, s):
        """states in which the test is true and false"""
        r = self.truth(test, s)
        a, b = s.copy(), s.copy()
        t, pos = positive(test)
        if t in self.keep:
            a.facts[t], b.facts[t] = pos, not pos
        if r is True:
            return a, None
        if r is False:
            return None, b
        return a, b

    def truth(self, test, s):
        t, pos = positive(test)
        if t in s.facts and s.facts[t] is not None:
            return s.facts[t] == pos
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            r = self.truth(test.operand, s)
            return None if r is None else not r
        if isinstance(test, ast.BoolOp):
            rs = [self.truth(v, s) for v in test.values]
            if isinstance(test.op, ast.And):
                return False if False in rs else True if all(
                    r is True for r in rs) else None
            return True if True in rs else False if all(
                r is False for r in rs) else None
        if isinstance(test, ast.Constant):
            return bool(test.value)
        k = self.key_of(test)
        if k:
            if s.facts.get(k, 0) is None:
                return False
            v = s.env.get(k)
            if v is not None and not isinstance(v, tuple) and s.st.get(
                    v) in ("open", "closed"):
                return True
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and \
                isinstance(test.ops[0], (ast.Is, ast.IsNot)) and \
                isinstance(test.comparators[0], ast.Constant) and \
                test.comparators[0].value is None:
            k = self.key_of(test.left)
            r = None
            if k in s.facts and s.facts[k] is None:
                r = True
            elif k in s.env:
                r = False
            if r is not None:
                return r if isinstance(test.ops[0], ast.Is) else not r
        if isinstance(test, ast.Attribute) and test.attr == "closed":
            v = self.base(test.value, s)
            if v is not None:
                return s.st.get(v) == "closed"
        return None

    # -- statements
    def stmt(self, x, s):
        s = s.copy()
        out = []
        if isinstance(x, ast.If):
            if risky(x.test):
                out.append(("raise", s.copy()))
            self.expr(x.test, s)
            a, b = self.branch(x.test, s)
            if a is not None:
                out += self.block(x.body, [a])
            if b is not None:
                out += self.block(x.orelse, [b])
            return out
        if isinstance(x, (ast.For, ast.AsyncFor, ast.While)):
            out.append(("raise", s.copy()))
            self.expr(x.iter if not isinstance(x, ast.While) else x.test, s)
            endless = isinstance(x, ast.While) and isinstance(
                x.test, ast.Constant) and x.test.value
            todo, seen = [s], set()
            while todo:
                c = todo.pop()
                if c.key() in seen:
                    continue
                seen.add(c.key())
                if not endless:
                    out += self.block(x.orelse, [c.copy()])
                b = c.copy()
                if not isinstance(x, ast.While):
                    self.assign([x.target], None, b)
                for k, y in self.block(x.body, [b]):
                    if k in ("next", "continue"):
                        todo.append(y)
                    elif k == "break":
                        out.append(("next", y))
                    else:
                        out.append((k, y))
                if len(seen) > LIMIT:
                    raise TooMany()
            return self.merge(out)
        if isinstance(x, (ast.With, ast.AsyncWith)):
            out.append(("raise", s.copy()))
            inner = []
            for it in x.items:
                c = it.context_expr
                self.expr(c, s)
                if isinstance(c, ast.Call) and id(c) in self.sites:
                    s.st[id(c)] = "open"
                    inner.append(id(c))
                    if it.optional_vars is not None:
                        k = self.key_of(it.optional_vars)
                        if k:
                            s.env[k] = id(c)
                else:
                    for y in ast.walk(c):
                        v = self.base(y, s) if self.key_of(y) else None
                        if v is not None and (y is c or "closing" in
                                              ast.unparse(c)):
                            inner.append(v)
                            if it.optional_vars is not None:
                                s.env[self.key_of(it.optional_vars)] = v
            for k, y in self.block(x.body, [s]):
                y = y.copy()
                for v in inner:
                    if y.st.get(v) == "open":
                        y.st[v] = "closed"
                out.append((k, y))
            return out
        if isinstance(x, ast.Try):
            res = []
            every = any(h.type is None or ast.unparse(h.type).split(
                ".")[-1] in ("Exception", "BaseException")
                for h in x.handlers)
            for k, y in self.block(x.body, [s]):
                if k == "raise" and x.handlers:
                    for h in x.handlers:
                        res += self.block(h.body, [y])
                    if not every:
                        res.append((k, y))
                elif k == "next":
                    res += self.block(x.orelse, [y])
                else:
                    res.append((k, y))
            fin = []
            for k, y in self.merge(res):
                for k2, z in self.block(x.finalbody, [y]):
                    fin.append((k if k2 == "next" else k2, z))
            return self.merge(fin)
        if isinstance(x, ast.Return):
            if x.value is not None:
                if risky(x.value):
                    out.append(("raise", s.copy()))
                self.expr(x.value, s)
                for y in ast.walk(x.value):
                    v = s.env.get(self.key_of(y)) if self.key_of(y) else None
                    if v is not None and not isinstance(v, tuple) and \
                            direct(x.value, y):
                        s.st[v] = "returned" if s.st.get(v) == "open" \
                            else "moved"
                if isinstance(x.value, ast.Call) and id(
                        x.value) in self.sites:
                    s.st[id(x.value)] = "returned"
            return out + [("return", s)]
        if isinstance(x, ast.Raise):
            return [("raise", s)]
        if isinstance(x, ast.Break):
            return [("break", s)]
        if isinstance(x, ast.Continue):
            return [("continue", s)]
        if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Import,
                          ast.ImportFrom, ast.Global, ast.Nonlocal,
                          ast.Pass)):
            return [("next", s)]
        if isinstance(x, ast.Delete):
            for t in x.targets:
                v = s.env.pop(self.key_of(t), None) if self.key_of(t) \
                    else None
                if v is not None and not isinstance(v, tuple) and \
                        v not in s.env.values():
                    s.st[v] = "closed"
            return [("next", s)]
        if risky(x):
            out.append(("raise", s.copy()))
        if isinstance(x, ast.Assign):
            self.expr(x.value, s)
            for t in x.targets:
                if not isinstance(t, ast.Name):
                    self.expr(t, s)
            self.assign(x.targets, x.value, s)
        elif isinstance(x, ast.AnnAssign) and x.value is not None:
            self.expr(x.value, s)
            self.assign([x.target], x.value, s)
        elif isinstance(x, ast.AugAssign):
            self.expr(x.value, s)
            self.forget({y.id for y in ast.walk(x.target)
                         if isinstance(y, ast.Name)}, s)
        elif isinstance(x, ast.Expr):
            self.expr(x.value, s)
            if isinstance(x.value, (ast.Yield, ast.YieldFrom)):
                for y in ast.walk(x.value):
                    v = s.env.get(self.key_of(y)) if self.key_of(y) else None
                    if v is not None and not isinstance(v, tuple):
                        s.st[v] = "moved"
            elif isinstance(x.value, ast.Call) and id(
                    x.value) in self.sites:
                s.st[id(x.value)] = "open"
        return out + [("next", s)]


def direct(e, y):
    if e is y:
        return True
    if isinstance(e, (ast.Tuple, ast.List)):
        return any(direct(z, y) for z in e.elts)
    if isinstance(e, ast.Dict):
        return any(direct(z, y) for z in e.values)
    if isinstance(e, ast.IfExp):
        return direct(e.body, y) or direct(e.orelse, y)
    if isinstance(e, ast.Call):
        return any(direct(z, y) for z in e.args)
    return False


def positive(test):
    pos = True
    while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        test, pos = test.operand, not pos
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        flip = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}
        for a, b in flip.items():
            if isinstance(test.ops[0], a):
                return ast.unparse(ast.Compare(
                    test.left, [b()], test.comparators)), not pos
    return ast.unparse(test), pos


def risky(n):
    for x in ast.walk(n):
        if isinstance(x, ast.Call):
            f = ast.unparse(x.func)
            if f.split(".")[0].lower() in ("log", "logging", "logger") or \
                    f.split(".")[-1] in ("close", "commit") or f in (
                        "len", "int", "list", "range", "isinstance", "str"):
                continue
            return True
    return False


_CLOSES = {}


def closes(g, p):
    """function g closes its argument p on every normal path"""
    k = (id(g.node), p)
    if k not in _CLOSES:
        _CLOSES[k] = False
        has = [x for x in own_nodes(g.node) if isinstance(x, ast.Call) and
               isinstance(x.func, ast.Attribute) and x.func.attr == "close"
               and isinstance(x.func.value, ast.Name) and
               x.func.value.id == p]
        if has:
            s = State({p: "arg"}, {"arg": "open"})
            w = Files(_NOTHING, g, {}, {}, s)
            try:
                outs = w.run()
                _CLOSES[k] = all(y.st.get("arg") == "closed"
                                 for kk, y in outs
                                 if kk in ("next", "return"))
            except TooMany:
                pass
    return _CLOSES[k]


def keeps(g, p):
    """function g stores or returns its argument"""
    for x in own_nodes(g.node):
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and \
                x.value.id == p and any(isinstance(
                    t, (ast.Attribute, ast.Subscript)) for t in x.targets):
            return True
    return False


class _Nothing(object):
    class prog(object):
        classes = {}

    def func(self, f, n):
        return None

    def name(self, f, n):
        return None


_NOTHING = _Nothing()


def conditional(fn, node):
    """the node lies in a branch of a test or in a handler"""
    def go(x, c):
        if x is node:
            return c
        for fld, v in ast.iter_fields(x):
            for y in v if isinstance(v, list) else [v]:
                if isinstance(y, ast.AST):
                    r = go(y, c or isinstance(x, (ast.If, ast.IfExp)) and
                           fld != "test" or isinstance(
                               x, ast.ExceptHandler))
                    if r is not None:
                        return r
        return None
    return bool(go(fn, False))


def around(fn, node):
    """{(test or handler, branch)} around a node"""
    def go(x, c):
        if x is node:
            return c
        for fld, v in ast.iter_fields(x):
            for y in v if isinstance(v, list) else [v]:
                if isinstance(y, ast.AST):
                    inside = isinstance(x, (ast.If, ast.IfExp)) and \
                        fld != "test" or isinstance(x, ast.ExceptHandler)
                    r = go(y, c | {(id(x), fld)} if inside else c)
                    if r is not None:
                        return r
        return None
    return go(fn, frozenset())


def loops_of(fn, node):
    return {id(x) for x in own_nodes(fn) if isinstance(
        x, (ast.For, ast.While)) and any(y is node for y in ast.walk(x))}


def files(prog, chk, res, f, sites, givers):
    name = f.qual
    w = Files(res, f, sites, givers)
    try:
        outs = w.run()
    except (TooMany, RecursionError):
        chk.unsure("closed", name, "too many paths")
        return
    for sid, (node, mode) in sorted(sites.items(),
                                    key=lambda z: z[1][0].lineno):
        at = "%s:%d in %s" % (f.module.path, node.lineno, f.qual)
        what = ast.unparse(node.args[0]) if node.args else "?"
        label = "%s %s" % (name, what.replace(" ", "")[:40])
        if mode == "w":
            leak = [k for k, s in outs if k in ("next", "return") and
                    s.st.get(sid) == "open"]
            used = any(s.st.get(sid) for _, s in outs)
            if not used:
                # created inside another expression
                chk.unsure("closed", label, "file not bound to a name")
            elif leak or sid in w.again:
                closing = [x for x in own_nodes(f.node) if isinstance(
                    x, ast.Call) and isinstance(x.func, ast.Attribute) and
                    x.func.attr == "close"]
                doubt = conditional(f.node, node) and any(
                    conditional(f.node, c) for c in closing)
                text = "opened for writing and not closed on a path that %s" \
                    % ("opens it again" if not leak else
                       "returns" if "return" in leak else
                       "reaches the end of the function")
                here = around(f.node, node)
                if here is not None and all(here <= (around(
                        f.node, c) or set()) for c in closing):
                    doubt = False       # decided after the file is opened
                if doubt and not (not closing):
                    chk.unsure("closed", label, text + "; both depend on "
                               "conditions")
                else:
                    chk.violation("closed", label, text, at)
            else:
                chk.ok("closed", label)
        bad = [x for (s_, _), (x, st) in w.used.items() if s_ == sid and
               st == {"closed"}]
        some = [x for (s_, _), (x, st) in w.used.items() if s_ == sid and
                "closed" in st and len(st) > 1]
        closing = [x for x in own_nodes(f.node) if isinstance(x, ast.Call)
                   and isinstance(x.func, ast.Attribute) and
                   x.func.attr == "close"]
        for x in some:
            # no further condition separates the use from the closing
            here, loops = around(f.node, x), loops_of(f.node, x)
            if here is not None and any(
                    here <= (around(f.node, c) or set()) and not (
                        loops & loops_of(f.node, c)) and
                    c.lineno < x.lineno for c in closing):
                bad.append(x)
        if bad:
            chk.violation("after", label, "used after it has been closed: %s"
                          % ast.unparse(bad[0])[:60], "%s:%d in %s" % (
                              f.module.path, bad[0].lineno, f.qual))
        elif some:
            chk.unsure("after", label, "may be used after it has been closed:"
                       " %s" % ast.unparse(some[0])[:60])
        else:
            chk.ok("after", label)


# ---------------------------------------------------------- kept by objects
def owned(prog, chk, res, fs):
    for f in fs:
        if f.cls is None:
            continue
        for x in own_nodes(f.node):
            if not (isinstance(x, ast.Assign) and isinstance(
                    x.value, ast.Call) and
                    mode_of(res, f, x.value) == "w"):
                continue
            attrs = [t.attr for t in x.targets if isinstance(
                t, ast.Attribute) and isinstance(t.value, ast.Name) and
                t.value.id == "self"]
            if attrs:
                owner(prog, chk, res, fs, f, attrs[0], x)


def owner(prog, chk, res, fs, f, attr, x):
    cls = f.cls.qual.split(".")[-1]
    label = "%s.%s" % (f.cls.qual, attr)
    at = "%s:%d in %s" % (f.module.path, x.lineno, f.qual)
    # methods of the class that close it
    methods = set()
    for q, g in prog.funcs.items():
        if g.cls is f.cls and g is not f:
            for y in own_nodes(g.node):
                if closing_of(y, attr) is not None and ast.unparse(
                        closing_of(y, attr)) == "self":
                    methods.add(g.name)
    users = []
    for g in fs:
        if g.cls is f.cls:
            continue
        for y in own_nodes(g.node):
            b = closing_of(y, attr)
            if b is None and isinstance(y, ast.Call) and isinstance(
                    y.func, ast.Attribute) and y.func.attr in methods:
                b = y.func.value
            if b is not None and isinstance(b, (ast.Name, ast.Attribute)):
                users.append((g, b, y))
    if not users:
        if "__exit__" in methods or "__del__" in methods:
            chk.ok("owned", label, "closed by a method of the class")
        else:
            chk.violation("owned", label, "kept by an object and never "
                          "closed", at)
        return
    made(prog, chk, res, fs, f, attr, users)
    for g, b, y in users:
        k = ast.unparse(b)
        s = State({"%s.%s" % (k, attr): "kept"}, {"kept": "open"})
        w = Files(res, g, {}, {}, s)
        for t in own_nodes(g.node):
            if isinstance(t, (ast.If, ast.IfExp, ast.While)):
                for part in ast.walk(t.test):
                    if isinstance(part, (ast.Compare, ast.Call, ast.Name,
                                         ast.Attribute)):
                        u = ast.unparse(part)
                        if cls in u and k in u or u in (
                                k, "%s is not None" % k):
                            p, pos = positive(part)
                            w.keep.add(p)
                            s.facts[p] = pos
        node = y
        if isinstance(y.func, ast.Attribute) and y.func.attr in methods:
            # stand for closing the file itself
            w.expr = lambda e, st, old=w.expr, m=methods, kk=k: (
                old(e, st), [st.st.__setitem__("kept", "closed")
                             for z in ast.walk(e) if isinstance(z, ast.Call)
                             and isinstance(z.func, ast.Attribute) and
                             z.func.attr in m and
                             ast.unparse(z.func.value) == kk])
        try:
            outs = w.run()
        except (TooMany, RecursionError):
            chk.unsure("owned", label, "too many paths")
            continue
        where_ = "%s:%d in %s" % (g.module.path, node.lineno, g.qual)
        leak = [kk for kk, st in outs if kk in ("next", "return") and
                st.st.get("kept") == "open"]
        bad = [n for (_, _), (n, st) in w.used.items() if st == {"closed"}]
        if leak:
            chk.violation("owned", label, "not closed on a path that leaves "
                          "%s" % g.qual.split(".")[-1], where_)
        elif bad:
            chk.violation("owned", label, "used after it has been closed: %s"
                          % ast.unparse(bad[0])[:60], "%s:%d in %s" % (
                              g.module.path, bad[0].lineno, g.qual))
        else:
            chk.ok("owned", label, "closed in %s" % g.qual)


class Kept(Files):
    """follow an object that keeps a file to the function closing it"""
    closers = ()
    other = False

    def expr(self, e, s):
        Files.expr(self, e, s)
        for x in ast.walk(e):
            if not isinstance(x, ast.Call):
                continue
            last = x.func.attr if isinstance(x.func, ast.Attribute) else (
                x.func.id if isinstance(x.func, ast.Name) else None)
            for a in list(x.args) + [k.value for k in x.keywords]:
                v = s.env.get(self.key_of(a)) if self.key_of(a) else None
                if id(a) in self.sites:
                    v = id(a)
                    s.st[v] = "open"
                if v in self.sites:
                    if last in self.closers:
                        s.st[v] = "closed"
                    elif s.st.get(v) == "open":
                        self.other = True


def made(prog, chk, res, fs, f, attr, users):
    """every object that keeps the file reaches a function that closes it"""
    label = "%s.%s" % (f.cls.qual, attr)
    closers = {g.name for g, _, _ in users} | {
        y.func.attr for _, _, y in users if isinstance(y.func, ast.Attribute)
        and y.func.attr != "close"}
    for g in fs:
        sites = {id(x): (x, "w") for x in own_nodes(g.node)
                 if isinstance(x, ast.Call) and
                 res.name(g, x.func) == f.cls.qual}
        if not sites or g.name in closers:
            continue
        w = Kept(res, g, sites, {})
        w.closers = closers
        try:
            outs = w.run()
        except (TooMany, RecursionError):
            chk.unsure("owned", label, "too many paths")
            continue
        leak = [k for k, s in outs if k in ("next", "return") and
                "open" in s.st.values()]
        node = list(sites.values())[0][0]
        at = "%s:%d in %s" % (g.module.path, node.lineno, g.qual)
        if not leak:
            chk.ok("owned", label, "created in %s" % g.qual)
        elif w.other:
            chk.unsure("owned", label, "created in %s and handed on"
                       % g.qual)
        else:
            chk.violation("owned", label, "created in %s and not given to "
                          "the function that closes it" % g.qual, at)


def closing_of(y, attr):
    if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and \
            y.func.attr == "close" and isinstance(
                y.func.value, ast.Attribute) and y.func.value.attr == attr:
        return y.func.value.value
    return None


# ------------------------------------------------------------- transactions
def sql_text(f, e):
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.JoinedStr) and e.values:
        return sql_text(f, e.values[0])
    if isinstance(e, ast.BinOp):
        return sql_text(f, e.left)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
        return sql_text(f, e.func.value)
    if isinstance(e, ast.Name):
        for x in own_nodes(f.node):
            if isinstance(x, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == e.id
                    for t in x.targets):
                return sql_text(f, x.value)
        return module_text(f, f.module, e.id)
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
        ent = f.module.ns.get(e.value.id)
        if ent and ent[-1][0] in ("import", "from"):
            v = ent[-1][1]
            m = PROG[0].modules.get(v if isinstance(v, str)
                                    else "%s.%s" % v)
            return module_text(f, m, e.attr) if m else None
    return None


def module_text(f, module, name):
    ent = module.ns.get(name)
    if ent and ent[-1][0] == "assign":
        return sql_text(f, ent[-1][1][1])
    if ent and ent[-1][0] == "from":
        base, n = ent[-1][1]
        for b in (base, "%s.%s" % (module.name, base)):
            if b in PROG[0].modules:
                return module_text(f, PROG[0].modules[b], n)
    return None


class Commits(Files):
    """state of the connections a function works with"""

    def __init__(self, res, f, summary, conns):
        Files.__init__(self, res, f, {}, {})
        self.summary, self.conns = summary, conns
        self.lost = []
        self.late = []

    def expr(self, e, s):
        order = [x for x in ast.walk(e) if isinstance(x, ast.Call)]
        for x in reversed(order):
            fn = x.func
            if not isinstance(fn, ast.Attribute):
                continue
            k = self.key_of(fn.value)
            if fn.attr.lower() == "barrier":
                if any(s.st.get(c) == "dirty" for c in self.conns):
                    self.late.append(x)
                continue
            if k in self.conns:
                if fn.attr in ("execute", "executemany") and x.args:
                    t = sql_text(self.f, x.args[0])
                    if t and t.strip().upper().startswith(WRITES):
                        s.st[k] = "dirty"
                elif fn.attr in ("commit", "executescript"):
                    s.st[k] = "clean"
                elif fn.attr == "rollback":
                    if s.st.get(k) == "dirty" and not conditional(
                            self.f.node, x):
                        self.lost.append(x)
                    s.st[k] = "clean"
                elif fn.attr == "close":
                    if s.st.get(k) == "dirty":
                        self.lost.append(x)
                    s.st[k] = "gone"
                elif fn.attr in self.summary:
                    r = self.summary[fn.attr]
                    if r:
                        s.st[k] = r
            elif self.alias(k):
                if fn.attr in ("execute", "executemany") and x.args:
                    t = sql_text(self.f, x.args[0])
                    if t and t.strip().upper().startswith(WRITES):
                        s.st[self.alias(k)] = "dirty"

    def alias(self, k):
        """connection of a cursor"""
        for x in own_nodes(self.f.node):
            if isinstance(x, ast.Assign) and isinstance(
                    x.value, ast.Call) and isinstance(
                        x.value.func, ast.Attribute) and \
                    x.value.func.attr == "cursor" and any(
                        self.key_of(t) == k for t in x.targets):
                c = self.key_of(x.value.func.value)
                return c if c in self.conns else None
        return None

    def stmt(self, x, s):
        if isinstance(x, ast.With) and any(
                self.key_of(i.context_expr) in self.conns for i in x.items):
            out = []
            for k, y in self.block(x.body, [s.copy()]):
                y = y.copy()
                for i in x.items:
                    c = self.key_of(i.context_expr)
                    if c in self.conns:
                        y.st[c] = "clean"
                out.append((k, y))
            return out
        return Files.stmt(self, x, s)


def commits(prog, chk, res, fs):
    classes = {c.qual for c in prog.classes.values()
               if any(ast.unparse(b) in ("sqlite3.Connection", "Connection")
                      for b in c.node.bases)}
    chk.need(classes or any("sqlite3" in m.src for m in
                            prog.modules.values()), "database connections")
    work = []
    for f in fs:
        conns = set()
        if f.cls is not None and f.cls.qual in classes:
            conns.add("self")
        for x in own_nodes(f.node):
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call):
                q = res.name(f, x.value.func) or ""
                if q == "sqlite3.connect" or q in classes or maker(
                        prog, res, classes, q):
                    if any(k.arg == "isolation_level" and isinstance(
                            k.value, ast.Constant) and k.value.value is None
                            for k in x.value.keywords):
                        continue
                    conns |= {t.id for t in x.targets
                              if isinstance(t, ast.Name)}
        if conns:
            work.append((f, conns))
    summary = {}
    results = {}
    late = {}
    for _ in range(6):
        before = dict(summary)
        for f, conns in work:
            try:
                w = Commits(res, f, summary, conns)
                s = State((), {c: "clean" for c in conns})
                w.start = s
                outs = w.run()
                # does it end committed even when it starts with changes
                w2 = Commits(res, f, summary, conns)
                w2.start = State((), {c: "dirty" for c in conns})
                outs2 = w2.run()
            except (TooMany, RecursionError):
                results[f.qual] = (None, f, conns, [])
                continue
            norm = [y for k, y in outs if k in ("next", "return")]
            dirty = [c for c in conns if any(
                y.st.get(c) == "dirty" for y in norm)]
            results[f.qual] = (dirty, f, conns, w.lost)
            late[f.qual] = w.late
            if "self" in conns:
                n2 = [y for k, y in outs2 if k in ("next", "return")]
                summary[f.name] = "dirty" if "self" in dirty else (
                    "clean" if n2 and all(y.st.get("self") == "clean"
                                          for y in n2) else "")
        if before == summary:
            break
    writes = 0
    for q, (dirty, f, conns, lost) in sorted(results.items()):
        n = sum(1 for x in own_nodes(f.node) if isinstance(x, ast.Call) and
                isinstance(x.func, ast.Attribute) and x.func.attr in (
                    "execute", "executemany") and x.args and
                (sql_text(f, x.args[0]) or "").strip().upper().startswith(
                    WRITES))
        writes += n
        at = "%s:%d in %s" % (f.module.path, f.node.lineno, q)
        if dirty is None:
            chk.unsure("commit", q, "too many paths")
        elif lost:
            chk.violation("commit", q, "the connection is closed, or the "
                          "changes undone, before they are committed", "%s:%d in %s" % (
                              f.module.path, lost[0].lineno, q))
        elif late.get(q):
            chk.violation("commit", q, "changes are not committed when the "
                          "processes go on to the next stage", "%s:%d in %s"
                          % (f.module.path, late[q][0].lineno, q))
        elif dirty and not ("self" in dirty and called(work, f)):
            chk.violation("commit", q, "changes are not committed on a path "
                          "that leaves the function", at)
        elif n or dirty:
            chk.ok("commit", q, "left to the callers" if dirty else
                   "committed")
    chk.count("statements that change the database", writes)
    chk.need(writes, "statements that change the database")


def called(work, f):
    """a function that works with the connection calls the method"""
    for g, conns in work:
        for x in own_nodes(g.node):
            if isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Attribute) and x.func.attr == f.name and \
                    ast.unparse(x.func.value) in conns:
                return True
    return False


def maker(prog, res, classes, q):
    """a function that returns one of the connections"""
    f = prog.funcs.get(q)
    if f is None:
        return False
    for x in own_nodes(f.node):
        if isinstance(x, ast.Call) and res.name(f, x.func) in classes:
            return True
    return False
