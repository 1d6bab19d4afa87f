"""Resolved model of the Python sources: modules, names, classes."""
import ast
import os
from .terms import mk, sym

SKIP_DIRS = {"tests", ".git", "docs", "installer", "build", "example",
             "__pycache__"}


class Module(object):
    def __init__(self, name, path, tree, ispkg, src):
        self.name, self.path, self.tree = name, path, tree
        self.ispkg, self.src = ispkg, src
        self.ns = {}            # name -> list of (kind, payload)
        self.mutable = set()    # names rebound through `global`


class Func(object):
    def __init__(self, qual, node, module, cls=None, outer=None):
        self.qual, self.node, self.module = qual, node, module
        self.cls, self.outer = cls, outer
        self.name = node.name if hasattr(node, "name") else "<lambda>"

    @property
    def loc(self):
        return "%s:%d" % (self.module.path, self.node.lineno)


class Class(object):
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module = qual, node, module
        self.ns = {}
        self.name = node.name


class Program(object):
    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.errors = []
        self._load()

    # ------------------------------------------------------------ loading
    def where(self, qual):
        f = self.funcs.get(qual)
        return "%s (%s)" % (f.loc, qual) if f is not None else qual

    def _load(self):
        for dp, dn, fn in os.walk(self.root):
            dn[:] = sorted(d for d in dn if d not in SKIP_DIRS
                           and not d.startswith("."))
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                full = os.path.join(dp, f)
                rel = os.path.relpath(full, self.root)
                parts = rel[:-3].split(os.sep)
                ispkg = parts[-1] == "__init__"
                if ispkg:
                    parts = parts[:-1]
                name = ".".join(parts)
                if not name:
                    continue
                try:
                    src = open(full, encoding="utf-8").read()
                    tree = ast.parse(src)
                except (SyntaxError, UnicodeDecodeError) as e:
                    self.errors.append((rel, str(e)))
                    continue
                self.modules[name] = Module(name, rel, tree, ispkg, src)
        for m in self.modules.values():
            self._scan(m, m.tree.body, m.ns, m.name, None)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Global):
                    m.mutable.update(n.names)

    def add_source(self, name, src, path):
        """a module given as text (drivers, translated Fortran)"""
        m = Module(name, path, ast.parse(src), False, src)
        self.modules[name] = m
        self._scan(m, m.tree.body, m.ns, name, None)
        return m

    def _scan(self, m, body, ns, prefix, cls):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = prefix + "." + st.name
                f = Func(q, st, m, cls)
                # a property setter must not replace the getter
                kind = "def"
                for d in st.decorator_list:
                    if isinstance(d, ast.Attribute) and d.attr == "setter":
                        kind = "setter"
                if kind == "setter":
                    q = q + ".setter"
                    f.qual = q
                    ns.setdefault(st.name + ".setter", []).append(("def", f))
                else:
                    ns.setdefault(st.name, []).append(("def", f))
                self.funcs[q] = f
            elif isinstance(st, ast.ClassDef):
                q = prefix + "." + st.name
                c = Class(q, st, m)
                self.classes[q] = c
                ns.setdefault(st.name, []).append(("class", c))
                self._scan(m, st.body, c.ns, q, c)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        ns.setdefault(a.asname, []).append(
                            ("import", a.name))
                    else:
                        top = a.name.split(".")[0]
                        ns.setdefault(top, []).append(("import", top))
            elif isinstance(st, ast.ImportFrom):
                base = self._relative(m, st)
                for a in st.names:
                    if a.name == "*":
                        ns.setdefault("*", []).append(("star", base))
                    else:
                        ns.setdefault(a.asname or a.name, []).append(
                            ("from", (base, a.name)))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            ns.setdefault(n.id, []).append(
                                ("assign", (t, st.value)))
            elif isinstance(st, ast.AnnAssign) and st.value is not None and \
                    isinstance(st.target, ast.Name):
                ns.setdefault(st.target.id, []).append(
                    ("assign", (st.target, st.value)))
            elif isinstance(st, ast.AugAssign):
                if isinstance(st.target, ast.Name):
                    ns.setdefault(st.target.id, []).append(("aug", st))
            elif isinstance(st, ast.If):
                self._scan(m, st.body, ns, prefix, cls)
                self._scan(m, st.orelse, ns, prefix, cls)
            elif isinstance(st, ast.Try):
                self._scan(m, st.body, ns, prefix, cls)
                for h in st.handlers:
                    # fallback definitions: only if not bound already
                    sub = {}
                    self._scan(m, h.body, sub, prefix, cls)
                    for k, v in sub.items():
                        if k not in ns:
                            ns[k] = v
                self._scan(m, st.orelse, ns, prefix, cls)
                self._scan(m, st.finalbody, ns, prefix, cls)
            elif isinstance(st, (ast.For, ast.While, ast.With)):
                self._scan(m, st.body, ns, prefix, cls)

    @staticmethod
    def _relative(m, st):
        if not st.level:
            return st.module or ""
        parts = m.name.split(".")
        if not m.ispkg:
            parts = parts[:-1]
        up = st.level - 1
        if up:
            parts = parts[:-up]
        if st.module:
            parts = parts + st.module.split(".")
        return ".".join(parts)

    # --------------------------------------------------------- resolution
    def resolve(self, dotted, depth=0):
        """Term for an absolute dotted name."""
        if depth > 12:
            return mk("ext", val=dotted)
        parts = dotted.split(".")
        for n in range(len(parts), 0, -1):
            mn = ".".join(parts[:n])
            if mn in self.modules:
                rest = parts[n:]
                if not rest:
                    return mk("mod", val=mn)
                r = self.member(mn, rest[0], depth + 1)
                if r is None:
                    return mk("ext", val=dotted)
                for a in rest[1:]:
                    if r.op == "mod":
                        r = self.member(r.val, a, depth + 1) or \
                            mk("ext", val=dotted)
                    elif r.op == "cls":
                        f = self.lookup(r.val, a)
                        if f and f[0] == "def":
                            r = mk("func", val=f[1].qual)
                        else:
                            r = mk("attr", r, val=a)
                    elif r.op == "ext":
                        r = mk("ext", val=r.val + "." + a)
                    else:
                        r = mk("attr", r, val=a)
                return r
        if any(k == parts[0] or k.startswith(parts[0] + ".")
               for k in self.modules) and len(parts) == 1:
            return mk("mod", val=dotted)
        return mk("ext", val=canon_ext(dotted))

    def member(self, modname, name, depth=0):
        """Term for a module attribute, or None if it is an ordinary value
        ('glob' term for assigned names)."""
        m = self.modules.get(modname)
        if m is None:
            return None
        ent = m.ns.get(name)
        if ent is None and name in m.mutable:
            return mk("glob", val=(modname, name))
        if ent is None:
            sub = modname + "." + name
            if sub in self.modules or any(k.startswith(sub + ".")
                                          for k in self.modules):
                return mk("mod", val=sub)
            for kind, base in m.ns.get("*", []):
                if base in self.modules:
                    r = self.member(base, name, depth + 1) \
                        if depth < 12 else None
                    if r is not None:
                        return r
            return None
        kind, pl = ent[-1]
        # prefer a definition over a later fallback import
        if kind == "def":
            return mk("func", val=pl.qual)
        if kind == "class":
            return mk("cls", val=pl.qual)
        if kind == "import":
            return self.resolve(pl, depth + 1)
        if kind == "from":
            base, nm = pl
            full = base + "." + nm if base else nm
            if base == modname and full in self.modules:
                return mk("mod", val=full)
            if base in self.modules:
                r = self.member(base, nm, depth + 1) if depth < 12 else None
                if r is not None:
                    return r
                return mk("ext", val=full)
            if full in self.modules:
                return mk("mod", val=full)
            return mk("ext", val=canon_ext(full))
        return mk("glob", val=(modname, name))

    # -------------------------------------------------------------- classes
    def bases(self, qual):
        c = self.classes[qual]
        out = []
        for b in c.node.bases:
            d = dotted_of(b)
            if d is None:
                continue
            head, *rest = d.split(".")
            r = None
            ent = c.module.ns.get(head)
            if ent:
                r = self.member(c.module.name, head)
                for a in rest:
                    if r is None:
                        break
                    if r.op == "mod":
                        r = self.member(r.val, a)
                    elif r.op == "ext":
                        r = mk("ext", val=r.val + "." + a)
            if r is None:
                r = mk("ext", val=d)
            out.append(r)
        return out

    def mro(self, qual, seen=()):
        out = [qual]
        for b in self.bases(qual):
            if b.op == "cls" and b.val not in seen and b.val != qual:
                for x in self.mro(b.val, seen + (qual,)):
                    if x in out:
                        out.remove(x)
                    out.append(x)
        return out

    def lookup(self, qual, name, after=None):
        """(kind, payload) of a class attribute through the MRO."""
        order = self.mro(qual)
        if after is not None and after in order:
            order = order[order.index(after) + 1:]
        for q in order:
            ent = self.classes[q].ns.get(name)
            if ent:
                return ent[-1]
        return None

    def subclasses(self, qual):
        return [q for q in self.classes if q != qual and
                qual in self.mro(q)]

    def external_base(self, qual):
        return any(b.op == "ext" and b.val not in ("object",)
                   for q in self.mro(qual) for b in self.bases(q))

    def find_method(self, name):
        """all functions (methods) of that simple name"""
        return [f for f in self.funcs.values()
                if f.name == name and f.cls is not None]


def dotted_of(node):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return ".".join(reversed(parts))
    return None


_EXT = {"np": "numpy"}


def canon_ext(d):
    d = {"os.path.join": "os.path.join",
         "numpy.core.umath.pi": "math.pi"}.get(d, d)
    if d.startswith("posixpath."):
        d = "os.path." + d[10:]
    return d
