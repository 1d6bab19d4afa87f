"""Whether an array keeps fractions.

The kind of an array is inferred where it is made: from the type it is made
with, or from the array it is made like.  Kinds are 'i' (whole numbers),
'f' (fractions kept), 'o' (objects) and None (not known).
"""
import ast

MAKE = {"zeros", "ones", "empty", "full"}
LIKE = {"zeros_like", "ones_like", "empty_like", "full_like"}
COPY = {"array", "asarray", "copy", "asanyarray", "ascontiguousarray",
        "flipud", "fliplr", "sort", "reshape", "ravel", "squeeze"}


def last(f):
    return f.attr if isinstance(f, ast.Attribute) else \
        f.id if isinstance(f, ast.Name) else ""


def type_kind(t):
    """kind of a written data type"""
    if isinstance(t, ast.Constant) and isinstance(t.value, str):
        s = t.value.lstrip("<>=|")
        if s[:1] in ("i", "u", "l", "h", "q", "b") and s != "bool":
            return "i"
        return "f" if s[:1] in ("f", "d") else \
            "o" if s[:1] in ("o", "O") else None
    n = last(t)
    if n in ("int", "int_", "int8", "int16", "int32", "int64", "intc",
             "uint8", "uint16", "uint32", "long", "short"):
        return "i"
    if n in ("float", "float32", "float64", "single", "double", "float_"):
        return "f"
    if n in ("object", "datetime", "object_"):
        return "o"
    return None


def given(c, pos):
    for k in c.keywords:
        if k.arg == "dtype":
            return k.value
    return c.args[pos] if len(c.args) > pos else None


class Kinds(object):
    """kinds of the names and attributes a function assigns"""

    def __init__(self, node):
        self.env, self.where, self.many = {}, {}, {}
        for s in ast.walk(node):
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    self.bind(t, s.value, s)
            elif isinstance(s, ast.AugAssign):
                self.env.setdefault(key(s.target), []).append(None) \
                    if not isinstance(s.target, ast.Subscript) and \
                    key(s.target) else None

    def bind(self, t, v, s):
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and \
                    len(v.elts) == len(t.elts):
                for a, b in zip(t.elts, v.elts):
                    self.bind(a, b, s)
            elif isinstance(v, ast.Call) and last(v.func) == "meshgrid":
                for a, b in zip(t.elts, v.args):
                    self.bind(a, b, s)
            else:
                for a in t.elts:
                    if key(a):
                        self.env.setdefault(key(a), []).append(None)
            return
        k = key(t)
        if k:
            self.env.setdefault(k, []).append(v)
            self.where.setdefault(k, s)

    def of(self, k, seen=()):
        """kind of a name, when all its assignments agree"""
        if k in seen or not self.env.get(k):
            return None
        ks = {self.kind(v, seen + (k,)) for v in self.env[k]}
        return ks.pop() if len(ks) == 1 else None

    def kind(self, v, seen=()):
        if v is None:
            return None
        if isinstance(v, ast.Constant):
            return "i" if isinstance(v.value, (int, bool)) else \
                "f" if isinstance(v.value, float) else None
        if key(v):
            return self.of(key(v), seen)
        if isinstance(v, ast.UnaryOp):
            return self.kind(v.operand, seen)
        if isinstance(v, ast.BinOp):
            a, b = self.kind(v.left, seen), self.kind(v.right, seen)
            if "f" in (a, b) or isinstance(v.op, ast.Div):
                return "f"
            return "i" if a == b == "i" else None
        if isinstance(v, ast.Call):
            n = last(v.func)
            if n == "astype" and isinstance(v.func, ast.Attribute):
                t = given(v, 0)
                return type_kind(t) if t is not None else None
            if n in MAKE:
                t = given(v, 2 if n == "full" else 1)
                if t is not None:
                    return type_kind(t)
                return "f" if n != "full" else \
                    self.kind(v.args[1], seen) if len(v.args) > 1 else None
            if n in LIKE and v.args:
                t = given(v, 2 if n == "full_like" else 1)
                return type_kind(t) if t is not None else \
                    self.kind(v.args[0], seen)
            if n == "arange":
                t = given(v, 3)
                if t is not None:
                    return type_kind(t)
                ks = {self.kind(a, seen) for a in v.args}
                return "f" if "f" in ks else "i" if ks == {"i"} else None
            if n in COPY:
                t = given(v, 1) if n in ("array", "asarray") else None
                if t is not None:
                    return type_kind(t)
                if v.args:
                    return self.kind(v.args[0], seen)
                if isinstance(v.func, ast.Attribute):
                    return self.kind(v.func.value, seen)
        return None

    def shared(self, k):
        """another name of the only array a name is given"""
        if len(self.env.get(k, ())) != 1:
            return None
        v = self.env[k][0]
        o = key(v) if v is not None else None
        if o is None and isinstance(v, ast.Call) and \
                last(v.func) in MAKE | LIKE:
            return next((x for x in self.env if x < k and
                         len(self.env[x]) == 1 and self.env[x][0] is v),
                        None)
        if o and len(self.env.get(o, ())) == 1 and any(
                isinstance(c, ast.Call) and last(c.func) in MAKE | LIKE
                for c in ast.walk(self.env[o][0] or ast.Pass())):
            return o
        return None

    def whole(self):
        """names and attributes that hold arrays of whole numbers"""
        for k in self.env:
            made = [v for v in self.env[k] if isinstance(v, (ast.Call,
                                                              ast.BinOp))]
            if made and len(made) == len(self.env[k]) and \
                    self.of(k) == "i" and any(
                        last(c.func) in MAKE | LIKE for v in made
                        for c in ast.walk(v) if isinstance(c, ast.Call)):
                yield k, self.where[k]


def key(t):
    if isinstance(t, ast.Name):
        return t.id
    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and \
            t.value.id == "self":
        return "self." + t.attr
    return None


def returned(node, first=0):
    """names returned, also inside slices, from a function"""
    out = set()
    for s in ast.walk(node):
        if isinstance(s, ast.Return) and s.value is not None:
            for e in s.value.elts[first:] if isinstance(
                    s.value, ast.Tuple) else [s.value]:
                while isinstance(e, ast.Subscript):
                    e = e.value
                if key(e):
                    out.add(key(e))
    return out


def used_in(node, name):
    """names an element of which is passed to a function"""
    return {key(a.value) for c in ast.walk(node)
            if isinstance(c, ast.Call) and last(c.func) == name
            for a in c.args if isinstance(a, ast.Subscript) and key(a.value)}


def divided(node):
    """filled names that are divided"""
    return filled(node) & {key(b.left) for b in ast.walk(node)
                           if isinstance(b, ast.BinOp) and
                           isinstance(b.op, ast.Div) and key(b.left)}


def filled(node):
    """names and attributes parts of which are assigned"""
    out = set()
    for s in ast.walk(node):
        ts = s.targets if isinstance(s, ast.Assign) else \
            [s.target] if isinstance(s, ast.AugAssign) else []
        for t in ts:
            for x in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                if isinstance(x, ast.Subscript):
                    while isinstance(x, ast.Subscript):
                        x = x.value
                    if key(x):
                        out.add(key(x))
    return out


def keeps_fractions(chk, prog, rule, qual, names=None, skip=()):
    """no array of the function that holds the named quantities is made for
    whole numbers only; names: set of names, or None for all filled ones"""
    f = prog.funcs.get(qual)
    if f is None:
        return
    ks = Kinds(f.node)
    if names is None:
        names = filled(f.node)
    whole = dict(ks.whole())
    n = 0
    for k in sorted(names):
        if k in skip or k not in ks.env:
            continue
        n += 1
        at = "%s:%d in %s" % (f.module.path, ks.where[k].lineno, qual) \
            if k in ks.where else f.module.path
        if k in whole:
            chk.violation(rule, "%s:%s:fractions" % (qual, k.split(".")[-1]),
                          "the array '%s' is made for whole numbers, so the "
                          "fractions of the values stored in it are lost" % k,
                          at)
        other = ks.shared(k)
        if other in names:
            chk.violation(rule, "%s:%s:shared" % (qual, k.split(".")[-1]),
                          "'%s' and '%s' are the same array, so values "
                          "stored in one are read from the other"
                          % (k, other), at)
    if n:
        chk.ok(rule, "%s keeps fractions" % qual, "%d arrays" % n)
