"""C17: track files give back the tracks that were written.

The file written by ncSaveTracks is modelled as groups, variables, values and
attributes, each a term of the tracks handed in.  These terms are put in
place of the reads of ncReadTrackData, so that what is read is a term of what
was written; a column survives when the result is the column itself."""
import ast
from sa.util import *
from .c18 import is_mu

SAVE = "Utilities.track.ncSaveTracks"
READ = "Utilities.track.ncReadTrackData"
MAKE = "TrackGenerator.TrackGenerator.TrackGenerator.generateTracks"
N = sym("track", "n")
TRACKS = sym("param", "tracks")
STAMP = "%Y-%m-%d %H:%M:%S"
SIZES = {"i": ("i", 4), "f": ("f", 4), "d": ("f", 8), "O": ("O", 8),
         "object": ("O", 8), "float": ("f", 8), "int": ("i", 8),
         "l": ("i", 8), "q": ("i", 8), "h": ("i", 2), "b": ("i", 1),
         "e": ("f", 2), "float64": ("f", 8), "float32": ("f", 4),
         "int32": ("i", 4), "int64": ("i", 8)}


def check(prog, chk):
    chk.rule("saved", "every track with records is saved under a name of "
             "its own")
    chk.rule("unchanged", "saving leaves the tracks handed in as they were")
    chk.rule("tracks", "as many tracks are read as were saved, in the order "
             "in which they were saved")
    chk.rule("records", "as many records are read as were saved")
    chk.rule("column", "each column read is the column saved; times are "
             "decoded with the unit and calendar they were encoded with")
    chk.rule("identifier", "the identifier read is the identifier saved")
    chk.rule("width", "no column is narrowed on the way")
    w = Writer(prog, chk)
    unchanged(chk, w.ip)
    Reader(prog, chk, w)


# ----------------------------------------------------------------- layouts
def layout(t):
    """[(name, format)] of a record type, or None"""
    while t.op == "call" and t.args[0].op == "ext" and \
            t.args[0].val.endswith("dtype") and len(t.args) == 2:
        t = t.args[1]
    d = dict_items(t)
    if d is not None:
        n, f = d.get("names"), d.get("formats")
        if n is None or f is None:
            return None
        n, f = tuple_items(n), tuple_items(f)
    else:
        rows = tuple_items(t)
        if rows is None:
            return None
        rows = [tuple_items(r) for r in rows]
        if not rows or any(r is None or len(r) < 2 for r in rows):
            return None
        n, f = [r[0] for r in rows], [r[1] for r in rows]
    if n is None or f is None or len(n) != len(f) or \
            not all(isstr(x) for x in n):
        return None
    return [(strval(a), code(b)) for a, b in zip(n, f)]


def code(f):
    """(kind, bytes) of a number format"""
    if isstr(f):
        s = strval(f).lstrip("<>=|")
    elif f.op in ("ext", "builtin", "glob", "cls"):
        s = str(f.val).split(".")[-1]
    else:
        return None
    if s in SIZES:
        return SIZES[s]
    if len(s) > 1 and s[0] in "iufO" and s[1:].isdigit():
        return s[0], int(s[1:])
    return None


def holds_in(a, b):
    """does format b represent every value of format a?"""
    if a is None or b is None:
        return None
    if a == b or b[0] == "O":
        return True
    if a[0] == b[0]:
        return b[1] >= a[1]
    if a[0] == "i" and b[0] == "f":
        return b[1] > a[1]
    return False


# ------------------------------------------------------------------ writer
GROUP = "(group)"


class Writer(object):
    def __init__(self, prog, chk):
        self.chk = chk
        ip = self.ip = analyse(prog, chk, SAVE)
        made = [e for e in ip.trace if e.kind == "mcall" and
                strval(e.fn) == "createGroup" and e.loops]
        chk.need(made, "creation of a group for each track")
        self.group = made[-1]
        e = self.group
        self.L = [l for l in ip.loops if l.uid == e.loops[0]][0]
        self.where = e.where
        self.path = group_path(e.term)
        self.vals, self.atts, self.some = {}, {}, False
        self.types = {}
        self.note = []
        for x in ip.trace:
            if x.kind == "mcall" and strval(x.fn) == "createVariable" and \
                    x.extra is e.term:
                n = arg(x, "varname", 0)
                if n is not None and isstr(n):
                    self.types[strval(n)] = arg(x, "datatype", 1)
            v = GROUP if x.kind == "setattr" and x.term is e.term else \
                self.var(x.term)
            if v is None:
                continue
            g = self.extra_cond(x)
            if x.kind == "setitem" and len(x.args) == 2:
                whole = x.args[0].op == "slice" and all(
                    a is NONE for a in x.args[0].args) or \
                    x.args[0].op in ("ellipsis",) or \
                    x.args[0] is const(Ellipsis)
                whole = whole or whole_slice(x.args[0])
                old = self.vals.get(v, mk("unset"))
                new = self.at(x.args[1]) if whole else \
                    mk("store", old, self.at(x.args[0]), self.at(x.args[1]))
                self.vals[v] = phi(g, new, old)
            elif x.kind == "setattr":
                old = self.atts.get((v, x.extra), mk("unset"))
                self.atts[v, x.extra] = phi(g, self.at(x.args[0]), old)
        for x in ip.trace:
            if x.kind != "mcall" or x.extra is None:
                continue
            v = GROUP if x.extra is e.term else self.var(x.extra)
            if v is None:
                continue
            nm = strval(x.fn) if isstr(x.fn) else None
            if nm == "setncattr" and len(x.args) == 2 and isstr(x.args[0]):
                self.atts[v, strval(x.args[0])] = self.at(x.args[1])
            elif nm == "setncatts" and x.args:
                d = dict_items(x.args[0])
                self.some = self.some or d is None
                for k, t in (d or {}).items():
                    self.atts[v, k] = self.at(t)
        chk.need(self.vals, "values stored for each track")
        chk.count("variables stored for a track", len(self.vals))
        chk.count("attributes stored for a track", len(self.atts))
        self.saved()
        self.width(prog)

    def at(self, t):
        return subst(t, {self.L.k: N})

    def var(self, t):
        if t is not None and t.op == "handle" and \
                t.val[0] == "createVariable" and len(t.args) > 1 and \
                t.args[0] is self.group.term and isstr(t.args[1]):
            return strval(t.args[1])
        return None

    def extra_cond(self, x):
        base = set(conjuncts(self.group.cond()))
        return self.at(and_(*[c for c in conjuncts(x.cond())
                              if c not in base and c.op != "iter"]))

    def saved(self):
        chk, e = self.chk, self.group
        name = e.args[0] if e.args else NONE
        c = self.at(strip_iter(e.cond()))
        track = self.at(element(self.L))
        self.track = mk("idx", TRACKS, N)
        want = subst(mk("idx", TRACKS, self.L.k), {self.L.k: N})
        self.over = self.L.domain
        # the tracks the loop runs over
        for nt in (1, 2, 5):
            for n in (1, 2, 3):
                m = {}
                for x in walk(c):
                    if x.op == "len" and x.args[0] is TRACKS:
                        m[x] = num(nt)
                    elif x.op == "len" and of_track(x.args[0]):
                        m[x] = num(n)
                    elif x.op == "sym" and isinstance(x.val, tuple) and \
                            x.val[0] == "exc":
                        m[x] = FALSE
                d = subst(c, m)
                if d is FALSE:
                    chk.violation("saved", "%s:cond" % SAVE, "a track with %d "
                            "record%s is not saved when %d track%s handed "
                            "in" % (n, "" if n == 1 else "s", nt,
                                    " is" if nt == 1 else "s are"), e.where)
                    break
                if d is not TRUE and contains(
                        d, lambda x: x.op in ("lt0", "le0", "eq0", "ne0")
                        and has(x, N)) and not contains(
                            d, lambda x: of_track(x) or x.op == "len"):
                    v = {truthval(subst(d, {N: num(i)})) for i in range(nt)}
                    if False in v:
                        chk.violation("saved", "%s:cond" % SAVE, "some tracks are "
                                "not saved: %s" % show(d, 5), e.where)
                        break
            else:
                continue
            break
        else:
            chk.ok("saved", "every track with records (%s)" % show(c, 4)[:80])
        # names
        t = self.at(name)
        if not has(t, N):
            chk.violation("saved", "%s:name" % SAVE, "the name of the group does "
                    "not tell the tracks of a file apart: %s" % show(t, 5),
                    e.where)
            return
        names = [subst(t, {N: num(i)}) 
                 for i in list(range(120)) + [999, 1000, 1001, 9999, 10000,
                                              20000]]
        texts = [written(x) for x in names]
        if None in texts:
            chk.unsure("saved", "names of the groups", show(t, 5))
        elif len(set(texts)) < len(texts):
            chk.violation("saved", "%s:name" % SAVE, "two tracks of a file share a "
                    "group name (%s)" % show(t, 5), e.where)
        else:
            chk.ok("saved", "names of the groups differ")

    def width(self, prog):
        """the record type of the file keeps the width of every column"""
        chk = self.chk
        made = generated(prog, chk)
        self.cols = made
        for v, ty in sorted(self.types.items()):
            ty = self.at(ty) if ty is not None else None
            if ty is None or v not in self.vals:
                continue
            c = compound(ty)
            val = self.vals[v]
            if c is None:
                f = code(ty)
                self.types[v] = f
                continue
            rows = replaced(c)
            self.types[v] = rows
            if rows is None:
                chk.unsure("width", "record type of '%s'" % v, show(c, 5))
                continue
            bad = []
            for n, f in rows.items():
                g = ("f", 8) if n == "Datetime" else dict(made).get(n)
                if holds_in(g, f) is False:
                    bad.append("%s is stored as %s%d" % ((n,) + f))
                elif holds_in(g, f) is None:
                    chk.unsure("width", "format of %s" % n, show(c, 4))
            if bad:
                chk.violation("width", "%s:%s" % (SAVE, v), "; ".join(bad),
                        self.where)
            else:
                chk.ok("width", "record type of '%s' keeps the columns" % v)


def truthval(t):
    return True if t is TRUE else False if t is FALSE else None


def whole_slice(i):
    return i.op == "slice" and all(a is NONE or isnum(a) and a.val in (0, 1)
                                   for a in i.args) and \
        (len(i.args) < 2 or i.args[1] is NONE)


def of_track(t):
    return contains(t, lambda x: x.op == "idx" and x.args[0] is TRACKS)


def element(L):
    return mk("idx", TRACKS, L.k)


def group_path(h):
    """names of the groups above and at a handle"""
    out = []
    while h.op == "handle" and h.val[0] == "createGroup":
        out.append(h.args[1])
        h = h.args[0]
    return out[::-1]


def written(t):
    """concrete text of a formatted name"""
    if isstr(t):
        return strval(t)
    if isnum(t):
        return str(int(t.val)) if t.val == int(t.val) else str(float(t.val))
    if t.op == "fmt":
        out = []
        for a in t.args:
            if isstr(a):
                out.append(strval(a))
            elif a.op == "fld" and isnum(a.args[0]):
                v = a.args[0].val
                v = int(v) if v == int(v) else float(v)
                try:
                    out.append(format(v, a.val or ""))
                except (TypeError, ValueError):
                    return None
            else:
                return None
        return "".join(out)
    if t.op == "call" and t.args[0].op in ("ext", "builtin") and \
            str(t.args[0].val).split(".")[-1] == "str" and len(t.args) == 2:
        return written(t.args[1])
    return None


def compound(t):
    """the record type behind createCompoundType"""
    if t.op == "mcall" and t.val == "createCompoundType" or \
            t.op == "handle" and t.val[0] == "createCompoundType":
        return t.args[1] if len(t.args) > 1 else None
    if t.op == "call" and t.args[0].op == "ext" and \
            t.args[0].val.endswith("dtype"):
        return t
    return None


def replaced(t):
    """{column: format} of the columns whose format a record type derived
    from the tracks' own replaces; None when it cannot be told"""
    while t.op == "call" and t.args[0].op == "ext" and \
            t.args[0].val.endswith("dtype") and len(t.args) == 2:
        t = t.args[1]
    full = layout(t)
    if full is not None:
        return dict(full) if all(f for _, f in full) else None
    out = {}
    while t.op == "store":
        row = tuple_items(t.args[2], 2)
        i = t.args[1]
        if row is None or not isstr(row[0]) or code(row[1]) is None:
            return None
        if not (i.op == "mcall" and i.val == "index" and
                i.args[1] is row[0]):
            return None
        out.setdefault(strval(row[0]), code(row[1]))
        t = t.args[0]
    if t.op == "comp":
        return None
    base = t
    while base.op in ("attr", "call", "mcall") and base.args:
        if base.op == "attr" and base.val not in ("descr", "dtype", "data"):
            return None
        base = base.args[-1] if base.op == "call" else base.args[0]
    return out if base.op == "idx" and base.args[0] is TRACKS else None


def generated(prog, chk):
    """columns and formats of the tracks the model generates"""
    if MAKE in prog.funcs:
        ip = analyse(prog, chk, MAKE)
        for e in ip.trace:
            if e.kind in ("call", "new", "alloc"):
                for a in list(e.kw.values()) + list(e.args):
                    for x in walk(a) if a is not None else ():
                        l = layout(x)
                        if l and "Datetime" in dict(l):
                            return l
    ip = analyse(prog, chk, READ)
    for e in ip.trace:
        for a in list(e.args) + [e.cond()]:
            for x in walk(a) if a is not None else ():
                l = layout(x)
                if l and "Datetime" in dict(l):
                    return l
    raise AnchorLost("columns of a track")


# -------------------------------------------------------------- unchanged
def unchanged(chk, ip):
    n = 0
    for e in ip.trace:
        if e.kind in ("setitem", "mutate"):
            n += 1
            o = e.extra
            if o is not None and stored_in(o):
                chk.violation("unchanged", "%s:%s" % (e.func.qual, show(o, 4)),
                        "saving changes the tracks in memory: %s is %s" % (
                            show(o, 5), "changed by %s()" % strval(e.fn)
                            if e.kind == "mutate" else
                            "assigned at %s" % show(e.args[0], 3)), e.where)
        elif e.kind == "setattr":
            n += 1
            b = e.term
            if b is TRACKS or b.op == "idx" and b.args[0] is TRACKS or \
                    of_track(b) and b.op in ("attr", "idx"):
                if copies(e.func):
                    chk.unsure("unchanged", "%s.%s" % (show(b, 4),
                                                          e.extra),
                                  "may be a copy")
                    continue
                chk.violation("unchanged", "%s:%s" % (e.func.qual, e.extra),
                        "saving changes the tracks in memory: %s.%s is "
                        "assigned" % (show(b, 5), e.extra), e.where)
    chk.count("assignments while saving", n)
    chk.ok("unchanged", "%d assignments looked at" % n)


def stored_in(t):
    """is this part of the tracks' own storage?"""
    while t is not TRACKS:
        if t.op == "attr" and t.val in ("dtype", "descr", "shape") or \
                t.op not in ("attr", "idx"):
            return False
        t = t.args[0]
    return True


def copies(f):
    return any(isinstance(x, ast.Attribute) and x.attr in
               ("copy", "deepcopy") or isinstance(x, ast.Name) and
               x.id in ("copy", "deepcopy") for x in ast.walk(f.node))


# ------------------------------------------------------------------ reader
class Reader(object):
    def __init__(self, prog, chk, w):
        self.chk, self.w = chk, w
        ip = self.ip = analyse(prog, chk, READ)
        self.where = prog.funcs[READ].where if hasattr(
            prog.funcs[READ], "where") else READ
        opens = [e for e in ip.trace if e.kind == "call" and
                 e.fn.op == "ext" and e.fn.val == "netCDF4.Dataset"]
        chk.need(opens, "opening of the track file")
        self.H = opens[0].term
        self.where = opens[0].where
        self.times()
        res = self.file(ip.result)
        news = [e for e in ip.trace if e.kind == "new" and
                e.fn.val.split(".")[-1] == "Track"]
        chk.need(news, "construction of tracks from the file")
        res = strip(res)
        c = res
        if c.op != "comp":
            if c is mk("list") or c.op == "list" and not c.args:
                chk.violation("tracks", "%s:none" % READ, "no track is read from "
                        "the file that was written", self.where)
            else:
                chk.unsure("tracks", "tracks read", show(res, 5))
            return
        n, cond, elt = c.args[0], c.args[1], c.args[-1]
        depth = c.val[1]
        self.k = sym("k", depth)
        self.count(n, cond)
        obj = strip(elt)
        mine = [e for e in news if e.term is obj]
        if not mine:
            chk.unsure("tracks", "track read", show(elt, 5))
            return
        for o in news:
            if o.term is obj:
                continue
            i = self.state(o, "trackId", NONE)
            chk.decide("identifier", "%s:single" % READ,
                       True if has(i, self.H) else
                       False if not opaque_in(i) else None,
                       "a file with one track gives it the identifier %s"
                       % show(i, 4), o.where)
        e = mine[-1]
        data = self.at(self.state(e, "data", e.args[0]))
        ident = self.at(self.state(e, "trackId", NONE))
        self.columns(e, data)
        self.identifier(e, ident)

    def times(self):
        """files that hold one track in variables of their own are not
        written here; their times too are decoded as the file says"""
        chk = self.chk
        for e in self.ip.trace:
            if e.kind != "call" or e.fn.op != "ext" or \
                    e.fn.val.split(".")[-1] != "num2date":
                continue
            x = named(e.term, 0, "times")
            if x is None or not has(x, self.H) or contains(
                    x, lambda t: t.op == "attr" and t.val == "groups"):
                continue
            for i, nm in ((1, "units"), (2, "calendar")):
                a = named(e.term, i, nm)
                what = "%s:single:%s" % (READ, nm)
                if a is None or isstr(a):
                    chk.violation("column", what, "the times of a file with "
                            "one track are decoded with the %s %s, whatever "
                            "the file says" % (nm, "by default" if a is None
                                               else show(a, 3)), e.where)
                else:
                    chk.decide("column", what, True if has(a, self.H) else
                               None, show(a, 4), e.where)

    # -- the file's contents in place of reads
    def at(self, t):
        return subst(self.file(t), {self.k: N})

    def file(self, t):
        """reads of the file replaced by what was stored"""
        return rewrite(t, self.fill)

    def place(self, t):
        """('root',) | ('group', depth, index) | ('var', name, index)"""
        if t is self.H or t.op == "handle" and t.val[0] == "netCDF4.Dataset":
            return "group", 0, None
        if t.op == "attr" and t.val == "groups":
            p = self.place(t.args[0])
            if p and p[0] == "group":
                return "groups", p[1], p[2]
        if t.op == "attr" and t.val == "variables":
            p = self.place(t.args[0])
            if p and p[0] == "group":
                return "variables", p[1], p[2]
        if t.op == "idx" and len(t.args) == 2:
            p = self.place(t.args[0])
            i = t.args[1]
            if p is None and isstr(i):
                q = self.place(t.args[0])
                if q and q[0] == "group":
                    return None
            if p and p[0] == "groups":
                d = p[1]
                if d >= len(self.w.path):
                    return None
                if d == len(self.w.path) - 1:
                    if i.op in ("dkey", "idx") and len(i.args) == 2 and \
                            self.place(i.args[0]) == p:
                        return "group", d + 1, i.args[1]
                    return None
                if isstr(i) and i is self.w.path[d]:
                    return "group", d + 1, None
                return None
            if p and p[0] == "variables" and isstr(i) and \
                    p[1] == len(self.w.path):
                return "var", strval(i), p[2]
            if p and p[0] == "group" and isstr(i) and \
                    p[1] == len(self.w.path):
                return "var", strval(i), p[2]
        if t.op == "dval":
            p = self.place(t.args[0])
            if p and p[0] == "groups" and p[1] == len(self.w.path) - 1:
                return "group", p[1] + 1, t.args[1]
        return None

    def owner(self, t):
        """('var', name, index) of a variable or of the track's group"""
        p = self.place(t)
        if p and p[0] == "group" and p[1] == len(self.w.path):
            return "var", GROUP, p[2]
        return p

    def fill(self, t):
        w = self.w
        if t.op == "data":
            p = self.place(t.args[0])
            if p and p[0] == "var" and p[1] in w.vals:
                return subst(w.vals[p[1]], {N: p[2]})
        if t.op == "attr":
            p = self.owner(t.args[0])
            if p and p[0] == "var":
                v = w.atts.get((p[1], t.val))
                if v is not None:
                    return subst(v, {N: p[2]})
        if t.op == "mcall" and t.val == "getncattr" and len(t.args) > 1 and \
                isstr(t.args[1]):
            p = self.owner(t.args[0])
            if p and p[0] == "var":
                v = w.atts.get((p[1], strval(t.args[1])))
                if v is not None:
                    return subst(v, {N: p[2]})
        if t.op == "call" and t.args[0].op in ("ext", "builtin"):
            f = str(t.args[0].val).split(".")[-1]
            if f in ("hasattr", "getattr") and len(t.args) > 2 and \
                    isstr(t.args[2]):
                p = self.owner(t.args[1])
                if p and p[0] == "var":
                    v = w.atts.get((p[1], strval(t.args[2])))
                    if f == "hasattr" and (v is not None or not w.some):
                        return TRUE if v is not None else FALSE
                    if v is not None:
                        return subst(v, {N: p[2]})
        if t.op == "len":
            p = self.place(t.args[0])
            if p and p[0] == "groups" and p[1] == len(w.path) - 1:
                return mk("len", TRACKS)
        if t.op in ("truth", "nonzero") or t.op == "attr":
            p = self.place(t.args[0] if t.op != "attr" else t)
            if p and p[0] == "groups" and t.op != "attr":
                return TRUE
        if t.op == "phi":
            p = self.place(t.args[0])
            if p and p[0] == "groups":
                return t.args[1]
        if t.op == "not":
            p = self.place(t.args[0])
            if p and p[0] == "groups":
                return FALSE
        if t.op == "cmp" and t.val in ("in", "notin") and isstr(t.args[0]):
            p = self.place(t.args[1])
            if p and p[0] == "groups" and p[1] < len(w.path) - 1:
                v = t.args[0] is w.path[p[1]]
                return TRUE if v == (t.val == "in") else FALSE
            if p and p[0] == "variables" and p[1] == len(w.path):
                v = strval(t.args[0]) in w.types
                return TRUE if v == (t.val == "in") else FALSE
        if t.op == "sym" and isinstance(t.val, tuple) and t.val[0] == "exc":
            return FALSE
        return None

    # -- rules
    def count(self, n, cond):
        chk = self.chk
        want = mk("len", TRACKS)
        if n is want:
            if cond is TRUE:
                chk.ok("tracks", "one track for each track saved")
            elif opaque_in(self.sized(cond, 1)):
                chk.unsure("tracks", "condition", show(cond, 5))
            elif all(self.sized(cond, i) is TRUE for i in (1, 2, 3)):
                chk.ok("tracks", "every track with records is returned")
            else:
                chk.violation("tracks", "%s:condition" % READ, "a track of the "
                        "file is returned only if %s" % show(cond, 5),
                        self.where)
            return
        v = [cval(subst(n, {want: num(i)})) if isconst(
            subst(n, {want: num(i)})) or isnum(subst(n, {want: num(i)}))
            else None for i in (1, 2, 3)]
        if None not in v and v != [1, 2, 3]:
            chk.violation("tracks", "%s:count" % READ, "from a file of 1, 2 and 3 "
                    "tracks %s are read" % ", ".join(str(x) for x in v),
                    self.where)
        else:
            chk.unsure("tracks", "number of tracks read", show(n, 5))

    def sized(self, c, n):
        """a condition for tracks of n records"""
        want = mk("attr", mk("idx", TRACKS, self.k), val="data")
        m = {}
        for x in walk(c):
            if x.op == "len":
                r = rows(x.args[0])
                if r is not None and r.op == "len" and \
                        same_rows(r.args[0], want):
                    m[x] = num(n)
        return subst(c, m)

    def state(self, e, name, init):
        """value of an attribute of a track when it is returned"""
        base = set(conjuncts(e.cond()))
        v = init
        for x in self.ip.trace:
            if x.kind == "setattr" and x.term is e.term and x.extra == name \
                    and x.seq > e.seq:
                own = and_(*[c for c in conjuncts(x.cond())
                             if c not in base and c.op != "iter"])
                v = phi(own, x.args[0], v)
        return v

    def reused(self, e, base):
        """the records of a track kept for the next one"""
        kept = [x for x in base.args[1:] if is_mu(x)]
        if kept and any(x.op in ("full", "num") for x in base.args[1:]):
            self.chk.violation(
                "records", "%s:records of another track" % READ,
                "unless %s, the records of a track are stored in the array "
                "of the track read before, which then holds the same records"
                % show(base.args[0] if base.args[2] in kept
                       else not_(base.args[0]), 4), e.where)

    def columns(self, e, data):
        chk = self.chk
        want = mk("attr", mk("idx", TRACKS, N), val="data")
        self.want = want
        base = origin(data)
        if base.op == "phi":
            self.reused(e, base)
        new = [x for x in self.ip.trace if x.kind == "alloc" and
               self.at(x.term) is base]
        lay = layout(new[-1].args[0]) if new else None
        lay = dict(lay) if lay else None
        if lay is None:
            chk.unsure("width", "record type read into", show(data, 3))
        n = 0
        for c, f in self.w.cols:
            n += 1
            if lay is not None:
                if c not in lay:
                    chk.violation("column", "%s:%s" % (READ, c), "the column %s "
                            "is not read back" % c, e.where)
                    continue
                h = holds_in(f, lay[c])
                if h is False:
                    chk.violation("width", "%s:%s" % (READ, c), "%s is read into "
                            "%s%d" % ((c,) + lay[c]), e.where)
                elif h:
                    chk.ok("width", "%s is read at full width" % c)
                else:
                    chk.unsure("width", c, "format")
            v = self.column(data, c)
            if v is None:
                chk.unsure("column", c, show(data, 4))
                continue
            v = simplify(v)
            goal = select(want, const(c))
            self.judge(e, c, v, goal)
        chk.count("columns", n)
        self.records(e, data)

    def judge(self, e, c, v, goal):
        chk = self.chk
        if v is goal:
            chk.ok("column", "%s is the column saved" % c)
            return
        if v.op == "unset" or contains(v, lambda x: x.op == "unset"):
            chk.violation("column", "%s:%s" % (READ, c), "the column %s is read "
                    "from something that is not written" % c, e.where)
            return
        for i in (num(0), num(1)):
            a, b = simplify(select(v, i)), select(goal, i)
            r = True if a is b else equal(a, b)
            if r is True:
                continue
            d = decode(a)
            if d:
                chk.violation("column", "%s:%s" % (READ, c), d, e.where)
                return
            if isnum(a) or r is False or of_track(a) and \
                    a.op == "idx" and plain(a):
                chk.violation("column", "%s:%s" % (READ, c), "%s read back is %s, "
                        "not %s" % (c, show(v, 5), show(goal, 5)), e.where)
                return
            chk.unsure("column", c, show(v, 6))
            return
        chk.ok("column", "%s is the column saved" % c)

    def column(self, t, c, depth=0):
        """value of one column of a record array"""
        if depth > 40:
            return None
        key = const(c)
        if t.op == "store":
            i = t.args[1]
            if i is key:
                return t.args[2]
            if isstr(i):
                return self.column(t.args[0], c, depth + 1)
            return None
        if t.op == "eta":
            init, nxt, dom = t.args[0], t.args[1], t.args[-1]
            mu = [x for x in walk(nxt) if x.op in ("mu", "sym") and
                  x.val == t.val[0] or x.op == "mu"]
            steps = self.names(t, nxt, c)
            if steps is None:
                return None
            last = None
            for s in steps:
                r = self.step(s, c)
                if r is None:
                    return None
                if r is not KEEP:
                    last = r
            return last if last is not None else \
                self.column(init, c, depth + 1)
        if t.op == "full":
            return t.args[1]
        if t.op == "phi":
            a = self.column(t.args[1], c, depth + 1)
            b = self.column(t.args[2], c, depth + 1)
            return None if a is None or b is None else \
                phi(t.args[0], a, b)
        if t.op == "attr" and t.val == "data" or t.op == "idx":
            return select(t, key)
        return None

    def names(self, eta, nxt, c):
        """the steps of a loop over column names in which a column's value
        can be set"""
        k = sym("k", eta.val[1])
        cand = [x for x in walk(nxt) if x.op == "idx" and len(x.args) == 2
                and x.args[1] is k and x.args[0].op == "attr" and
                x.args[0].val == "names" or x.op == "dkey" and
                x.args[1] is k]
        if cand:
            return [subst(nxt, {x: const(c) for x in cand})]
        order = [n for n, _ in self.w.cols]
        for x in walk(nxt):
            # a part of the names: the other columns are left out
            if x.op == "idx" and len(x.args) == 2 and x.args[1] is k and \
                    x.args[0].op == "idx" and len(x.args[0].args) == 2 and \
                    x.args[0].args[1].op == "slice" and \
                    x.args[0].args[0].op == "attr" and \
                    x.args[0].args[0].val == "names" and \
                    of_track(x.args[0].args[0]):
                ends = [None if a is NONE else int(a.val) if isnum(a) else
                        "?" for a in x.args[0].args[1].args]
                if "?" in ends:
                    return None
                return [subst(nxt, {x: const(c)})] \
                    if c in order[slice(*ends)] else []
        dom = eta.args[-1]
        for x in walk(dom):
            if isnum(x) and 0 < x.val < 60 and x.val == int(x.val):
                return [subst(nxt, {k: num(i)}) for i in range(int(x.val))]
        return None

    def step(self, s, c):
        s = rewrite(s, self.member)
        if s.op == "phi":
            return None
        if s.op in ("mu", "sym"):
            return KEEP
        if s.op == "store":
            i = s.args[1]
            if i is const(c):
                return s.args[2]
            if isstr(i):
                return self.step(s.args[0], c)
        return None

    def member(self, t):
        """tests of column names"""
        if t.op == "cmp" and t.val in ("in", "notin") and isstr(t.args[0]):
            b = t.args[1]
            if b.op == "attr" and b.val == "names":
                l = layout(b.args[0])
                if l is not None:
                    v = strval(t.args[0]) in dict(l)
                elif of_track(b):
                    v = strval(t.args[0]) in dict(self.w.cols)
                else:
                    return None
                return TRUE if v == (t.val == "in") else FALSE
        return None

    def records(self, e, data):
        chk = self.chk
        n = rows(data)
        if n is None:
            chk.unsure("records", "number of records", show(data, 4))
            return
        n = simplify(n)
        want = mk("len", self.want)
        if n is want or n.op == "len" and same_rows(n.args[0], self.want):
            chk.ok("records", "as many records as saved")
            return
        v = subst(n, {want: num(7)})
        m = {x: num(7) for x in walk(n) if x.op == "len" and
             same_rows(x.args[0], self.want)}
        v = subst(n, m)
        if isnum(v) and v.val != 7:
            chk.violation("records", "%s:records" % READ, "of 7 records saved %s "
                    "are read" % show(v), e.where)
        elif isnum(v):
            chk.ok("records", "as many records as saved")
        else:
            chk.unsure("records", "number of records", show(n, 5))

    def identifier(self, e, t):
        chk = self.chk
        t = simplify(t)
        want = mk("attr", mk("idx", TRACKS, N), val="trackId")
        if t is want:
            chk.ok("identifier", "identifier read is the one saved")
        elif contains(t, lambda x: x.op in ("opaque", "eta", "mu", "call",
                                            "mcall")) and \
                has(t, want):
            chk.unsure("identifier", "identifier", show(t, 5))
        elif not has(t, want) and not contains(
                t, lambda x: x.op == "handle" or x.op == "opaque"):
            chk.violation("identifier", "%s:trackId" % READ, "the identifier of a "
                    "track read back is %s, not the one saved" % show(t, 5),
                    e.where)
        elif t.op in ("tuple", "list") and plain(t) and any(
                not has(x, want) for x in t.args):
            x = next(x for x in t.args if not has(x, want))
            chk.violation("identifier", "%s:trackId" % READ, "a part of the "
                    "identifier of a track read back is %s, which is not "
                    "taken from the one saved" % show(x, 5), e.where)
        else:
            chk.unsure("identifier", "identifier", show(t, 5))


KEEP = object()


def origin(t):
    """the array a record array is filled into"""
    while t.op in ("store", "eta"):
        t = t.args[0]
    return t


def strip(t):
    while t.op in ("list", "tuple") and len(t.args) == 1 and t.val == "box":
        t = t.args[0]
    return t


def plain(t):
    return not contains(t, lambda x: x.op in ("opaque", "call", "mcall",
                                              "eta", "mu"))


def rows(t, depth=0):
    """length of a record array"""
    if depth > 40:
        return None
    if t.op in ("store", "eta"):
        return rows(t.args[0], depth + 1)
    if t.op == "full":
        n = t.args[0]
        return n.args[0] if n.op == "tuple" and len(n.args) == 1 else n
    if t.op == "comp" and t.args[1] is TRUE:
        return t.args[0]
    if t.op == "attr" and t.val == "data":
        return mk("len", t)
    return None


def same_rows(t, want):
    """does the array have the rows of the track's records?"""
    t = simplify(t)
    while True:
        if t is want:
            return True
        if t.op == "store":
            t = t.args[0]
        elif t.op == "idx" and len(t.args) == 2 and isstr(t.args[1]):
            t = t.args[0]
        elif t.op == "call" and t.args[0].op == "ext" and \
                t.args[0].val.split(".")[-1] in ("date2num", "num2date"):
            t = t.args[1]
        elif t.op == "comp" and t.args[1] is TRUE and t.args[0].op == "len":
            t = t.args[0].args[0]
        else:
            return False


def named(t, i, name):
    """argument of an external call"""
    pos = [a for a in t.args[1:] if a.op != "kw"]
    for a in t.args[1:]:
        if a.op == "kw" and a.val == name:
            return a.args[0]
    return pos[i] if i < len(pos) else None


def ext(t, name):
    return t.op == "call" and t.args[0].op == "ext" and \
        t.args[0].val.split(".")[-1] == name


def inverse(t):
    """pairs of functions that undo each other"""
    if ext(t, "num2date"):
        x = named(t, 0, "times")
        if x is not None and ext(x, "date2num"):
            if named(t, 1, "units") is named(x, 1, "units") and \
                    (named(t, 2, "calendar") or const("standard")) is \
                    (named(x, 2, "calendar") or const("standard")):
                return named(x, 0, "dates")
    if t.op == "call" and str(t.args[0].val).split(".")[-1] in \
            ("eval", "literal_eval") and len(t.args) == 2:
        x = t.args[1]
        if x.op == "call" and str(x.args[0].val).split(".")[-1] == "repr":
            return x.args[1]
    if t.op in ("call", "mcall") and (
            t.op == "call" and str(t.args[0].val).endswith("strptime") or
            t.op == "mcall" and t.val == "strptime"):
        x, f = t.args[1], t.args[2] if len(t.args) > 2 else None
        if x.op == "mcall" and x.val in ("strftime", "isoformat") and \
                f is not None and isstr(f):
            g = [a for a in x.args[1:] if isstr(a)]
            g = strval(g[0]) if g else STAMP
            if g == strval(f) and all(p in g for p in
                                      ("%Y", "%m", "%d", "%H", "%M", "%S")):
                return x.args[0]
    return None


def simplify(t):
    for _ in range(4):
        u = rewrite(t, inverse)
        if u is t:
            break
        t = u
    if t.op == "comp" and t.args[1] is TRUE and t.args[0].op == "len":
        k = sym("k", t.val[1])
        x = t.args[-1]
        if x.op == "idx" and x.args[0] is t.args[0].args[0] and \
                len(x.args) == 2 and x.args[1] is k:
            return x.args[0]
    return t


def decode(t):
    """what is wrong with the decoding of a time"""
    for x in walk(t):
        if ext(x, "num2date"):
            y = named(x, 0, "times")
            if y is None or not ext(y, "date2num"):
                continue
            for i, nm, what in ((1, "units", "unit"),
                                (2, "calendar", "calendar")):
                a, b = named(x, i, nm), named(y, i, nm)
                if i == 2:
                    a, b = a or const("standard"), b or const("standard")
                if a is not b and a is not None and b is not None and \
                        not opaque_in(a):
                    return "times are encoded with the %s %s and decoded " \
                        "with %s" % (what, show(b, 3), show(a, 3))
    for x in walk(t):
        if x.op in ("call", "mcall") and "strptime" in (
                str(x.val), str(x.args[0].val).split(".")[-1]) and \
                len(x.args) > 2:
            s, f = x.args[1], x.args[2]
            if s.op == "mcall" and s.val == "strftime" and isstr(f):
                g = [a for a in s.args[1:] if isstr(a)]
                g = strval(g[0]) if g else STAMP
                lost = [p for p in ("%Y", "%m", "%d", "%H", "%M", "%S")
                        if p not in g]
                if lost:
                    return "times pass through the text format '%s', which " \
                        "loses %s" % (g, ", ".join(lost))
                if g != strval(f):
                    return "times are written as '%s' and parsed as '%s'" \
                        % (g, strval(f))
    return None
