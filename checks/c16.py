"""C16: every stage reads what earlier stages write."""
import fnmatch
import itertools
import os
import ast
import re

from .mpi import *
from .c04 import writes as written, ROOTS, arg

READ = {"numpy.loadtxt": 0, "numpy.genfromtxt": 0, "numpy.load": 0,
        "pandas.read_csv": 0, "netCDF4.Dataset": 0, "open": 0, "io.open": 0,
        "codecs.open": 0, "scipy.io.netcdf_file": 0,
        "scipy.io.netcdf.netcdf_file": 0, "xarray.open_dataset": 0,
        "csv.reader": None}
PIPES = {
    "tcrm.main": [x for x in ROOTS["tcrm.main"] if x != "Evaluate.run"],
    "tcevent.main": ["wind.run"],
}
WRAP = ("sorted", "list", "tuple", "set", "reversed", "numpy.array",
        "numpy.asarray", "numpy.sort", "itertools.islice", "iter",
        "enumerate", "numpy.unique")
LIST = ("os.listdir", "os.scandir")
OUT = "OUT"
# parts of a name that vary: any text, at least so many digits
WORD, DIGITS = "\ue000", "\ue001"
VALUES = (1, 7, 42, 99999)
WORDS = ("1", "ABC", "x-1", "s 2")
API = ("variables", "dimensions", "groups", "close", "sync", "ncattrs",
       "getncattr", "setncattr", "setncatts", "createVariable",
       "createDimension", "createGroup", "createCompoundType", "data_model",
       "filepath", "isopen", "__dict__", "file_format", "name", "path",
       "cmptypes", "parent", "shape", "dtype", "size", "ndim", "T", "datatype",
       "set_auto_maskandscale", "set_auto_mask", "set_auto_scale", "tolist",
       "max", "min", "mean", "data", "mask", "astype", "copy", "getValue",
       "assignValue", "flatten", "group", "scale", "chunking", "filters",
       "cmptypes", "isunlimited", "__len__", "keys", "items", "values")


GS = "StatInterface.generateStats.GenerateStats"


def check(prog, chk):
    chk.rule("read", "every file read below the output folder is written by "
             "an earlier stage, under a name the reader accepts")
    chk.rule("names", "every variable and attribute that is read by name is "
             "stored in each file the reader accepts")
    chk.rule("folder", "the folder of every file that is written is created "
             "before any stage runs, whichever stages are selected")
    for root, stages in PIPES.items():
        chk.need(root in prog.funcs, root)
        ev = events(prog, chk, root, stages)
        pipeline(chk, root, ev)
    statistics(prog, chk)


def statistics(prog, chk):
    """the coefficients used in a simulation are all in the files of cell
    statistics, whose variables become attributes of the same names"""
    save, load = GS + ".save", GS + ".load"
    if save not in prog.funcs or load not in prog.funcs:
        chk.unsure("names", GS, "function not found")
        return
    stored_ = set()
    for e in analyse(prog, chk, save).trace:
        for x in [e.term] + list(e.args):
            for h in walk(x) if x is not None and hasattr(x, "op") else ():
                if h.op == "handle" and h.val[0] == "createVariable" and \
                        len(h.args) > 1:
                    stored_.add(strval(h.args[1]) if isstr(h.args[1])
                                else None)
    by_name = [e for e in analyse(prog, chk, load).trace if
               e.kind == "call" and e.fn.op in ("ext", "builtin") and
               str(e.fn.val).split(".")[-1] == "setattr"]
    wanted = {}
    for q, f in prog.funcs.items():
        if q.startswith("TrackGenerator."):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and \
                        isinstance(n.value, ast.Attribute) and \
                        n.value.attr == "coeffs" and \
                        isinstance(n.ctx, ast.Load):
                    wanted.setdefault(n.attr, prog.where(q))
    if None in stored_ or not stored_ or not by_name or not wanted:
        chk.unsure("names", GS, "stored coefficients not recognised")
        return
    for name, at in sorted(wanted.items()):
        chk.decide("names", "statistics:" + name, name in stored_,
                   "coefficient %s is not stored in the files of statistics "
                   "(%s)" % (name, ", ".join(sorted(stored_))), at)


class Event(object):
    def __init__(self, stage, ip, e, i):
        self.stage, self.ip, self.e, self.i = stage, ip, e, i


_cache = {}


def events(prog, chk, root, stages):
    """effects of the whole run in order, stages spliced in where called"""
    ip = analyse(prog, chk, root, opaque=stages)
    out = []
    called = set()
    for e in ip.trace:
        out.append(Event(root, ip, e, len(out)))
        if e.kind == "call" and e.fn is not None and e.fn.op in (
                "func", "bound") and e.fn.val in stages or \
                stage_of(e, stages):
            s = stage_of(e, stages) or e.fn.val
            called.add(s)
            chk.need(s in prog.funcs, s)
            if s not in _cache:
                _cache[s] = analyse(prog, chk, s)
            for f in _cache[s].trace:
                out.append(Event(s, _cache[s], f, len(out)))
    for s in stages:
        chk.need(s in called, "call of %s below %s" % (s, root))
    return out


def stage_of(e, stages):
    if e.fn is None:
        return None
    for s in stages:
        if e.fn.op == "func" and e.fn.val == s:
            return s
    return None


# ------------------------------------------------------------------ names
def below_output(t):
    """does the name start in the output folder?"""
    return contains(t, lambda x: cfg_of(x) == ("Output", "Path"))


def alternatives(t, conds=()):
    """(name without branches, conditions it is used under)"""
    if t.op == "phi":
        return alternatives(t.args[1], conds) + alternatives(t.args[2], conds)
    if t.op == "idx":
        b, cs = unwrap(t.args[0])
        if b.op == "phi":
            return alternatives(mk_idx(b.args[1], t), conds) + \
                alternatives(mk_idx(b.args[2], t), conds)
        if b.op == "comp":
            return alternatives(b.args[2], conds + (b.args[1],))
        if b.op in ("list", "tuple") and b.args:
            out = []
            for x in b.args:
                out += alternatives(x, conds)
            return out
    if t.op in ("path", "fmt"):
        outs = [((), conds)]
        for x in t.args:
            alts = alternatives(x.args[0], ()) if x.op == "fld" and \
                not x.val else alternatives(x, ())
            if len(outs) * len(alts) > 64:
                return [(t, conds)]
            outs = [(a + (y if x.op != "fld" or x.val == "" and
                          y.op in ("path", "fmt") else
                          x if y is x.args[0] else mk("fld", y, val=x.val),),
                     c + cy) for a, c in outs for y, cy in alts]
        return [(mk(t.op, *a), c) for a, c in outs]
    return [(t, conds)]


def mk_idx(b, t):
    return mk("idx", b, *t.args[1:])


def unwrap(t):
    """the collection below sorting, slicing and copying"""
    while True:
        if t.op == "call" and t.args[0].op == "ext" and \
                t.args[0].val in WRAP and len(t.args) > 1:
            t = t.args[1]
        elif t.op == "fn" and t.val in ("sorted", "sort", "list") and t.args:
            t = t.args[0]
        elif t.op in ("sorted", "slice_of") and t.args:
            t = t.args[0]
        elif t.op == "idx" and len(t.args) == 2 and t.args[1].op == "slice":
            t = t.args[0]
        else:
            return t, ()


def listing(t):
    """the folder of a directory listing, of which t is an entry"""
    if t.op == "idx":
        b, _ = unwrap(t.args[0])
        if b.op == "call" and b.args[0].op == "ext" and \
                b.args[0].val in LIST and len(b.args) > 1:
            return b.args[1]
    if t.op == "attr" and t.val in ("name", "path"):
        return listing(t.args[0])
    return None


def globbed(t):
    if t.op == "idx":
        b, _ = unwrap(t.args[0])
        if b.op == "call" and b.args[0].op == "ext" and \
                b.args[0].val in ("glob.glob", "glob.iglob") and \
                len(b.args) > 1:
            return b.args[1]
    return None


class Unknown(Exception):
    pass


def regex(t, bind):
    """regular expression of the names a term stands for, relative to the
    output folder"""
    if isstr(t):
        return re.escape(strval(t))
    if cfg_of(t) == ("Output", "Path"):
        return OUT
    if t in bind:
        return re.escape(bind[t])
    if t.op == "path":
        return "/".join(regex(x, bind) for x in t.args)
    if t.op == "fmt":
        return "".join(regex(x, bind) for x in t.args)
    if t.op == "fld":
        m = re.match(r"0?(\d*)(\.\d+)?([dfgs]?)$", t.val or "")
        if t.val == "" or t.val is None:
            if t.args[0].op in ("path", "fmt") or isstr(t.args[0]) or \
                    cfg_of(t.args[0]) == ("Output", "Path") or \
                    t.args[0] in bind:
                return regex(t.args[0], bind)
            return WORD
        if m and m.group(3) == "d":
            n = int(m.group(1) or 1)
            return DIGITS + "%d" % min(max(n, 1), 9)
        return WORD
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].val in (
            "os.path.realpath", "os.path.abspath", "os.path.normpath",
            "str", "os.path.expanduser"):
        return regex(t.args[1], bind)
    if t.op == "call" and t.args[0].op == "ext" and \
            t.args[0].val == "os.path.dirname":
        return parent(regex(t.args[1], bind))
    if t.op == "idx" and t.args[0].op == "call" and \
            t.args[0].args[0].op == "ext" and \
            t.args[0].args[0].val == "os.path.split" and \
            t.args[1].op == "num":
        r = regex(t.args[0].args[1], bind)
        return parent(r) if int(t.args[1].val) == 0 else r.split("/")[-1]
    if t.op == "phi":
        rs = set()
        for x in t.args[1:]:
            try:
                r = regex(x, bind)
                if r.startswith(OUT):
                    rs.add(r)
            except Unknown:
                pass
        if len(rs) == 1:
            return rs.pop()
    if listing(t) is not None or t.op in ("mcall", "idx", "attr"):
        # some text that the file system or the data decide
        return WORD
    raise Unknown(show(t, 3)[:80])


def parent(r):
    return r.rsplit("/", 1)[0]


def compiled(r):
    r = r.replace(WORD, "[^/]+")
    return re.sub(DIGITS + r"(\d)", r"(?:[0-9]{\1}|[1-9][0-9]{\1,})", r)


def fits(r, name):
    return bool(re.fullmatch(compiled(r), name))


def norm(r):
    return re.sub(r"/+", "/", r.replace("/\\./", "/"))


def parts(t):
    """terms that are part of a name"""
    yield t
    if t.op in ("path", "fmt", "fld"):
        for x in t.args:
            yield from parts(x)


class Name(object):
    """the names one alternative of a term stands for"""

    def __init__(self, term, conds, under=()):
        # conds choose the name, it is used under further conditions
        self.term, self.conds, self.under = term, conds, under
        self.entries = [x for x in parts(term) if listing(x) is not None]
        g = globbed(term)
        self.glob = g
        self.regex = None
        self.unknown = ""
        try:
            self.regex = norm(regex(g if g is not None else term, {}))
        except Unknown as u:
            self.unknown = str(u)

    def literal(self):
        if self.regex is None or self.glob is not None or self.entries:
            return None
        s = re.sub(r"\\(.)", r"\1", self.regex)
        return s if WORD not in s and DIGITS not in s else None

    def samples(self):
        """concrete names"""
        if self.regex is None:
            return []
        holes = re.split("(%s[0-9]|%s)" % (DIGITS, WORD), self.regex)
        out = []
        for i in range(len(VALUES)):
            s = ""
            for h in holes:
                if h[:1] == DIGITS:
                    s += "%0*d" % (int(h[1]), VALUES[i])
                elif h == WORD:
                    s += WORDS[i]
                else:
                    s += re.sub(r"\\(.)", r"\1", h)
            if s not in out:
                out.append(s)
        return out

    def accepts(self, name):
        """True, False or None"""
        if self.glob is not None:
            if self.regex is None:
                return None
            r = self.regex.replace(r"\*", "[^/]*").replace(r"\?", "[^/]")
            return fits(r, name)
        if self.entries:
            folder, base = name.rsplit("/", 1)
            bind = {}
            for x in self.entries:
                try:
                    d = norm(regex(listing(x), {}))
                except Unknown:
                    return None
                if not fits(d, folder):
                    return False
                bind[x] = base
            if self.term not in bind:
                try:
                    r = norm(regex(self.term, bind))
                except Unknown:
                    return None
                if not fits(r, name):
                    return False
            got = True
            for c in self.conds + self.under:
                if not contains(c, lambda x: x in bind):
                    continue
                v = holds(c, bind, name)
                if v is False:
                    return False
                if v is None and c in self.conds:
                    got = None
            return got
        if self.regex is None:
            return None
        return fits(self.regex, name)


def text(t, bind):
    """concrete text of a term, or None"""
    if t in bind:
        return bind[t]
    if isstr(t):
        return strval(t)
    try:
        r = norm(regex(t, bind))
    except Unknown:
        return None
    s = re.sub(r"\\(.)", r"\1", r)
    return s if re.escape(s) == r and WORD not in s and \
        DIGITS not in s else None


def holds(c, bind, name):
    """value of a test of a file's name: True, False or None (not known)"""
    if c.op == "and":
        vs = [holds(x, bind, name) for x in c.args]
        return False if False in vs else None if None in vs else True
    if c.op == "or":
        vs = [holds(x, bind, name) for x in c.args]
        return True if True in vs else None if None in vs else False
    if c.op == "not":
        v = holds(c.args[0], bind, name)
        return None if v is None else not v
    if c.op in ("truth", "nonzero"):
        return holds(c.args[0], bind, name)
    if c is TRUE or c.op == "iter":
        return True
    if c is FALSE:
        return False
    if c.op == "mcall" and c.val in ("startswith", "endswith") and \
            len(c.args) > 1:
        s = text(c.args[0], bind)
        xs = c.args[1].args if c.args[1].op == "tuple" else (c.args[1],)
        if s is None or not all(isstr(x) for x in xs):
            return None
        return getattr(s, c.val)(tuple(strval(x) for x in xs))
    if c.op == "cmp" and c.val in ("in", "notin") and isstr(c.args[0]):
        s = text(c.args[1], bind)
        if s is None:
            return None
        return (strval(c.args[0]) in s) == (c.val == "in")
    if c.op == "call" and c.args[0].op == "ext":
        f = c.args[0].val
        if f in ("os.path.isfile", "os.path.exists", "os.path.lexists"):
            return True
        if f in ("os.path.isdir", "os.path.islink"):
            return False
        if f in ("fnmatch.fnmatch", "fnmatch.fnmatchcase") and \
                len(c.args) > 2 and isstr(c.args[2]):
            s = text(c.args[1], bind)
            return None if s is None else fnmatch.fnmatchcase(
                s, strval(c.args[2]))
        if f in ("re.match", "re.search", "re.fullmatch") and \
                len(c.args) > 2 and isstr(c.args[1]):
            s = text(c.args[2], bind)
            if s is None:
                return None
            try:
                return bool(getattr(re, f[3:])(strval(c.args[1]), s))
            except re.error:
                return None
    if c.op == "mcall" and c.val in ("match", "search", "fullmatch") and \
            c.args[0].op == "call" and c.args[0].args[0].op == "ext" and \
            c.args[0].args[0].val == "re.compile" and \
            isstr(c.args[0].args[1]) and len(c.args) > 1:
        s = text(c.args[1], bind)
        if s is None:
            return None
        try:
            return bool(getattr(re, c.val)(strval(c.args[0].args[1]), s))
        except re.error:
            return None
    return None


# ------------------------------------------------------------------ files
class File(object):
    """one alternative of a file that is written or read"""

    def __init__(self, ev, what, name):
        self.ev, self.what, self.name = ev, what, name
        self.vars, self.atts, self.blurred = set(), set(), False


def reads(e):
    if e.kind == "call" and e.fn is not None and e.fn.op == "ext" and \
            READ.get(e.fn.val) is not None:
        m = arg(e, 1, "mode") if e.fn.val not in (
            "numpy.loadtxt", "numpy.genfromtxt", "pandas.read_csv",
            "numpy.load") else None
        if m is not None and not (isstr(m) and strval(m)[:1] in "rUb" and
                                  "+" not in strval(m)):
            return None
        return e.fn.val, arg(e, READ[e.fn.val], "filename", "file", "fname")
    return None


FOLDERS = ("os.makedirs", "os.mkdir", "makedirs", "mkdir")


def pipeline(chk, root, evs):
    made, wrote, read = [], [], []
    lost = 0
    for ev in evs:
        e = ev.e
        w = written(e)
        if w is not None and w[1] is not None:
            if w[0].startswith("database") or w[1].op == "handle":
                continue
            if not below_output(w[1]):
                continue
            for t, cs in alternatives(w[1]):
                n = Name(t, cs)
                if w[0] in FOLDERS:
                    made.append((ev, n))
                elif n.regex is None:
                    lost += 0 if t.op == "attr" or dead(t) else 1
                elif n.regex.startswith(OUT):
                    wrote.append(File(ev, w[0], n))
            continue
        r = reads(e)
        if r is not None and r[1] is not None and below_output(r[1]):
            own = [x for x in conjuncts(e.cond())]
            for t, cs in alternatives(r[1]):
                if not below_output(t):
                    continue
                n = Name(t, cs, tuple(own))
                if not (n.regex or OUT).startswith(OUT):
                    # an attribute that is not set on this path
                    continue
                read.append(File(ev, r[0], n))
    chk.need(made, "folders created below %s" % root)
    chk.need(wrote, "files written below %s" % root)
    chk.need(read, "files read below %s" % root)
    chk.count("files written", len(wrote))
    chk.count("files read", len(read))
    chk.count("folders created", len(made))
    contents(evs, wrote, True)
    contents(evs, read, False)
    folders(chk, root, evs, made, wrote)
    seen = {}
    for r in read:
        match(chk, root, r, wrote, lost, seen)
    for (rule, label), (v, why, where) in sorted(seen.items()):
        chk.decide(rule, label, v, why, where)


def dead(t):
    """a name made from an attribute that is not set on this path"""
    return t.op == "path" and t.args and t.args[0].op == "attr"


def folders(chk, root, evs, made, wrote):
    first = min([w.ev.i for w in wrote])
    have, early = {}, {}
    for ev, n in made:
        if n.regex is None:
            continue
        early.setdefault(n.regex, []).append(ev)
    done = {}
    for w in wrote:
        d = parent(w.name.regex)
        label = "%s: folder of %s" % (root, plain(w.name.regex))
        if label in done:
            continue
        cands = [ev for r, es in early.items() for ev in es
                 if ev.i < w.ev.i and (r == d or r.startswith(d + "/"))]
        if not cands:
            v, why = False, "%s is written to %s, which nothing creates " \
                "before" % (plain(w.name.regex), plain(d))
        else:
            v, why = False, ""
            for ev in cands:
                if ev.i < first and not selects(ev.e.cond()) or \
                        same_place(ev, w.ev):
                    v = True
            if v is False:
                why = "%s is created only under some settings, or " \
                    "after a stage has run" % plain(d)
        done[label] = v
        chk.decide("folder", label, v, why, w.ev.e.where)


def same_place(a, b):
    """is the folder created by the code that writes the file, whenever it
    writes it?"""
    if a.stage != b.stage:
        return False
    have = set(conjuncts(b.e.cond()))
    rest = [c for c in conjuncts(a.e.cond()) if c not in have]
    return all(contains(c, lambda x: x.op == "call" and
                        x.args[0].op == "ext" and
                        x.args[0].val.startswith("os.path.")) or
               contains(c, lambda x: x.op == "sym" and
                        isinstance(x.val, tuple) and
                        x.val[0] in ("exc", "guard")) for c in rest)


def selects(cond):
    """does the condition depend on the settings, say which stages are run?"""
    return any(contains(c, lambda x: cfg_of(x) not in (
        None, ("Output", "Path")) or isstr(x) and strval(x) == "Actions")
               for c in conjuncts(cond))


def plain(r):
    r = re.sub(DIGITS + r"(\d)", r"{\1 digits}", r)
    return re.sub(r"\\(.)", r"\1", r).replace(WORD, "*").replace(
        OUT + "/", "")


def plain_name(n):
    if n.entries:
        fs = [strval(x) for c in n.conds + n.under for m in walk(c)
              if m.op in ("mcall", "call", "cmp") and
              any(y in n.entries for y in m.args) for x in m.args
              if isstr(x)]
        try:
            return plain(norm(regex(listing(n.entries[0]), {}))) + "/" + \
                ("|".join(sorted(set(fs))) or "every file")
        except Unknown:
            return "a listed file"
    return plain(n.regex) if n.regex is not None else n.unknown


def match(chk, root, r, wrote, lost, seen):
    label = "%s: %s reads %s" % (root, r.ev.e.func.qual, plain_name(r.name))
    where = r.ev.e.where
    key = ("read", label)

    def put(v, why=""):
        old = seen.get(key)
        if old is None or old[0] is True or v is False:
            seen[key] = (v, why, where)
    if r.name.regex is None and not r.name.entries:
        put(None, r.name.unknown)
        return
    lit = r.name.literal()
    early, late, partly, hits = [], [], [], []
    for w in wrote:
        if lit is not None:
            v = fits(w.name.regex, lit)
            vs = [v]
        else:
            vs = [r.name.accepts(s) for s in w.name.samples()]
        if all(v is False for v in vs):
            continue
        hits.append(w)
        if any(v is False for v in vs):
            partly.append(w)
        elif w.ev.i < r.ev.i or w.ev.stage == r.ev.stage and \
                w.ev.stage in stages(root):
            early.append((w, None in vs))
        else:
            late.append(w)
    sure = [w for w, dim in early if not dim]
    if sure:
        put(True)
    elif early:
        put(None, "the test of the file's name is not decided")
    elif r.name.regex is not None and WORD in r.name.regex and \
            not r.name.entries and (partly or not hits):
        put(None, "part of the name is not known")
    elif lost:
        put(None, "%d written names are not known" % lost)
    elif partly:
        put(False, "only some of the names written as %s are read" % plain(
            partly[0].name.regex))
    elif late:
        put(False, "%s is written only later" % plain(late[0].name.regex))
    else:
        put(False, "no earlier stage writes it")
    for w in hits:
        if w.ev.i > r.ev.i and sure:
            continue
        if WORD in (r.name.regex or WORD) and not r.name.entries and \
                r.name.glob is None:
            continue
        quantities(root, r, w, seen)


def stages(root):
    """stages that may find their own files of an earlier run"""
    return PIPES[root]


def quantities(root, r, w, seen):
    for kind, want, have in (("variable", r.vars, w.vars),
                             ("attribute", r.atts, w.atts)):
        for n in sorted(want, key=str):
            key = ("names", "%s: %s %s of %s read by %s" % (
                root, kind, "/".join(n), plain(w.name.regex), r.ev.e.func.qual))
            if any(like(n, m) for m in have):
                v = True
            elif w.blurred or not w.vars:
                v = None
            else:
                v = False
            old = seen.get(key)
            if old is None or old[0] is True:
                seen[key] = (v, "the file written in %s has no %s %s" % (
                    w.ev.e.func.qual, kind, "/".join(n)), r.ev.e.where)


def like(a, b):
    return len(a) == len(b) and all(
        x == y or "*" in (x, y) for x, y in zip(a, b))


# --------------------------------------------------------------- contents
def holder(t):
    """(handle of the file, groups below it) or None"""
    if t.op == "handle":
        if t.val[0] == "createGroup":
            p = [x for x in t.args if x.op == "handle"]
            s = [x for x in t.args if isstr(x)]
            if not p:
                return None
            h = holder(p[0])
            return None if h is None else (
                h[0], h[1] + (strval(s[0]) if s else "*",))
        if t.val[0].startswith("create"):
            return None
        return t, ()
    if t.op == "idx" and t.args[0].op == "attr" and \
            t.args[0].val == "groups" and len(t.args) == 2:
        h = holder(t.args[0].args[0])
        return None if h is None else (
            h[0], h[1] + (strval(t.args[1]) if isstr(t.args[1]) else "*",))
    return None


def contents(evs, files, writing):
    """fill in what is stored in, or read from, each file"""
    of = {}
    for f in files:
        t = f.ev.e.term
        if t is not None:
            of.setdefault(t, []).append(f)
    for ev in evs:
        e = ev.e
        if writing:
            stored(e, of)
            continue
        cond = e.cond()
        for t in [e.term] + list(e.args) + list(e.kw.values()):
            if t is not None:
                used(t, cond, of)


def variable(t):
    """(handle of the file, groups, variable) of a stored variable"""
    if t.op == "handle" and t.val[0] == "createVariable":
        p = [x for x in t.args if x.op == "handle"]
        n = [x for x in t.args if isstr(x)]
        h = holder(p[0]) if p else None
        if h is not None and n:
            return h[0], h[1] + (strval(n[0]),)
    if t.op == "idx" and t.args[0].op == "attr" and \
            t.args[0].val == "variables" and len(t.args) == 2 and \
            isstr(t.args[1]):
        h = holder(t.args[0].args[0])
        if h is not None:
            return h[0], h[1] + (strval(t.args[1]),)
    return None


def place(t):
    return variable(t) or holder(t)


def stored(e, of):
    if e.kind == "setattr" and e.term is not None and e.extra not in API:
        h = place(e.term)
        if h is not None and h[0] in of:
            for w in of[h[0]]:
                w.atts.add(h[1] + (e.extra,))
        return
    if e.kind != "mcall":
        return
    f = strval(e.fn)
    if f not in ("createVariable", "setncatts", "setncattr"):
        return
    h = None
    recv = e.term.args[0] if e.term is not None and e.term.args else None
    if f == "createVariable" and e.term is not None:
        # the term is the new variable
        v = variable(e.term)
        p = [x for x in e.term.args if x.op == "handle"]
        h = holder(p[0]) if p else None
    else:
        for x in [recv] + list(e.args):
            h = h or (place(x) if x is not None else None)
    if h is None or h[0] not in of:
        return
    a = [x for x in e.args if x is not None and place(x) is None]
    for w in of[h[0]]:
        if f == "createVariable":
            n = e.kw.get("varname", a[0] if a else None)
            if n is not None and isstr(n):
                w.vars.add(h[1] + (strval(n),))
            else:
                w.blurred = True
        elif f == "setncattr" and a and isstr(a[0]):
            w.atts.add(h[1] + (strval(a[0]),))
        elif f == "setncatts" and a:
            ks = keys_of(a[0])
            if ks is None:
                w.blurred = True
            else:
                w.atts |= {h[1] + (k,) for k in ks}


def keys_of(t, depth=0):
    """keys a dict has for certain, None when unclear"""
    ks = set()
    while t.op == "store":
        if isstr(t.args[1]):
            ks.add(strval(t.args[1]))
        t = t.args[0]
    if t.op == "eta" and depth < 6:
        # a loop may add to it
        k = keys_of(t.args[0], depth + 1)
        return None if k is None else ks | k
    if t.op == "phi" and depth < 6:
        a, b = (keys_of(x, depth + 1) for x in t.args[1:])
        return None if a is None or b is None else ks | (a & b)
    d = dict_items(t)
    if d is None:
        return None
    return ks | {str(k) for k in d}


def used(t, cond, of):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi" and any(h in of for h in walk(x.args[0])
                                 if h.op == "handle"):
            continue
        note(x, cond, of)
        todo.extend(x.args)


def note(x, cond, of):
    kind = None
    if x.op == "idx" and x.args[0].op == "attr" and \
            x.args[0].val == "variables" and len(x.args) == 2 and \
            isstr(x.args[1]):
        kind, h, n = "vars", x.args[0].args[0], strval(x.args[1])
    elif x.op == "mcall" and x.val == "getncattr" and len(x.args) > 1 and \
            isstr(x.args[1]):
        kind, h, n = "atts", x.args[0], strval(x.args[1])
    elif x.op == "attr" and x.args and x.val not in API:
        kind, h, n = "atts", x.args[0], x.val
    if kind is None:
        return
    h = holder(h) if kind == "vars" else place(h)
    if h is None or h[0] not in of:
        return
    if contains(cond, lambda y: y is h[0]):
        # read only when the file says so
        return
    for f in of[h[0]]:
        getattr(f, kind).add(h[1] + (n,))
