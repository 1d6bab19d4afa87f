"""C04: no output file is written by two processes of one run."""
from .mpi import *

WRITE = {"numpy.savetxt": 0, "numpy.save": 0, "numpy.savez": 0,
         "matplotlib.pyplot.savefig": 0, "os.makedirs": 0, "os.mkdir": 0,
         "os.remove": 0, "os.unlink": 0, "os.rmdir": 0, "os.rename": 1,
         "os.replace": 1, "shutil.copy": 1, "shutil.copyfile": 1,
         "shutil.copy2": 1, "shutil.move": 1, "shutil.rmtree": 0,
         "pandas.DataFrame.to_csv": 0, "tempfile": 0,
         "logging.FileHandler": 0}
METHODS = {"print_figure": 0, "savefig": 0, "to_csv": 0, "to_file": 0,
           "tofile": 0, "to_netcdf": 0, "makedirs": 0, "mkdir": 0,
           "write_text": None, "to_pickle": 0, "download": None}
SQL = ("execute", "executemany", "executescript")


def writes(e):
    """(what, the name written to) or None"""
    if e.kind == "call" and e.fn is not None and e.fn.op == "ext":
        f = e.fn.val
        if f in WRITE:
            return f, arg(e, WRITE[f], "fname", "filename", "name", "path",
                          "dst")
        if f in ("open", "io.open", "codecs.open", "netCDF4.Dataset",
                 "gzip.open"):
            m = arg(e, 1, "mode")
            if m is None:
                return None
            if isstr(m) and not any(c in strval(m) for c in "wax+"):
                return None
            if not isstr(m):
                return None
            return f, arg(e, 0, "filename", "file")
    if e.kind == "mcall":
        f = strval(e.fn)
        if f in SQL:
            q = e.args[0] if e.args else None
            for x in e.args:
                if x is not None and isstr(x):
                    q = x
                    break
            if q is not None and isstr(q):
                if strval(q).lstrip().split(" ")[0].upper() in (
                        "SELECT", "PRAGMA", "EXPLAIN", "ATTACH"):
                    return None
            return "database " + f, q
        if f in METHODS:
            a = [x for x in e.args if x is not None]
            return f, a[0] if a and METHODS[f] is not None else None
    return None


def arg(e, i, *names):
    for n in names:
        if n in e.kw:
            return e.kw[n]
    a = [x for x in e.args if x is not None]
    return a[i] if len(a) > i else None


ROOTS = {
    "tcrm.main": ["TrackGenerator.TrackGenerator.run", "wind.run",
                  "hazard.run", "database.run", "Evaluate.run"],
    "TrackGenerator.TrackGenerator.run": [],
    "wind.run": [],
    "hazard.run": [],
    "database.run": [],
    "Evaluate.run": [],
}
# what tells the items of a stage apart
KEYS = {"TrackGenerator.TrackGenerator.run": "index", "wind.run": "trackId"}


def check(prog, chk):
    chk.rule("single", "a file, folder or table is written by one process "
             "only, or under a name made from the item the process owns")
    chk.rule("name", "names made from a work item tell any two items apart")
    chk.rule("log", "processes log to different files")
    for root, opaque in ROOTS.items():
        chk.need(root in prog.funcs, root)
        ip = analyse(prog, chk, root, opaque=opaque)
        n = 0
        seen = {}
        for e in ip.trace:
            w = writes(e)
            if w is None or w[1] is not None and w[1].op == "handle":
                continue
            n += 1
            decide(chk, ip, root, e, w[0], w[1], seen)
        for label, (v, what, where) in sorted(seen.items()):
            chk.decide("single", label, v, what, where)
        chk.need(n, "files written below %s" % root)
        chk.count("write sites", n)
    logs(prog, chk)


def decide(chk, ip, root, e, what, name, seen):
    label = "%s:%s" % (root, file_label(e, what, name))
    cs = []
    for r in range(4):
        c = truth(at_rank(e.cond(), r, 4))
        cs.append(truth(strip_iter(c)) if c is not FALSE else c)
    ways = sum(1 for c in cs if c is not FALSE)
    if ways == 0 or ways == 1 and cs[0] is not FALSE:
        seen.setdefault(label, (True, "", e.where))
        return
    if name is not None and owned(name):
        seen.setdefault(label, (True, "", e.where))
        key = KEYS.get(root)
        if key is not None:
            chk.decide("name", label, tells_apart(name, key),
                       "the name %s does not contain all of the item's %s"
                       % (show(name, 5)[-120:], key), e.where)
        return
    # a test of the data that is not modelled may come out either way
    if any(opaque_in(x) and tests_process(x) for x in conjuncts(e.cond())):
        seen[label] = (None, "on which process is not known", e.where)
        return
    if ways == 1:
        seen[label] = (None, "written by one worker", e.where)
        return
    if name is not None and opaque_in(name):
        seen[label] = (None, show(name, 4)[:100], e.where)
        return
    if seen.get(label, (True,))[0] is not False:
        seen[label] = (False, "%s: every process writes this in %s" % (
            what, e.func.qual), e.where)


def tests_process(c):
    """is the process number used other than to pick items?"""
    todo = [c]
    seen = set()
    while todo:
        x = todo.pop()
        if x in (RANK, SIZE):
            return True
        if x in seen or x.op == "gen" or x.op == "call" and \
                x.args[0].op == "ext" and "islice" in x.args[0].val:
            continue
        seen.add(x)
        todo.extend(x.args)
    return False


def owned(name):
    """does the name depend on what the process owns?"""
    return contains(name, lambda x: x is RANK or x.op == "call" and
                    x.args[0].op == "ext" and
                    x.args[0].val.startswith(COMM) and
                    x.args[0].val.endswith("recv"))


def tells_apart(name, key):
    """True, False or None: does the name contain all of the key?"""
    whole, parts, star = False, set(), None
    for x in walk(name):
        if x.op == "star" and x.args[0].op == "attr" and \
                x.args[0].val == key:
            star = x
        elif x.op == "idx" and x.args[0].op == "attr" and \
                x.args[0].val == key and x.args[1].op == "num":
            parts.add(int(x.args[1].val))
    attrs = [x for x in walk(name) if x.op == "attr" and x.val == key]
    if not attrs:
        # an item that is not named by its key
        return False if contains(name, lambda x: x.op == "sym" and
                                 isinstance(x.val, tuple) and
                                 x.val[0] == "k") and \
            not contains(name, lambda x: x.op == "attr") else None
    if star is not None:
        return contains(name, lambda x: x.op == "sym" and x.val == "noarg"
                        or x.op == "noarg")
    if parts:
        return parts >= {0, 1}
    return True


def file_label(e, what, name):
    """the file's name without the parts that vary"""
    if name is None:
        return "%s in %s" % (what, e.func.qual)
    out = []
    if what.startswith("database"):
        return "%s %s" % (what, strval(name)[:30] if isstr(name)
                          else e.func.qual)
    todo = [name]
    if name.op == "phi":
        todo = [name.args[1]]
    for t in todo:
        if t.op == "path":
            for x in t.args:
                if isstr(x):
                    out.append(strval(x))
                elif x.op == "fmt":
                    out.append(show(x, 1)[:40].split("{")[0][4:] + "*")
        elif isstr(t):
            out.append(strval(t))
    return "/".join(out) or "%s in %s" % (what, e.func.qual)


def logs(prog, chk):
    root = "tcrm.startup"
    start = "Utilities.files.flStartLog"
    chk.need(root in prog.funcs and start in prog.funcs, root)
    ip = analyse(prog, chk, root, opaque=["tcrm.main", start])
    es = [e for e in ip.trace if e.kind == "call" and e.fn is not None and
          e.fn.op == "func" and e.fn.val == start]
    chk.need(es, "call of %s in %s" % (start, root))
    for e in es:
        ns = [at_rank(e.args[0], r, 3) for r in (0, 1, 2)]
        same = [(a, b) for a in range(3) for b in range(a)
                if ns[a] is ns[b]]
        chk.decide("log", root, False if same else
                   None if any(opaque_in(x) for x in ns) else True,
                   "processes log to the same file %s"
                   % show(ns[1], 4)[:80], e.where)
