"""C23: database records hold each value in its own column."""
import re
from sa.util import *
from sa.pointwise import Unknown
from .c18 import is_mu
from .c30 import Cells, Outside

RUN = "database.run"
OPAQUE = ["Utilities.maputils.find_index", "Utilities.track.loadTracksFromFiles",
          "Utilities.shptools.shpReadShapeFile"]
FIND = "Utilities.maputils.find_index"
# what each column holds; columns not listed are comments and dates of the run
GRID = {
    "tblWindSpeed": {"wspd": "vmax", "umax": "ua", "vmax": "va",
                     "pmin": "slp"},
    "tblHazard": {"wspd": "wspd", "wspdUpper": "wspdupper",
                  "wspdLower": "wspdlower", "loc": "loc", "scale": "scale",
                  "shape": "shp"},
}
OTHER = {
    "tblEvents": {"eventMaxWind": ("range", "vmax", 1),
                  "eventMinPressure": ("range", "slp", 0),
                  "eventTrackFile": ("attribute", "track_file"),
                  "dtTrackFile": ("attribute", "track_file_date"),
                  "tcrmVersion": ("attribute", "tcrm_version"),
                  "dtWindfieldFile": ("mtime",),
                  "eventFile": ("name",)},
    "tblHazard": {"tcrmVersion": ("attribute", "tcrm_version"),
                  "dtHazardFile": ("mtime",),
                  "returnPeriod": ("ari",)},
}
KEYS = ("locId", "eventId")


def check(prog, chk):
    chk.rule("width", "an INSERT statement and its records have one value "
             "for each column of the table")
    chk.rule("column", "each value is the quantity its column is named "
             "after")
    chk.rule("cell", "grid values are taken at the row and column nearest to "
             "the record's own location, from the file of its own event, at "
             "its own return period")
    chk.rule("key", "the location and event of a record are those its values "
             "belong to, written the same way in all tables")
    chk.rule("join", "queries join tables on all the keys they share")
    chk.rule("query", "query parameters stand for the column they are "
             "compared with, and result columns keep their names")
    chk.need(RUN in prog.funcs, RUN)
    ip = analyse(prog, chk, RUN, opaque=OPAQUE)
    tables = {}
    stmts = []
    for e in ip.trace:
        if e.kind != "mcall" or not isstr(e.fn) or \
                strval(e.fn) not in ("execute", "executemany"):
            continue
        s = plain(ip, e.args[0]) if e.args else None
        if s is None or not isstr(s):
            continue
        stmts.append((e, " ".join(strval(s).split())))
    for e, s in stmts:
        m = re.match(r"CREATE TABLE (?:IF NOT EXISTS )?(\w+) ?\((.*)\)$", s,
                     re.I)
        if m:
            cols = [c.split()[0] for c in m.group(2).split(",")]
            tables[m.group(1)] = cols
    chk.need(len(tables) >= 5, "definitions of the tables")
    formats = {}
    n = 0
    for e, s in stmts:
        m = re.match(r"INSERT (?:OR \w+ )?INTO (\w+) ?(?:\(([^)]*)\))? ?"
                     r"VALUES ?\(([^)]*)\)$", s, re.I)
        if m:
            n += 1
            insert(prog, chk, ip, e, m, tables, formats)
        elif s.upper().startswith("SELECT"):
            select_stmt(chk, e, s, tables, ip, None)
    chk.need(n >= 5, "INSERT statements")
    chk.count("insert statements", n)
    if len(formats) > 1:
        first = sorted(formats)[0]
        for t in sorted(formats)[1:]:
            chk.decide("key", "format:%s" % t, formats[t] == formats[first]
                       or False, "event identifiers are written %s in %s "
                       "and %s in %s" % (formats[t], t, formats[first],
                                         first), "database/__init__.py")
    nearest(prog, chk)
    queries(prog, chk, tables)


def plain(ip, t):
    """the value when the database object is new"""
    g = {x: FALSE for x in walk(t) if x.op == "mcall" and x.val == "get" and
         x.args[0].op == "glob"}
    return subst(t, g) if g else t


# ------------------------------------------------------------------ records
def is_recv(x):
    return x.op == "call" and x.args[0].op == "ext" and \
        x.args[0].val == "MPI.COMM_WORLD.recv"


def sends(ip, func, root):
    """what the processes send to each other in a function"""
    out = []
    for e in ip.trace:
        if e.kind == "call" and e.fn.op == "ext" and \
                e.fn.val == "MPI.COMM_WORLD.send" and e.func.qual == func \
                and e.args and e.args[0] is not NONE:
            c = at_rank(plain(ip, e.cond()), 0, 3)
            if (c is not FALSE) == root:
                out.append(plain(ip, e.args[0]))
    return out


def delivered(ip, e, t):
    """the values sent put in place of the ones received"""
    t = plain(ip, t)
    ex = {x: FALSE for x in walk(t) if x.op == "sym" and
          isinstance(x.val, tuple) and x.val[0] == "exc"}
    t = subst(t, ex)
    rs = [x for x in walk(t) if is_recv(x)]
    if not rs:
        return [(t, "one process")]
    out = []
    for func in [f.qual for f, _ in e.stack if f] + [e.func.qual]:
        for w in sends(ip, func, False):
            r2 = [x for x in walk(w) if is_recv(x)]
            for p in sends(ip, func, True) or [None]:
                u = subst(w, {x: p for x in r2}) if p is not None else w
                out.append((subst(t, {x: u for x in rs}),
                            "several processes"))
    return out


def tuples(t, width):
    """the records of a statement's argument"""
    if t.op == "tuple":
        if any(x.op == "tuple" for x in t.args):
            return [r for x in t.args for r in tuples(x, width)]
        return [t]
    if t.op == "comp":
        return tuples(t.args[-1], width)
    if t.op in ("eta", "concat", "append", "phi", "list", "reversed",
                "sorted"):
        out = []
        for x in t.args[1:] if t.op == "phi" else t.args:
            out.extend(tuples(x, width))
        return out
    return []


def insert(prog, chk, ip, e, m, tables, formats):
    table, names, marks = m.groups()
    cols = tables.get(table)
    w = e.where
    if cols is None:
        chk.violation("width", table, "no definition of this table", w)
        return
    given = [c.strip() for c in names.split(",")] if names else cols
    nmarks = len([x for x in marks.split(",") if x.strip()])
    chk.decide("width", "%s:statement" % table, nmarks == len(given) or
               False, "%d values for %d columns" % (nmarks, len(given)), w)
    bad = [c for c in given if c not in cols]
    if bad:
        chk.violation("width", "%s:columns" % table, "no column %s" %
                      ", ".join(bad), w)
        return
    if len(e.args) < 2:
        return
    for t, how in delivered(ip, e, e.args[1]):
        sel = [strval(x) for x in walk(t) if isstr(x) and
               strval(x).upper().startswith("SELECT * FROM %s" %
                                            table.upper())]
        recs = set(tuples(t, nmarks))
        tag = "%s:%s" % (table, how)
        if t.op == "last" and not any(L.uid in t.args or has(t, L.k) for L in
                                      e.loops if L.k is not None):
            chk.violation("width", tag, "only the records of the last step "
                          "of a loop are inserted", w)
            continue
        if not recs:
            if sel:
                chk.ok("width", tag, "rows of the table of the same name")
            else:
                chk.unsure("width", tag, show(t, 4))
            continue
        for r in recs:
            ok = len(r.args) == len(given)
            chk.decide("width", "%s:record" % tag, ok or False,
                       "%d values for %d columns" % (len(r.args),
                                                     len(given)), w)
            if ok:
                record(chk, ip, table, tag, dict(zip(given, r.args)), w,
                       formats)


def strip(t):
    while t.op == "fn" and t.val in ("int", "float", "str") or \
            t.op == "fmt" and len(t.args) == 1 and t.args[0].op == "fld" or \
            t.op == "fld":
        t = t.args[0]
    return t


def location(t):
    """(column, element) of a row of the locations"""
    t = strip(t)
    if t.op != "idx" or len(t.args) != 2:
        if t.op == "attr" and t.args[0].op == "idx":
            return t.val, t.args[0]
        return None
    row, i = t.args
    if row.op != "idx":
        return None
    sel = {" ".join(strval(x).split()) for x in walk(row.args[0])
           if isstr(x) and strval(x).upper().startswith("SELECT")}
    if len(sel) != 1:
        return None
    cols = selected(sel.pop())
    if isstr(i):
        return strval(i), row
    if isnum(i) and cols and int(i.val) < len(cols):
        return cols[int(i.val)], row
    return None


def shifted(ip, t):
    """(coordinate of a location, the value taken for it) if they differ"""
    X = sym("c23", "x")
    inner = [x for x in walk(t) if location(x)]
    if not inner:
        return None
    u = subst(t, {max(inner, key=lambda y: len(list(walk(y)))): X})
    for v in (-12.25, 140.5):
        try:
            got = Cells(ip, {X: v})(u)
        except (Unknown, Outside):
            return None
        if not isinstance(got, (int, float)) or isinstance(got, bool):
            return None
        if abs(got - v) > 1e-4:
            return v, got
    return None


def selected(s):
    m = re.match(r"SELECT (.*?) FROM ", s, re.I)
    if not m:
        return None
    return [c.strip().split(".")[-1] for c in m.group(1).split(",")]


def variable(t):
    """(name, file handle) of a variable of a netCDF file"""
    if t.op == "data":
        t = t.args[0]
    if t.op == "idx" and len(t.args) == 2 and isstr(t.args[1]) and \
            t.args[0].op == "attr" and t.args[0].val == "variables":
        return strval(t.args[1]), t.args[0].args[0]
    return None


def left_over(t):
    """is this, under some condition, the value of an earlier step?"""
    t = strip(t)
    while t.op == "idx":
        t = t.args[0]
    if t.op != "phi":
        return False
    return any(is_mu(strip(x)) or left_over(x) for x in t.args[1:])


def alters(ip, t):
    """the quantity inside a value that is not the quantity itself"""
    X = sym("c23", "x")

    def goal(x):
        if x.op == "fn" or x.op == "fmt" or x.op == "fld":
            return None
        d = describe(x)
        return X if d and d[0][0] in ("value", "range") else None
    inner = [x for x in walk(t) if goal(x)]
    if not inner:
        return None
    x = max(inner, key=lambda y: len(list(walk(y))))
    u = subst(t, {x: X})
    for v in (-3.75, 2.25, 41.5):
        try:
            got = Cells(ip, {X: v})(u)
        except (Unknown, Outside):
            return None
        if not isinstance(got, (int, float)) or abs(got - v) > 1e-6:
            return x, v, got
    return None


def describe(t):
    t = strip(t)
    if t.op == "idx" and len(t.args) == 2 and t.args[0].op == "idx" and \
            len(t.args[0].args) == 2 and t.args[0].args[1].op == "slice":
        # an element of a part is an element of the whole
        lo, _, st = t.args[0].args[1].args
        if st is NONE and (lo is NONE or isnum(lo) and lo.val >= 0):
            t = mk("idx", t.args[0].args[0],
                   t.args[1] if lo is NONE else add(t.args[1], lo))
    v = variable(t.args[0]) if t.op == "idx" and t.args else None
    b = t
    while v is None and b.op == "idx" and b.args[0].op == "idx":
        b = b.args[0]
        v = variable(b.args[0])
    if t.op == "idx" and len(t.args) == 2 and t.args[0].op in (
            "sorted", "call", "idx") and not isstr(t.args[1]):
        # an element of the list in another order
        b = t.args[0]
        if b.op == "sorted" or b.op == "call" and b.args[0].val in (
                "numpy.sort", "sorted", "reversed", "numpy.flipud") or \
                b.op == "idx" and len(b.args) == 2 and \
                b.args[1].op == "slice" and isnum(b.args[1].args[2]) and \
                b.args[1].args[2].val < 0:
            y = b.args[1] if b.op == "call" else b.args[0]
            o = variable(y)
            if o and o[0] == "ari":
                if b.op == "sorted" and len(b.args) == 1 or \
                        b.op == "call" and len(b.args) == 2 and \
                        b.args[0].val in ("numpy.sort", "sorted"):
                    return None
                return ("ari",), o[1], mk("reordered", t.args[1])
    if v and v[0] == "ari" and len(t.args) == 2:
        return ("ari",), v[1], t.args[1]
    if v:
        return ("value", v[0]), v[1], t
    if t.op == "idx" and len(t.args) == 2 and t.args[0].op == "attr" and \
            t.args[0].val == "actual_range" and isnum(t.args[1]):
        v = variable(t.args[0].args[0])
        if v:
            return ("range", v[0], int(t.args[1].val)), v[1], None
    at = [x for x in walk(t) if x.op == "attr" and x.args[0].op == "handle"
          and x.val != "variables"]
    if len(set(at)) == 1 and not contains(t, lambda x: x.op == "data"):
        return ("attribute", at[0].val), at[0].args[0], None
    st = [x for x in walk(t) if x.op == "attr" and x.val == "st_mtime"]
    if len(set(st)) == 1:
        return ("mtime",), st[0], None
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].val in (
            "os.path.getmtime",):
        return ("mtime",), t, None
    if t.op == "call" and t.args[0].op == "ext" and \
            t.args[0].val == "os.path.basename" and \
            not contains(t, lambda x: x.op == "handle"):
        return ("name",), t, None
    if t.op == "call" and t.args[0].op == "ext" and \
            t.args[0].val.endswith("datetime.now"):
        return ("now",), None, None
    l = location(t)
    if l:
        return ("location", l[0]), l[1], None
    if t.op == "sym" and t.val[0] == "k":
        return ("position",), None, None
    if t is NONE or isstr(t) or isnum(t):
        return ("constant",), None, None
    return None


def record(chk, ip, table, tag, rec, w, formats):
    files = set()
    rows = set()
    # keys
    key = location(rec["locId"]) if "locId" in rec and rec["locId"] is not \
        NONE else None
    if "locId" in rec and table != "tblLocations":
        if key is None:
            d = describe(rec["locId"])
            chk.decide("key", "%s:locId" % tag, False if d else None,
                       "locId is %s" % show(rec["locId"], 4), w)
        else:
            chk.decide("key", "%s:locId" % tag, key[0] == "locId" or False,
                       "locId is %s of the location" % key[0], w)
    src = None
    if "eventId" in rec:
        src = event(chk, tag, rec["eventId"], w, formats, table)
    for col, v in rec.items():
        if col in ("locId", "eventId", "eventNumber", "Comments",
                   "dtCreated"):
            if col in ("Comments",):
                continue
            if col == "eventNumber":
                number(chk, tag, v, w)
            if col == "dtCreated":
                d = describe(v)
                chk.decide("column", "%s:%s" % (tag, col), None if d is None
                           else d[0] == ("now",) or False, "%s is %s" % (
                               col, show(v, 4)), w)
            continue
        want = None
        if col in GRID.get(table, {}):
            want = ("value", GRID[table][col])
        elif col in OTHER.get(table, {}):
            want = OTHER[table][col]
        if want is None:
            continue
        ex = {x: FALSE for x in walk(v) if x.op == "sym" and
              isinstance(x.val, tuple) and x.val[0] == "exc"}
        d = describe(subst(v, ex))
        tagc = "%s:%s" % (tag, col)
        if want[0] in ("value", "range"):
            a = alters(ip, subst(v, ex))
            if a:
                chk.violation("column", tagc, "%s is changed before it is "
                              "stored: %s becomes %s" % (
                                  show(a[0], 3), a[1], a[2]), w)
                continue
        if left_over(subst(v, ex)):
            chk.violation("column", tagc, "%s can be the value of an earlier "
                          "record: %s" % (col, show(v, 4)), w)
            continue
        if d is None:
            chk.unsure("column", tagc, show(v, 5))
            continue
        chk.decide("column", tagc, d[0] == want or False, "%s is %s, "
                   "expected %s" % (col, " ".join(map(str, d[0])),
                                    " ".join(map(str, want))), w)
        if contains(v, lambda x: x.op == "mcall" and x.val == "encode"):
            chk.violation("column", "%s:text" % tagc, "%s is stored as bytes "
                          "and not as text" % col, w)
        if d[0] == want:
            if src is not None and d[1] is not None:
                chk.decide("key", "%s:event" % tagc, True if has(d[1], src)
                           else None if opaque_in(d[1]) else False,
                           "%s is taken from another file than the one the "
                           "event is named after" % col, w)
            if want[0] == "value":
                cell(chk, ip, tagc, d, key, rec, w)
    if table == "tblTracks":
        track(chk, tag, rec, key, src, w)
    if table == "tblLocations":
        place(chk, tag, rec, w)


def number(chk, tag, t, w):
    """the number of an event is its key: no two events share it"""
    t = strip(t)
    parts = {x.args[1].val for x in walk(t) if x.op == "idx" and
             len(x.args) == 2 and isnum(x.args[1]) and
             x.args[0].op == "mcall" and x.args[0].val == "findall"}
    alone = not contains(t, lambda x: x.op == "sym" and isinstance(
        x.val, tuple) and x.val[0] == "k" and not any(
            has(y, x) for y in walk(t) if y.op == "mcall" and
            y.val == "findall"))
    ok = None
    if not parts:
        ok = True if contains(t, lambda x: x.op == "sym" and isinstance(
            x.val, tuple) and x.val[0] in ("k", "mu")) else None
    elif len(parts) == 1 and alone and not contains(
            t, lambda x: is_mu(x)):
        ok = False
    chk.decide("key", "%s:eventNumber" % tag, ok, "events that differ in the "
               "other part of their name share the number %s" % show(t, 3), w)


def event(chk, tag, t, w, formats, table):
    """the file name or track the event identifier is made of"""
    if t.op != "fmt":
        chk.unsure("key", "%s:eventId" % tag, show(t, 4))
        return None
    pat, srcs, order = [], [], []
    for x in t.args:
        if x.op == "fld":
            pat.append("%%%s" % (x.val if not isinstance(x.val, tuple)
                                 else ":".join(map(str, x.val))))
            y = strip(x.args[0])
            if y.op == "idx" and len(y.args) == 2 and isnum(y.args[1]):
                order.append(int(y.args[1].val))
                srcs.append(y.args[0])
        else:
            pat.append(str(strval(x)) if isstr(x) else show(x))
    formats.setdefault(table, "".join(pat))
    if order != [0, 1] or len(set(srcs)) != 1:
        chk.decide("key", "%s:eventId" % tag, False if sorted(order) ==
                   [0, 1] and len(set(srcs)) == 1 else None,
                   "event identifier is made of items %s" % order, w)
        return None
    s = srcs[0]
    chk.ok("key", "%s:eventId" % tag, show(s, 3))
    if s.op == "mcall" and s.val == "findall" and len(s.args) == 2:
        return s.args[1]
    if s.op == "call" and len(s.args) == 3:
        return s.args[2]
    if s.op == "attr" and s.val == "trackId":
        return s.args[0]
    return None


def cell(chk, ip, tag, d, key, rec, w):
    """the cell a grid value is taken from"""
    t = d[2]
    b = t.args[0]
    while b.op == "idx" and variable(b) is None:
        part = b.args[1]
        if part.op == "ix":
            part = part.args[0]
        if part.op == "slice" and all(x is NONE or isnum(x)
                                      for x in part.args):
            if part.args[0] in (NONE, ZERO) and part.args[2] in (NONE, ONE):
                chk.unsure("cell", tag, show(t, 4))
            else:
                chk.violation("cell", tag, "the rows are counted in the whole "
                              "of the grid, the values are taken from %s"
                              % show(b, 3), w)
            return
        b = b.args[0]
    while t.args[0].op == "idx" and variable(t.args[0]) is None:
        # rows first, then columns
        t = mk("idx", t.args[0].args[0], *(t.args[0].args[1:] +
                                           t.args[1:]))
    ix = t.args[1:]
    if len(ix) == 1 and ix[0].op == "ix":
        ix = ix[0].args
    if len(ix) < 2:
        chk.unsure("cell", tag, show(t, 4))
        return
    for i, coord, col in ((-2, "lat", "locLat"), (-1, "lon", "locLon")):
        x = strip(ix[i])
        if x.op != "call" or x.args[0].op != "func" or \
                x.args[0].val != FIND:
            chk.unsure("cell", "%s:%s" % (tag, coord), show(x, 4))
            continue
        kw = {a.val: a.args[0] for a in x.args[1:] if a.op == "kw"}
        v = variable(kw.get("array", NONE))
        l = location(kw.get("value", NONE))
        part = kw.get("array", NONE)
        if v is None and l is not None and part.op == "idx" and \
                len(part.args) == 2 and part.args[1].op == "slice" and \
                variable(part.args[0]) and all(
                    a is NONE or isnum(a) for a in part.args[1].args) and (
                        part.args[1].args[0] is not NONE and
                        part.args[1].args[0].val != 0 or
                        part.args[1].args[2] is not NONE and
                        part.args[1].args[2].val != 1):
            chk.violation("cell", "%s:%s" % (tag, coord), "the index is "
                          "counted in %s, the values are not" % show(part, 3),
                          w)
            continue
        bad = v is not None and l is None and shifted(
            ip, kw.get("value", NONE))
        if bad:
            chk.violation("cell", "%s:%s" % (tag, coord), "for a location at "
                          "%s the index is looked up at %s" % bad, w)
            continue
        if v is None or l is None:
            chk.unsure("cell", "%s:%s" % (tag, coord), show(x, 5))
            continue
        ok = v[0] == coord and l[0] == col and v[1] is d[1] and \
            (key is None or l[1] is key[1])
        chk.decide("cell", "%s:%s" % (tag, coord), ok or False,
                   "index %d is the %s nearest to %s%s%s" % (
                       i, v[0], l[0], "" if v[1] is d[1] else
                       " in another file", "" if key is None or l[1] is
                       key[1] else " of another location"), w)
    if len(ix) == 3 and "returnPeriod" in rec:
        p = describe(rec["returnPeriod"])
        if p is None or p[0] != ("ari",):
            return
        chk.decide("cell", "%s:return period" % tag, ix[0] is p[2] or
                   (None if opaque_in(ix[0]) else False), "values at return "
                   "period %s, record for %s" % (show(ix[0], 3),
                                                 show(p[2], 3)), w)


def track(chk, tag, rec, key, src, w):
    t = strip(rec["distClosest"])
    if t.op == "idx" and (t.args[0].op in ("sorted", "reversed") or
                          t.args[0].op == "call" and t.args[0].args[0].val in
                          ("sorted", "numpy.sort", "numpy.flip",
                           "reversed")) and \
            contains(t.args[0], lambda x: x.op == "mcall" and
                     x.val == "minimumDistance"):
        chk.violation("key", "%s:distance" % tag, "distances are put in "
                      "another order than the locations: %s" % show(t, 4), w)
        return
    if left_over(t):
        chk.violation("key", "%s:distance" % tag, "the distance can be that "
                      "of an earlier track: %s" % show(t, 4), w)
        return
    if t.op == "idx" and t.args[0].op == "idx" and \
            t.args[0].args[0].op == "mcall" and \
            t.args[0].args[0].val == "minimumDistance" and \
            t.args[0].args[1].op == "slice" and key is not None:
        lo, hi, st = t.args[0].args[1].args
        chk.decide("key", "%s:distance" % tag, False if lo is not NONE or
                   st is not NONE else None, "distance %s for location %s" %
                   (show(t, 3), show(key[1].args[1], 3)), w)
        return
    if t.op != "idx" or t.args[0].op != "mcall" or \
            t.args[0].val != "minimumDistance":
        d = describe(t)
        chk.decide("column", "%s:distClosest" % tag, False if d else None,
                   show(t, 4), w)
        return
    call, k = t.args
    if src is not None:
        chk.decide("key", "%s:track" % tag, call.args[0] is src or
                   (None if opaque_in(call.args[0]) else False),
                   "distance of %s for event of %s" % (
                       show(call.args[0], 4), show(src, 4)), w)
    if key is not None:
        chk.decide("key", "%s:distance" % tag, k is key[1].args[1] or
                   (None if opaque_in(k) else False), "distance %s for "
                   "location %s" % (show(k, 3), show(key[1].args[1], 3)), w)
    pts = call.args[1] if len(call.args) > 1 else NONE
    if pts.op != "comp" or pts.args[1] is not TRUE:
        chk.unsure("cell", "%s:points" % tag, show(pts, 4))
        return
    p = pts.args[-1]
    a = [location(x) for x in p.args[1:3]] if p.op == "call" else []
    if len(a) != 2 or None in a:
        chk.unsure("cell", "%s:points" % tag, show(p, 5))
        return
    ok = a[0][0] == "locLon" and a[1][0] == "locLat"
    chk.decide("cell", "%s:points" % tag, ok or False, "points are at (%s, "
               "%s)" % (a[0][0], a[1][0]), w)
    if key is not None:
        chk.decide("cell", "%s:locations" % tag, a[0][1].args[0] is
                   key[1].args[0] or None, "points and records come from "
                   "different lists", w)


def place(chk, tag, rec, w):
    def coordinate(t):
        t = strip(t)
        if t.op == "fn" and t.val == "mod":
            t = t.args[0]
        if t.op == "idx" and isnum(t.args[-1]):
            return int(t.args[-1].val), t.args[0]
        return None
    a, b = coordinate(rec.get("locLon", NONE)), \
        coordinate(rec.get("locLat", NONE))
    if a is None or b is None:
        chk.unsure("column", "%s:position" % tag, show(
            rec.get("locLon", NONE), 4))
        return
    ok = a[0] == 0 and b[0] == 1 and a[1] is b[1]
    chk.decide("column", "%s:position" % tag, ok or False, "longitude is "
               "item %d and latitude item %d of the vertex" % (a[0], b[0]),
               w)
    ks = [x for x in walk(a[1]) if x.op == "dkey"]
    for col in ("locCode", "locName", "locElev", "locCountry"):
        t = strip(rec.get(col, NONE))
        if t.op != "idx" or t.args[0].op != "idx" or not ks:
            chk.unsure("key", "%s:%s" % (tag, col), show(t, 4))
            continue
        chk.decide("key", "%s:%s" % (tag, col), t.args[0].args[1] is
                   ks[0].args[1] or (None if opaque_in(t) else False),
                   "%s is taken from record %s, the position from vertex %s"
                   % (col, show(t.args[0].args[1], 3),
                      show(ks[0].args[1], 3)), w)


# ------------------------------------------------------------------ nearest
def nearest(prog, chk):
    chk.need(FIND in prog.funcs, FIND)
    ip = analyse(prog, chk, FIND)
    A, V = sym("param", "array"), sym("param", "value")
    from checks.c18 import where
    n = 0
    for x in walk(ip.result):
        if x.op == "call" and x.args[0].op == "ext" and x.args[0].val in (
                "numpy.argmin", "numpy.argmax"):
            n += 1
            d = x.args[1]
            ok = None
            if d.op == "fn" and d.val == "abs":
                r = equal(d.args[0], sub(A, V))
                s = equal(d.args[0], sub(V, A))
                ok = x.args[0].val == "numpy.argmin" and (r or s) or \
                    (False if r is False and s is False or
                     x.args[0].val == "numpy.argmax" else None)
            elif equal(d, sub(A, V)) or equal(d, sub(V, A)):
                ok = False
            chk.decide("cell", "nearest", ok, show(x, 5), where(prog, FIND))
    if not n:
        chk.unsure("cell", "nearest", show(ip.result, 5))


# ------------------------------------------------------------------ queries
def queries(prog, chk, tables):
    n = 0
    for q in sorted(prog.funcs):
        if not q.startswith("database.queries.") or q.count(".") != 2:
            continue
        ip = analyse(prog, chk, q)
        for e in ip.trace:
            if e.kind == "mcall" and isstr(e.fn) and \
                    strval(e.fn) == "execute" and e.args and \
                    isstr(e.args[0]):
                n += 1
                s = " ".join(strval(e.args[0]).split())
                select_stmt(chk, e, s, tables, ip, q)
    chk.need(n >= 5, "queries")
    chk.count("queries", n)


def select_stmt(chk, e, s, tables, ip, q):
    tag = (q or e.func.qual).split(".")[-1]
    alias, joined = {}, []
    body = re.split(r"\bFROM\b", s, flags=re.I)
    if len(body) != 2:
        chk.unsure("join", tag, s)
        return
    for m in re.finditer(r"(?:^|\bJOIN\b|,)\s*(\w+)(?:\s+(?:AS\s+)?"
                         r"(?!ON\b|JOIN\b|INNER\b|WHERE\b|ORDER\b|LEFT\b)"
                         r"(\w+))?", body[1].split("WHERE")[0], re.I):
        if m.group(1) in tables:
            alias[m.group(2) or m.group(1)] = m.group(1)
            joined.append(m.group(2) or m.group(1))
    if not joined:
        chk.unsure("join", tag, s)
        return
    # equalities
    group = {}

    def find(x):
        while group.get(x, x) != x:
            x = group[x]
        return x
    for a, b in re.findall(r"(\w+\.\w+) ?= ?(\w+\.\w+)", s):
        group[find(a)] = find(b)
    for i, a in enumerate(joined):
        for b in joined[i + 1:]:
            for k in KEYS:
                if k in tables[alias[a]] and k in tables[alias[b]]:
                    ok = find("%s.%s" % (a, k)) == find("%s.%s" % (b, k))
                    chk.decide("join", "%s:%s:%s:%s" % (
                        tag, alias[a], alias[b], k), ok or False,
                        "%s and %s are joined without %s" % (
                            alias[a], alias[b], k), e.where)
    # columns of conditions and selected columns exist
    for a, c in re.findall(r"\b(\w+)\.(\w+)", s):
        if a in alias:
            chk.decide("query", "%s:%s.%s" % (tag, alias[a], c),
                       c in tables[alias[a]] or False,
                       "no such column", e.where)
    # conditions
    m = re.search(r"\bWHERE\b(.*?)(?:\b(?:ORDER|GROUP|LIMIT)\b|$)", s, re.I)
    if m and q:
        depth = re.sub(r"\([^()]*\)", "", m.group(1))
        for col, op in re.findall(r"(?:\w+\.)?(\w+) ?(>=|<=|=|>|<) ?\?",
                                  depth):
            chk.decide("query", "%s:all:%s" % (tag, col), not re.search(
                r"\bOR\b", depth, re.I) or False, "records that do not meet "
                "the condition on %s are returned too" % col, e.where)
            side = {"wspd": ">", "distClosest": "<"}.get(col)
            if side and op != "=":
                chk.decide("query", "%s:side:%s" % (tag, col), op[0] == side
                           or False, "records with %s %s the value asked for"
                           % (col, op), e.where)
    # parameters
    marks = re.findall(r"(?:\w+\.)?(\w+) ?(>=|<=|=|>|<) ?\?", s)
    if "?" in s:
        items = tuple_items(plain(ip, e.args[1])) if len(e.args) > 1 else None
        if items is None or len(marks) != s.count("?"):
            chk.unsure("query", "%s:parameters" % tag, s)
        else:
            chk.decide("query", "%s:parameters" % tag, len(items) ==
                       len(marks) or False, "%d values for %d marks" % (
                           len(items), len(marks)), e.where)
            for (col, op), t in zip(marks, items):
                value(chk, tag, col, op, t, e)
    names = [y.args[0] for x in walk(ip.result) if x.op == "call"
             for y in x.args if y.op == "kw" and y.val == "names" and
             isstr(y.args[0]) and {z for z in walk(x) if isstr(z) and
                                   strval(z).startswith("SELECT")} ==
             {e.args[0]}] if q else []
    cols = selected(s)
    if q and names and cols and cols != ["*"]:
        given = [x.strip() for x in strval(names[0]).split(",")]
        clash = [(g, c) for g, c in zip(given, cols)
                 if g != c and g in cols]
        chk.decide("query", "%s:names" % tag, (len(given) == len(cols) and
                                               not clash) or False,
                   "%d names for %d columns; %s" % (
                       len(given), len(cols), ", ".join(
                           "%s is called %s" % (c, g) for g, c in clash)),
                   e.where)


EDGE = {("locLon", ">="): "xMin", ("locLon", "<="): "xMax",
        ("locLat", ">="): "yMin", ("locLat", "<="): "yMax"}
PARAM = {"locId": ("locId",), "distClosest": ("distance",),
         "returnPeriod": ("return_period",)}


def value(chk, tag, col, op, t, e):
    if (col, op) in EDGE:
        k = strval(t.args[-1]) if t.op == "idx" and isstr(t.args[-1]) \
            else None
        chk.decide("query", "%s:%s%s" % (tag, col, op), None if k is None
                   else k == EDGE[col, op] or False,
                   "%s %s %s" % (col, op, k), e.where)
    elif location(t):
        c = location(t)[0]
        chk.decide("query", "%s:%s%s" % (tag, col, op), c == col or False,
                   "%s is compared with %s" % (col, c), e.where)
    elif t.op == "sym" and t.val[0] == "param":
        names = {n for v in PARAM.values() for n in v}
        ok = None
        if col in PARAM and t.val[1] in PARAM[col]:
            ok = True
        elif t.val[1] in names or col in PARAM and "peed" in t.val[1]:
            ok = False
        elif "peed" in t.val[1]:
            ok = True if col == "wspd" else False
        chk.decide("query", "%s:%s%s" % (tag, col, op), ok,
                   "%s is compared with %s" % (col, t.val[1]), e.where)
