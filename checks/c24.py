"""C24: the ledger of processed files gives back what was recorded."""
import ast
from sa.util import *
import sa.terms as TM
from checks.c18 import is_mu, where

P = "Utilities.process."
SET, GET = P + "pSetProcessedEntry", P + "pGetProcessedEntry"
READ, WRITE = P + "pGetProcessedFiles", P + "pWriteProcessedFile"
TEST = P + "pAlreadyProcessed"
LEDGER = "GLOBAL_PROCFILES"
DRIVER = '''
def stored(GLOBAL_PROCFILES, directory, filename, attribute, value):
    pSetProcessedEntry(GLOBAL_PROCFILES, directory, filename, attribute,
                       value)
    return GLOBAL_PROCFILES

def tested(GLOBAL_PROCFILES, directory, filename, attribute, value):
    return pAlreadyProcessed(GLOBAL_PROCFILES, directory, filename,
                             attribute, value)

def looked_up(GLOBAL_PROCFILES, directory, filename, attribute, value):
    return pGetProcessedEntry(GLOBAL_PROCFILES, directory, filename,
                              attribute)
'''


def explicit(prog):
    """the module with the ledger handed over instead of global"""
    tree = ast.parse(ast.unparse(prog.funcs[SET].module.tree))
    fns = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}
    need = set()
    while True:
        more = {k for k, n in fns.items() if k not in need and any(
            isinstance(x, ast.Name) and (x.id == LEDGER or x.id in need)
            for x in ast.walk(n))}
        if not more:
            break
        need |= more
    for k in need:
        n = fns[k]
        n.args.args.insert(0, ast.arg(LEDGER))
        for x in ast.walk(n):
            if isinstance(x, ast.Global):
                x.names = [y for y in x.names if y != LEDGER] or ["_"]
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) \
                    and x.func.id in need:
                x.args.insert(0, ast.Name(LEDGER, ast.Load()))
    tree.body = [n for n in tree.body if not (
        isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and
                                          t.id == LEDGER
                                          for t in n.targets))]
    ast.fix_missing_locations(tree)
    return ast.unparse(tree) + DRIVER


def check(prog, chk):
    chk.rule("record", "a record holds folder, name, modification date and "
             "checksum of the file itself")
    chk.rule("memory", "what is kept in memory is what is written")
    chk.rule("back", "reading a line gives back the values it was written "
             "from, under the same folder, name and attribute")
    chk.rule("ledger", "recording an attribute sets it and changes nothing "
             "else, whether folder, file or attribute are known or not")
    chk.rule("processed", "a file counts as processed only if the stored "
             "value equals the one tested")
    chk.rule("file", "records are added to the file they are read from")
    for q in (SET, GET, READ, WRITE, TEST):
        chk.need(q in prog.funcs, q)
    prog.add_source("_c24", explicit(prog), "_c24.py")
    line = write(prog, chk)
    read(prog, chk, line)
    ledger(prog, chk)


# ------------------------------------------------------------------ writing
def write(prog, chk):
    ip = analyse(prog, chk, WRITE, opaque=[SET])
    F = sym("param", "filename")
    outs = [e for e in ip.trace if e.kind == "mcall" and isstr(e.fn) and
            strval(e.fn) == "write" and e.args]
    if len(outs) != 1:
        chk.unsure("record", "line", "%d writes" % len(outs))
        return None
    e = outs[0]
    line = pieces(e.args[0])
    if line is None:
        chk.unsure("record", "line", show(e.args[0], 5))
        return None
    vals = [x for x in line if not isinstance(x, str)]
    seps = [x for x in line if isinstance(x, str)]
    kinds = [quantity(x, F) for x in vals]
    kinds = [k if k else changed(v, F) for k, v in zip(kinds, vals)]
    for i, (v, k) in enumerate(zip(vals, kinds)):
        if k is None:
            chk.unsure("record", "value:%d" % i, show(v, 5))
        elif k.startswith("!"):
            chk.violation("record", "value:%d" % i, k[1:], e.where)
        else:
            chk.ok("record", k, show(v, 4))
    if None not in kinds:
        for k in ("folder", "name", "date", "checksum"):
            if k not in kinds and not any(x.startswith("!") for x in kinds):
                chk.violation("record", k, "the record does not hold the %s "
                              "of the file" % k, e.where)
    chk.decide("record", "end", bool(line) and isinstance(line[-1], str) and
               line[-1].endswith("\n") and sum(s.count("\n") for s in seps)
               == 1 or False, "a record is not one line", e.where)
    for c in conjuncts(e.cond()):
        if contains(c, lambda x: x.op == "glob" and x.val ==
                    ("Utilities.process", LEDGER)):
            chk.violation("record", "always", "whether a file is recorded "
                          "depends on what is known of it: %s" % show(c, 4),
                          e.where)
    # the file
    h = e.extra
    g = ("Utilities.process", "GLOBAL_DATFILE")
    if h is not None and h.op == "handle":
        ok = len(h.args) > 2 and isstr(h.args[2])
        m = strval(h.args[2]) if ok else None
        chk.decide("file", "append", None if m is None else
                   m.startswith("a") or False, "the file of records is "
                   "opened with mode %s" % m, e.where)
        chk.decide("file", "name", (h.args[1].op == "glob" and
                                    h.args[1].val == g) or None,
                   show(h.args[1]), e.where)
    else:
        chk.unsure("file", "append", show(h) if h is not None else "")
    # memory
    named = dict(zip(kinds, vals))
    want = {"moddate": named.get("date"), "md5sum": named.get("checksum")}
    seen = {}
    for x in calls_to(ip, SET):
        a = [arg(x, n, i) for i, n in enumerate(
            ("directory", "filename", "attribute", "value"))]
        if None in a or not isstr(a[2]):
            chk.unsure("memory", "call", x.where)
            continue
        k = strval(a[2])
        seen[k] = a
        if k in want and want[k] is not None:
            ok = a[0] is named.get("folder") and a[1] is named.get("name") \
                and a[3] is want[k]
            qs = [quantity(y, F) for y in (a[0], a[1], a[3])]
            chk.decide("memory", k, ok or (None if None in qs else qs == [
                "folder", "name", {"moddate": "date"}.get(k, "checksum")]),
                "%s is kept as %s under "
                       "(%s, %s)" % (k, show(a[3], 3), show(a[0], 3),
                                     show(a[1], 3)), x.where)
    for k in want:
        if k not in seen:
            chk.decide("memory", k, False if seen else None,
                       "%s is not kept in memory" % k, e.where)
    return line


def pieces(t):
    """a written text as fixed text and values"""
    if isstr(t):
        return [strval(t)]
    if t.op == "fmt":
        out = []
        for x in t.args:
            if x.op == "fld":
                if x.val not in (None, "", ("", ""), ("", None)) and \
                        not (isinstance(x.val, tuple) and not any(x.val)):
                    return None
                p = pieces(x.args[0])
                out.extend(p if p else [x.args[0]])
            else:
                p = pieces(x)
                if p is None:
                    return None
                out.extend(p)
        return merge(out)
    if t.op in ("eta", "phi", "mu"):
        return None
    return [t]


def merge(xs):
    out = []
    for x in xs:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return out


def quantity(t, F):
    """what a value of a record is"""
    if t.op == "idx" and t.args[0].op == "call" and \
            t.args[0].args[0].op == "ext" and \
            t.args[0].args[0].val == "os.path.split" and \
            t.args[0].args[1] is F and isnum(t.args[1]):
        return ("folder", "name")[int(t.args[1].val)] \
            if int(t.args[1].val) in (0, 1) else None
    if t.op == "call" and t.args[0].op == "ext" and t.args[1:] == (F,) and \
            t.args[0].val in ("os.path.dirname", "os.path.basename"):
        return {"os.path.dirname": "folder",
                "os.path.basename": "name"}[t.args[0].val]
    st = {x.val for x in walk(t) if x.op == "attr" and
          str(x.val).startswith("st_")}
    if st:
        if not mentions(t, F):
            return None
        if st == {"st_mtime"}:
            return "date"
        if len(st) == 1:
            return "!the date is taken from %s" % st.pop()
        return None
    h = [x for x in walk(t) if x.op == "call" and x.args[0].op == "ext" and
         str(x.args[0].val).startswith("hashlib.")]
    if h or t.op == "mcall" and t.val == "hexdigest":
        rd = [x for x in walk(t) if x.op == "mcall" and x.val == "read"]
        hs = [x for x in walk(t) if x.op == "handle"]
        if not rd:
            return None if opaque_in(t) else \
                "!the checksum does not depend on what the file holds"
        if not all(len(x.args) > 1 and x.args[1] is F for x in hs):
            return None
        loops = contains(t, lambda x: x.op in ("eta", "last"))
        sized = [x for x in rd if len(x.args) > 1 and isnum(x.args[1])]
        if sized and not loops:
            return "!the checksum covers the first %s bytes only" % show(
                sized[0].args[1])
        if loops:
            for x in walk(t):
                if x.op == "eta" and not is_mu(x.args[1]):
                    if not any(is_mu(y) for y in walk(x.args[1])):
                        return "!the checksum covers the last part only"
        return "checksum"
    return None


# ----------------------------------------------------------- concrete texts
SAMPLES = [
    {"folder": "/data/Run 1", "name": "Tracks.0001.csv",
     "date": "Sun Nov 15 08:14:32 2026",
     "checksum": "d41d8cd98f00b204e9800998ecf842e0"},
    {"folder": "#tmp", "name": "B.NC", "date": "Thu Jan  1 00:00:00 1970",
     "checksum": "00b204e9800998ecf8427ed41d8cd9ff"},
    {"folder": "", "name": "n", "date": "Mon Feb 29 23:59:59 2016",
     "checksum": "a" * 32},
]
PURE = ("strip", "rstrip", "lstrip", "split", "rsplit", "partition",
        "rpartition", "lower", "upper", "replace", "startswith", "endswith",
        "title", "capitalize", "swapcase", "join", "splitlines", "isdigit",
        "find", "index", "count", "casefold", "removesuffix",
        "removeprefix")


def plain(t):
    """the value of a constant"""
    if t is NONE:
        return None
    if t is TRUE or t is FALSE:
        return t is TRUE
    if isstr(t):
        return strval(t)
    if isnum(t):
        return int(t.val) if t.val == int(t.val) else float(t.val)
    raise Unknown(t)


def said(t, leaf):
    """the text or number a term stands for; leaf gives the known ones"""
    v = leaf(t)
    if v is not None:
        return v
    if t is NONE:
        return None
    if t.op == "const" or t.op == "num" or t is TRUE or t is FALSE:
        return plain(t)
    if t.op == "mcall" and t.val in PURE:
        a = [said(x, leaf) for x in t.args]
        if not isinstance(a[0], str):
            raise Unknown(t)
        try:
            return getattr(a[0], t.val)(*a[1:])
        except (TypeError, ValueError):
            raise Unknown(t)
    if t.op == "idx" and len(t.args) == 2:
        b = said(t.args[0], leaf)
        i = t.args[1]
        try:
            if i.op == "slice":
                return b[slice(*[said(x, leaf) for x in i.args])]
            return b[said(i, leaf)]
        except (TypeError, KeyError):
            raise Unknown(t)
    if t.op in ("tuple", "list"):
        return [said(x, leaf) for x in t.args]
    if t.op == "fmt":
        out = []
        for x in t.args:
            if x.op == "fld":
                if x.val not in (None, "", ("", ""), ("", None)) and not (
                        isinstance(x.val, tuple) and not any(x.val)):
                    raise Unknown(t)
                out.append(str(said(x.args[0], leaf)))
            else:
                out.append(str(said(x, leaf)))
        return "".join(out)
    if t.op == "len":
        return len(said(t.args[0], leaf))
    if t.op == "not":
        return not said(t.args[0], leaf)
    if t.op in ("and", "or"):
        a = [bool(said(x, leaf)) for x in t.args]
        return all(a) if t.op == "and" else any(a)
    if t.op == "phi":
        return said(t.args[1 if said(t.args[0], leaf) else 2], leaf)
    if t.op == "cmp" and t.val in ("in", "notin"):
        r = said(t.args[0], leaf) in said(t.args[1], leaf)
        return r if t.val == "in" else not r
    if t.op in ("eq0", "ne0", "lt0", "le0") and t.args[0].op == "add":
        a = t.args[0]
        vs = [said(x, leaf) for x in a.args]
        if len(vs) == 2 and list(a.val) in ([1, -1], [-1, 1]) and \
                t.op in ("eq0", "ne0"):
            return (vs[0] == vs[1]) == (t.op == "eq0")
        if all(isinstance(v, (int, float)) for v in vs):
            d = sum(k * v for k, v in zip(a.val, vs))
            return {"eq0": d == 0, "ne0": d != 0, "lt0": d < 0,
                    "le0": d <= 0}[t.op]
    raise Unknown(t)


def changed(t, F):
    """what a text operation on one value of the record does to it"""
    inner = [x for x in walk(t) if x is not t and x.op != "handle" and
             quantity(x, F) and not quantity(x, F).startswith("!")]
    if not inner:
        return None
    x = max(inner, key=lambda y: len(list(walk(y))))
    what = quantity(x, F)
    for sm in SAMPLES:
        try:
            got = said(t, lambda y: sm[what] if y is x else None)
        except (Unknown, IndexError):
            return None
        if got != sm[what]:
            return "!the %s %r is recorded as %r" % (what, sm[what], got)
    return None


# ------------------------------------------------------------------ reading
def text(t, line, is_line):
    """the pieces of a text taken from a line; None if not known"""
    if is_line(t):
        return list(line)
    if t.op == "mcall" and t.val in ("rstrip", "strip") and len(t.args) <= 2:
        p = text(t.args[0], line, is_line)
        if p is None:
            return None
        c = strval(t.args[1]) if len(t.args) == 2 and isstr(t.args[1]) \
            else None if len(t.args) == 2 else "\n"
        if c is None:
            return None
        if p and isinstance(p[-1], str):
            p[-1] = p[-1].rstrip(c)
        return [x for x in p if x != ""]
    if t.op == "idx" and len(t.args) == 2 and t.args[1].op == "slice":
        p = text(t.args[0], line, is_line)
        lo, hi, st = t.args[1].args
        if p and lo is NONE and st is NONE and isnum(hi) and hi.val == -1 \
                and isinstance(p[-1], str) and p[-1]:
            p[-1] = p[-1][:-1]
            return [x for x in p if x != ""]
        return None
    if t.op == "idx" and len(t.args) == 2 and isnum(t.args[1]):
        f = fields(t.args[0], line, is_line)
        i = int(t.args[1].val)
        if f is None or not -len(f) <= i < len(f):
            return None
        return f[i]
    return None


def fields(t, line, is_line):
    if t.op == "mcall" and t.val in ("split", "rsplit") and \
            len(t.args) >= 2 and isstr(t.args[1]):
        p = text(t.args[0], line, is_line)
        if p is None:
            return None
        sep = strval(t.args[1])
        n = None
        if len(t.args) == 3:
            if not isnum(t.args[2]):
                return None
            n = int(t.args[2].val)
        out, cur = [], []
        if n is not None and t.val == "rsplit":
            total = sum(x.count(sep) for x in p if isinstance(x, str))
            skip, n = max(0, total - n), None
        else:
            skip = 0
        done = 0
        for x in p:
            if not isinstance(x, str):
                cur.append(x)
                continue
            bits = x.split(sep)
            for i, b in enumerate(bits):
                if i:
                    if skip > 0:
                        skip -= 1
                        cur.append(sep)
                    elif n is not None and done >= n:
                        cur.append(sep)
                    else:
                        done += 1
                        out.append(merge([y for y in cur if y != ""]))
                        cur = []
                if b:
                    cur.append(b)
        out.append(merge([y for y in cur if y != ""]))
        return out
    return None


def lines(line, F):
    """sample records and the lines written for them"""
    for sm in SAMPLES:
        out = []
        for x in line:
            if not isinstance(x, str):
                q = quantity(x, F)
                if q not in sm:
                    return
                x = sm[q]
            out.append(x)
        yield sm, "".join(out)


def unlike(t, line, is_line, F, what):
    """'' when a value is read back as written, else how it differs; None
    when the term is not understood"""
    n = 0
    for sm, s in lines(line, F):
        n += 1
        try:
            got = said(t, lambda y: s if is_line(y) else None)
        except Unknown:
            return None
        except IndexError:
            return "a line %r has no such part" % s
        if got != sm[what]:
            return "the %s %r is read back as %r" % (what, sm[what], got)
    return "" if n else None


def skips(c, line, is_line, F):
    """can a line be passed over?"""
    for known in (None, "an earlier value"):
        for sm, s in lines(line, F):
            def leaf(y):
                if is_line(y):
                    return s
                if known and contains(y, lambda z: z.op == "glob" and
                                      z.val == ("Utilities.process",
                                                LEDGER)) and y.op in (
                                                    "phi", "idx", "mcall"):
                    return known
                return None
            try:
                if not said(c, leaf):
                    return True
            except (Unknown, IndexError):
                continue
    return False


def some_lines(t, h):
    """lines of the file h without the first or last ones"""
    if t.op != "idx" or len(t.args) != 2 or t.args[1].op != "slice":
        return False
    b = t.args[0]
    if not (b.op == "mcall" and b.val in ("readlines", "splitlines") and
            contains(b, lambda y: y is h)):
        return False
    lo, hi, st = t.args[1].args
    return any(isnum(x) and x.val != z for x, z in ((lo, 0), (st, 1))) or \
        isnum(hi)


def read(prog, chk, line):
    ip = analyse(prog, chk, READ, opaque=[SET])
    hs = [x for e in ip.trace for x in [e.term] if x is not None and
          x.op == "handle"]
    if not hs:
        chk.unsure("file", "read", "no file opened")
        return
    h = hs[0]
    D = sym("param", "datFileName")
    g = [e for e in ip.trace if e.kind == "setglobal"]
    chk.decide("file", "read", h.args[1] is D and (
        len(h.args) < 3 or isstr(h.args[2]) and
        strval(h.args[2]).startswith("r")) or None, show(h, 4),
        where(prog, READ))
    if not g:
        chk.violation("file", "kept", "the name of the file is not kept for "
                      "the records to come", where(prog, READ))
    for e in g:
        chk.decide("file", "kept", e.term is D or None, show(e.term),
                   e.where)
    if line is None:
        chk.unsure("back", "line", "the line written is not known")
        return

    def is_line(t):
        return t.op == "idx" and len(t.args) == 2 and (
            t.args[0] is h or t.args[0].op == "mcall" and
            t.args[0].val == "readlines" and t.args[0].args[0] is h) and \
            t.args[1].op == "sym" and t.args[1].val[0] == "k"

    F = sym("param", "filename")
    named = {quantity(x, F): x for x in line if not isinstance(x, str)}
    want = {"moddate": "date", "md5sum": "checksum"}
    seen = set()
    cs = calls_to(ip, SET)
    for x in cs:
        a = [arg(x, n, i) for i, n in enumerate(
            ("directory", "filename", "attribute", "value"))]
        if None in a or not isstr(a[2]):
            chk.unsure("back", "call", x.where)
            continue
        k = strval(a[2])
        seen.add(k)
        if k not in want:
            continue
        for what, t in (("folder", a[0]), ("name", a[1]),
                        (want[k], a[3])):
            p = text(t, line, is_line)
            tag = "%s:%s" % (k, what)
            left = [y for y in walk(t) if some_lines(y, h)]
            if left:
                chk.decide("back", tag, False, "only some of the lines are "
                           "read back: %s" % show(left[0], 4), x.where)
                continue
            if named.get(what) is not None:
                bad = unlike(t, line, is_line, F, what)
                if bad is not None:
                    chk.decide("back", tag, bad == "" or False, bad, x.where)
                    continue
            if p is None or named.get(what) is None:
                chk.unsure("back", tag, show(t, 5))
                continue
            chk.decide("back", tag, p == [named[what]] or False,
                       "%s is read back as %s" % (what, " ".join(
                           repr(y) if isinstance(y, str) else
                           str(quantity(y, F)) for y in p)), x.where)
        c = [y for y in conjuncts(x.cond()) if y is not D and
             y.op not in ("iter",) and not (
                 y.op == "not" and y.args[0].op == "sym" and isinstance(
                     y.args[0].val, tuple) and y.args[0].val[0] == "exc")]
        verdict = True if not c else None
        for y in c:
            if skips(y, line, is_line, F):
                verdict = False
        chk.decide("back", "%s:always" % k, verdict,
                   "depends on %s" % [show(y, 3) for y in c], x.where)
    for k in want:
        if k not in seen:
            chk.decide("back", k, False if cs else None,
                       "%s is not read back" % k, where(prog, READ))
    # separators inside a value
    sp = {strval(x.args[1]) for e in ip.trace for t in list(e.args) +
          [e.term] if t is not None for x in walk(t) if x.op == "mcall" and
          x.val in ("split", "rsplit") and len(x.args) == 2 and
          isstr(x.args[1])}
    for s in sorted(sp):
        for what in ("folder", "name"):
            t = named.get(what)
            if t is None:
                continue
            free = not contains(t, lambda y: y.op in ("mcall", "call") and
                                (y.val == "replace" or y.args and
                                 y.args[0].op == "ext" and
                                 "quote" in str(y.args[0].val)))
            chk.decide("back", "separator:%s" % what, False if free else
                       None, "a %s that holds %r is split at it" % (what, s),
                       where(prog, READ))


# ------------------------------------------------------------------ ledger
class Unknown(Exception):
    pass


class Missing(Exception):
    pass


NoneText = type("NoneText", (), {"__str__": lambda s: "None"})()


def value(t, env):
    """a term of the ledger on one small state; nothing is changed"""
    for k, v in env.items():
        if t is k:
            return v
    if t.op == "const" or t.op == "num" or t is TRUE or t is FALSE:
        return plain(t)
    if t.op == "dict":
        return {value(k, env): value(v, env) 
                for k, v in zip(t.args[::2], t.args[1::2])}
    if t.op == "idx" and len(t.args) == 2:
        b, i = value(t.args[0], env), value(t.args[1], env)
        if not isinstance(b, dict):
            raise Unknown(t)
        if i not in b:
            raise Missing(t)
        return b[i]
    if t.op == "store" and len(t.args) == 3:
        b = dict(value(t.args[0], env))
        b[value(t.args[1], env)] = value(t.args[2], env)
        return b
    if t.op == "update" and len(t.args) == 2:
        b = dict(value(t.args[0], env))
        b.update(value(t.args[1], env))
        return b
    if t.op == "mcall" and t.val == "get":
        b, i = value(t.args[0], env), value(t.args[1], env)
        d = value(t.args[2], env) if len(t.args) > 2 else None
        return b.get(i, d)
    if t.op == "phi":
        c = t.args[0]
        return value(t.args[1 if truth(c, env, t) else 2], env)
    if t.op in ("and", "or", "not", "cmp", "eq0", "ne0", "lt0", "le0"):
        return truth(t, env, None)
    if t.op == "fmt" or t.op == "mcall" and t.val in PURE or t.op == "len":
        def leaf(y):
            if y is t or y.op in ("fmt", "fld") or y.op == "mcall" and \
                    y.val in PURE:
                return None
            v = value(y, env)
            return NoneText if v is None else v
        return said(t, leaf)
    raise Unknown(t)


def truth(c, env, phi):
    if c is TRUE or c is FALSE:
        return c is TRUE
    if c.op == "sym" and isinstance(c.val, tuple) and c.val[0] == "exc":
        try:
            value(phi.args[2], env)
        except Missing:
            return True
        return False
    if c.op == "not":
        return not truth(c.args[0], env, phi)
    if c.op == "and":
        return all(truth(x, env, phi) for x in c.args)
    if c.op == "or":
        return any(truth(x, env, phi) for x in c.args)
    if c.op == "cmp" and c.val in ("in", "notin"):
        r = value(c.args[0], env) in value(c.args[1], env)
        return r if c.val == "in" else not r
    if c.op in ("eq0", "ne0") and c.args[0].op == "add" and \
            list(c.args[0].val) in ([1, -1], [-1, 1]):
        a, b = [value(x, env) for x in c.args[0].args]
        return (a == b) == (c.op == "eq0")
    if c.op in ("lt0", "le0") and c.args[0].op == "add" and \
            list(c.args[0].val) in ([1, -1], [-1, 1]):
        a, b = [value(x, env) for x in c.args[0].args]
        if c.args[0].val[0] == -1:
            a, b = b, a
        if type(a) is type(b) and isinstance(a, (str, int)):
            return a < b if c.op == "lt0" else a <= b
        raise Unknown(c)
    if c.op in ("eq0", "ne0"):
        r = linear(c.args[0], env) == 0
        return r if c.op == "eq0" else not r
    v = value(c, env)
    return bool(v)


def linear(t, env):
    if t.op == "add":
        return sum(k * linear(x, env) for k, x in zip(t.val, t.args))
    k, fs = TM.split_mul(t)
    if len(fs) == 1 and list(fs.values()) == [TM.ONE] and k != 1:
        return k * linear(list(fs)[0], env)
    v = value(t, env)
    if v is None or isinstance(v, (dict, str)):
        raise Unknown(t)
    return v


# folder, file and attribute known or not, and others that must stay
STATES = [
    {}, {"d": {}}, {"d": {"f": {}}}, {"d": {"f": {"a": 5}}},
    {"d": {"f": {"b": 6}}}, {"d": {"g": {"a": 5}}},
    {"e": {"f": {"a": 5}}},
    {"d": {"f": {"a": 5, "b": 6}, "g": {"a": 8}}, "e": {"f": {"a": 9}}},
    {"d": {"g": {"a": 7}}, "e": {"f": {"a": 7}}},
    {"d": {"f": {"a": 7}}}, {"d": {"f": {"b": 7}}},
    {"d": {"f": {"a": "7"}}}, {"d": {"f": {"a": "7 Nov"}}},
    {"d": {"f": {"a": ""}}},
]
TEXTS = [
    {"d": {"f": {"a": v}}} for v in (
        "7 Nov", "7", "7 nov", "7 Nov ", "7 Nov 2026", "Nov", "", "0")
] + [{}, {"d": {"f": {"b": "7 Nov"}}}]


# names with capitals, spaces, dots and separators at both ends
NAMES = {"d": "/In put/Best.Tracks ", "e": "/in put/best.tracks",
         "f": " Al 09.2017.CSV", "g": "al 09.2017", "a": "Date Of",
         "b": "date"}


def named(st):
    return {NAMES[d]: {NAMES[f]: {NAMES[a]: v for a, v in x.items()}
                       for f, x in y.items()} for d, y in st.items()}


def ledger(prog, chk):
    names = (LEDGER, "directory", "filename", "attribute", "value")
    ps = [sym("param", n) for n in names]
    for fn, rule in (("stored", "ledger"), ("tested", "processed"),
                     ("looked_up", "processed")):
        ip = analyse(prog, chk, "_c24." + fn)
        lost = fn == "stored" and not has(ip.result, ps[-1]) and any(
            e.kind in ("setitem", "mutate") and any(has(x, ps[-1])
                                                    for x in e.args)
            for e in ip.trace)
        q = {"stored": SET, "tested": TEST, "looked_up": GET}[fn]
        for st, new in [(x, 7) for x in STATES] + [(x, "7 Nov")
                                                   for x in TEXTS]:
            env = dict(zip(ps, (named(st), NAMES["d"], NAMES["f"],
                                NAMES["a"], new)))
            tag = "%s:%s%s" % (fn, repr(st).replace(" ", ""),
                               "" if new == 7 else ":text")
            old = st.get("d", {}).get("f", {}).get("a")
            if lost:
                chk.unsure(rule, tag, "stored through another name")
                continue
            try:
                got = value(ip.result, env)
            except (Unknown, TypeError, AttributeError) as u:
                chk.unsure(rule, tag, str(u)[:100])
                continue
            except Missing:
                chk.violation(rule, tag, "fails when the entry is missing",
                              where(prog, q))
                continue
            if fn == "stored":
                want = {k: {f: dict(x) for f, x in v.items()}
                        for k, v in st.items()}
                want.setdefault("d", {}).setdefault("f", {})["a"] = new
                ok = got == named(want)
            elif fn == "tested":
                want = old == new
                ok = bool(got) == want
            else:
                want = old if old is not None else "no value of a file"
                ok = got == old if old is not None else got in (0, None,
                                                                False, "")
            chk.decide(rule, tag, ok or False, "gives %r, expected %r" % (
                got, want), where(prog, q))
