"""Reads the Fortran subroutines of the repository and rewrites each of them
as a Python function on whole arrays, so that the compiled and the interpreted
routine are analysed by the same value-flow builder.

Only element-wise routines are accepted: every array reference inside a loop
is indexed by the loop variable running over the array's declared extent.
Anything else raises Unsupported, which makes the routine undecided."""
import re

LITERAL = re.compile(r"(?<![\w.])(\d+\.\d*|\.\d+|\d+)([ed][+-]?\d+)?(_\w+)?",
                     re.I)
FUNCS = {"sqrt": "np.sqrt", "dsqrt": "np.sqrt", "abs": "np.abs",
         "dabs": "np.abs", "exp": "np.exp", "dexp": "np.exp",
         "sin": "np.sin", "dsin": "np.sin", "cos": "np.cos",
         "dcos": "np.cos", "tan": "np.tan", "atan2": "np.arctan2",
         "datan2": "np.arctan2", "atan": "np.arctan", "datan": "np.arctan",
         "log": "np.log", "dlog": "np.log", "max": "np.maximum",
         "min": "np.minimum", "dmax1": "np.maximum", "dmin1": "np.minimum",
         "sign": "_fsign", "dsign": "_fsign", "realpart": "np.real",
         "imagpart": "np.imag", "real": "np.real", "dble": "np.real",
         "aimag": "np.imag", "dimag": "np.imag", "mod": "np.fmod",
         "asin": "np.arcsin", "acos": "np.arccos", "cmplx": "_cmplx",
         "dcmplx": "_cmplx", "conjg": "np.conj"}
OPS = [(r"\.and\.", " and "), (r"\.or\.", " or "), (r"\.not\.", " not "),
       (r"\.lt\.", "<"), (r"\.le\.", "<="), (r"\.gt\.", ">"),
       (r"\.ge\.", ">="), (r"\.eq\.", "=="), (r"\.ne\.", "!="),
       (r"/=", "!="), (r"\.true\.", "True"), (r"\.false\.", "False")]
RADIAN = 0.017453292519943295


class Unsupported(Exception):
    pass


class Routine(object):
    def __init__(self, name, params, line):
        self.name, self.params, self.line = name, params, line
        self.dims = {}       # array -> tuple of extents
        self.intent = {}
        self.types = {}
        self.out = []        # python lines
        self.statements = 0


def logical_lines(src):
    """(line number, text) with comments dropped and continuations joined"""
    out, buf, start = [], "", None
    for n, raw in enumerate(src.split("\n"), 1):
        line = raw.split("!")[0].rstrip().rstrip(";").rstrip()
        if not line.strip():
            continue
        if start is None:
            start = n
        t = line.strip()
        if t.startswith("&"):
            t = t[1:]
        if t.endswith("&"):
            buf += t[:-1] + " "
            continue
        buf += t
        for part in buf.split(";"):
            if part.strip():
                out.append((start, part.strip()))
        buf, start = "", None
    return out


def split_args(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "(":
            depth += 1
        elif ch == ")":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def declare(r, text):
    """type declarations; True when the line is one"""
    m = re.match(r"(double\s*precision|real(\([^)]*\)|\*\d+)?|integer"
                 r"(\([^)]*\))?|complex(\([^)]*\)|\*\d+)?|logical)\s*"
                 r"(.*)$", text, re.I)
    if not m:
        return bool(re.match(r"(implicit|use)\b", text, re.I))
    rest = m.group(5)
    attrs, names = ("", rest)
    if "::" in rest:
        attrs, names = rest.split("::", 1)
    elif re.match(r"\s*=", rest) or "=" in rest:
        return False
    dim = None
    intent = None
    for a in split_args(attrs.strip().lstrip(",")):
        mm = re.match(r"dimension\s*\((.*)\)$", a, re.I)
        if mm:
            dim = tuple(x.lower() for x in split_args(mm.group(1)))
        mm = re.match(r"intent\s*\((\w+)\)$", a, re.I)
        if mm:
            intent = mm.group(1).lower()
    for n in split_args(names):
        mm = re.match(r"(\w+)\s*(\((.*)\))?\s*(=.*)?$", n.strip())
        if not mm:
            raise Unsupported("declaration " + n)
        nm = mm.group(1).lower()
        r.types[nm] = m.group(1).lower().replace(" ", "")
        if mm.group(3):
            r.dims[nm] = tuple(x.lower() for x in split_args(mm.group(3)))
        elif dim:
            r.dims[nm] = dim
        if intent:
            r.intent[nm] = intent
        if mm.group(4):
            r.out.append((1, "%s %s" % (nm, mm.group(4))))
    return True


def expr(r, s, loops):
    """Fortran expression -> Python expression on array elements"""
    s = s.lower()
    for a, b in OPS:
        s = re.sub(a, b, s)
    def lit(m):
        t = m.group(1)
        e = (m.group(2) or "").replace("d", "e")
        if abs(float(t + e) - RADIAN) < 1e-12:
            return "(np.pi/180)"
        return t + e
    # integer constants divide as integers
    s = re.sub(r"(^|[(+\-,])(\s*)(\d+)\s*/\s*(\d+)(?![\d.ed_])",
               lambda m: "%s%s%d" % (m.group(1), m.group(2),
                                     int(m.group(3)) // int(m.group(4))), s)
    s = LITERAL.sub(lit, s)
    return names(r, s, loops)


def names(r, s, loops):
    out, i = "", 0
    for m in iter(lambda: re.compile(r"[a-z_]\w*").search(s, i), None):
        # part of a number such as 1e-30
        if m.start() and (s[m.start() - 1].isdigit() or
                          s[m.start() - 1] == ".") and \
                re.match(r"e[+-]?\d", s[m.start():]):
            out += s[i:m.end()]
            i = m.end()
            continue
        out += s[i:m.start()]
        nm = m.group(0)
        i = m.end()
        k = i
        while k < len(s) and s[k] == " ":
            k += 1
        if nm in ("and", "or", "not", "np"):
            if nm == "np":
                mm = re.match(r"\.\w+", s[i:])
                out += nm + mm.group(0)
                i += mm.end()
            else:
                out += nm
            continue
        if k < len(s) and s[k] == "(":
            d, e = 0, k
            while True:
                if s[e] == "(":
                    d += 1
                elif s[e] == ")":
                    d -= 1
                    if d == 0:
                        break
                e += 1
                if e >= len(s):
                    raise Unsupported("unbalanced " + s)
            inner = s[k + 1:e]
            i = e + 1
            if nm in r.dims:
                ix = split_args(inner)
                ext = r.dims[nm]
                if len(ix) != len(ext) or any(
                        loops.get(x) != y for x, y in zip(ix, ext)):
                    raise Unsupported("reference %s(%s)" % (nm, inner))
                out += "v_" + nm
            elif nm in FUNCS:
                args = [names(r, a, loops) for a in split_args(inner)]
                if FUNCS[nm] == "_cmplx":
                    out += "complex(%s)" % ", ".join(args[:2])
                elif nm in ("real", "dble"):
                    out += "np.real(%s)" % args[0]
                else:
                    out += "%s(%s)" % (FUNCS[nm], ", ".join(args))
            else:
                raise Unsupported("call of " + nm)
        elif nm in ("true", "false"):
            out += nm.capitalize()
        else:
            out += "v_" + nm
    return out + s[i:]


def independent(r, at):
    """scalars set in a loop must be set before they are read there"""
    done, later = set(), set()
    body = []
    for d, line in r.out[at:]:
        m = re.match(r"(v_\w+) = (.*)$", line)
        body.append((m.group(1), m.group(2)) if m else (None, line))
    later = {t for t, _ in body if t and t[2:] not in r.dims}
    for t, e in body:
        for nm in re.findall(r"v_\w+", e):
            if nm in later and nm not in done:
                raise Unsupported("%s carries a value between points" %
                                  nm[2:])
        if t:
            done.add(t)


def parse(src):
    """{name: Routine} with Python statements in Routine.out"""
    out = {}
    r, loops, depth, dead = None, {}, 1, None
    for n, t in logical_lines(src):
        low = t.lower()
        m = re.match(r"subroutine\s+(\w+)\s*\((.*)\)\s*$", low)
        if m:
            r = Routine(m.group(1), split_args(m.group(2)), n)
            loops, depth = {}, 1
            r.failed = None
            out[r.name] = r
            continue
        if r is None:
            continue
        try:
            if re.match(r"end\s*subroutine|^end$", low):
                r = None
                continue
            if r.failed:
                continue
            if declare(r, t):
                continue
            m = re.match(r"do\s+(\w+)\s*=\s*1\s*,\s*(\w+)$", low)
            if m:
                loops[m.group(1)] = m.group(2)
                r.out.append((depth, "if True:"))
                depth += 1
                r.out.append((depth, "pass"))
                r.loopstack = getattr(r, "loopstack", []) + [
                    (m.group(1), len(r.out))]
                continue
            if re.match(r"end\s*do", low):
                depth -= 1
                var, at = r.loopstack.pop()
                loops.pop(var)
                independent(r, at)
                continue
            m = re.match(r"if\s*\((.*)\)\s*then$", low)
            if m:
                r.out.append((depth, "if %s:" % expr(r, m.group(1), loops)))
                depth += 1
                r.out.append((depth, "pass"))
                continue
            m = re.match(r"else\s*if\s*\((.*)\)\s*then$", low)
            if m:
                r.out.append((depth - 1, "elif %s:" %
                              expr(r, m.group(1), loops)))
                r.out.append((depth, "pass"))
                continue
            if low == "else":
                r.out.append((depth - 1, "else:"))
                r.out.append((depth, "pass"))
                continue
            if re.match(r"end\s*if", low):
                depth -= 1
                continue
            m = re.match(r"(\w+)\s*(\(([^=]*)\))?\s*=(?!=)\s*(.*)$", low)
            if m:
                lhs = m.group(1)
                tgt = names(r, lhs + (m.group(2) or ""), loops)
                rhs = expr(r, m.group(4), loops)
                if lhs in r.dims and not m.group(2):
                    raise Unsupported("whole array assignment " + t)
                r.out.append((depth, "%s = %s" % (tgt, rhs)))
                r.statements += 1
                continue
            m = re.match(r"if\s*\((.*)\)\s*(\w+.*=.*)$", low)
            raise Unsupported(t)
        except Unsupported as e:
            r.failed = "%s (line %d)" % (e, n)
    return out


def module(src, exact=False):
    """Python text of a module with one function per subroutine.

    `sign(a, b)` is |a| with the sign of b.  With exact=False it is read as
    a*sign(b), the meaning of the Python code for the non-negative values the
    routines produce."""
    text = ["import numpy as np", "", "",
            "def _fsign(a, b):",
            "    return %s * np.sign(b)" % ("np.abs(a)" if exact else "a"),
            "", ""]
    rs = parse(src)
    for r in rs.values():
        if r.failed:
            continue
        ins = [p for p in r.params]
        # extents are optional in the generated wrapper
        req = [p for p in ins if r.types.get(p) != "integer"]
        opt = [p for p in ins if r.types.get(p) == "integer"]
        text.append("def %s(%s):" % (r.name, ", ".join(
            ["a_" + p for p in req] + ["a_%s=None" % p for p in opt])))
        for p in req:
            text.append("    v_%s = a_%s" % (p, p))
        for d, line in r.out:
            text.append("    " * d + line)
        for p in req:
            if p in r.dims and r.intent.get(p) in ("inout", "out"):
                text.append("    a_%s[:] = v_%s" % (p, p))
        text += ["", ""]
    return "\n".join(text), rs
