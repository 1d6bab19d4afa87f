"""What library calls mean: elementary functions, containers, strings,
files, MPI, configuration. Everything not listed is an uninterpreted call,
recorded as an effect unless it is known to be pure."""
import ast
import re
from fractions import Fraction
from .terms import *
from . import terms as TM

RANK = sym("rank")
SIZE = sym("size")
MASKED = sym("masked")
UNINIT = sym("uninit")
CONFIG = sym("config")
PROGRESS = sym("progressbar")
TM.LOWER[RANK] = 0
TM.LOWER[SIZE] = 1

BUILTIN_CONST = {"__name__": sym("__name__"), "__file__": sym("__file__")}

EXT_CONST = {
    "numpy.pi": PI, "math.pi": PI, "numpy.e": E, "math.e": E,
    "numpy.nan": sym("nan"), "numpy.NaN": sym("nan"),
    "numpy.NAN": sym("nan"), "math.nan": sym("nan"),
    "numpy.inf": sym("inf"), "numpy.Inf": sym("inf"), "math.inf": sym("inf"),
    "numpy.newaxis": NONE, "numpy.ma.masked": MASKED,
    "numpy.ma.nomask": FALSE,
    "MPI.COMM_WORLD.rank": RANK, "MPI.COMM_WORLD.size": SIZE,
    "sys.maxsize": sym("maxsize"), "sys.maxint": sym("maxsize"),
    "os.sep": const("/"), "os.path.sep": const("/"),
}

ELEM = {}
for _n in ("exp", "log", "log10", "log2", "sin", "cos", "tan", "sqrt",
           "sinh", "cosh", "tanh", "floor", "ceil", "log1p", "expm1"):
    for _m in ("numpy.", "math.", "cmath.", "numpy.ma.", "scipy."):
        ELEM[_m + _n] = _n
for _a, _b in (("arcsin", "asin"), ("arccos", "acos"), ("arctan", "atan"),
               ("arctan2", "atan2"), ("arcsinh", "asinh")):
    ELEM["numpy." + _a] = _a
    ELEM["numpy.ma." + _a] = _a
    ELEM["math." + _b] = _a
for _n in ("numpy.abs", "numpy.absolute", "numpy.fabs", "abs", "math.fabs",
           "numpy.ma.abs", "numpy.ma.absolute"):
    ELEM[_n] = "abs"
ELEM["numpy.sign"] = "sign"
ELEM["numpy.mod"] = ELEM["numpy.remainder"] = "mod"
ELEM["numpy.fmod"] = ELEM["math.fmod"] = "fmod"
ELEM["numpy.floor_divide"] = "floordiv"
ELEM["scipy.special.gamma"] = ELEM["math.gamma"] = "gamma"
ELEM["numpy.real"] = "real"
ELEM["numpy.imag"] = "imag"
for _n in ("numpy.maximum", "numpy.fmax", "numpy.ma.maximum"):
    ELEM[_n] = "max"
for _n in ("numpy.minimum", "numpy.fmin", "numpy.ma.minimum"):
    ELEM[_n] = "min"

ARITH = {"numpy.multiply": mul, "numpy.add": add, "numpy.subtract": sub,
         "numpy.divide": div, "numpy.true_divide": div,
         "numpy.negative": neg, "numpy.power": power, "math.pow": power,
         "pow": power, "operator.add": add, "operator.sub": sub,
         "operator.mul": mul, "operator.truediv": div,
         "operator.neg": neg, "numpy.float_power": power}

IDENT = {"numpy.array", "numpy.asarray", "numpy.float64", "numpy.float32",
         "numpy.atleast_1d", "numpy.squeeze", "numpy.copy", "copy.copy",
         "copy.deepcopy", "numpy.asanyarray", "numpy.ascontiguousarray",
         "float", "numpy.ravel", "numpy.ma.getdata", "numpy.ma.asarray",
         "numpy.float_", "numpy.asfortranarray", "numpy.require"}

LIKE = {"numpy.zeros_like": ZERO, "numpy.ones_like": ONE,
        "numpy.empty_like": UNINIT, "numpy.ma.zeros_like": ZERO}
MAKE = {"numpy.zeros": ZERO, "numpy.ones": ONE, "numpy.empty": UNINIT,
        "numpy.ma.zeros": ZERO, "numpy.ma.ones": ONE,
        "numpy.ma.empty": UNINIT}

RED = {"max": "max", "amax": "max", "min": "min", "amin": "min",
       "sum": "sum", "mean": "mean", "any": "any", "all": "all",
       "prod": "prod", "std": "std", "var": "var", "median": "median",
       "ptp": "ptp", "argmax": "argmax", "argmin": "argmin",
       "nanmax": "nanmax", "nanmin": "nanmin", "cumsum": "cumsum",
       "argsort": "argsort", "average": "mean"}

# string -> value evaluation on constants
STRFUN = {"lower", "upper", "strip", "lstrip", "rstrip", "split", "replace",
          "startswith", "endswith", "title", "capitalize", "zfill",
          "splitlines", "find", "count", "isdigit", "partition"}

PURE_EXT_PREFIX = ("numpy.", "math.", "os.path.", "itertools.", "datetime.",
                   "scipy.", "operator.", "functools.", "re.", "string.",
                   "collections.", "numpy.ma.", "calendar.", "cmath.",
                   "shapely.", "pandas.")
IMPURE_EXT = {"numpy.save", "numpy.savetxt", "numpy.random", "datetime.now",
              "datetime.datetime.now", "numpy.seterr", "numpy.load",
              "numpy.loadtxt", "numpy.genfromtxt"}
PURE_BUILTIN = {"len", "range", "enumerate", "zip", "isinstance", "str",
                "int", "float", "bool", "dict", "list", "tuple", "set",
                "sorted", "reversed", "max", "min", "sum", "abs", "repr",
                "any", "all", "getattr", "hasattr", "type", "id", "iter",
                "map", "filter", "round", "issubclass", "callable", "chr",
                "ord", "object", "Exception", "ValueError", "TypeError",
                "KeyError", "IndexError", "NotImplementedError", "IOError",
                "RuntimeError", "AttributeError", "NameError",
                "StopIteration", "OSError", "frozenset", "vars", "super",
                "slice", "complex", "bytes", "divmod", "hash", "unicode",
                "long", "basestring", "property", "ImportError",
                "warnings.warn", "warnings.filterwarnings"}

NONDET = re.compile(
    r"^(numpy\.random\.|random\.|time\.(time|clock|perf_counter|localtime|"
    r"gmtime|strftime|ctime)|datetime\.(datetime\.)?(now|utcnow|today)|"
    r"uuid\.|os\.(getpid|urandom|environ)|socket\.|getpass\.|tempfile\.)")
FRESH = re.compile(r"^(threading\.|queue\.|Queue\.|multiprocessing\.|"
                   r"collections\.deque|collections\.OrderedDict|"
                   r"collections\.defaultdict|subprocess\.|"
                   r"concurrent\.)")
NONDET_METHODS = {"normal", "uniform", "random", "rand", "randn", "poisson",
                  "choice", "shuffle", "standard_normal", "lognormal",
                  "logistic", "gumbel", "recv", "irecv", "bcast", "gather",
                  "allgather", "scatter", "reduce", "allreduce", "Recv",
                  "get_nowait", "probe", "fetchone", "fetchall",
                  "fetchmany", "readline", "read", "next", "__next__",
                  "randint", "integers", "permutation", "normalvariate",
                  "logisticvariate", "lognormvariate", "nctvariate",
                  "cauchyvariate", "gauss", "expovariate", "random_sample",
                  "lognormvariate", "lognormalvariate"}
# one day, as a difference of two dates
DAY = sym("day")
SPANS = [("days", 1), ("seconds", 86400), ("microseconds", 86400000000),
         ("milliseconds", 86400000), ("minutes", 1440), ("hours", 24),
         ("weeks", Fraction(1, 7))]

HANDLE_FUNCS = re.compile(
    r"^(open|netCDF4\.Dataset|scipy\.io\.netcdf.*|io\.open|codecs\.open|"
    r"gzip\.open|zipfile\.ZipFile|sqlite3\.connect|netCDF4\.Dataset|"
    r"osgeo\.gdal\.Open|gdal\.Open|tables\.open_file|file)$")
HANDLE_METHODS = {"createVariable", "createGroup", "createDimension",
                  "cursor", "GetRasterBand", "Create"}

PURE_METHODS = {"get_axis", "keys", "values", "items", "lower", "upper",
                "strip", "split", "format", "join", "startswith", "endswith",
                "replace", "copy", "astype", "ravel", "flatten", "reshape",
                "transpose", "T", "tolist", "max", "min", "sum", "mean",
                "any", "all", "std", "var", "strftime", "isoformat", "date",
                "total_seconds", "timetuple", "compressed", "filled",
                "squeeze", "nonzero", "compress", "take", "repeat",
                "conj", "conjugate", "real", "imag", "index", "count",
                "find", "group", "match", "search", "ppf", "cdf", "pdf",
                "sf", "get", "cumsum", "argmax", "argmin", "argsort",
                "toordinal", "swapaxes", "dot", "round", "lstrip", "rstrip",
                "isdigit", "encode", "decode", "read_masked", "has_key",
                "GetProjection", "GetGeoTransform", "bounds", "contains",
                "distance", "within", "intersects", "buffer", "date2num",
                "title", "splitlines", "zfill", "intersection", "union",
                "difference", "issubset"}

LOGM = {"debug", "info", "warning", "warn", "error", "critical", "exception",
        "log", "setLevel", "addHandler", "critcal", "isEnabledFor"}


def is_logger(b):
    if b.op == "ext":
        return b.val == "logging" or b.val.startswith("logging.")
    if b.op == "call" and b.args[0].op == "ext" and \
            b.args[0].val == "logging.getLogger":
        return True
    if b.op == "glob" and b.val[1].lower() in ("log", "logger"):
        return True
    if b.op == "attr" and str(b.val).lower() in ("log", "logger"):
        return True
    return b is PROGRESS


# ------------------------------------------------------------------ handles
def handle_root(t):
    while True:
        if t.op == "handle":
            return t
        if t.op in ("idx", "attr", "mcall") and t.args:
            t = t.args[0]
            continue
        return None


# --------------------------------------------------------------- formatting
def strish(t):
    return isstr(t) or t.op == "fmt"


def field(t, spec):
    spec = spec.lstrip(":")
    if spec in ("s", "!s", "r!", "str"):
        spec = ""
    if spec == "" and isstr(t):
        return t
    if spec == "" and t.op == "fmt":
        return t
    if isnum(t) and t.val.denominator == 1:
        try:
            return const(format(int(t.val), spec))
        except ValueError:
            pass
    if isstr(t):
        try:
            return const(format(strval(t), spec))
        except ValueError:
            pass
    # 05d / 05.0f etc. stay symbolic
    return mk("fld", t, val=spec)


def fmt(parts):
    out = []
    for p in parts:
        if p.op == "fmt":
            ps = p.args
        else:
            ps = (p,)
        for q in ps:
            if isstr(q) and out and isstr(out[-1]):
                out[-1] = const(strval(out[-1]) + strval(q))
            elif isstr(q) and strval(q) == "":
                continue
            else:
                out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and isstr(out[0]):
        return out[0]
    return mk("fmt", *out)


def fmtpart(t):
    if isstr(t) or t.op in ("fmt",):
        return t
    return field(t, "")


_pct = re.compile(r"%(?:\((\w+)\))?([#0\- +]*)(\d+|\*)?(?:\.(\d+))?"
                  r"([diouxXeEfFgGcrs%])")


def pct_format(s, t):
    """'...' % t"""
    args = list(t.args) if t.op == "tuple" else [t]
    parts, pos, n = [], 0, 0
    from .interp import select
    for m in _pct.finditer(s):
        parts.append(const(s[pos:m.start()]))
        pos = m.end()
        if m.group(5) == "%":
            parts.append(const("%"))
            continue
        if m.group(1):
            v = select(t, const(m.group(1)))
        else:
            if n >= len(args):
                v = select(t, num(n)) if len(args) == 1 else sym("noarg")
            elif len(args) == 1 and t.op != "tuple" and \
                    len([x for x in _pct.finditer(s)
                         if x.group(5) != "%"]) > 1:
                v = select(t, num(n))
            else:
                v = args[n]
            n += 1
        flags, width, prec, conv = m.group(2), m.group(3) or "", \
            m.group(4), m.group(5)
        if conv in "sr":
            spec = width
        else:
            conv = {"i": "d", "u": "d"}.get(conv, conv)
            spec = ("0" if "0" in flags else "") + width + \
                ("." + prec if prec else "") + conv
            if spec == "d":
                spec = ""
        parts.append(field(v, spec))
    parts.append(const(s[pos:]))
    return fmt(parts)


def positional(args, n):
    """argument number n, possibly an element of a starred last argument"""
    from .interp import select
    i = next((j for j, a in enumerate(args) if a.op == "star"), None)
    if i is not None and n >= i:
        return select(args[i].args[0], num(n - i)) if i == len(args) - 1 \
            else sym("noarg")
    return args[n] if n < len(args) else sym("noarg")


_brace = re.compile(r"\{\{|\}\}|\{([^{}!:]*)(?:!(\w))?(?::([^{}]*))?\}")


def brace_format(s, args, kw):
    parts, pos, auto = [], 0, 0
    from .interp import select
    for m in _brace.finditer(s):
        parts.append(const(s[pos:m.start()]))
        pos = m.end()
        if m.group(0) == "{{":
            parts.append(const("{"))
            continue
        if m.group(0) == "}}":
            parts.append(const("}"))
            continue
        name = m.group(1) or ""
        hd = re.match(r"^(\w*)(.*)$", name)
        base, rest = hd.group(1), hd.group(2)
        if base == "":
            v = positional(args, auto)
            auto += 1
        elif base.isdigit():
            v = positional(args, int(base))
        else:
            v = kw.get(base, sym("noarg"))
        if rest:
            v = mk("sub", v, val=rest)
        spec = m.group(3) or ""
        if spec == "d":
            spec = ""
        parts.append(field(v, spec))
    parts.append(const(s[pos:]))
    return fmt(parts)


def path(parts):
    out = []
    for p in parts:
        if p.op == "path":
            out += p.args
        elif isstr(p):
            s = strval(p)
            if s.startswith("/"):
                out = [p]
            elif s:
                for i, q in enumerate(s.split("/")):
                    if q:
                        out.append(const(q))
        else:
            out.append(p)
    if len(out) == 1:
        return out[0]
    if out and all(isstr(x) for x in out):
        return mk("path", *out)
    return mk("path", *out)


# ---------------------------------------------------------------- operators
LISTOPS = ("list", "comp", "concat", "append", "repeat")


def binop(ip, op, a, b):
    o = type(op).__name__
    if o == "Add":
        if strish(a) or strish(b):
            return fmt([fmtpart(a), fmtpart(b)])
        if a.op == b.op and a.op in ("list", "tuple"):
            return mk(a.op, *(a.args + b.args))
        if a.op in LISTOPS and b.op in LISTOPS:
            return mk("concat", a, b)
        if a.op == "list" or b.op == "list":
            return mk("concat", a, b)
        if a.op == "path" or b.op == "path":
            return fmt([fmtpart(a), fmtpart(b)])
        return arith2(add, a, b)
    if o == "Sub":
        return arith2(sub, a, b)
    if o == "Mult":
        if isbool(a) and isbool(b):
            return and_(a, b)
        for x, y in ((a, b), (b, a)):
            if x.op == "list":
                if isnum(y) and y.val.denominator == 1 and \
                        len(x.args) * y.val <= 64:
                    return mk("list", *(x.args * int(y.val)))
                if len(x.args) == 1:
                    return mk("full", y, x.args[0])
                return mk("repeat", x, y)
            if isstr(x) and isnum(y):
                return const(strval(x) * int(y.val))
        return arith2(mul, a, b)
    if o == "Div":
        return arith2(div, a, b)
    if o == "Pow":
        return arith2(power, a, b)
    if o == "FloorDiv":
        return arith2(lambda x, y: fn("floordiv", x, y), a, b)
    if o == "Mod":
        if isstr(a):
            return pct_format(strval(a), b)
        if a.op == "fmt":
            # keep the already formatted parts apart while filling the rest
            parts = list(a.args)
            n = sum(1 for x in parts if isstr(x)
                    for m in _pct.finditer(strval(x)) if m.group(5) != "%")
            vals = list(b.args) if b.op == "tuple" else [b]
            if n == len(vals):
                out = []
                for x in parts:
                    if isstr(x):
                        k = len([m for m in _pct.finditer(strval(x))
                                 if m.group(5) != "%"])
                        out.append(pct_format(strval(x),
                                              mk("tuple", *vals[:k])))
                        vals = vals[k:]
                    else:
                        out.append(x)
                return fmt(out)
        return arith2(lambda x, y: fn("mod", x, y), a, b)
    if o == "BitAnd":
        if isbool(a) and isbool(b):
            return and_(a, b)
        return mk("fn", *sorted((a, b), key=lambda t: t.key), val="bitand")
    if o == "BitOr":
        if isbool(a) or isbool(b):
            return or_(truth(a), truth(b))
        return mk("fn", *sorted((a, b), key=lambda t: t.key), val="bitor")
    if o == "MatMult":
        return mk("fn", a, b, val="matmul")
    return mk("fn", a, b, val=o)


def arith2(f, a, b):
    """arithmetic; masks count as 0/1; literal arrays element by element"""
    if a.op == "arr" or b.op == "arr":
        if a.op == "arr" and b.op == "arr":
            if len(a.args) == len(b.args):
                return mk("arr", *[arith2(f, x, y)
                                   for x, y in zip(a.args, b.args)])
        elif a.op == "arr" and b.op in ("num", "sym") or \
                b.op == "arr" and a.op in ("num", "sym"):
            if a.op == "arr":
                return mk("arr", *[arith2(f, x, b) for x in a.args])
            return mk("arr", *[arith2(f, a, x) for x in b.args])
    if isbool(a) and not isbool(b) and a.op != "const":
        a = phi(a, ONE, ZERO)
    elif isbool(b) and not isbool(a) and b.op != "const":
        b = phi(b, ONE, ZERO)
    if a.op == "full" or b.op == "full":
        r = f(unfull(a), unfull(b))
        sh = a if a.op == "full" else b
        if isnum(r) or r.op in ("sym",):
            return mk("full", sh.args[0], r)
        return r
    # 0/1 masks multiply as selections
    if f is mul:
        for x, y in ((a, b), (b, a)):
            if x.op == "phi" and x.args[1] is ONE and x.args[2] is ZERO:
                return phi(x.args[0], y, ZERO)
            if x.op == "phi" and x.args[1] is ZERO and x.args[2] is ONE:
                return phi(x.args[0], ZERO, y)
    return f(a, b)


def compare(op, a, b):
    o = type(op).__name__
    if o == "Lt":
        return ordcmp(lt, a, b, "<")
    if o == "LtE":
        return ordcmp(le, a, b, "<=")
    if o == "Gt":
        return ordcmp(lt, b, a, "<")
    if o == "GtE":
        return ordcmp(le, b, a, "<=")
    if o == "Eq":
        return eq(a, b)
    if o == "NotEq":
        return not_(eq(a, b))
    if o == "Is":
        return is_(a, b)
    if o == "IsNot":
        return not_(is_(a, b))
    if o == "In":
        return in_(a, b)
    if o == "NotIn":
        return not_(in_(a, b))
    return mk("fn", a, b, val=o)


def ordcmp(f, a, b, name):
    if not TM._arith(a) or not TM._arith(b):
        return mk("cmp", a, b, val=name)
    return f(a, b)


# --------------------------------------------------------------- attributes
def attribute(ip, b, name):
    if name in ("real", "imag") and b.op not in ("sym", "param"):
        return fn(name, b)
    if name == "shape" and b.op == "full":
        sh = b.args[0]
        return sh if sh.op in ("tuple", "attr") else mk("tuple", sh)
    if name == "T":
        return mk("fn", b, val="T")
    if name == "mask":
        return mk("attr", b, val="mask")
    if name == "data" and b.op in ("phi",):
        return b
    return mk("attr", b, val=name)


def shape(t):
    if t.op in ("tuple", "list") and len(t.args) == 1:
        return t.args[0]
    if t.op == "list":
        return mk("tuple", *t.args)
    return t


# ------------------------------------------------------------------- calls
def kwterms(kw, st):
    return [mk("kw", st.boxes[a], val=k) for k, a in sorted(kw.items())]


def as_array(t):
    if t.op in ("list", "tuple") and not any(x.op == "star" for x in t.args):
        return mk("arr", *t.args)
    return t


def callmake(ip, f, ts, kws, st, node, args, kw, effect=True, uid=None):
    t = mk("call", f, *ts, *kws, val=uid)
    if effect:
        ip.effect("call", t, st, node, fn=f, args=ts,
                  kw={k.val: k.args[0] for k in kws}, extra=tuple(args))
    return t


def external(ip, f, args, kw, st, node):
    ts = [st.boxes[a] for a in args]
    kws = kwterms(kw, st)
    kd = {k.val: k.args[0] for k in kws}
    if f.op != "ext":
        # unknown callable value
        return callmake(ip, f, ts, kws, st, node, args, kw)
    n = f.val
    T0 = ts[0] if ts else None
    if n.startswith("logging.") or n == "print":
        return NONE if n != "logging.getLogger" else mk("call", f, *ts)
    if n in ELEM and T0 is not None and not any(t.op == "star" for t in ts):
        e = ELEM[n]
        need = 2 if e in ("arctan2", "mod", "fmod", "floordiv", "max",
                          "min") else 1
        if len(ts) >= need:
            return elementwise(lambda *x: fn(e, *x), ts[:need])
    if n == "complex" and 1 <= len(ts) <= 2 and not kd:
        return add(T0, mul(ts[1], TM.I)) if len(ts) == 2 else T0
    if n == "type" and len(ts) == 1 and T0.op in ("new", "obj"):
        from .interp import class_of
        q = class_of(T0)
        if q is not None and T0.op == "new":
            return mk("cls", val=q)
    if n in ("numpy.radians", "math.radians", "numpy.deg2rad") and ts:
        return elementwise(lambda x: div(mul(x, PI), num(180)), ts[:1])
    if n in ("numpy.degrees", "math.degrees", "numpy.rad2deg") and ts:
        return elementwise(lambda x: div(mul(x, num(180)), PI), ts[:1])
    if n in ARITH and ts:
        return elementwise(ARITH[n], ts[:1 if ARITH[n] is neg else 2]) \
            if not kd.get("out") else callmake(ip, f, ts, kws, st, node,
                                               args, kw)
    if n == "numpy.square" and ts:
        return power(T0, num(2))
    if n in ("numpy.hypot", "math.hypot") and len(ts) == 2:
        return fn("sqrt", add(power(ts[0], num(2)), power(ts[1], num(2))))
    if n in ("numpy.clip",) and len(ts) == 3:
        r = T0
        if ts[1] is not NONE:
            r = fn("max", r, ts[1])
        if ts[2] is not NONE:
            r = fn("min", r, ts[2])
        return r
    if n in ("numpy.logical_and", "numpy.ma.logical_and", "operator.and_") \
            and len(ts) == 2:
        return and_(truth(ts[0]), truth(ts[1]))
    if n in ("numpy.logical_or", "numpy.ma.logical_or", "operator.or_") and \
            len(ts) == 2:
        return or_(truth(ts[0]), truth(ts[1]))
    if n in ("numpy.logical_not", "operator.not_") and ts:
        return not_(T0)
    if n in ("numpy.logical_and.reduce",) and ts and \
            T0.op in ("list", "tuple"):
        return and_(*T0.args)
    if n in CMPF and len(ts) == 2:
        return CMPF[n](*ts)
    if n in ("numpy.where", "numpy.ma.where"):
        if len(ts) == 3:
            return phi(ts[0], ts[1], ts[2])
        if len(ts) == 1:
            return mk("nonzero", T0)
    if n in ("numpy.nonzero", "numpy.flatnonzero", "numpy.argwhere") and ts:
        r = mk("nonzero", T0)
        return r if n == "numpy.nonzero" else mk("idx", r, ZERO)
    if n == "numpy.compress" and len(ts) == 2:
        from .interp import select
        return select(ts[1], ts[0])
    if n in ("numpy.take",) and len(ts) == 2 and not kd:
        from .interp import select
        return select(ts[0], ts[1])
    if n == "numpy.putmask" and len(ts) == 3:
        ip.effect("setitem", T0, st, node, args=(ts[1], ts[2]))
        ip.put(st, args[0], phi(truth(ts[1]), ts[2], T0))
        return NONE
    if n == "numpy.put" and len(ts) == 3 and not kd:
        from .interp import store
        ip.effect("setitem", T0, st, node, args=(ts[1], ts[2]))
        ip.put(st, args[0], store(T0, ts[1], ts[2]))
        return NONE
    if n in ("numpy.copyto",) and len(ts) == 2:
        from .interp import store
        m = kd.get("where")
        ip.put(st, args[0], ts[1] if m is None else phi(m, ts[1], T0))
        return NONE
    if n in IDENT and T0 is not None:
        if n in ("float", "numpy.float64") and isstr(T0):
            try:
                return num(float(strval(T0)))
            except ValueError:
                pass
        if n in ("numpy.array", "numpy.asarray") and "int" in \
                show(kd.get("dtype", NONE), 3):
            return elementwise(lambda x: fn("int", x), [as_array(T0)])
        if n.startswith("numpy."):
            return as_array(T0)
        return T0
    if n in ("numpy.ma.array", "numpy.ma.masked_array",
             "numpy.ma.MaskedArray") and ts:
        m = kd.get("mask", ts[2] if len(ts) > 2 and n != "numpy.ma.array"
                   else None)
        r = as_array(T0)
        if re.match(r"^'?(numpy\.)?u?int", show(kd.get("dtype", NONE), 3)):
            r = elementwise(lambda x: fn("int", x), [r])
        if m is not None and m is not FALSE:
            return phi(m, MASKED, r)
        return r
    if n == "numpy.ma.masked_where" and len(ts) >= 2:
        return phi(ts[0], MASKED, ts[1])
    if n in ("numpy.ma.masked_equal", "numpy.ma.masked_values") and \
            len(ts) >= 2:
        return phi(eq(ts[0], ts[1]), MASKED, ts[0])
    if n in LIKE and ts:
        sh = shape(mk("attr", T0, val="shape")) if T0.op != "full" \
            else T0.args[0]
        return mk("full", sh, LIKE[n])
    if n == "numpy.full_like" and len(ts) >= 2:
        return mk("full", mk("attr", T0, val="shape"), ts[1])
    if n in MAKE and (ts or "shape" in kd):
        r = mk("full", shape(T0 if ts else kd["shape"]), MAKE[n])
        if "dtype" in kd or len(ts) > 1:
            ip.effect("alloc", r, st, node, args=(kd.get("dtype") or ts[1],))
        return r
    if n in ("numpy.full",) and len(ts) >= 2:
        return mk("full", shape(ts[0]), ts[1])
    m = re.match(r"^(?:numpy|numpy\.ma|scipy)\.(\w+)$", n)
    if m and m.group(1) in RED and ts:
        return reduction(RED[m.group(1)], ts, kws)
    if n in ("max", "min"):
        if len(ts) == 1 and not kws:
            if T0.op in ("list", "tuple", "set") and T0.args:
                return fn(n, *T0.args)
            return reduction(n, ts, kws)
        if len(ts) >= 2 and not kws:
            return fn(n, *ts)
    if n in ("sum", "any", "all") and len(ts) == 1:
        if T0.op in ("list", "tuple", "set") and \
                not any(x.op == "star" for x in T0.args):
            if n == "sum":
                return add(*T0.args)
            return (or_ if n == "any" else and_)(*[truth(x)
                                                   for x in T0.args])
        return reduction(n, ts, kws)
    if n == "len" and len(ts) == 1:
        return ip.length(T0)
    if n in ("numpy.shape",) and ts:
        return mk("attr", T0, val="shape")
    if n == "numpy.size" and ts:
        return mk("attr", T0, val="size")
    if n in ("int", "numpy.int32", "numpy.int64", "numpy.int_", "numpy.intp",
             "long", "math.trunc", "numpy.trunc", "numpy.fix") and \
            len(ts) == 1:
        if isstr(T0):
            try:
                return num(int(strval(T0)))
            except ValueError:
                pass
        return fn("int", T0)
    if n in ("round", "numpy.round", "numpy.around", "numpy.rint",
             "numpy.round_") and ts:
        if len(ts) == 1:
            return fn("round", T0)
        return mk("fn", *ts, val="round")
    if n == "bool" and len(ts) == 1:
        return truth(T0)
    if n == "str" and len(ts) == 1:
        return fmt([fmtpart(T0)])
    if n == "slice" and 1 <= len(ts) <= 3 and not kws:
        a = [NONE, T0, NONE] if len(ts) == 1 else list(ts) + [NONE]
        return mk("slice", *a[:3])
    if n == "dict":
        flat = []
        if ts and T0.op == "call" and T0.args[0].op == "ext" and \
                T0.args[0].val == "zip" and len(T0.args) == 3:
            ks, vs = T0.args[1:]
            if ks.op in ("list", "tuple"):
                from .interp import select
                if vs.op in ("list", "tuple") and \
                        len(vs.args) == len(ks.args):
                    pass
                for i, k in enumerate(ks.args):
                    flat += [k, select(vs, num(i))]
                return mk("dict", *flat)
        if ts and T0.op == "dict":
            flat = list(T0.args)
        elif ts and T0.op in ("list", "tuple") and all(
                x.op in ("tuple", "list") and len(x.args) == 2
                for x in T0.args):
            for x in T0.args:
                flat += x.args
        elif ts:
            return mk("call", f, *ts, *kws)
        for k in kw:
            flat += [const(k), st.boxes[kw[k]]]
        return mk("dict", *flat)
    if n in ("list", "tuple", "set", "sorted", "numpy.unique", "reversed"):
        if not ts:
            return mk(n) if n in ("list", "tuple", "set") \
                else mk("call", f)
        it = ip.literal_items(-1, mk("call", f, *ts) if n in
                              ("sorted", "reversed") else T0, st) \
            if not kws else None
        if it is not None and n in ("list", "tuple", "sorted", "reversed"):
            return mk({"sorted": "list", "reversed": "list"}.get(n, n),
                      *[st.boxes[x] for x in it])
        if n in ("list", "tuple"):
            if T0.op == "comp":
                return T0
            if T0.op == "call" and T0.args[0].op == "ext" and \
                    T0.args[0].val in ("zip", "map", "range", "filter",
                                       "list", "tuple"):
                return mk("call", f, *ts)
            if T0.op in ("mcall",):
                return mk("call", f, *ts)
            return mk("call", f, *ts)
        return mk("call", f, *ts, *kws)
    if n == "map" and len(ts) == 2:
        it = ip.literal_items(-1, ts[1], st)
        if it is not None and len(it) <= ip.unroll:
            return mk("list", *[ip.apply(T0, [x], {}, st, node)
                                for x in it])
        dom, _ = ip.domain(ts[1], st)
        holder = []
        depth = len(ip.loopstack)
        tgt = ast.Name(id="%map", ctx=ast.Store())
        ip.loopstack.append(-ip.newid())
        ip.bases.append(st.guard)
        g0, st.guard = st.guard, mk("iter", dom)
        ip_dom, binder = dom, None
        ip.loopstack.pop()
        d2, binder = ip.domain(ts[1], st)
        ip.loopstack.append(-ip.newid())
        binder(tgt, st)
        v = ip.apply(T0, [ip.lookup("%map", st)], {}, st, node)
        ip.loopstack.pop()
        ip.bases.pop()
        st.guard = g0
        from .interp import comp_norm
        return comp_norm(mk("comp", dom.args[0], TRUE, v,
                            val=("list", depth)))
    if n == "getattr" and len(ts) >= 2 and isstr(ts[1]):
        return ip.attr(T0, strval(ts[1]), st, node)
    if n == "setattr" and len(ts) == 3 and isstr(ts[1]):
        ip.set_attr(T0, strval(ts[1]), args[2], st, node)
        return NONE
    if n == "setattr" and len(ts) == 3:
        # any attribute of the object may be the one that is set
        for b, nm in [k for k in st.heap if k[0] is T0]:
            old = st.boxes[st.heap[(b, nm)]]
            st.heap[(b, nm)] = ip.alloc(st, phi(
                eq(ts[1], const(nm)), st.boxes[args[2]], old))
    if n == "functools.partial" and ts:
        return mk("partial", *ts, *kws)
    if n == "datetime.timedelta" and len(ts) <= len(SPANS) and \
            all(x.op != "star" for x in ts) and \
            set(kd) <= {x for x, _ in SPANS}:
        out = [div(v, num(u)) for v, (_, u) in zip(ts, SPANS)]
        out += [div(kd[x], num(u)) for x, u in SPANS if x in kd]
        return mul(add(*out), DAY) if out else ZERO
    if n == "functools.wraps":
        return mk("identity_dec")
    if n == "functools.reduce" and len(ts) >= 2:
        it = ip.literal_items(-1, ts[1], st)
        if it and len(it) <= ip.unroll:
            cur = args[2] if len(args) > 2 else it.pop(0)
            for x in it:
                cur = ip.alloc(st, ip.apply(T0, [cur, x], {}, st, node))
            return st.boxes[cur]
    if n == "isinstance" and len(ts) == 2:
        r = isinst(T0, ts[1])
        if r is not None:
            return r
    if n == "os.path.join" and ts:
        if len(ts) == 1 and T0.op == "star":
            return mk("call", f, *ts)
        return path(ts)
    if n in ("os.path.normpath", "os.path.abspath", "os.path.realpath") \
            and len(ts) == 1:
        return T0 if n == "os.path.normpath" else mk("call", f, T0)
    if n in ("sys.exit", "exit", "quit", "os._exit"):
        ip.effect("raise", mk("call", f, *ts), st, node, extra="SystemExit")
        st.dead, st.why = True, "raise"
        return NONE
    if n in ("MPI.COMM_WORLD.Get_rank",):
        return RANK
    if n in ("MPI.COMM_WORLD.Get_size",):
        return SIZE
    if n == "MPI.COMM_WORLD.recv":
        # each receive is another message; it fills in the status object
        t = mk("call", f, *ts, *[k for k in kws if k.val != "status"],
               val=ip.newid())
        ip.effect("call", t, st, node, fn=f, args=ts, kw=kd,
                  extra=tuple(args))
        for k, b in kw.items() if isinstance(kw, dict) else kw:
            if k == "status":
                ip.put(st, b, mk("status", t))
        return t
    if n.endswith("logical_or.reduce") and T0 is not None and \
            T0.op in ("list", "tuple"):
        return or_(*T0.args)
    if HANDLE_FUNCS.match(n):
        t = mk("handle", f, *ts, *kws, val=(n, ip.newid()))
        ip.effect("call", t, st, node, fn=f, args=ts, kw=kd,
                  extra=tuple(args))
        return t
    if NONDET.match(n) or n.startswith("MPI.") or n == "MPI" or \
            FRESH.match(n):
        if n in ("numpy.random.shuffle", "random.shuffle") and args:
            u = ip.newid()
            callmake(ip, f, ts, kws, st, node, args, kw, uid=u)
            st.boxes[args[0]] = mk("shuffled", T0, val=u)
            return NONE
        return callmake(ip, f, ts, kws, st, node, args, kw, uid=ip.newid())
    if n == "input" or n == "next":
        return callmake(ip, f, ts, kws, st, node, args, kw, uid=ip.newid())
    pure = n in PURE_BUILTIN or (
        n.startswith(PURE_EXT_PREFIX) and n not in IMPURE_EXT and
        not n.startswith("numpy.random"))
    return callmake(ip, f, ts, kws, st, node, args, kw, effect=not pure)


def elementwise(f, ts):
    k = None
    for t in ts:
        if t.op == "arr":
            k = len(t.args) if k is None else k
    if k is not None and all(t.op != "arr" or len(t.args) == k for t in ts):
        return mk("arr", *[f(*[t.args[i] if t.op == "arr" else t
                               for t in ts]) for i in range(k)])
    fulls = [t for t in ts if t.op == "full"]
    r = f(*[unfull(t) for t in ts])
    if fulls and isnum(r):
        return mk("full", fulls[0].args[0], r)
    return r


CMPF = {"numpy.greater": lambda a, b: lt(b, a),
        "numpy.greater_equal": lambda a, b: le(b, a),
        "numpy.less": lt, "numpy.less_equal": le,
        "numpy.equal": eq, "numpy.not_equal": lambda a, b: not_(eq(a, b)),
        "operator.lt": lt, "operator.le": le, "operator.eq": eq,
        "operator.gt": lambda a, b: lt(b, a),
        "operator.ge": lambda a, b: le(b, a),
        "operator.ne": lambda a, b: not_(eq(a, b))}


def isinst(t, ty):
    names = [x.val for x in (ty.args if ty.op in ("tuple", "list") else [ty])
             if x.op in ("ext", "cls")]
    if not names:
        return None
    if isstr(t) or t.op in ("fmt", "path"):
        return TRUE if any(x in ("str", "basestring", "unicode")
                           for x in names) else FALSE
    if t.op in ("list", "tuple", "dict", "set") and \
            all(n in ("list", "tuple", "dict", "set", "str", "int", "float")
                for n in names):
        return TRUE if t.op in names else FALSE
    return None


def reduction(name, ts, kws):
    x = ts[0]
    if len(ts) == 1 and not kws:
        if x.op == "arr":
            if name in ("max", "min"):
                return fn(name, *x.args)
            if name == "sum":
                return add(*x.args)
        if name in ("any", "all") and isbool(x):
            # not any(c) is all(not c): keep one form
            if name == "all":
                return not_(mk("call", mk("ext", val="numpy.any"), not_(x)))
            return mk("call", mk("ext", val="numpy.any"), x)
        if x.op == "full" and name in ("max", "min", "mean"):
            return x.args[1]
    if len(ts) == 2 and not kws:
        ts, kws = ts[:1], [mk("kw", ts[1], val="axis")]
    return mk("call", mk("ext", val="numpy." + name), *ts, *kws)


# ----------------------------------------------------------------- methods
MUT = {"append", "extend", "insert", "remove", "pop", "sort", "reverse",
       "update", "add", "clear", "fill", "discard", "setdefault", "popitem",
       "appendleft", "popleft", "resize", "itemset", "partition",
       "put"}


def config_method(ip, name, ts, kd, st, node):
    m = {"get": "get", "getboolean": "getboolean", "getint": "getint",
         "getfloat": "getfloat", "geteval": "geteval",
         "has_option": "has_option", "has_section": "has_section",
         "items": "items", "options": "options", "sections": "sections"}
    if name in m:
        t = mk("cfg", *ts, *[mk("kw", v, val=k) for k, v in
                             sorted(kd.items())], val=name)
        ip.effect("cfg", t, st, node, fn=const(name), args=ts, kw=kd)
        return t
    t = mk("mcall", CONFIG, *ts, val=name)
    ip.effect("mcall", t, st, node, fn=const(name), args=ts, kw=kd)
    return NONE if name in ("read", "set", "add_section") else t


def method(ip, b, recv, name, args, kw, st, node):
    ts = [st.boxes[a] for a in args]
    kws = kwterms(kw, st)
    kd = {k.val: k.args[0] for k in kws}
    if b is PROGRESS:
        return NONE
    if b is CONFIG:
        return config_method(ip, name, ts, kd, st, node)
    if name in LOGM and is_logger(b):
        return NONE
    # strings
    if name == "format" and isstr(b):
        return brace_format(strval(b), ts, kd)
    if name == "join" and strish(b) and len(ts) == 1:
        it = ip.literal_items(-1, ts[0], st)
        if it is not None and isstr(b):
            parts = []
            for i, x in enumerate(it):
                if i:
                    parts.append(b)
                parts.append(fmtpart(st.boxes[x]))
            return fmt(parts)
        return mk("mcall", b, *ts, val="join")
    if isstr(b) and name in STRFUN and all(isconst(t) for t in ts):
        try:
            r = getattr(strval(b), name)(*[
                cval(t) if not isnum(t) else int(t.val) for t in ts])
            if isinstance(r, (list, tuple)):
                return mk("list", *[const(x) for x in r])
            return const(r)
        except Exception:
            pass
    # arrays
    if name in RED and b.op not in ("handle",) and name not in ("average",) \
            and not isstr(b):
        return reduction(RED[name], [b] + ts, kws)
    if name in ("copy", "ravel", "flatten", "squeeze", "tolist",
                "compressed") and not ts and b.op != "dict":
        if name == "compressed":
            return mk("mcall", b, val="compressed")
        return b
    if name == "copy" and b.op == "dict":
        return b
    if name == "astype" and ts:
        s = show(ts[0], 3)
        if "int" in s:
            return fn("int", b) if not isbool(b) else phi(b, ONE, ZERO)
        if "float" in s or "d" == s.strip("'\"") or "f" in s:
            return b if not isbool(b) else phi(b, ONE, ZERO)
        if "bool" in s:
            return truth(b) if isbool(b) else not_(eq(b, ZERO))
        return mk("mcall", b, *ts, val=name)
    if name == "reshape":
        return mk("mcall", b, *ts, val="reshape")
    if name == "nonzero" and not ts:
        return mk("nonzero", b)
    if name == "compress" and len(ts) == 1 and not kw:
        from .interp import select
        return select(b, ts[0])
    if name == "take" and len(ts) == 1 and not kw:
        from .interp import select
        return select(b, ts[0])
    if name == "filled" and b.op == "phi":
        v = ts[0] if ts else sym("fill")
        return rewrite_masked(b, v)
    if name == "clip" and len(ts) == 2:
        return fn("min", fn("max", b, ts[0]), ts[1])
    if name == "item" and not ts:
        return b
    # dictionaries
    if b.op == "dict":
        if name == "get" and ts and isconst(ts[0]) and \
                all(isconst(k) for k in b.args[::2]):
            for i in range(0, len(b.args), 2):
                if b.args[i] is ts[0]:
                    return b.args[i + 1]
            return ts[1] if len(ts) > 1 else NONE
        if name in ("has_key", "__contains__") and ts:
            return in_(ts[0], b)
        if name in ("keys", "items", "values") and not ts:
            return mk("mcall", b, val=name)
    if name == "__getitem__" and len(ts) == 1:
        return ip.select(b, ts[0], st)
    # mutation
    if name in MUT:
        r = mutate(ip, b, recv, name, ts, kd, st, node, args)
        if r is not None:
            return r
    root = handle_root(b)
    if name in HANDLE_METHODS and (root is not None or True) and \
            name in ("createVariable", "createGroup", "createDimension",
                     "cursor"):
        t = mk("handle", b, *ts, *kws, val=(name, ip.newid()))
        ip.effect("mcall", t, st, node, fn=const(name), args=ts, kw=kd,
                  extra=b)
        return t
    if name == "total_seconds" and not ts and not kws:
        return div(mul(num(86400), b), DAY)
    uid = None
    if name in NONDET_METHODS or b.op == "sym" and name == "get" or \
            (name == "get" and b.op == "call" and b.val is not None) or \
            (name == "get" and not ts and not kw):
        uid = ip.newid()
    t = mk("mcall", b, *ts, *kws, val=name) if uid is None else \
        mk("mcall", b, *ts, *kws, sym("occ", uid), val=name)
    if name not in PURE_METHODS or uid is not None or root is not None:
        ip.effect("mcall", t, st, node, fn=const(name), args=ts, kw=kd,
                  extra=b)
    if name == "shuffle" and args:
        st.boxes[args[0]] = mk("shuffled", ts[0], val=uid)
    return t


def rewrite_masked(t, v):
    if t is MASKED:
        return v
    if t.op == "phi":
        return phi(t.args[0], rewrite_masked(t.args[1], v),
                   rewrite_masked(t.args[2], v))
    return t


def mutate(ip, b, recv, name, ts, kd, st, node, args):
    new, ret = None, NONE
    if name == "append" and len(ts) == 1:
        if b.op == "list":
            new = mk("list", *b.args, ts[0])
        else:
            new = mk("append", b, ts[0])
    elif name == "extend" and len(ts) == 1:
        if b.op == "list" and ts[0].op in ("list", "tuple"):
            new = mk("list", *b.args, *ts[0].args)
        elif b.op == "list" and not b.args and ts[0].op == "comp":
            new = ts[0]
        else:
            new = mk("concat", b, ts[0])
    elif name == "update":
        d = None
        if ts and ts[0].op == "dict":
            d = list(ts[0].args)
        elif not ts:
            d = []
        if d is not None:
            for k, v in kd.items():
                d += [const(k), v]
            from .interp import store
            new = b
            for i in range(0, len(d), 2):
                new = store(new, d[i], d[i + 1])
        else:
            new = mk("update", b, *ts)
    elif name == "fill" and len(ts) == 1:
        new = mk("full", mk("attr", b, val="shape"), ts[0]) \
            if b.op != "full" else mk("full", b.args[0], ts[0])
    elif name == "put" and len(ts) == 2:
        from .interp import store
        new = store(b, ts[0], ts[1])
    elif name == "sort":
        new = mk("sorted", b)
        if not ts and not kd and b.op == "list" and \
                all(isstr(x) for x in b.args):
            new = mk("list", *sorted(b.args, key=strval))
    elif name == "reverse":
        new = mk("list", *b.args[::-1]) if b.op == "list" \
            else mk("reversed", b)
    elif name == "insert" and len(ts) == 2:
        if b.op == "list" and isnum(ts[0]):
            l = list(b.args)
            l.insert(int(ts[0].val), ts[1])
            new = mk("list", *l)
        else:
            new = mk("insert", b, *ts)
    elif name == "pop":
        if b.op == "dict" and ts and isconst(ts[0]):
            for i in range(0, len(b.args), 2):
                if b.args[i] is ts[0]:
                    ret = b.args[i + 1]
                    new = mk("dict", *(b.args[:i] + b.args[i + 2:]))
        elif b.op == "list" and b.args and (not ts or isnum(ts[0])):
            l = list(b.args)
            i = int(ts[0].val) if ts else -1
            if -len(l) <= i < len(l):
                ret = l.pop(i)
                new = mk("list", *l)
        if new is None:
            new = mk("popped", b, *ts)
            ret = mk("popval", b, *ts)
    elif name == "setdefault" and ts:
        new = mk("setdefault", b, *ts)
        ret = ip.select(new, ts[0], st)
    elif name == "add" and len(ts) == 1 and b.op in ("set", "call", "add_"):
        new = mk("set", *b.args, ts[0]) if b.op == "set" \
            else mk("added", b, ts[0])
    elif name in ("remove", "clear", "discard", "popitem", "appendleft",
                  "popleft", "resize", "itemset"):
        new = mk(name, b, *ts)
        if name in ("popleft", "popitem"):
            ret = mk("popval", b)
    if new is None:
        return None
    ip.effect("mutate", b, st, node, fn=const(name), args=ts, kw=kd,
              extra=ip.origin_of(recv))
    ip.put(st, recv, new)
    ip.elems.pop(recv, None)
    if name == "append":
        ip.last_ref = None
    # receiver was an element of a container: write it back
    fnode = getattr(node, "func", None)
    if isinstance(fnode, ast.Attribute) and \
            isinstance(fnode.value, ast.Subscript):
        i = ip.index(fnode.value.slice, st)
        ip.store_sub(fnode.value, i, new, st, node)
    return ret


# ------------------------------------------------------- repository models
def repo_model(ip, fn_, args, kw, st, node):
    q = fn_.qual
    if q == "Utilities.parallel.attemptParallel":
        return mk("ext", val="MPI")
    if q == "Utilities.config.ConfigParser":
        return CONFIG
    if q == "Utilities.config.cnfGetIniValue":
        ts = [st.boxes[a] for a in args]
        kd = {k: st.boxes[a] for k, a in kw.items()}
        t = mk("cfg", *ts[1:3], val="cnf")
        ip.effect("cfg", t, st, node, fn=const("cnfGetIniValue"),
                  args=ts[1:], kw=kd)
        return t
    if q not in ip.opaque and q in ("Utilities.files.flStartLog",
                                    "Utilities.files.flLogFatalError"):
        return NONE
    return None


CLASS_MODELS = {
    "Utilities.config.ConfigParser": CONFIG,
    "Utilities.config._ConfigParser": CONFIG,
    "Utilities.progressbar.SimpleProgressBar": PROGRESS,
    "Utilities.progressbar.ProgressBar": PROGRESS,
}


def class_model(ip, q, args, kw, st, node):
    r = CLASS_MODELS.get(q)
    if r is not None:
        return r
    base = ip.p.classes.get(q)
    if base is not None and "progressbar" in base.module.name:
        return PROGRESS
    return None
