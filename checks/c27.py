"""C27: configuration options have one name, one type and a fallback."""
import ast
import configparser
from sa.util import *
import sa.terms as TM
from sa.interp import Budget
from checks.c26 import enclosing, frame_node

GETTERS = {"get": "text", "getint": "whole number", "getfloat": "number",
           "getboolean": "boolean", "geteval": "expression"}
PARSED = {"parseBool": "boolean", "int": "whole number", "float": "number",
          "str": "text", "eval": "expression", "parseList": "text"}
ENTRY = ("tcrm", "tcevent")
# options without a default that the user's guide says must be set
DOCUMENTED = {("Region", "gridlimit"): "docs/setup.rst",
              ("Input", "coastlinegates"): "docs/evaluation.rst",
              ("Impact", "exposure"): "docs/setup.rst"}
CATCH = {"NoOptionError", "NoSectionError", "Error", "Exception",
         "BaseException"}


def check(prog, chk):
    chk.rule("fallback", "an option is read only where it has a default, is "
             "tested for, or is documented as one that must be set")
    chk.rule("type", "an option is read as the type of its default")
    chk.rule("same", "an option is read as the same type everywhere")
    chk.rule("parsers", "the table of parsers names options as the "
             "configuration stores them and agrees with the defaults")
    cfg = "Utilities.config"
    chk.need(cfg in prog.modules, cfg)
    defaults = default_table(prog, chk)
    sites, roots = {}, 0
    for q, kw in entry_points(prog, chk):
        try:
            ip = analyse(prog, chk, q, **kw)
        except Budget:
            chk.unsure("fallback", q, "too large to follow")
            continue
        roots += 1
        done = sets(ip)
        for e in ip.trace:
            if e.kind == "cfg" and strval(e.fn) in list(GETTERS) + [
                    "cnfGetIniValue"]:
                sites.setdefault(id(e.node), []).append((e, ip, done))
    chk.need(sites, "reads of the configuration")
    chk.count("stage functions", roots)
    chk.count("places options are read", len(sites))
    types = {}
    for lst in sites.values():
        for label, key, name, e in one_site(prog, chk, defaults, lst):
            types.setdefault(key, []).append((name, e))
    for key, ts in sorted(types.items()):
        label = "%s/%s" % key
        names = sorted({n for n, _ in ts})
        if len(names) > 1:
            e = rare(ts)
            chk.violation("same", label, "read as %s at different places"
                          % " and as ".join(names), e.where)
        else:
            chk.ok("same", label, "%s at %d places" % (names[0], len(ts)))
    parsers(prog, chk, defaults, types)


def rare(ts):
    n = {}
    for t, e in ts:
        n.setdefault(t, []).append(e)
    return min(n.values(), key=len)[0]


def entry_points(prog, chk):
    fs = [q for q in sorted(prog.funcs) if q.split(".")[0] in ENTRY and
          q.count(".") == 1]
    chk.need(len(fs) > 5, "functions of tcrm.py and tcevent.py")
    for q in fs:
        yield q, {"opaque": [x for x in fs if x != q]}


def default_table(prog, chk):
    m = prog.modules["Utilities.config"]
    text = None
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and isinstance(
                n.value, ast.Constant) and isinstance(n.value.value, str) \
                and n.value.value.lstrip().startswith("["):
            text = n.value.value
    chk.need(text, "table of default values in Utilities/config.py")
    p = configparser.RawConfigParser()
    p.read_string(text)
    return p


def kind_of(text):
    if text in ("True", "False"):
        return "boolean"
    try:
        int(text)
        return "whole number"
    except ValueError:
        pass
    try:
        float(text)
        return "number"
    except ValueError:
        pass
    if text[:1] in "{[(" and text[:1]:
        return "expression"
    return "text"


def sets(ip):
    """options given a value by the stage itself"""
    out = []
    for e in ip.trace:
        if e.kind == "mcall" and strval(e.fn) == "set" and len(e.args) >= 2 \
                and isstr(e.args[0]) and isstr(e.args[1]):
            out.append((strval(e.args[0]), strval(e.args[1]).lower(), e))
    return out


def tested(e, sec, opt):
    """the path to e has tested for the option"""
    r = False
    for c in conjuncts(e.cond()):
        if c.op == "cfg" and c.val == "has_option" and len(c.args) >= 2:
            if c.args[0] is sec and isstr(c.args[1]) and \
                    strval(c.args[1]).lower() == opt:
                return True
        elif c.op == "cmp" and c.val == "in":
            r = None if any(isstr(x) and strval(x).lower() == opt
                            for x in c.args) else r
        elif any(x.op == "cfg" and x.val == "has_option" and isstr(
                x.args[-1]) and strval(x.args[-1]).lower() == opt
                and x.args[0] is sec for x in walk(c)) and not (
                    c.op == "not" and c.args[0].op == "cfg"):
            r = None
    return r


def caught(e):
    for i in range(len(e.stack)):
        f = e.func if i == len(e.stack) - 1 else e.stack[i + 1][0]
        if f is None:
            continue
        for x, field in enclosing(f.node, frame_node(e, i), (ast.Try,)):
            if field != "body":
                continue
            for h in x.handlers:
                ts = [] if h.type is None else h.type.elts if isinstance(
                    h.type, ast.Tuple) else [h.type]
                names = {ast.unparse(t).split(".")[-1] for t in ts}
                if h.type is not None and not names & CATCH:
                    continue
                if "NoOptionError" not in names and \
                        "NoSectionError" in names and not names & (
                            CATCH - {"NoSectionError", "NoOptionError"}):
                    continue
                if any(isinstance(y, ast.Raise) for b in h.body
                       for y in ast.walk(b)):
                    continue
                # a handler around the whole program does not give a value
                if fatal(h):
                    continue
                return True
    return False


def fatal(h):
    t = " ".join(ast.unparse(b) for b in h.body)
    return "exit(" in t or "Abort(" in t or "critical(" in t


def one_site(prog, chk, defaults, lst):
    """decide one read; yields (label, option, type) for known options"""
    out = []
    results = []
    for e, ip, done in lst:
        getter = strval(e.fn)
        if len(e.args) < 2 or not isstr(e.args[1]):
            continue
        sec, opt = e.args[0], strval(e.args[1])
        key = opt.lower()
        section = strval(sec) if isstr(sec) else None
        other = None
        if section is None:
            c = cfg_of(sec)
            if c is None or not defaults.has_option(*c):
                continue
            other = defaults.get(*c)
            section = other
        label = "%s/%s" % (section, opt)
        here = "%s in %s" % (label, e.func.qual if e.func else "?")
        d = defaults.get(section, key) if defaults.has_option(
            section, key) else None
        if getter == "cnfGetIniValue":
            results.append((True, here, "own fallback", e))
        elif len(e.args) > 2:
            results.append((False, here, "%s takes no fallback as third "
                            "argument: the read stops with TypeError"
                            % getter, e))
        elif d is not None:
            results.append((True, here, "default %s" % d, e))
        elif e.kw and "fallback" in dict(e.kw):
            results.append((True, here, "fallback given", e))
        elif tested(e, sec, key):
            results.append((True, here, "tested", e))
        elif caught(e):
            results.append((True, here, "exception handled", e))
        elif (section, key) in DOCUMENTED:
            results.append((documented(prog, section, key, opt), here,
                            "documented in %s" % DOCUMENTED[section, key],
                            e))
        elif any(s == section and o == key and x.seq < e.seq
                 for s, o, x in done):
            s = [x for a, o, x in done if a == section and o == key]
            sure = any(all(c in conjuncts(e.cond()) for c in conjuncts(
                x.cond())) for x in s)
            results.append((True if sure else None, here,
                            "set by the stage", e))
        elif tested(e, sec, key) is None:
            results.append((None, here, "test not understood", e))
        elif other is not None and not defaults.has_section(section):
            results.append((None, here, "section named by the user", e))
        else:
            results.append((False, here, "%s has no default, is not tested "
                            "for and is not documented as one that must be "
                            "set" % label, e))
        t = type_of(e, getter)
        if t and d is not None:
            types(chk, label, d, t, e, getter)
        if t and isstr(sec):
            out.append((label, (section, key), t, e))
    seen = {}
    for r, here, why, e in results:
        seen.setdefault(here, []).append((r, why, e))
    for here, rs in seen.items():
        bad = [x for x in rs if x[0] is False]
        un = [x for x in rs if x[0] is None]
        if bad:
            chk.violation("fallback", here, bad[0][1], bad[0][2].where)
        elif un:
            chk.unsure("fallback", here, un[0][1])
        else:
            chk.ok("fallback", here, rs[0][1])
    return out


def documented(prog, section, key, opt):
    import os
    p = os.path.join(prog.root, DOCUMENTED[section, key]) \
        if hasattr(prog, "root") else None
    if p is None or not os.path.exists(p):
        return None
    return True if opt.lower() in open(p).read().lower() else False


CONVERT = {"int": "whole number", "float": "number", "eval": "expression",
           "literal_eval": "expression", "parseBool": "boolean"}


def type_of(e, getter):
    """type of the value read, or None if it is converted elsewhere"""
    if getter == "cnfGetIniValue":
        d = e.args[2] if len(e.args) > 2 else dict(e.kw or {}).get("default")
        if d is None or d is NONE:
            return None
        if isstr(d):
            return "text"
        if d in (TRUE, FALSE):
            return "boolean"
        return None
    t = GETTERS[getter]
    if t != "text" or e.func is None:
        return t
    fn = e.func.node
    parent = None
    for x in ast.walk(fn):
        for y in ast.iter_child_nodes(x):
            if y is e.node:
                parent = x
    if isinstance(parent, ast.Call) and e.node in parent.args:
        n = ast.unparse(parent.func).split(".")[-1]
        if n in CONVERT:
            return CONVERT[n]
        return t
    if isinstance(parent, ast.Compare):
        return None
    if isinstance(parent, ast.Assign):
        names = {x.id for tg in parent.targets for x in ast.walk(tg)
                 if isinstance(x, ast.Name)} | {
                     x.attr for tg in parent.targets for x in ast.walk(tg)
                     if isinstance(x, ast.Attribute)}
        for x in ast.walk(fn):
            if isinstance(x, ast.Call) and ast.unparse(x.func).split(
                    ".")[-1] in CONVERT or isinstance(x, ast.Compare):
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and y.id in names or \
                            isinstance(y, ast.Attribute) and y.attr in names:
                        return None
    if isinstance(parent, ast.Return):
        return None
    return t


FITS = {"text": ("text",), "boolean": ("boolean",),
        "whole number": ("whole number", "number"),
        "number": ("number",), "expression": ("expression",)}


def types(chk, label, d, t, e, getter):
    k = kind_of(d)
    if d == "":
        return
    ok = t in FITS[k]
    if not ok and k == "whole number" and t == "boolean" and d in "01":
        ok = None
    if not ok and k == "text" and t == "expression":
        ok = None
    if not ok and k in ("whole number", "number", "expression") and \
            t == "expression":
        ok = True
    where_ = e.where
    chk.decide("type", "%s in %s" % (label, e.func.qual if e.func else "?"),
               ok, "the default %s is a %s and is read as %s%s" % (
                   d, k, t, ": the text '%s' counts as true" % d
                   if k == "boolean" and t == "text" else ""), where_)


def parsers(prog, chk, defaults, types_):
    m = prog.modules["Utilities.config"]
    table = None
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == "PARSERS"
                for t in n.targets) and isinstance(n.value, ast.Dict):
            table = n.value
    if table is None:
        chk.unsure("parsers", "table", "table of parsers not found")
        return
    for k, v in zip(table.keys, table.values):
        if not isinstance(k, ast.Constant) or "_" not in str(k.value):
            continue
        sec, opt = k.value.split("_", 1)
        at = "%s:%d in Utilities.config" % (m.path, k.lineno)
        if opt != opt.lower():
            chk.violation("parsers", k.value, "option names are stored in "
                          "lower case, so the entry is never found and %s is "
                          "returned as text" % opt, at)
            continue
        t = PARSED.get(ast.unparse(v))
        if t is None or not defaults.has_option(sec, opt):
            chk.ok("parsers", k.value)
            continue
        d = defaults.get(sec, opt)
        good = d == "" or t in FITS[kind_of(d)]
        chk.decide("parsers", k.value, True if good else False,
                   "the default %s is parsed as %s" % (d, t), at)
        got = {n for n, _ in types_.get((sec, opt), ())}
        if got and t != "text" and got != {t}:
            chk.violation("same", "%s/%s" % (sec, opt), "parsed as %s and "
                          "read as %s" % (t, ", ".join(sorted(got))), at)
