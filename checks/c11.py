"""C11: unit conversion factors are mutually consistent."""
import ast
from fractions import Fraction
from sa.util import *

TOL = Fraction(2, 1000)
# offsets cancel (0.2 % of ten degrees)
OFFSET = 10 * TOL
FN = "Utilities.metutils.convert"


def check(prog, chk):
    chk.rule("inverse", "factor(a,b) * factor(b,a) = 1 and offsets cancel, "
             "to 0.2 % (the precision of the tabulated constants)")
    chk.rule("chain", "factor(a,b) * factor(b,c) = factor(a,c), likewise")
    chk.rule("reverse", "a unit pair that is converted one way is converted "
             "the other way too")
    chk.rule("identity", "equal units change nothing")
    chk.rule("affine", "a conversion is one multiplication and one addition")
    chk.need(FN in prog.funcs, FN)
    f = prog.funcs[FN]
    params = [a.arg for a in f.node.args.args]
    chk.need(len(params) == 3, "convert(value, inunits, outunits)")
    pv = sym("param", params[0])
    units = names_in(f)
    units = sorted(units)
    if len(units) < 20:
        # kept out of reach of the function's text: use the known names
        units = sorted(set(units) | set(UNITS))
    tab = {}
    bad = 0
    for a in units:
        for b in units:
            ip = Interp(prog)
            v, _ = ip.run(FN, args={params[1]: const(a),
                                    params[2]: const(b)})
            chk.functions |= ip.visited
            chk.count("pairs_evaluated")
            r = affine(v, pv)
            if r is None:
                bad += 1
                if any(x.op == "fn" and x.val in ("int", "floor", "ceil",
                                                  "round") and has(x, pv)
                       for x in walk(v)):
                    chk.violation("affine", "%s->%s" % (a, b), "the value is "
                                  "rounded: %s" % show(v, 4), f.loc)
                    continue
                chk.unsure("affine", "%s->%s" % (a, b), show(v))
                continue
            tab[a, b] = r
    idt = (Fraction(1), Fraction(0))
    for a in units:
        if (a, a) in tab:
            chk.decide("identity", a, tab[a, a] == idt,
                       "%s to itself is %s" % (a, txt(tab[a, a])), f.loc)
    conv = {k: v for k, v in tab.items() if v != idt and k[0] != k[1]}
    chk.count("converting_pairs", len(conv))
    if bad and len(conv) < 60:
        chk.unsure("affine", "convert", "%d pairs are not resolved" % bad)
        return
    chk.need(len(conv) >= 60, "conversion pairs")
    # units spelt differently (kmh/kph) have the identity between them
    for (a, b), (m, c) in sorted(conv.items()):
        if m == 0:
            chk.violation("affine", "%s->%s" % (a, b), "factor 0", f.loc)
            continue
        back = conv.get((b, a))
        if back is None:
            # 1:1 names (Pa/Pascals) never reach here: m is not 1
            chk.violation("reverse", "%s->%s" % (b, a), "%s to %s is "
                          "converted (%s) but %s to %s returns the value "
                          "unchanged" % (a, b, txt((m, c)), b, a), f.loc)
            continue
        m2, c2 = back
        ok = abs(m * m2 - 1) <= TOL and abs(m2 * c + c2) <= OFFSET
        if a < b or not ok:
            chk.decide("inverse", "%s<->%s" % tuple(sorted((a, b))), ok,
                       "forth %s, back %s" % (txt((m, c)), txt(back)), f.loc)
    for (a, b), (m, c) in sorted(conv.items()):
        for d in units:
            if d in (a, b) or (b, d) not in conv or (a, d) not in conv:
                continue
            m2, c2 = conv[b, d]
            m3, c3 = conv[a, d]
            if m3 == 0:
                continue
            ok = abs(m * m2 / m3 - 1) <= TOL and \
                abs(m2 * c + c2 - c3) <= OFFSET
            chk.count("chains")
            if ok:
                chk.ok("chain", "%s->%s->%s" % (a, b, d))
            else:
                chk.violation("chain", "%s->%s->%s" % (a, b, d),
                              "via %s: %s, directly: %s" % (
                                  b, txt((m * m2, m2 * c + c2)),
                                  txt((m3, c3))), f.loc)


UNITS = ("mps", "mph", "kph", "kts", "kPa", "hPa", "Pa", "Pascals", "inHg",
         "mmHg", "C", "F", "K", "km", "m", "deg", "mi", "nm", "rad", "gkg",
         "kgkg", "kmh", "m/s")


def names_in(f):
    """short strings in the function and in whatever of its module (tables,
    helpers) it refers to, directly or not"""
    out, seen, todo = set(), set(), [f.node]
    while todo:
        for n in ast.walk(todo.pop()):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and \
                    0 < len(n.value) < 12 and " " not in n.value:
                out.add(n.value)
            if isinstance(n, ast.Call) and \
                    getattr(n.func, "id", None) == "dict":
                out |= {k.arg for k in n.keywords if k.arg}
            if not isinstance(n, ast.Name) or n.id in seen:
                continue
            seen.add(n.id)
            for k, pl in f.module.ns.get(n.id, ()):
                for x in pl if isinstance(pl, tuple) else (pl,):
                    x = getattr(x, "node", x)
                    if isinstance(x, ast.AST):
                        todo.append(x)
    return out


def val(t):
    """rational value of a constant term"""
    from math import pi
    if isnum(t):
        return t.val
    r = subst(t, {PI: num(Fraction(pi))})
    return r.val if isnum(r) else None


def affine(t, x):
    """(factor, offset) with t = factor*x + offset"""
    d = terms_of(t)
    m, c = Fraction(0), Fraction(0)
    for mono, k in d.items():
        if has(mono, x):
            f = val(div(mono, x))
            if f is None:
                return None
            m += f * k
        else:
            f = val(mono)
            if f is None:
                return None
            c += f * k
    return m, c


def txt(r):
    return "x*%.10g%+.10g" % (float(r[0]), float(r[1]))
