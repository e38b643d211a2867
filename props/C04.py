"""Data types have two's-complement ranges."""
from .common import *

BOUNDS = ("dtype names: every ASCII string of each length up to 5 (6 thorough), plus length 6 / 7 starting with int / uint; symbolic character by character; "
          "all eight numpy integer types; widths up to 3 digits")
DIGIT = range(48, 58)


def value(c, s):
    if not c.symbolic:
        return int(s)
    from sx import symstr
    return symstr.to_int(s) if isinstance(s, symstr.SymStr) else int(s)


def low(ch):
    return ite(And(ge(ch, 65), le(ch, 90)), ex(ch) + 32, ch)


def is_text(cs, txt):
    return And(*[eq(low(a), ord(b)) for a, b in zip(cs, txt)]) if len(cs) == len(txt) else False


def chars(s):
    if type(s) is str:
        return [ord(x) for x in s]
    return list(s.chars)


def same_text(a, b, lower=True):
    x, y = chars(a), chars(b)
    if len(x) != len(y):
        return False
    return And(*[eq(p, low(q) if lower else q) for p, q in zip(x, y)])


def h_name(c, n, via, first=None, prefix=None):
    """any string: accepted exactly when it is (u)int + width without leading zero"""
    lohi = (0, 127)
    s = c.string("s", n, *lohi)
    cs = chars(s)
    if first is not None:
        c.assume(Or(*[And(ge(cs[0], a), le(cs[0], b)) for a, b in first]))
    if prefix is not None:
        c.assume(is_text(cs[:len(prefix)], prefix))
    mod = c.mod(OPS)
    # floats are outside the statement
    if n >= 6:
        c.assume(Not(is_text(cs[:5], "float")))
    forms = []
    for pre in ("int", "uint"):
        k = len(pre)
        if n > k:
            digs = And(ge(cs[k], 49), le(cs[k], 57), *[And(ge(d, 48), le(d, 57)) for d in cs[k + 1:]])
            forms.append((pre, And(is_text(cs[:k], pre), digs)))
    try:
        q = mod.Quantization(s) if via == "quantization" else mod.GenericDtype(s)
        d = q.dtype if via == "quantization" else q
    except Exception:
        for pre, f in forms:
            c.check(Not(f), f"{pre}N is accepted")
        c.check(True, "rejected")
        return
    c.check(Or(*[f for _, f in forms]) if forms else False, "malformed names are rejected")
    for pre, f in forms:
        if not c.symbolic:
            if not f:
                continue
        else:
            from sx import sym
            if isinstance(f, sym.SV) and not sym.truth(f) or f is False:
                continue
        k = len(pre)
        N = value(c, s[k:])
        mnv, mxv = (q.min_value(), q.max_value()) if via == "quantization" else (d.min(), d.max())
        p1 = 2 ** (N - 1)
        c.check(eq(mnv, -p1 if pre == "int" else 0), f"{pre} minimum")
        c.check(eq(mxv, p1 - 1 if pre == "int" else p1 * 2 - 1), f"{pre} maximum")
        txt = text(c, d)
        c.check(same_text(txt, s), "canonical lower-case name")
        if via == "quantization":
            c.check(same_text(q.dtype_str(), s), "dtype_str")


def text(c, d):
    if not c.symbolic:
        return str(d)
    from sx import loader
    return loader.sx_call(str, d)


def h_numpy(c, t_):
    t = getattr(np, t_)
    name = t_
    mod = c.mod(OPS)
    lo, hi = irange(name)
    q = mod.Quantization(t)
    x = c.int("x", -2 ** 70, 2 ** 70)
    inside = And(ge(x, lo), le(x, hi))
    c.check(Iff(inside, And(ge(x, q.min_value()), le(x, q.max_value()))), "range of the numpy type")
    c.check(eq(q.min_value(), lo), "minimum")
    c.check(eq(q.max_value(), hi), "maximum")
    c.check(str(q.dtype) == name and q.dtype_str() == name, "name")


def h_bad(c, what):
    mod = c.mod(OPS)
    v = {"float64": np.float64, "None": None, "list": [8], "object": object, "bool": np.bool_, "int": 8, "float": 1.5}[what]
    try:
        mod.Quantization(v)
    except Exception:
        c.check(True, "rejected")
        return
    c.check(False, "not a dtype")


def cases(tier):
    cs = []
    o = dict(max_paths=20000, time_s=200 if tier == "quick" else 900)
    top = 5 if tier == "quick" else 6
    for pre, n in (("int", 6), ("uint", 6)) if tier == "quick" else (("int", 6), ("uint", 7), ("i", 6), ("in", 6), ("u", 6)):
        cs.append(case(f"names of length {n} starting with {pre}", h_name, n=n, via="generic", prefix=pre, weight=9, opts=o))
    for n in range(0, top + 1):
        if n < 5:
            cs.append(case(f"names of length {n}", h_name, n=n, via="generic", opts=o))
        else:
            for nm, rs in (("digit first", [(48, 57)]), ("letter I/i", [(73, 73), (105, 105)]), ("letter U/u", [(85, 85), (117, 117)]),
                           ("other letters", [(65, 72), (74, 84), (86, 90), (97, 104), (106, 116), (118, 122)]),
                           ("other characters", [(0, 47), (58, 64), (91, 96), (123, 127)])):
                cs.append(case(f"names of length {n} {nm}", h_name, n=n, via="generic", first=rs, weight=n, opts=o))
    for n in (4, 5):
        cs.append(case(f"Quantization names of length {n}", h_name, n=n, via="quantization", opts=o))
    for t in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"):
        cs.append(case(f"numpy {t}", h_numpy, t_=t))
    for w in ("float64", "None", "list", "object", "bool", "int", "float"):
        cs.append(case(f"not a dtype: {w}", h_bad, what=w))
    return cs
