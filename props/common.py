from fractions import Fraction as Fr
import numpy as np
from sx import explore
from sx.explore import (ex, exl, shape, floor, ceil, trunc, rint, fn, ite, mn, mx, clamp, ab, And, Or, Not, Implies, Iff,
                        eq, le, lt, ge, gt, near, CheckFailed, Skip)

OPS = "itcl_quantization.quantization.operators"


def Q(c, dtype):
    return c.mod(OPS).Quantization(dtype)


def irange(name):
    n = name.lower()
    b = int("".join(ch for ch in n if ch.isdigit()))
    return (-(2 ** (b - 1)), 2 ** (b - 1) - 1) if n[0] == "i" else (0, 2 ** b - 1)


def pow2(x):
    f = Fr(x)
    return f > 0 and (f.numerator & (f.numerator - 1)) == 0 and (f.denominator & (f.denominator - 1)) == 0


def case(name, f, weight=1, opts=None, **args):
    d = {"name": name, "f": f, "args": args, "weight": weight}
    if opts:
        d["opts"] = opts
    return d


def as_input(c, kind, items, shp):
    """the same numbers as an array, a list, a scalar"""
    if kind == "list":
        def nest(it, sh):
            if len(sh) == 1:
                return [next(it) for _ in range(sh[0])]
            return [nest(it, sh[1:]) for _ in range(sh[0])]
        return nest(iter(items), shp)
    if kind == "scalar":
        return items[0]
    return c.mkarr(items, shp, {"f32": np.float32}.get(kind, np.float64))


def prod(sh):
    n = 1
    for s in sh:
        n *= s
    return n


def sparse(h, pat):
    """the harness on large data: only the inputs whose names match are symbolic, the others arbitrary but fixed"""
    import re

    def g(c, **a):
        c.only = re.compile(pat)
        return h(c, **a)
    return g


def wellformed(judge):
    """a judge of a JSON structure: a missing field or entry is a violation, not an error of the harness"""
    def h(c, *a, **k):
        try:
            return judge(c, *a, **k)
        except (KeyError, IndexError, TypeError) as e:
            import traceback
            at = traceback.extract_tb(e.__traceback__)[-1]
            if "/props/" not in at.filename:
                raise
            return c.check(False, "the structure has all its fields", f"{type(e).__name__} {e}")
    return h
