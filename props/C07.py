"""Checked integer arithmetic never wraps."""
from .common import *

UTIL = "itcl_inference_engine.util.quantization"
BOUNDS = ("every pair of operand values of every pair of int8 / int16 / int32 dtypes: scalars (Python and numpy), one-dimensional arrays of 1-3 elements (6 thorough; 130 with three symbolic ones) in "
          "numpy dtypes of that or a larger width, scalar with array; chains of two operations; helpers of both modules for every pair in range")
W = (8, 16, 32)


def name(bits):
    return f"int{bits}"


def op(o, a, b):
    return a + b if o == "add" else a - b if o == "sub" else a * b


def operand(c, nm, bits, kind, n):
    lo, hi = irange(name(bits))
    if kind == "int":
        return c.int(nm, lo, hi)
    if kind == "np":
        return c.np_int(nm, lo, hi, np.dtype(name(bits)).type)
    if kind == "np64":
        return c.np_int(nm, lo, hi, np.int64)
    if kind == "arr":
        return c.iarr(nm, (n,), lo, hi, name(bits))
    return c.iarr(nm, (n,), lo, hi, "int64")


def tagged(r):
    m = str(np.dtype(r.dtype))
    return m, irange(m)


def want(o, xs, ys):
    n = max(len(xs), len(ys))
    xs, ys = (xs * n if len(xs) == 1 else xs), (ys * n if len(ys) == 1 else ys)
    return [op(o, ex(a), ex(b)) for a, b in zip(xs, ys)]


def vals(x):
    return exl(x) if shape(x) != () else [ex(x)]


def judge(c, r, w, bits, label):
    """exact, in the tagged dtype, and tagged with the operand width unless that overflows"""
    got = vals(r.value)
    c.check(len(got) == len(w), label + " length")
    c.check(And(*[eq(a, b) for a, b in zip(got, w)]), label + " exact")
    m, (lo, hi) = tagged(r)
    c.check(m in ("int8", "int16", "int32", "int64"), label + " dtype", m)
    c.check(And(*[And(ge(v, lo), le(v, hi)) for v in w]), label + " fits the tag")
    l0, h0 = irange(name(bits))
    fits = And(*[And(ge(v, l0), le(v, h0)) for v in w])
    c.check(Iff(fits, m == name(bits)), label + " widens only on overflow", m)


def h_dtype(c, o, a, b, ka, kb, n=1):
    D = c.mod(OPS).Dtype
    x, y = operand(c, "x", a, ka, n), operand(c, "y", b, kb, n)
    w = want(o, vals(x), vals(y))
    x0, y0 = vals(x), vals(y)
    p, q = D(x, name(a)), D(y, name(b))
    r = op(o, p, q)
    c.observe("r", r.value)
    judge(c, r, w, max(a, b), o)
    c.check(And(*[eq(s, t) for s, t in zip(vals(p.value) + vals(q.value), x0 + y0)]), "operands unchanged")


def h_long(c, o, a, b, n):
    D = c.mod(OPS).Dtype
    big = lambda nm, bits: [c.int(f"{nm}{i}", *irange(name(bits))) if i in (0, n // 2, n - 1) else i % 2 for i in range(n)]
    x, y = c.mkarr(big("x", a), (n,), name(a)), c.mkarr(big("y", b), (n,), name(b))
    w = want(o, vals(x), vals(y))
    r = op(o, D(x, name(a)), D(y, name(b)))
    c.observe("r", r.value)
    judge(c, r, w, max(a, b), o)


def h_literal(c, a, n):
    D = c.mod(OPS).Dtype
    lo, hi = irange(name(a))
    x = operand(c, "x", a, "arr" if n else "int", n or 1)
    y = c.int("y", lo, hi)
    r = D(x, name(a)) + y
    judge(c, r, want("add", vals(x), [y]), a, "literal")


def h_chain(c, o1, o2, bits, n):
    D = c.mod(OPS).Dtype
    kind = "arr" if n else "int"
    x, y, z = (operand(c, k, b, kind, n) for k, b in zip("xyz", bits))
    r = op(o1, D(x, name(bits[0])), D(y, name(bits[1])))
    m, (lo, hi) = tagged(r)
    c.assume(m != "int64")
    k = irange(m)[1].bit_length() + 1
    s = op(o2, r, D(z, name(bits[2])))
    judge(c, s, want(o2, want(o1, vals(x), vals(y)), vals(z)), max(k, bits[2]), "chain")
    c.observe("s", s.value)


def h_helper(c, modname, fn, bits, kx, ky, n=2):
    f = getattr(c.mod(modname), fn)
    x, y = operand(c, "x", bits, kx, n), operand(c, "y", bits, ky, n)
    r = f(x, y)
    o = "mul" if "mult" in fn else "add"
    w = want(o, vals(x), vals(y))
    got = vals(r)
    c.observe("r", r)
    c.check(len(got) == len(w), "length")
    c.check(And(*[eq(a, b) for a, b in zip(got, w)]), fn)


def cases(tier):
    th = tier == "thorough"
    out = []
    for o in ("add", "sub", "mul"):
        for a in W:
            for b in W:
                out.append(case(f"{o} {a} {b}", h_dtype, o=o, a=a, b=b, ka="int", kb="int"))
                out.append(case(f"{o} {a} {b} numpy", h_dtype, o=o, a=a, b=b, ka="np", kb="np64"))
                out.append(case(f"{o} {a} {b} arrays", h_dtype, weight=3, o=o, a=a, b=b, ka="arr", kb="arr64", n=6 if th else 3))
                out.append(case(f"{o} {a} {b} scalar and array", h_dtype, weight=2, o=o, a=a, b=b, ka="int", kb="arr", n=2))
                out.append(case(f"{o} {a} {b} array and scalar", h_dtype, weight=2, o=o, a=a, b=b, ka="arr64", kb="np", n=2))
                out.append(case(f"{o} {a} {b} one element", h_dtype, weight=2, o=o, a=a, b=b, ka="arr", kb="arr", n=1))
    for o in ("add", "sub", "mul"):
        for a, b in ((8, 8), (16, 16), (32, 32), (8, 16), (32, 8)):
            # all elements zero or one except those symbolic
            out.append(case(f"{o} {a} {b} long arrays", h_long, weight=3, o=o, a=a, b=b, n=130))
    for a in W:
        for n in (0, 1, 3):
            out.append(case(f"literal {a} n={n}", h_literal, a=a, n=n))
    for o1 in ("add", "sub", "mul"):
        for o2 in ("add", "sub", "mul"):
            for bits in ((8, 8, 8), (8, 16, 8), (16, 8, 32)) + (((16, 16, 16), (8, 8, 32), (32, 8, 8)) if th else ()):
                for n in (0, 2):
                    out.append(case(f"chain {o1} {o2} {bits} n={n}", h_chain, weight=4, o1=o1, o2=o2, bits=bits, n=n))
    for mn_ in (OPS, UTIL):
        for bits in W:
            for k in ("addition", "multiplication"):
                for kx, ky in (("int", "int"), ("np", "np"), ("arr", "arr"), ("arr64", "arr"), ("np", "arr"), ("arr", "int")):
                    out.append(case(f"{mn_.split('.')[0]} int{bits}_{k} {kx} {ky}", h_helper, modname=mn_, fn=f"int{bits}_{k}", bits=bits, kx=kx, ky=ky))
    return out
