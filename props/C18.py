"""Calibrated scale and zero point cover the observed range."""
from .common import *

D = "itcl_quantizer.quantizer.distributions.distribution"
BOUNDS = ("data sets of 1-4 real values (grid 2^-6 in [-256, 256], float64/float32, as vectors, matrices and lists; also constant, zero, one-sided and integer data), 1-3 and 512 bins, "
          "dtypes int2..int32 and uint2..uint16, symmetric or not, zero point and scale forced or not (all codes of the dtype, scales on the grid 2^-10 in (0, 8])")
E9 = Fr(1, 10 ** 6)


def data(c, n, kind):
    if kind == "pos":
        return [c.real(f"x{i}", 0.25, 256.0, -6) for i in range(n)]
    if kind == "neg":
        return [c.real(f"x{i}", -256.0, -0.25, -6) for i in range(n)]
    if kind == "const":
        x = c.real("x", -256.0, 256.0, -6)
        return [x] * n
    if kind == "zero":
        return [0.0] * n
    if kind == "int":
        return [c.int(f"x{i}", -1000, 1000) for i in range(n)]
    if kind == "zeros":       # many zeros and one other value
        return [0.0] * (n - 1) + [c.real("x", -256.0, 256.0, -6)]
    return [c.real(f"x{i}", -256.0, 256.0, -6) for i in range(n)]


def wrap(c, xs, form):
    n = len(xs)
    if form == "list":
        return list(xs)
    if form == "nested":
        return [list(xs[:n // 2]), list(xs[n // 2:])]
    if form == "matrix":
        return c.mkarr(xs, (n // 2, 2), np.float64)
    return c.mkarr(xs, (n,), {"f32": np.float32, "i": np.int64}.get(form, np.float64))


def dist(c, xs, bins, form):
    C = c.mod(D).Distribution
    return C(wrap(c, xs, form)) if bins == 512 else C(wrap(c, xs, form), bins=bins)


def observed(xs):
    """smallest and largest value, extended to include zero; one path per order"""
    lo = hi = xs[0]
    for x in xs[1:]:
        if x < lo:
            lo = x
        if x > hi:
            hi = x
    return (0 if lo >= 0 else lo), (0 if hi <= 0 else hi), lo == hi


def ends(c, s, z, a, b, lo, hi, x):
    """the end codes reach the extremes up to half a step (the zero point is rounded)"""
    S, Z = ex(s), ex(z)
    h = Fr(1, 2) + E9
    if x is not None and bool(a < b):
        # in steps: S = (b - a) / (hi - lo)
        w = ex(a) - ex(b)
        k = hi - lo
        c.check(near(S * k, -w, E9), "no code is wasted")
        c.check(le(lo - Z, -k * (ex(a) / w) + h), "smallest value is represented")
        c.check(ge(hi - Z, -k * (ex(b) / w) - h), "largest value is represented")
    else:
        c.check(le((lo - Z) * S, ex(a) + h * S), "smallest value is represented")
        c.check(ge((hi - Z) * S, ex(b) - h * S), "largest value is represented")


def h_plain(c, dtype, n, kind, bins, form, default_q=False):
    xs = data(c, n, kind)
    d = dist(c, xs, bins, form)
    s, z = d.quantize() if default_q else d.quantize(Q(c, dtype))
    c.observe("s", s)
    c.observe("z", z)
    lo, hi = irange(dtype)
    a, b, same = observed(xs)
    S, Z = ex(s), ex(z)
    c.check(gt(S, 0), "positive scale")
    c.check(And(ge(Z, lo), le(Z, hi), eq(Z, floor(Z))), "zero point is a code")
    # data of one value only are surrounded by half a unit
    ends(c, s, z, a, b, lo, hi, None if same else 1)


def h_sym(c, dtype, n, kind, bins, form="f64"):
    """the form in which the layers ask for it: symmetric around a zero point of 0"""
    xs = data(c, n, kind)
    s, z = dist(c, xs, bins, form).quantize(Q(c, dtype), symmetric=True, force_zp=0)
    c.observe("s", s)
    lo, hi = irange(dtype)
    a, b, same = observed(xs)
    S = ex(s)
    c.check(eq(z, 0), "zero point is zero")
    c.check(gt(S, 0), "positive scale")
    top = mx(b, -ex(a))
    c.check(ge(S * hi + E9, top), "largest magnitude is represented by the top code")
    if not same:
        c.check(near(S * hi, top, E9), "the largest magnitude is the top code")


def h_symrange(c, dtype, n, kind, bins):
    """symmetric range with a free zero point leaves out the lowest code"""
    xs = data(c, n, kind)
    s, z = dist(c, xs, bins, "f64").quantize(Q(c, dtype), symmetric=True)
    lo, hi = irange(dtype)
    a, b, same = observed(xs)
    S, Z = ex(s), ex(z)
    c.check(And(ge(Z, -hi), le(Z, hi)), "zero point in the symmetric range")
    c.check(gt(S, 0), "positive scale")
    ends(c, s, z, a, b, -hi, hi, None if same else 1)


def h_forced(c, dtype, n, kind, bins, zp, sc, symmetric=False):
    xs = data(c, n, kind)
    lo, hi = irange(dtype)
    kw = {}
    if zp == "zero":
        kw["force_zp"] = 0
    elif zp:
        kw["force_zp"] = c.int("zf", lo, hi)
    if sc:
        kw["force_s"] = c.real("sf", 2.0 ** -10, 8.0, -10)
    s, z = dist(c, xs, bins, "f64").quantize(Q(c, dtype), symmetric=symmetric, **kw)
    a, b, _ = observed(xs)
    S = ex(s)
    c.check(gt(S, 0), "positive scale")
    if sc:
        c.check(eq(S, kw["force_s"]), "forced scale is used")
    if zp:
        c.check(Or(eq(z, kw["force_zp"]), And(eq(a, 0), eq(b, 0))), "forced zero point is used")
    else:
        c.check(And(ge(z, lo), le(z, hi)), "zero point is a code")
    if zp == "zero" and not sc and dtype[0] == "i":
        c.check(And(le(lo * S, a + S), ge(hi * S, b - S)), "extremes are represented within a step")


def cases(tier):
    th = tier == "thorough"
    out = []
    O = {"opts": {"max_paths": 3000, "fork_max": True}}
    for dt in ("int8", "int16", "uint8", "int4") + (("uint16", "int32", "uint4", "int2", "uint2") if th else ()):
        for n, kind in ((1, "any"), (2, "any"), (3, "any"), (2, "pos"), (2, "neg"), (2, "const"), (1, "zero"), (3, "zero"), (3, "zeros")) + (((4, "any"),) if th else ()):
            for bins in (1, 2, 4) + ((3,) if th else ()) + ((512,) if th or n < 3 and dt == "int8" else ()):
                if not th and n == 3 and kind == "any" and (bins > 1 or dt not in ("int8", "uint8")):
                    continue
                out.append(case(f"{dt} {n} {kind} bins={bins}", h_plain, dtype=dt, n=n, kind=kind, bins=bins, form="f64", weight=n, **O))
            if kind in ("any", "const", "zero", "zeros"):
                out.append(case(f"{dt} symmetric {n} {kind}", h_sym, dtype=dt, n=n, kind=kind, bins=2, weight=n, **O))
            if dt[0] == "i" and kind in ("any", "zero", "pos"):
                out.append(case(f"{dt} symmetric range {n} {kind}", h_symrange, dtype=dt, n=n, kind=kind, bins=1, weight=n, **O))
        for zp in ("zero", "any", None):
            for sc in (False, True):
                for sy in (False, True):
                    if (zp or sc) and not (sy and dt[0] == "u" and not zp):
                        out.append(case(f"{dt} forced zp={zp} s={sc} symmetric={sy}", h_forced, dtype=dt, n=2, kind="any", bins=2, zp=zp, sc=sc, symmetric=sy, weight=2, **O))
                        out.append(case(f"{dt} forced zp={zp} s={sc} symmetric={sy} zeros", h_forced, dtype=dt, n=2, kind="zero", bins=1, zp=zp, sc=sc, symmetric=sy))
    for form in ("list", "nested", "matrix", "f32", "i"):
        out.append(case(f"form {form}", h_plain, dtype="int8", n=2 if not th else 4, kind="int" if form == "i" else "any", bins=2, form=form, weight=3, **O))
        out.append(case(f"symmetric form {form}", h_sym, dtype="int8", n=2 if not th else 4, kind="int" if form == "i" else "any", bins=2, form=form, weight=3, **O))
    out.append(case("default dtype", h_plain, dtype="int8", n=2, kind="any", bins=4, form="f64", default_q=True, **O))
    out.append(case("symmetric 512 bins", h_sym, dtype="int8", n=2, kind="any", bins=512, **O))
    return out
