"""Rounding policies pick floor or ceiling per element."""
from .common import *

BOUNDS = ("tensors of up to 4 elements (up to 1030 elements with a few symbolic ones) in the listed shapes; reals: every multiple of 2^-8 within +-2x the dtype span times the scale; every zero point; every "
          "binary policy; scales: powers of two (exact), 0.1/0.3 (1e-5 of a step), every multiple of 2^-10 in [2^-5, 4]")
TOL = Fr(1, 10 ** 5)


def h_policy(c, dtype, scale, shp, pkind):
    lo, hi = irange(dtype)
    s, smax = (c.real("scale", 2.0 ** -5, 4, -10), 4) if scale == "sym" else (scale, scale)
    lim = 2 * (hi - lo + 1) * float(smax) + 4
    x = c.rarr("x", shp, -lim, lim, -8)
    p = c.iarr("p", shp, 0, 1, {"int": np.int64, "int8": np.int8, "float": np.int64}[pkind])
    if pkind == "float":
        p = p.astype(np.float64)
    zp = c.int("zp", lo, hi)
    r = Q(c, dtype).quantize(x, zp, s, p)
    c.same_shape(r, shp)
    c.observe("r", r)
    exact = scale != "sym" and pow2(scale)
    for a, v, b in zip(exl(r), exl(x), exl(p)):
        y = v / ex(s) + ex(zp) + b
        if exact:
            c.check(eq(a, clamp(floor(y), lo, hi)), "floor plus policy bit")
        else:
            c.check(And(ge(a, clamp(floor(y - TOL), lo, hi)), le(a, clamp(floor(y + TOL), lo, hi))), "floor plus policy bit")
        c.check(And(ge(a, lo), le(a, hi)), "range")


def h_bad_shape(c, dtype, shp, pshp):
    lo, hi = irange(dtype)
    x = c.rarr("x", shp, -40, 40, -30)
    p = c.iarr("p", pshp, 0, 1, np.int64)
    zp = c.int("zp", lo, hi)
    q = Q(c, dtype)
    r = q.quantize(x, zp, 0.25, rounding_policy=p)
    c.same_shape(r, shp)
    for a, v in zip(exl(r), exl(x)):
        c.check(eq(a, clamp(floor(v * 4 + ex(zp) + Fr(1, 2)), lo, hi)), "incompatible policy ignored")


def h_none(c, dtype):
    lo, hi = irange(dtype)
    x = c.rarr("x", (2,), -40, 40, -30)
    zp = c.int("zp", lo, hi)
    r = Q(c, dtype).quantize(x, zp, 0.25, rounding_policy=None)
    for a, v in zip(exl(r), exl(x)):
        c.check(eq(a, clamp(floor(v * 4 + ex(zp) + Fr(1, 2)), lo, hi)), "no policy means nearest")


def h_base(c, dtype, scale, shp, g=-8):
    """base policy == nearest rounding for non-integers; always binary"""
    lo, hi = irange(dtype)
    s, smax = (c.real("scale", 2.0 ** -5, 4, -10), 4) if scale == "sym" else (scale, scale)
    lim = 2 * (hi - lo + 1) * float(smax) + 4
    x = c.rarr("x", shp, -lim, lim, g)
    zp = c.int("zp", lo, hi)
    exact = scale != "sym" and pow2(scale)
    for v in exl(x):
        y = v / ex(s)
        if exact:
            c.assume(Not(eq(y, floor(y))))
        else:
            f = y - floor(y)
            c.assume(And(gt(f, TOL), lt(f, 1 - TOL), Or(lt(f, Fr(1, 2) - TOL), gt(f, Fr(1, 2) + TOL))))
    pol = c.mod("itcl_quantizer.equalizers.adaround.irounding_policy").get_base_rounding(x, s)
    c.same_shape(pol, shp)
    for a in exl(pol):
        c.check(Or(eq(a, 0), eq(a, 1)), "binary")
    q = Q(c, dtype)
    r = q.quantize(x, zp, s, pol)
    n = q.quantize(x, zp, s)
    for a, b, v in zip(exl(r), exl(n), exl(x)):
        y = v / ex(s)
        k = floor(y)
        f = y - k
        for t, w in ((lt(f, Fr(1, 2)), clamp(k + ex(zp), lo, hi)), (gt(f, Fr(1, 2)), clamp(k + 1 + ex(zp), lo, hi))):
            c.check(Implies(t, eq(a, w)), "base policy is nearest rounding")
            c.check(Implies(t, eq(b, w)), "nearest rounding")
        if exact:
            c.check(eq(a, b), "base policy is nearest rounding")


def h_binary_any(c, scale, shp):
    x = c.rarr("x", shp, -100, 100, -8)
    pol = c.mod("itcl_quantizer.equalizers.adaround.irounding_policy").get_base_rounding(x, scale)
    c.same_shape(pol, shp)
    for a in exl(pol):
        c.check(Or(eq(a, 0), eq(a, 1)), "binary")


def cases(tier):
    cs = []
    for dt in ("int8", "uint8", "int16", "int4", "int32"):
        for s in (0.25, 0.1):
            cs.append(case(f"policy {dt} scale {s}", h_policy, dtype=dt, scale=s, shp=(2,), pkind="int"))
            cs.append(case(f"base {dt} scale {s}", h_base, dtype=dt, scale=s, shp=(1,)))
    for dt in ("int8", "uint8", "int16"):
        cs.append(case(f"policy {dt} symbolic scale", h_policy, dtype=dt, scale="sym", shp=(1,), pkind="int", weight=3))
        cs.append(case(f"base {dt} symbolic scale", h_base, dtype=dt, scale="sym", shp=(1,), weight=3))
    for shp in ((1,), (2, 2), (1, 2, 2), (3,), (4, 1)):
        for pk in ("int", "int8", "float"):
            cs.append(case(f"policy shape {shp} {pk}", h_policy, dtype="int8", scale=0.5, shp=shp, pkind=pk))
        cs.append(case(f"base shape {shp}", h_base, dtype="int8", scale=0.5, shp=shp))
        cs.append(case(f"base binary {shp}", h_binary_any, scale=0.5, shp=shp))
    cs.append(case("base binary scale 0.3", h_binary_any, scale=0.3, shp=(2,)))
    for shp, psh in (((2,), (3,)), ((2, 2), (3,)), ((2, 3), (2, 2)), ((3,), (2,)), ((2, 2), (3, 3))):
        cs.append(case(f"incompatible policy {shp} {psh}", h_bad_shape, dtype="int8", shp=shp, pshp=psh))
    for dt in ("int8", "uint8"):
        cs.append(case(f"no policy {dt}", h_none, dtype=dt))
    for shp in ((1030,), (41, 7), (3, 5, 17)):
        last = ",".join(str(k - 1) for k in shp)
        cs.append(case(f"large policy {shp}", sparse(h_policy, rf"^[xp]\[(0|0,0|0,0,0|{last})\]$"), dtype="int8", scale=0.5, shp=shp, pkind="int", weight=2))
        cs.append(case(f"large base {shp}", sparse(h_binary_any, rf"^x\[(0|0,0|0,0,0|{last})\]$"), scale=0.5, shp=shp, weight=2))
    if tier == "thorough":
        for b in list(range(2, 17)) + [20, 24, 32]:
            for sg in ("int", "uint"):
                if sg + str(b) == "uint32":
                    continue
                for s in (0.125, 2.0, 0.07):
                    cs.append(case(f"policy width {sg}{b} scale {s}", h_policy, dtype=f"{sg}{b}", scale=s, shp=(1,), pkind="int"))
                    cs.append(case(f"base width {sg}{b} scale {s}", h_base, dtype=f"{sg}{b}", scale=s, shp=(1,), g=-11))
    return cs
