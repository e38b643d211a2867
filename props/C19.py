"""Quantised tensors always match their parameters."""
from .common import *

T = "itcl_quantizer.tensor_extractor.tensor"
BOUNDS = ("tensors of 1-4 real values (multiples of 2^-6 in [-20, 20]) in the listed shapes; every sequence of up to 2 operations (3 thorough) out of: new scale and zero point (with and without "
          "requantisation), reset of the scale, of the zero point and of the rounding, new binary policy, policy of a wrong shape; zero points: every code of 2-8 bit dtypes, the int8 codes for int16, 0 for int32; scales: every pair of the listed powers of "
          "two, and 0.1 / 0.3 with a tolerance of 1e-6 steps; "
          "larger cases: tensors of 130 and 132 values, two of them symbolic, under one operation")
TOL = Fr(1, 10 ** 6)
OPS_ALL = ("update", "stale", "reset_scale", "reset_zp", "policy", "bad", "reset_rounding")


def codes(c, q, xs, s, zp, pol, rng, what):
    lo, hi = rng
    got = exl(q)
    c.check(len(got) == len(xs), what + ": number of codes")
    for g, x, p in zip(got, xs, pol):
        v = ex(x) / ex(s) + ex(zp) + ex(p)
        if pow2(s):
            c.check(eq(g, clamp(floor(v), lo, hi)), what + ": code")
        else:
            c.check(And(ge(g, clamp(floor(v - TOL), lo, hi)), le(g, clamp(floor(v + TOL), lo, hi))), what + ": code")


def nearest(xs, s):
    return [ite(ge(ex(x) / ex(s) - floor(ex(x) / ex(s)), Fr(1, 2)), 1, 0) for x in xs]


def h_history(c, dtype, shp, steps, ops, scales, exclude=(), zr=None):
    rng = irange(dtype)
    zr = zr or rng
    m = c.mod(T)
    n = prod(shp)
    xs = [c.real(f"x{i}", -20, 20, -30) for i in range(n)]
    s0, z0 = scales[0], c.int("z0", *zr)
    node = m.NodeTensorBase(s0, z0, "first", Q(c, dtype)).with_tensor(c.mkarr(xs, shp, np.float64))
    for e in exclude:
        getattr(node, e)()
    seen, requant = [], []
    node.on_quant_param_update.append(lambda k: seen.append((k, k.scale, k.zero_point, k.quantized)))
    node.on_requantize.append(lambda k: requant.append((k, k.scale, k.zero_point, k.quantized)))
    exact = pow2(s0)
    pol0 = nearest(xs, s0) if exact else None
    s, zp, pol, fresh = s0, z0, pol0, True

    def verify(what):
        c.check(And(eq(node.scale, s), eq(node.zero_point, zp)), what + ": parameters")
        if pol is None:      # scales without an exact representation of x / s: the first policy is the nearest code
            for p in exl(node.rounding_policy):
                c.check(Or(eq(p, 0), eq(p, 1)), what + ": binary policy")
            got = exl(node.quantized)
            for g, x in zip(got, xs):
                v = ex(x) / ex(s) + ex(zp)
                c.check(And(ge(g, clamp(floor(v - TOL), *rng)), le(g, clamp(floor(v + 1 + TOL), *rng))), what + ": a neighbouring code")
        else:
            c.eq_list(exl(node.rounding_policy), pol, what + ": policy")
            c.same_shape(node.rounding_policy, shp)
            if fresh:
                codes(c, node.quantized, xs, s, zp, pol, rng, what)
        c.same_shape(node.quantized, shp)
        c.eq_list(exl(node.fp_tensor), xs, what + ": float tensor")
        q = exl(node.quantized)
        for d, k in zip(exl(node.dequantized), q):
            if pow2(s):
                c.check(eq(d, (k - ex(zp)) * ex(s)), what + ": dequantised view")
            else:
                c.check(near(d, (k - ex(zp)) * ex(s), Fr(1, 10 ** 9)), what + ": dequantised view")
        j = node.as_json()
        t = j["tensor"]
        if "exclude_quant_params" in exclude:
            c.check(j["scale"] is None and j["zero_point"] is None, "excluded parameters")
        else:
            c.check(And(eq(j["scale"], s), eq(j["zero_point"], zp)), what + ": JSON parameters")
        c.check(t["name"] == "first" and t["dtype"].lower() == dtype, "JSON name and dtype")
        c.check(tuple(t["shape"]) == (tuple(shp[1:]) if "exclude_batch_dimension" in exclude else tuple(shp)), "JSON shape")
        if "exclude_tensor" in exclude:
            c.check(t["tensor"] is None, "excluded tensor")
        else:
            c.eq_list(exl(c.mkarr(flat(t["tensor"]), (n,), np.int64)), q, what + ": JSON tensor")
            c.check(dims(t["tensor"]) == tuple(shp), "JSON nesting")
        c.check(j["LUT"] is None, "no table")

    if exact:
        codes(c, node.quantized, xs, s0, z0, [Fr(1, 2)] * n, rng, "new tensor")
    else:
        codes(c, node.quantized, xs, s0, z0, [Fr(1, 2)] * n, rng, "new tensor")
    verify("new tensor")
    for k in range(steps):
        op = c.choice(f"op{k}", list(ops)) if len(ops) > 1 else ops[0]
        del seen[:], requant[:]
        before = exl(node.quantized)
        if op in ("update", "stale"):
            s, zp = c.choice(f"s{k}", list(scales)), c.int(f"z{k + 1}", *zr)
            if op == "update":
                node.update_quant_parameters(s, zp)
            else:
                node.update_quant_parameters(s, zp, requantize=False)
                c.eq_list(exl(node.quantized), before, "not requantised")
                c.check(not requant, "not requantised")
                fresh = False
        elif op == "reset_scale":
            s = s0
            node.reset_scale()
        elif op == "reset_zp":
            zp = z0
            node.reset_zp()
        elif op == "policy":
            pol = [c.int(f"p{k}_{i}", 0, 1) for i in range(n)]
            node.rounding_policy = c.mkarr(pol, shp, np.int64)
        elif op == "reset_rounding":
            pol = pol0
            node.reset_rounding()
        else:
            for bad in ((n + 1,), (1,) + tuple(shp), (n,) if len(shp) > 1 else (n, 1)):
                ok = c.expect_raises(lambda: setattr(node, "rounding_policy", np.zeros(bad, dtype=np.int64)), ValueError)
                c.check(ok, "a policy of another shape is rejected")
            c.eq_list(exl(node.quantized), before, "a rejected policy changes nothing")
        if op not in ("stale", "bad"):
            fresh = True
        if op in ("update", "stale"):
            c.check(len(seen) == 1 and seen[0][0] is node, "a listener runs once per update", f"{len(seen)}")
            c.check(And(eq(seen[0][1], s), eq(seen[0][2], zp)), "listeners see the new parameters")
            c.eq_list(exl(seen[0][3]), exl(node.quantized), "listeners see the new codes")
        if op == "update":
            c.check(len(requant) == 1 and requant[0][0] is node, "requantisation listeners run once")
            c.check(And(eq(requant[0][1], s), eq(requant[0][2], zp)), "requantisation listeners see the new parameters")
            c.eq_list(exl(requant[0][3]), exl(node.quantized), "requantisation listeners see the new codes")
        if op == "bad":
            c.check(not seen and not requant, "a rejected policy runs no listener")
        verify(op)


def flat(t):
    return [x for e in t for x in flat(e)] if isinstance(t, list) else [t]


def dims(t):
    return (len(t),) + dims(t[0]) if isinstance(t, list) else ()


def h_base(c):
    """nodes without data: parameters, names, resets and JSON"""
    m = c.mod(T)
    s0, s1 = c.real("s0", 0.125, 4, -3), c.real("s1", 0.125, 4, -3)
    z0, z1 = c.int("z0", -128, 127), c.int("z1", -128, 127)
    k = m.NodeTensorBase(s0, z0, "n", Q(c, "int8"))
    seen = []
    k.on_quant_param_update.append(lambda e: seen.append((e.scale, e.zero_point)))
    other = m.NodeTensorBase(s0, z0, "o", Q(c, "int8"))
    c.check(len(other.on_quant_param_update) == 0 and len(other.on_requantize) == 0, "listeners belong to one node")
    k.update_quant_parameters(s1, z1)
    c.check(len(seen) == 1 and And(eq(seen[0][0], s1), eq(seen[0][1], z1)), "a listener runs once per update")
    j = k.as_json()
    c.check(And(eq(j["scale"], s1), eq(j["zero_point"], z1)) and j["tensor"] is None and j["LUT"] is None, "JSON")
    c.check(And(eq(k["scale"], s1), eq(k["zero_point"], z1)), "item access")
    k.name = "renamed"
    c.check(k.name == "renamed", "renamed")
    k.reset_scale()
    c.check(And(eq(k.scale, s0), eq(k.zero_point, z1)), "reset of the scale")
    k.reset_zp()
    c.check(And(eq(k.scale, s0), eq(k.zero_point, z0)), "reset of the zero point")
    c.check(And(eq(other.scale, s0), eq(other.zero_point, z0)), "other nodes are left alone")
    e = k.exclude_quant_params().as_json()
    c.check(e["scale"] is None and e["zero_point"] is None, "excluded parameters")
    c.check(k.exclude_quant_params(False).as_json()["scale"] is not None, "included parameters")


def h_two(c):
    """two tensors of one base node do not share their integers or policies"""
    m = c.mod(T)
    z = c.int("z", -128, 127)
    base = m.NodeTensorBase(0.5, z, "n", Q(c, "int8"))
    xs, ys = [c.real(f"x{i}", -20, 20, -30) for i in range(2)], [c.real(f"y{i}", -20, 20, -30) for i in range(2)]
    a, b = base.with_tensor(c.mkarr(xs, (2,), np.float64)), base.with_tensor(c.mkarr(ys, (2,), np.float64))
    z1 = c.int("z1", -128, 127)
    p = [c.int(f"p{i}", 0, 1) for i in range(2)]
    a.update_quant_parameters(0.25, z1)
    a.rounding_policy = c.mkarr(p, (2,), np.int64)
    codes(c, a.quantized, xs, 0.25, z1, p, (-128, 127), "changed tensor")
    codes(c, b.quantized, ys, 0.5, z, [Fr(1, 2)] * 2, (-128, 127), "other tensor")
    c.check(And(eq(b.scale, 0.5), eq(b.zero_point, z), eq(base.scale, 0.5), eq(base.zero_point, z)), "other parameters")
    b.update_quant_parameters(1.0, z1)
    codes(c, b.quantized, ys, 1.0, z1, nearest(ys, 0.5), (-128, 127), "other tensor")
    codes(c, a.quantized, xs, 0.25, z1, p, (-128, 127), "changed tensor")


def cases(tier):
    th = tier == "thorough"
    out = [case("nodes without data", h_base), case("two tensors", h_two)]
    P2 = (0.5, 0.25)
    for dt in ("int8", "uint8", "int4"):
        out.append(case(f"{dt} one value, 2 operations", h_history, dtype=dt, shp=(1,), steps=2, ops=OPS_ALL, scales=P2, weight=3))
    out.append(case("int32 bias", h_history, dtype="int32", shp=(2,), steps=1, ops=OPS_ALL, scales=(2.0 ** -5, 2.0 ** -4), zr=(0, 0)))
    out.append(case("int16", h_history, dtype="int16", shp=(2,), steps=1, ops=OPS_ALL, scales=(2.0 ** -5, 2.0 ** -4), zr=(-128, 127)))
    for shp in ((2,), (2, 2), (1, 3), (2, 1, 1)):
        out.append(case(f"int8 shape {shp}", h_history, dtype="int8", shp=shp, steps=1, ops=OPS_ALL, scales=P2))
    for i, e in enumerate((("exclude_batch_dimension",), ("exclude_tensor",), ("exclude_quant_params",), ("exclude_batch_dimension", "exclude_tensor"))):
        out.append(case("int8 " + " ".join(e), h_history, dtype="int8", shp=(2, 1), steps=1, ops=("update", "policy", "reset_zp"), scales=P2, exclude=e))
    out.append(case("int8 policies then parameters", h_history, dtype="int8", shp=(2,), steps=2, ops=("policy", "update"), scales=P2, weight=2))
    out.append(case("int8 scales 0.1 and 0.3", h_history, dtype="int8", shp=(2,), steps=2, ops=("update", "reset_scale", "reset_zp", "policy"), scales=(0.1, 0.3), weight=2))
    for shp in ((130,), (12, 11)):
        out.append(case(f"large {shp}", sparse(h_history, rf"^x(0|{prod(shp) - 1})$|^(?!x\d|z0)"), dtype="int8", shp=shp, steps=1, ops=OPS_ALL, scales=P2, weight=3))
    if th:
        for dt in ("int8", "uint8", "int2"):
            out.append(case(f"{dt} one value, 3 operations", h_history, dtype=dt, shp=(1,), steps=3, ops=OPS_ALL, scales=P2, weight=9))
        for shp in ((2, 2), (3,)):
            out.append(case(f"int8 shape {shp}, 2 operations", h_history, dtype="int8", shp=shp, steps=2, ops=OPS_ALL, scales=(0.5, 0.125, 2.0), weight=5))
        out.append(case("int8 scales 0.1 to 0.7, 3 operations", h_history, dtype="int8", shp=(1,), steps=3, ops=("update", "reset_scale", "policy"), scales=(0.1, 0.3, 0.7), weight=5))
    return out
