"""Activation tables hold the quantised activation of every code."""
from .common import *

BOUNDS = ("activation functions: an arbitrary function (uninterpreted, values multiples of 2^-34 in [-12, 12], also returning Python integers) and the real tanh / "
          "relu; tables of 2^2..2^5 codes for every zero point (2^8 codes thorough); scales: powers of two and 0.1; "
          "table layers: every table with values in [-128, 255] of up to 17 entries and one of 256 entries, inputs of up to 4 codes in the listed shapes, and of 301 and 41 x 7 codes with two symbolic ones")
TOL = Fr(1, 10 ** 5)


def act(c, kind):
    if kind == "any":
        return c.opaque("f", -12, 12, -34)
    if kind == "tanh":
        import math
        return math.tanh if not c.symbolic else (lambda x: __import__("sx.loader", fromlist=["x"]).sx_call(math.tanh, x))
    if kind == "mixed":      # integers for some codes, fractions for others
        g = c.opaque("f", -12, 12, -34)
        return lambda x: 0 if x <= 0 else g(x)
    if kind == "npfloat32":
        g = c.opaque("f", -12, 12, -6)
        return lambda x: np.float32(g(x)) if not c.symbolic else g(x)
    raise KeyError(kind)


def h_create(c, dtype, kind, si, so, policy=False):
    lo, hi = irange(dtype)
    n = hi - lo + 1
    zi, zo = c.int("zi", lo, hi), c.int("zo", lo, hi)
    f = act(c, kind)
    pol = c.iarr("p", (n,), 0, 1) if policy else None
    if policy:
        lut = Q(c, dtype).create_LUT(f, si, zi, so, zo, rounding_policy=pol)
    else:
        lut = Q(c, dtype).create_LUT(f, si, zi, so, zo)
    c.check(isinstance(lut, list) and len(lut) == n, "one entry per code")
    c.observe("lut", lut)
    xs = [(lo + k - zi) * si for k in range(n)]
    for k in range(n):
        y = f(xs[k])
        half = exl(pol)[k] if policy else Fr(1, 2)
        v = ex(y) / ex(so) + ex(zo) + half
        if pow2(si) and pow2(so) and kind != "tanh":
            c.check(eq(lut[k], clamp(floor(v), lo, hi)), "entry of the code")
        else:
            c.check(And(ge(lut[k], clamp(floor(v - TOL), lo, hi)), le(lut[k], clamp(floor(v + TOL), lo, hi))), "entry of the code")
        c.check(And(ge(lut[k], lo), le(lut[k], hi)), "entry in range")


def node(lut, offset):
    d = {"LUT": lut, "reduced_LUT": None}
    if offset is not None:
        d["offset"] = offset
    return {"tensor": None, "scale": 0.1, "zero_point": 3, "LUT": d}


def layer(c, cls, via, lut, offset):
    if cls == "tanh":
        C = c.mod("itcl_inference_engine.layers.common.tanh").TanhLUT
    elif cls == "sigmoid":
        C = c.mod("itcl_inference_engine.layers.common.sigmoid").SigmoidLUT
    else:
        C = c.mod("itcl_inference_engine.layers.common.lut").LUTActivation
    if via == "init":
        return C(lut, offset) if offset is not None else C(lut)
    if via == "node":
        return C.from_node(node(lut, offset))
    other = node([99] * len(lut), 0)
    return C.from_model({"op_type": "X", "name": "x", "inputs": [node(lut, offset)], "outputs": [other], "attributes": None})


def h_apply(c, cls, via, n, offset, shp, dt="int64", sym_table=True):
    if sym_table:
        lut = [c.int(f"t{i}", -128, 255) for i in range(n)]
    else:
        lut = [(i * 37 + 11) % 251 - 100 for i in range(n)]
    off = offset or 0
    x = c.iarr("x", shp, -off, n - 1 - off, dt)
    r = layer(c, cls, via, lut, offset).infer(x)
    c.same_shape(r, shp)
    c.observe("r", r)
    for a, q in zip(exl(r), exl(x)):
        c.check(And(*[Implies(eq(q, k - off), eq(a, lut[k])) for k in range(n)]), "entry of the code")


def h_missing(c):
    L = c.mod("itcl_inference_engine.layers.common.lut").LUTActivation
    ok = c.expect_raises(lambda: L.from_node({"LUT": None, "scale": 1.0, "zero_point": 0, "tensor": None}), Exception)
    c.check(ok, "a node without a table is rejected")


def h_end_to_end(c, dtype, si, so):
    """a table built for a dtype and applied with its offset = quantise(f(dequantise))"""
    lo, hi = irange(dtype)
    n = hi - lo + 1
    zi, zo = c.int("zi", lo, hi), c.int("zo", lo, hi)
    f = c.opaque("f", -12, 12, -34)
    q = Q(c, dtype)
    lut = q.create_LUT(f, si, zi, so, zo)
    x = c.iarr("x", (2,), lo, hi, np.int32)
    r = layer(c, "tanh", "model", lut, -lo).infer(x)
    want = q.quantize(c.mkarr([f(float_(c, e)) for e in items(q.dequantize(x, zi, si))], (2,), np.float64), zo, so)
    for a, b in zip(exl(r), exl(want)):
        c.check(eq(a, b), "table lookup is quantise(f(dequantise))")


def float_(c, e):
    return e


def items(a):
    return list(a)


def cases(tier):
    cs = []
    for dt in ("int2", "int3", "uint3", "int4", "uint4"):
        for kind in ("any", "mixed"):
            cs.append(case(f"create {dt} {kind}", h_create, dtype=dt, kind=kind, si=0.5, so=0.25))
        cs.append(case(f"create {dt} policy", h_create, dtype=dt, kind="any", si=0.5, so=0.125, policy=True))
    cs.append(case("create int5 any", h_create, dtype="int5", kind="any", si=0.25, so=0.125, weight=3))
    cs.append(case("create int4 scales 0.3 0.1", h_create, dtype="int4", kind="any", si=0.25, so=0.1))
    cs.append(case("create int3 tanh", h_create, dtype="int3", kind="tanh", si=0.25, so=0.25, weight=3))
    for cls in ("lut", "tanh", "sigmoid"):
        for via in ("init", "node", "model"):
            cs.append(case(f"apply {cls} {via} offset 8", h_apply, cls=cls, via=via, n=16, offset=8, shp=(2,)))
        cs.append(case(f"apply {cls} no offset", h_apply, cls=cls, via="model", n=16, offset=None, shp=(2,)))
    for shp in ((2, 2), (1, 3), (1, 1, 2), (4,)):
        cs.append(case(f"apply shape {shp}", h_apply, cls="tanh", via="model", n=17, offset=0, shp=shp))
    cs.append(case("apply int8 table of 256", h_apply, cls="tanh", via="model", n=256, offset=128, shp=(1,), dt="int8", weight=3))
    cs.append(case("apply int8 table of 256 (int32 codes)", h_apply, cls="tanh", via="model", n=256, offset=128, shp=(1,), dt="int32", weight=3))
    cs.append(case("apply uint8 table of 256", h_apply, cls="sigmoid", via="model", n=256, offset=0, shp=(1,), dt="uint8", weight=3))
    for shp in ((301,), (41, 7)):
        last = ",".join(str(k - 1) for k in shp)
        cs.append(case(f"apply large {shp}", sparse(h_apply, rf"^(x\[({last}|0|0,0)\]|t0|t255|t131)$"), cls="tanh", via="model", n=256, offset=128, shp=shp, weight=3))
    cs.append(case("missing table", h_missing))
    for dt in ("int2", "int3", "uint3"):
        cs.append(case(f"end to end {dt}", h_end_to_end, dtype=dt, si=0.5, so=0.25))
    if tier == "thorough":
        for dt in ("int8", "uint8"):
            cs.append(case(f"create {dt} any", h_create, dtype=dt, kind="any", si=0.5, so=0.25, weight=9))
        for dt in ("int4", "uint4"):
            cs.append(case(f"end to end {dt}", h_end_to_end, dtype=dt, si=0.5, so=0.25, weight=5))
            cs.append(case(f"create {dt} tanh", h_create, dtype=dt, kind="tanh", si=0.25, so=0.0078125, weight=5))
        for s in (0.1, 0.7, 2.0):
            cs.append(case(f"create int5 scale {s}", h_create, dtype="int5", kind="any", si=0.5, so=s, weight=3))
    return cs
