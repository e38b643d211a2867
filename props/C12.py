"""Quantised ReLU is ReLU on the represented reals."""
from .common import *

R = "itcl_inference_engine.layers.common.relu"
B = "itcl_inference_engine.layers.tflite.build_layer"
BOUNDS = ("every int8 input code, every int8 input and output zero point, for each listed pair of scales, and for every pair of scales on the grids 2^-4 * [1, 64] (input) and "
          "powers of two 2^-6..2^4 (output); arrays of 1-4 codes in the listed shapes (301 and 41 x 7 codes with two symbolic ones), int8 and wider containers; a tolerance of 1e-6 of a step around ties")
TOL = Fr(1, 10 ** 6)
SCALES = [(0.5, 0.5), (0.25, 1.0), (1.0, 0.25), (2.0, 0.0078125), (0.1, 0.1), (0.1, 0.3), (0.0235294, 0.0117), (1 / 3, 0.05), (0.9, 0.004), (0.003, 0.9), (0.7, 0.7000001)]


def model(s, z, so, zo):
    t = {"tensor": None, "dtype": "int8", "shape": [1], "name": "t"}
    n = lambda a, b: {"tensor": t, "scale": a, "zero_point": b, "LUT": None}
    return {"op_type": "RELU", "name": "a", "description": None, "attributes": None, "inputs": [n(s, z)], "outputs": [n(so, zo)]}


def build(c, via, s, z, so, zo):
    C = c.mod(R).RELU
    if via == "init":
        return C(s, z, so, zo)
    if via == "builder":
        return c.mod(B).build_layer(model(s, z, so, zo))
    return C.from_model(model(s, z, so, zo))


def judge(c, y, q, s, z, so, zo):
    c.check(And(ge(y, -128), le(y, 127)), "in range")
    v = mx(0, ex(q) - ex(z)) * (Fr(s) / Fr(so)) + ex(zo)
    h = Fr(1, 2) + TOL
    c.check(And(ge(y, mn(127, v - h)), le(y, mx(-128, v + h))), "code of max(0, x)")
    c.check(Implies(le(q, z), eq(y, zo)), "inputs at or below zero give the output zero point")


def h_relu(c, via, s, so, shp=(1,), dt="int8"):
    z, zo = c.int("z", -128, 127), c.int("zo", -128, 127)
    l = build(c, via, s, z, so, zo)
    x = c.iarr("x", shp, -128, 127, dt)
    before = exl(x)
    y = l.infer(x)
    c.same_shape(y, shp)
    c.check(str(y.dtype) == "int8", "int8 codes")
    c.observe("y", y)
    for a, q in zip(exl(y), before):
        judge(c, a, q, s, z, so, zo)
    c.check(And(*[eq(a, b) for a, b in zip(exl(x), before)]), "input left alone")
    c.check(And(*[eq(a, b) for a, b in zip(exl(y), exl(l.infer(x)))]), "repeatable")


def h_mono(c, s, so):
    z, zo = c.int("z", -128, 127), c.int("zo", -128, 127)
    x = c.iarr("x", (2,), -128, 127, "int8")
    y, q = exl(build(c, "model", s, z, so, zo).infer(x)), exl(x)
    c.check(Implies(le(q[0], q[1]), le(y[0], y[1])), "non-decreasing")


def h_sym(c, e):
    """input scale symbolic on a grid, output scale a power of two"""
    z, zo = c.int("z", -128, 127), c.int("zo", -128, 127)
    s, so = c.real("s", 2.0 ** -4, 4.0, -4), 2.0 ** e
    x = c.iarr("x", (1,), -128, 127, "int8")
    y, q = exl(build(c, "model", s, z, so, zo).infer(x))[0], exl(x)[0]
    v = mx(0, ex(q) - ex(z)) * ex(s) / Fr(so) + ex(zo)
    h = Fr(1, 2)
    c.check(And(ge(y, mn(127, v - h)), le(y, mx(-128, v + h))), "code of max(0, x)")
    c.check(And(ge(y, -128), le(y, 127)), "in range")
    c.check(Implies(le(q, z), eq(y, zo)), "inputs at or below zero give the output zero point")


def cases(tier):
    th = tier == "thorough"
    out = []
    for s, so in SCALES:
        out.append(case(f"relu {s:g} {so:g}", h_relu, via="model", s=s, so=so))
        if pow2(s) and pow2(so) or th:
            out.append(case(f"relu monotone {s:g} {so:g}", h_mono, s=s, so=so))
    for s, so in ((0.5, 0.25), (0.1, 0.3)):
        for shp in ((2, 2), (1, 3), (1, 1, 2)) + (((4,), (2, 1, 2), (3, 3)) if th else ()):
            out.append(case(f"relu shape {shp} {s:g}", h_relu, via="builder", s=s, so=so, shp=shp))
        out.append(case(f"relu constructor {s:g}", h_relu, via="init", s=s, so=so, shp=(2,)))
        for shp in ((301,), (41, 7)):
            out.append(case(f"relu large {shp} {s:g}", sparse(h_relu, r"^x\[(0|0,0|40,6|300)\]$"), weight=2, via="builder", s=s, so=so, shp=shp))
        for dt in ("int16", "int64"):
            out.append(case(f"relu {dt} {s:g}", h_relu, via="builder", s=s, so=so, shp=(2,), dt=dt))
    for e in range(-6, 5) if th else (-6, -3, 0, 2, 4):
        out.append(case(f"relu every input scale, output 2^{e}", h_sym, weight=3, e=e))
    return out
