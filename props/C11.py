"""Quantised tanh and sigmoid honour their fixed output format."""
from .common import *

T = "itcl_inference_engine.layers.tflite.tanh"
L = "itcl_inference_engine.layers.tflite.logistic"
B = "itcl_inference_engine.layers.tflite.build_layer"
O = "itcl_inference_engine.layers.onnx.build_operator"
BOUNDS = ("every int8 (uint8 for ONNX) input code and zero point, for each of the listed input scales and, for tanh (and the sigmoid in the thorough tier), for every input scale that is a multiple of 2^-10 in [2^-10, 1/2]; "
          "arrays of 1-4 codes in the listed shapes and of 301 and 41 x 7 codes with two symbolic ones; tanh, exp and the sigmoid are strictly monotone real functions refined at the points the solver visits, libm errors up to "
          "2^-49 relative; a tolerance of 1e-4 of an output step at ties")
TOL = Fr(1, 10 ** 4)
SCALES = [1.0, 0.5, 0.0625, 1 / 128, 0.1, 0.0588817298412323, 0.003]


def model(s, z):
    t = {"tensor": None, "dtype": "int8", "shape": [1], "name": "t"}
    # the layers have a fixed output format: what the file declares there must not matter
    return {"op_type": "", "name": "a", "description": None, "attributes": None, "inputs": [{"tensor": t, "scale": s, "zero_point": z, "LUT": None}],
            "outputs": [{"tensor": t, "scale": 0.33, "zero_point": 7, "LUT": None}]}


def build(c, which, via, s, z):
    C = c.mod(T).Tanh if which == "tanh" else c.mod(L).Sigmoid
    if via == "init":
        return C(s, z)
    if via == "node":
        return C.from_node(model(s, z)["inputs"][0])
    m = model(s, z)
    if via == "builder":
        m["op_type"] = "TANH" if which == "tanh" else "LOGISTIC"
        return c.mod(B).build_layer(m)
    return C.from_model(m)


FMT = {"tanh": (128, 0), "logistic": (256, -128)}


def judge(c, ys, qs, which, s, z, lo, hi, mul, oz):
    sc = Fr(s) if not hasattr(s, "z") else ex(s)
    c.check(And(*[And(ge(y, lo), le(y, hi)) for y in ys]), "in range")
    for y, q in zip(ys, qs):
        x = (ex(q) - ex(z)) * sc
        v = fn("tanh" if which == "tanh" else "sigmoid", x) * mul + ex(oz)
        h = Fr(1, 2) + TOL
        c.check(And(ge(y, mn(hi, v - h)), le(y, mx(lo, v + h))), "nearest code of the activation")


def h_tfl(c, which, via, s, shp, n=1, dt="int8"):
    z = c.int("z", -128, 127)
    l = build(c, which, via, s, z)
    x = c.iarr("x", shp, -128, 127, dt)
    y = l.infer(x)
    c.same_shape(y, shp)
    c.observe("y", y)
    judge(c, exl(y), exl(x), which, s, z, -128, 127, *FMT[which])
    c.check(And(*[eq(a, b) for a, b in zip(exl(y), exl(l.infer(x)))]), "repeatable")


def h_symscale(c, which):
    z = c.int("z", -128, 127)
    s = c.real("s", 2.0 ** -10, 0.5, -10)
    l = build(c, which, "model", s, z)
    x = c.iarr("x", (1,), -128, 127, "int8")
    y = l.infer(x)
    judge(c, exl(y), exl(x), which, s, z, -128, 127, *FMT[which])


def h_mono(c, which, s):
    z = c.int("z", -128, 127)
    x = c.iarr("x", (2,), -128, 127, "int8")
    y = exl(build(c, which, "model", s, z).infer(x))
    q = exl(x)
    c.check(Implies(le(q[0], q[1]), le(y[0], y[1])), "non-decreasing")


def h_zero(c, which, s):
    """the code of zero maps to the code of f(0)"""
    z = c.int("z", -128, 127)
    y = exl(build(c, which, "model", s, z).infer(c.mkarr([z], (1,), "int8")))
    c.check(eq(y[0], 0), "f(0)")


def onnx(c, via, s, z, so, zo):
    n = lambda a, b: {"tensor": None, "scale": a, "zero_point": b, "LUT": None}
    op = {"op_type": "QLinearSigmoid", "name": "s", "description": None, "attributes": None, "inputs": [n(s, z), n(so, zo)], "outputs": [n(0.9, 99)]}
    if via == "builder":
        return c.mod(O).build_operator(op)
    C = c.mod("itcl_inference_engine.layers.onnx.q_linear_sigmoid").QLinearSigmoid
    return C(s, z, so, zo) if via == "init" else C.from_model(op)


def h_onnx(c, via, s, so, shp):
    z, zo = c.int("z", 0, 255), c.int("zo", 0, 255)
    x = c.iarr("x", shp, 0, 255, "uint8")
    y = onnx(c, via, s, z, so, zo).infer(x)
    c.same_shape(y, shp)
    c.observe("y", y)
    ys = exl(y)
    c.check(And(*[And(ge(v, 0), le(v, 255)) for v in ys]), "in range")
    for v, q in zip(ys, exl(x)):
        v_ = -fn("nrecip", 1 + fn("exp", (ex(z) - ex(q)) * Fr(s))) / Fr(so) + ex(zo)
        h = Fr(1, 2) + TOL
        c.check(And(ge(v, mn(255, v_ - h)), le(v, mx(0, v_ + h))), "nearest code of the sigmoid")


def h_onnx_each(c, shp):
    """an array is the array of its elements' results"""
    z, zo = c.int("z", 0, 255), c.int("zo", 0, 255)
    l = onnx(c, "builder", 0.0625, z, 1 / 128, zo)
    x = c.iarr("x", shp, 0, 255, "uint8")
    y = l.infer(x)
    c.same_shape(y, shp)
    for v, q in zip(exl(y), x.reshape(-1)):
        c.check(eq(v, exl(l.infer(c.mkarr([q], (1,), "uint8")))[0]), "element-wise")


def cases(tier):
    th = tier == "thorough"
    out = []
    for w in ("tanh", "logistic"):
        for s in SCALES if th else SCALES[:6]:
            out.append(case(f"{w} scale {s:g}", h_tfl, weight=3, which=w, via="model", s=s, shp=(1,)))
        for s in (1.0, 0.5):
            out.append(case(f"{w} monotone scale {s:g}", h_mono, weight=3, which=w, s=s))
        for shp in ((2, 1), (1, 3), (1, 1, 2)) + (((4,), (2, 2), (2, 1, 2)) if th else ()):
            out.append(case(f"{w} shape {shp}", h_tfl, weight=4, which=w, via="builder", s=0.5, shp=shp))
        out.append(case(f"{w} constructor", h_tfl, weight=2, which=w, via="init", s=0.25, shp=(2,)))
        out.append(case(f"{w} int64 codes", h_tfl, weight=2, which=w, via="builder", s=0.25, shp=(2,), dt="int64"))
        if w == "tanh" or th:
            out.append(case(f"{w} every scale", h_symscale, weight=9, which=w))
        for s in (0.1, 1 / 3):
            out.append(case(f"{w} zero scale {s:g}", h_zero, which=w, s=s))
        out.append(case(f"{w} large", sparse(h_tfl, r"^x\[(0|0,0|40,6|300)\]$"), weight=3, which=w, via="model", s=0.0625, shp=(301,)))
        out.append(case(f"{w} large two-dimensional", sparse(h_tfl, r"^x\[(0|0,0|40,6|300)\]$"), weight=3, which=w, via="model", s=0.0625, shp=(41, 7)))
    out.append(case("tanh node", h_tfl, weight=2, which="tanh", via="node", s=0.25, shp=(2,)))
    for s, so in ((0.0625, 1 / 128), (0.0588817298412323, 0.004), (0.02, 0.00390625), (1 / 64, 1 / 512)) + (((0.1, 0.00390625), (0.5, 1 / 256)) if th else ()):
        out.append(case(f"onnx sigmoid {s:g} {so:g}", h_onnx, weight=5, via="model", s=s, so=so, shp=(1,)))
    out.append(case("onnx sigmoid builder", h_onnx, weight=5, via="builder", s=0.0625, so=1 / 128, shp=(1, 1)))
    out.append(case("onnx sigmoid constructor", h_onnx, weight=5, via="init", s=0.0625, so=1 / 128, shp=(1,)))
    for shp in ((2,), (2, 1)):
        out.append(case(f"onnx sigmoid element-wise {shp}", h_onnx_each, weight=2, shp=shp))
    return out
