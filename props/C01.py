"""Quantisation rounds to nearest and saturates."""
from .common import *

BOUNDS = ("elements per tensor <= 4 (tensors of up to 1030 elements and four axes with a few symbolic elements), all shapes listed per case; reals: every multiple of 2^-8 (2^-12 thorough, 2^-28 for some) within +-40x the dtype span "
          "times the scale; scales: powers of two (exact ties), non-dyadic constants, and every multiple of 2^-10 in [2^-5, 4]; every zero point of the dtype")
TOL = Fr(1, 10 ** 5)


def spec_check(c, r, x, scale, zp, lo, hi, label, exact):
    y = ex(x) / ex(scale) + ex(zp) + Fr(1, 2)
    r = ex(r)
    if exact:
        c.check(eq(r, clamp(floor(y), lo, hi)), label)
    else:
        c.check(And(ge(r, clamp(floor(y - TOL), lo, hi)), le(r, clamp(floor(y + TOL), lo, hi))), label)
    c.check(And(ge(r, lo), le(r, hi)), label + " range")


def h_core(c, dtype, scale, kind, shp, g=-8, via="core", dtname=None):
    lo, hi = irange(dtname or dtype)
    span = (hi - lo + 1)
    if scale == "sym":
        s = c.real("scale", 2.0 ** -5, 4, -10)
        smax = 4
    else:
        s, smax = scale, scale
    lim = 3 * span * float(smax) + 8
    n = prod(shp)
    xs = [c.real(f"x{i}", -lim, lim, g) for i in range(n)]
    zp = c.int("zp", lo, hi)
    data = as_input(c, kind, xs, shp)
    if via == "core":
        r = Q(c, getattr(np, dtype[3:]) if dtype.startswith("np.") else dtype).quantize(data, zp, s)
    elif via == "to_int8":
        r = c.mod("itcl_inference_engine.util.quantization").to_int8(data, zp, s)
    elif via == "tflite":
        r = c.mod("itcl_inference_engine.layers.tflite.quantize").Quantize(s, zp, dtype).infer(data)
    elif via == "tflite_model":
        op = {"inputs": [None], "outputs": [{"scale": s, "zero_point": zp, "tensor": {"dtype": dtype}}]}
        r = c.mod("itcl_inference_engine.layers.tflite.quantize").Quantize.from_model(op).infer(data)
    elif via == "onnx":
        r = c.mod("itcl_inference_engine.layers.onnx.quantize_linear").QuantizeLinear(s, zp).infer(data)
    elif via == "onnx_model":
        op = {"inputs": [{"scale": s, "zero_point": zp}], "outputs": []}
        r = c.mod("itcl_inference_engine.layers.onnx.quantize_linear").QuantizeLinear.from_model(op).infer(data)
    c.same_shape(r, () if kind == "scalar" else shp)
    c.observe("r", r)
    exact = scale != "sym" and pow2(scale)
    for i, (a, x) in enumerate(zip(exl(r), xs)):
        spec_check(c, a, x, s, zp, lo, hi, "nearest, ties upward, saturated", exact)


def h_mono(c, dtype, scale):
    lo, hi = irange(dtype)
    lim = 2 * (hi - lo + 1) * scale + 4
    x = c.real("x", -lim, lim, -8)
    y = c.real("y", -lim, lim, -8)
    c.assume(x <= y)
    zp = c.int("zp", lo, hi)
    r = exl(Q(c, dtype).quantize([x, y], zp, scale))
    c.check(le(r[0], r[1]), "monotone")


def h_far(c, dtype, scale):
    """far outside the range: saturates, never wraps"""
    lo, hi = irange(dtype)
    x = c.real("x", 2.0 ** 40, 2.0 ** 60, 0)
    neg = c.bool("neg")
    zp = c.int("zp", lo, hi)
    v = -x if neg else x
    r = exl(Q(c, dtype).quantize([v], zp, scale))
    c.check(eq(r[0], lo if neg else hi), "saturates far outside the range")


def cases(tier):
    cs = []
    dts = ["int8", "uint8", "int16", "int4", "uint16", "int32"]
    for dt in dts:
        for s in (0.25, 0.1):
            cs.append(case(f"core {dt} scale {s}", h_core, dtype=dt, scale=s, kind="f64", shp=(2,)))
    for dt, nm in (("INT8", "int8"), ("Uint8", "uint8"), ("np.int8", "int8"), ("np.uint8", "uint8"), ("np.int16", "int16")):
        cs.append(case(f"core {dt}", h_core, dtype=dt, dtname=nm, scale=0.5, kind="f64", shp=(1,)))
    for dt in ("int2", "int5", "uint3", "int11", "uint12", "int24"):
        cs.append(case(f"core odd width {dt}", h_core, dtype=dt, scale=0.125, kind="f64", shp=(1,)))
    for dt in ("int8", "uint8", "int16"):
        cs.append(case(f"core {dt} symbolic scale", h_core, dtype=dt, scale="sym", kind="f64", shp=(1,), weight=3))
    for kind, shp in (("list", (3,)), ("list", (2, 2)), ("scalar", (1,)), ("f64", (1, 1)), ("f64", (2, 1, 2)), ("f64", (0,)), ("f32", (2,)), ("f64", (1, 3))):
        cs.append(case(f"core int8 {kind} {shp}", h_core, dtype="int8", scale=0.5, kind=kind, shp=shp))
    for via, dt in (("to_int8", "int8"), ("tflite", "int8"), ("tflite", "uint8"), ("tflite", "int16"), ("tflite_model", "int8"), ("tflite_model", "uint8"),
                    ("onnx", "uint8"), ("onnx_model", "uint8")):
        for s in (0.5, 0.3):
            cs.append(case(f"{via} {dt} scale {s}", h_core, dtype=dt, scale=s, kind="f64", shp=(1, 2), via=via))
    # more digits than single precision holds
    for via, dt in (("core", "int8"), ("core", "uint8"), ("core", "int16"), ("to_int8", "int8"), ("tflite", "int8"), ("tflite_model", "uint8"), ("tflite", "int16"), ("onnx", "uint8"), ("onnx_model", "uint8")):
        for kind in ("f64", "list") if via == "core" else ("f64",):
            cs.append(case(f"fine {via} {dt} {kind}", h_core, dtype=dt, scale=0.5, kind=kind, shp=(2,), via=via, g=-28))
    for dt in ("int8", "uint8"):
        cs.append(case(f"monotone {dt}", h_mono, dtype=dt, scale=0.125))
    for dt in ("int8", "uint8", "int16", "int32", "int3"):
        cs.append(case(f"far {dt}", h_far, dtype=dt, scale=0.7))
    # large tensors: the spots are symbolic, the other elements fixed
    for dt in ("int8", "uint8"):
        for kind, shp in (("f64", (1030,)), ("list", (300,)), ("f64", (41, 7)), ("f32", (3, 5, 17)), ("f64", (2, 2, 2, 3))):
            cs.append(case(f"large {dt} {kind} {shp}", sparse(h_core, r"^x(0|7|23|127|254|286|299|1029)$"), dtype=dt, scale=0.25, kind=kind, shp=shp, weight=2))
    if tier == "thorough":
        for b in range(2, 33):
            for sg in ("int", "uint"):
                if sg == "uint" and b > 31:
                    continue
                for s in (2.0 ** -7, 1.0, 3.0, 0.017):
                    cs.append(case(f"width {sg}{b} scale {s}", h_core, dtype=f"{sg}{b}", scale=s, kind="f64", shp=(1,), g=-12))
        for dt in ("int4", "uint4", "int12", "uint16"):
            cs.append(case(f"core {dt} symbolic scale", h_core, dtype=dt, scale="sym", kind="f64", shp=(1,), weight=3, g=-12))
    return cs
