"""Dequantise inverts quantise within half a step."""
from .common import *

BOUNDS = ("every code and every zero point of each listed dtype (<=16 bits), tensors of up to 4 elements (up to 1030 elements with a few symbolic ones) in the listed shapes and containers; scales: powers "
          "of two, non-dyadic constants from 1e-5 to 100 and every multiple of 2^-10 in [2^-5, 4]; reals: every multiple of scale*2^-6 / 2^-10 in range")


def _layers(c, via, dtype, s, zp):
    """(quantise, dequantise) of one entry point"""
    if via == "core":
        q = Q(c, dtype)
        return (lambda x: q.quantize(x, zp, s)), (lambda x: q.dequantize(x, zp, s))
    u = c.mod("itcl_inference_engine.util.quantization")
    if via == "int8":
        return (lambda x: u.to_int8(x, zp, s)), (lambda x: u.from_int8(x, zp, s))
    node = {"scale": s, "zero_point": zp, "tensor": {"dtype": dtype, "tensor": None, "shape": [2]}}
    if via.startswith("tflite"):
        Qz = c.mod("itcl_inference_engine.layers.tflite.quantize").Quantize
        D = c.mod("itcl_inference_engine.layers.tflite.dequantize").Dequantize
        if via == "tflite":
            return Qz(s, zp, dtype).infer, D(s, zp, dtype).infer
        other = {"scale": 1e3, "zero_point": 77, "tensor": {"dtype": "float32", "tensor": None, "shape": [2]}}
        return (Qz.from_model({"inputs": [other], "outputs": [node]}).infer,
                D.from_model({"inputs": [node], "outputs": [other]}).infer)
    Qz = c.mod("itcl_inference_engine.layers.onnx.quantize_linear").QuantizeLinear
    D = c.mod("itcl_inference_engine.layers.onnx.dequantize_linear").DequantizeLinear
    if via == "onnx":
        return Qz(s, zp).infer, D(s, zp).infer
    other = {"scale": 1e3, "zero_point": 77}
    return (Qz.from_model({"inputs": [node], "outputs": [other]}).infer,
            D.from_model({"inputs": [node], "outputs": [other]}).infer)


def scale_of(c, scale):
    return (c.real("scale", 2.0 ** -5, 4, -10), 4) if scale == "sym" else (scale, scale)


def h_value(c, dtype, scale, kind, shp, via):
    lo, hi = irange(dtype)
    s, _ = scale_of(c, scale)
    zp = c.int("zp", lo, hi)
    n = prod(shp)
    if kind in ("list", "scalar"):
        qs = [c.int(f"q{i}", lo, hi) for i in range(n)]
        data = as_input(c, kind, qs, shp)
    else:
        data = c.iarr("q", shp, lo, hi, kind)
        qs = exl(data)
    _, deq = _layers(c, via, dtype, s, zp)
    r = deq(data)
    c.same_shape(r, () if kind == "scalar" else shp)
    c.observe("r", r)
    exact = scale != "sym" and pow2(scale)
    for a, q in zip(exl(r), qs):
        want = (ex(q) - ex(zp)) * ex(s)
        if exact:
            c.check(eq(a, want), "(q - zero_point) * scale")
        else:
            c.check(near(a, want, Fr(1, 2 ** 40) * Fr(scale if scale != "sym" else 4) * (hi - lo)), "(q - zero_point) * scale")


def h_round_trip(c, dtype, scale, via, n):
    lo, hi = irange(dtype)
    s, _ = scale_of(c, scale)
    zp = c.int("zp", lo, hi)
    q = c.iarr("q", (n,), lo, hi, np.int32)
    quant, deq = _layers(c, via, dtype, s, zp)
    r = quant(deq(q))
    c.same_shape(r, (n,))
    c.observe("r", r)
    for a, b in zip(exl(r), exl(q)):
        c.check(eq(a, b), "quantise(dequantise(q)) == q")


def h_half_step(c, dtype, scale, via, g=-6):
    lo, hi = irange(dtype)
    s, smax = scale_of(c, scale)
    zp = c.int("zp", lo, hi)
    lim = (hi - lo + 2) * float(smax)
    if scale == "sym":
        x = c.real("x", -lim, lim, g)
    else:
        k = np.floor(np.log2(scale))
        x = c.real("x", -lim, lim, int(g + k))
    c.assume(And(ge(ex(x), (lo - ex(zp)) * ex(s)), le(ex(x), (hi - ex(zp)) * ex(s))))
    quant, deq = _layers(c, via, dtype, s, zp)
    r = exl(deq(quant(c.mkarr([x], (1,), np.float64))))[0]
    tol = 0 if scale != "sym" and pow2(scale) else Fr(1, 10 ** 6) * Fr(smax)
    c.check(le(ab(r - ex(x)), ex(s) / 2 + tol), "within half a step")


def cases(tier):
    cs = []
    shapes = [("list", (3,)), ("list", (2, 2)), ("scalar", (1,)), ("int8", (2, 1, 2)), ("int32", (2,)), ("int64", (1, 3)), ("int16", (0,))]
    for kind, shp in shapes:
        cs.append(case(f"value core int8 {kind} {shp}", h_value, dtype="int8", scale=0.5, kind=kind, shp=shp, via="core"))
    for dt in ("int8", "uint8", "int16", "uint16", "int4", "uint5"):
        for s in (0.125, 0.1, "sym"):
            cs.append(case(f"value core {dt} scale {s}", h_value, dtype=dt, scale=s, kind="int32", shp=(1,), via="core"))
            cs.append(case(f"round trip core {dt} scale {s}", h_round_trip, dtype=dt, scale=s, via="core", n=1))
            cs.append(case(f"half step core {dt} scale {s}", h_half_step, dtype=dt, scale=s, via="core"))
    for via, dt in (("int8", "int8"), ("tflite", "int8"), ("tflite", "int16"), ("tflite", "uint8"), ("tflite_model", "int8"), ("tflite_model", "uint8"),
                    ("onnx", "uint8"), ("onnx_model", "uint8")):
        for s in (0.25, 0.3):
            cs.append(case(f"value {via} {dt} scale {s}", h_value, dtype=dt, scale=s, kind=dt, shp=(1, 2), via=via))
            cs.append(case(f"round trip {via} {dt} scale {s}", h_round_trip, dtype=dt, scale=s, via=via, n=2))
            cs.append(case(f"half step {via} {dt} scale {s}", h_half_step, dtype=dt, scale=s, via=via))
    for kind, shp in (("int8", (1030,)), ("list", (300,)), ("int32", (41, 7)), ("int8", (3, 5, 17)), ("int16", (2, 2, 2, 3))):
        cs.append(case(f"large value {kind} {shp}", sparse(h_value, r"^q(0|299)$|^q\[(0|1029|40,6|2,4,16|1,1,1,2)\]$"), dtype="int8", scale=0.25, kind=kind, shp=shp, via="core", weight=2))
        if len(shp) == 1:
            for via in ("core", "int8", "tflite", "onnx"):
                cs.append(case(f"large round trip {via} {shp}", sparse(h_round_trip, r"^q\[(0|1029|299)\]$"), dtype="uint8" if via == "onnx" else "int8", scale=0.25, via=via, n=shp[0], weight=2))
    if tier == "thorough":
        for b in range(2, 17):
            for sg in ("int", "uint"):
                for s in (2.0 ** -9, 1e-5, 0.0039, 0.37, 3.0, 100.0):
                    cs.append(case(f"round trip {sg}{b} scale {s}", h_round_trip, dtype=f"{sg}{b}", scale=s, via="core", n=1))
                    cs.append(case(f"half step {sg}{b} scale {s}", h_half_step, dtype=f"{sg}{b}", scale=s, via="core", g=-10))
    return cs
