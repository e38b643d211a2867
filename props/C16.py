"""A network is the composition of its layers in file order."""
import json
import os
import tempfile
from .common import *
from . import lstm_model as LM

N = "itcl_inference_engine.network.sequential"
TB = "itcl_inference_engine.layers.tflite.build_layer"
OB = "itcl_inference_engine.layers.onnx.build_operator"
BOUNDS = ("graphs of 1-5 operators of all kinds (two of them twice, in both orders), both engines, with and without leading quantisation operator; inputs: float64 arrays of 1-4 values on the "
          "grid 2^-10 (2^-40 for some graphs) in [-300, 300] or int8/uint8 codes; histories of up to four inferences with inputs of equal and other shapes; declared zero points symbolic over the dtype; "
          "models from dictionaries and from JSON files; "
          "larger cases: graphs of up to 14 operators and batches of 70 rows with one symbolic value")
NO = {"op_type": "", "name": "", "description": None, "attributes": None}


def tens(dt="int8", t=None, shp=(1,)):
    return {"tensor": t, "dtype": dt, "shape": list(shp), "name": "t"}


def nd(s, z, dt="int8", t=None, lut=None, shp=(1,)):
    return {"tensor": tens(dt, t, shp), "scale": s, "zero_point": z, "LUT": lut}


def op(kind, ins, outs, name=None, at=None):
    return {"op_type": kind, "name": name or kind, "description": None, "attributes": at, "inputs": ins, "outputs": outs}


LUT8 = [LM.sat(((i * 73 + 29) % 251) - 125) for i in range(256)]
LUT8B = [LM.sat(round(127 * np.tanh((i - 128) / 40.0))) for i in range(256)]


def t_ops(c, z):
    """TFLite-engine operators by short name; z(k) is a zero point"""
    W1, B1 = [[3, -2], [5, 1]], [40, -9]
    W2, B2 = [[-7, 4]], [13]
    f = lambda s, so, zi, zo, W, B: op("FULLY_CONNECTED", [nd(s, zi), nd(0.5, 2, t=W), nd(s * 0.5, 0, "int32", t=B)], [nd(so, zo)])
    return {
        "q": lambda: op("QUANTIZE", [nd(None, None, "float32")], [nd(0.25, z("q"))]),
        "q16": lambda: op("QUANTIZE", [nd(None, None, "float32")], [nd(0.25, z("q"), "int16")]),
        "qn": lambda: op("QUANTIZE", [nd(None, None, "float32")], [nd(0.25, z("q"))], name="layer_0_Quantize"),
        "dq": lambda: op("DEQUANTIZE", [nd(0.125, z("d"))], [nd(None, None, "float32")]),
        "relu": lambda: op("RELU", [nd(0.25, z("r"))], [nd(0.125, z("r2"))]),
        "relu2": lambda: op("RELU", [nd(0.5, z("s"))], [nd(0.5, z("s2"))]),
        "lut": lambda: op("TANHLUT", [nd(0.25, z("l"), lut={"LUT": LUT8, "reduced_LUT": None, "offset": 128})], [nd(0.0078125, 0)]),
        "slut": lambda: op("SIGMOIDLUT", [nd(0.25, z("l"), lut={"LUT": LUT8B, "reduced_LUT": None, "offset": 128})], [nd(0.00390625, -128)]),
        "fc2": lambda: f(0.25, 4.0, z("f"), z("f2"), W1, B1),
        "fc1": lambda: f(0.5, 2.0, z("g"), z("g2"), W2, B2),
        "soft": lambda: op("SOFTMAX", [nd(0.5, 0)], [nd(0.00390625, -128)]),
        "tanh": lambda: op("TANH", [nd(0.0625, z("t"))], [nd(0.0078125, 0)]),
        "sig": lambda: op("LOGISTIC", [nd(0.0625, z("u"))], [nd(0.00390625, -128)]),
        "lstm": lambda: LM.opr(1, 2, LM.S_POW2, *LM.weights(c, 1, 2, ()), LM.zpoints(c, "mixed"),
                               {k: LM.table(v) for k, v in dict(i="sigm", f="mixed", g="tanh", o="ramp", ca="tanh").items()}, True),
    }


def o_ops(c, z):
    q = lambda s, zp, dt="uint8", t=None, lut=None: nd(s, zp, dt, t, lut)
    W = [[130, 100], [128, 140]]
    sh = lambda t: np.shape(t)
    l8 = [(v + 128) for v in LUT8]
    return {
        "q": lambda: op("QuantizeLinear", [q(0.25, z("q"))], []),
        "dq": lambda: op("DequantizeLinear", [q(0.125, z("d"))], [q(None, None, "float32")]),
        "lut": lambda: op("TanhLUT", [q(0.25, 128, lut={"LUT": l8, "reduced_LUT": None, "offset": 0})], [q(0.0078125, 128)]),
        "slut": lambda: op("SigmoidLUT", [q(0.25, 128, lut={"LUT": l8[::-1], "reduced_LUT": None, "offset": 0})], [q(0.0078125, 128)]),
        "soft": lambda: op("Softmax", [], []),
        "tanh": lambda: op("Tanh", [], []),
        "mm": lambda: op("QLinearMatMul", [q(0.25, z("m")), nd(0.25, z("w"), "uint8", W, shp=sh(W)), q(1.0, z("m2"))], []),
        "add": lambda: op("QLinearAdd", [q(0.5, z("a")), nd(0.25, z("b"), "uint8", [9, 250], shp=(2,)), q(0.25, z("a2"))], []),
        "qsig": lambda: op("QLinearSigmoid", [q(0.0625, z("s")), q(0.00390625, z("s2"))], []),
    }


def same(c, a, b, label):
    c.check(str(getattr(a, "dtype", "?")) == str(getattr(b, "dtype", "?")), label + " (dtype)")
    c.same_shape(a, shape(b), label + " (shape)")
    c.check(And(*[eq(p, q) for p, q in zip(exl(a), exl(b))]), label)


def net(c, engine, graph, s_in=0.5, z_in=0, file=False, case_=None):
    schema = {"ir_version": "1", "engine": case_ or engine, "generated_at": None, "operators": len(graph), "graph": graph,
              "input": [nd(s_in, z_in)], "output": [nd(0.03, 5)]}
    S = c.mod(N).SequentialNetwork
    if not file:
        return S(schema)
    d = tempfile.mkdtemp()
    p = os.path.join(d, "m.json")
    try:
        with open(p, "w", encoding="utf-8") as f:
            json.dump(schema, f)
        return S.from_json_file(p)
    finally:
        os.path.exists(p) and os.unlink(p)
        os.rmdir(d)


def graph(c, engine, seq, zsym):
    zs = {}

    def z(k):
        if k not in zs:
            lo, hi = (-128, 127) if engine == "TFLITE" else (0, 255)
            zs[k] = c.int("z" + k, lo, hi) if zsym else (len(zs) * 37 + 11) % 90 - (0 if lo == 0 else 40)
        return zs[k]
    ops = t_ops(c, z) if engine == "TFLITE" else o_ops(c, z)
    return [ops[k]() for k in seq]


def stages(c, engine, g, x, s_in, z_in, pre):
    """every operator built and run on its own"""
    b = c.mod(TB).build_layer if engine == "TFLITE" else c.mod(OB).build_operator
    if pre:
        lo, hi = -128, 127
        x = c.mkarr([clamp(floor(v / Fr(s_in) + ex(z_in) + Fr(1, 2)), lo, hi) for v in exl(x)], shape(x), "int32")
    out = []
    for o in g:
        x = b(o).infer(x)
        out.append(x)
    return out


def inp(c, name, kind, shp):
    if kind == "real":
        return c.rarr(name, shp, -300.0, 300.0)
    if kind == "fine":
        return c.rarr(name, shp, -300.0, 300.0, -40)
    if kind == "realn":
        return c.rarr(name, shp, -8.0, 8.0)
    return c.iarr(name, shp, -128, 127, "int8") if kind == "int8" else c.iarr(name, shp, 0, 255, "uint8")


def h_net(c, engine, seq, kind, shp, zsym=True, file=False, case_=None, hist=1, flags=()):
    g = graph(c, engine, seq, zsym)
    pre = "QUANT" not in g[0]["name"].upper()
    z_in = c.int("z_in", -128, 127) if pre and not file else 3
    n = net(c, engine, g, 0.5, z_in, file, case_)
    c.check(len(n.layers) == len(g), "one layer per operator")
    x = inp(c, "x", kind, shp)
    before = exl(x)
    want = stages(c, engine, g, x, 0.5, z_in, pre)
    others = []
    for h in range(hist - 1):
        others.append(inp(c, f"h{h}", kind, shp if h % 2 == 0 or len(shp) > 1 and "fc2" in seq else (1,) + tuple(shp)))
        n.infer(others[-1])
    y = n.infer(x, **{f: True for f in flags})
    c.observe("y", y)
    same(c, y, want[-1], "the composition of the layers")
    ir = n._intermediate_results
    c.check(len(ir) == len(g), "one intermediate result per layer, of the latest inference only")
    for k, (a, b) in enumerate(zip(ir, want)):
        same(c, a, b, f"intermediate result {k}")
    c.check(And(*[eq(a, b) for a, b in zip(exl(x), before)]), "input left alone")
    c.same_shape(x, shp, "input shape left alone")
    n.infer(inp(c, "last", kind, shp))
    c.check(len(n._intermediate_results) == len(g), "intermediate results of the latest inference only")
    same(c, n.infer(x), want[-1], "repeatable")


def h_list(c, engine, seq, shp):
    """plain Python lists and tuples are inputs as well"""
    g = graph(c, engine, seq, False)
    n = net(c, engine, g)
    items = [c.real(f"x{i}", -300.0, 300.0) for i in range(prod(shp))]
    x = as_input(c, "list", items, shp)
    want = stages(c, engine, g, c.mkarr(items, shp, np.float64), 0.5, 0, False)
    same(c, n.infer(x), want[-1], "the composition of the layers")


def h_value(c, grid):
    """end to end against the formula: quantise, relu, table, dequantise"""
    z = {k: c.int("z" + k, -128, 127) for k in ("q", "r", "r2", "d")}
    g = [op("QUANTIZE", [nd(None, None, "float32")], [nd(0.25, z["q"])]), op("RELU", [nd(0.25, z["r"])], [nd(0.125, z["r2"])]),
         op("DEQUANTIZE", [nd(0.125, z["d"])], [nd(None, None, "float32")])]
    n = net(c, "TFLITE", g)
    x = c.real("x", -300.0, 300.0, grid)
    y = exl(n.infer(c.mkarr([x], (1,), np.float64)))[0]
    q = clamp(floor(ex(x) * 4 + ex(z["q"]) + Fr(1, 2)), -128, 127)
    r = clamp(mx(0, q - ex(z["r"])) * 2 + ex(z["r2"]), -128, 127)
    c.check(eq(y, (r - ex(z["d"])) * Fr(1, 8)), "value of the network")


def h_engine(c, n):
    """engine names other than the two are rejected; letter case does not matter"""
    nm = c.string("e", n, 33, 122)
    up = nm.upper()
    ok = bool(up == "TFLITE") or bool(up == "ONNX")
    g = [op("QUANTIZE", [nd(None, None, "float32")], [nd(0.25, 0)])] if bool(up == "TFLITE") else [op("DequantizeLinear", [nd(0.5, 3)], [nd(None, None)])]
    if ok:
        net(c, "", g, case_=nm)
        c.check(True, "accepted")
    else:
        c.check(c.expect_raises(lambda: net(c, "", g, case_=nm), (ValueError,)), "unknown engines are rejected")


T = "TFLITE"
GRAPHS = [
    (T, ("q", "relu", "dq"), "real", (2,)), (T, ("q", "lut", "relu", "dq"), "real", (2,)), (T, ("q", "relu", "lut", "dq"), "real", (1,)),
    (T, ("q", "fc2", "relu2", "dq"), "real", (2,)), (T, ("q", "fc2", "slut", "fc1", "dq"), "real", (1, 2)), (T, ("q", "relu", "relu2"), "real", (1, 2)),
    (T, ("q", "relu2", "relu"), "real", (1, 2)), ("ONNX", ("q", "mm", "add", "dq"), "real", (2,)), ("ONNX", ("q", "add", "mm", "dq"), "real", (1, 2)),
    ("ONNX", ("q", "mm", "dq", "tanh", "q"), "realn", (2,)), ("ONNX", ("q", "qsig", "dq"), "realn", (2,)), (T, ("qn", "relu"), "real", (2,)), (T, ("q16", "dq"), "real", (2, 2)), (T, ("q", "soft", "dq"), "real", (2,)),
    (T, ("relu", "lut"), "real", (2,)), (T, ("lut",), "real", (2,)), (T, ("fc2", "fc1"), "real", (2,)), (T, ("relu", "dq"), "real", (1, 2)), (T, ("soft",), "real", (2,)),
    (T, ("q", "relu", "dq"), "fine", (2,)), (T, ("relu", "lut"), "fine", (1,)), ("ONNX", ("q", "dq"), "fine", (2,)),
    (T, ("q", "dq", "q", "dq"), "real", (2,)), (T, ("dq", "q"), "real", (1,)), (T, ("q", "lstm", "dq"), "realn", (1, 1, 1)),
    (T, ("q", "tanh", "dq"), "realn", (1,)), (T, ("q", "sig"), "realn", (1,)),
    ("ONNX", ("q", "dq"), "real", (2,)), ("ONNX", ("q", "lut", "dq"), "real", (2,)), ("ONNX", ("q", "lut", "slut", "dq"), "real", (1,)),
    ("ONNX", ("q", "slut", "lut", "dq"), "real", (1,)), ("ONNX", ("q", "dq", "soft"), "realn", (2,)), ("ONNX", ("dq", "q"), "uint8", (2,)),
]


def cases(tier):
    th = tier == "thorough"
    out = []
    for e, seq, kind, shp in GRAPHS:
        f = {"opts": {"fork_max": True}} if "soft" in seq and e == "ONNX" else {}
        big = "lstm" in seq or seq == ("q", "add", "mm", "dq")
        nm = f"{e} {'-'.join(seq)}"
        out.append(case(nm, h_net, engine=e, seq=seq, kind=kind, shp=shp, zsym=not big, hist=1 if big else 3, weight=2, **f))
        if th:
            out.append(case(f"{nm} verbose", h_net, engine=e, seq=seq, kind=kind, shp=shp, zsym=False, hist=2, flags=("verbose", "isBatch"), weight=2, **f))
            if not big:
                out.append(case(f"{nm} bigger", h_net, engine=e, seq=seq, kind=kind, shp=tuple(shp[:-1]) + (2,) if len(shp) > 1 else (2, 2), zsym=True, hist=4, weight=4, **f)
                           if "fc1" not in seq else case(f"{nm} batch", h_net, engine=e, seq=seq, kind=kind, shp=(2, 2), zsym=True, hist=4, weight=4, **f))
    for e, seq in ((T, ("q", "fc2", "relu2", "dq")), ("ONNX", ("q", "lut", "dq")), (T, ("relu", "lut"))):
        out.append(case(f"{e} file {'-'.join(seq)}", h_net, engine=e, seq=seq, kind="real", shp=(2,), zsym=False, file=True, hist=2))
        out.append(case(f"{e} verbose batch {'-'.join(seq)}", h_net, engine=e, seq=seq, kind="real", shp=(2,), zsym=False, hist=2, flags=("verbose", "isBatch")))
    for e, cs in ((T, "tflite"), (T, "TfLite"), ("ONNX", "onnx"), ("ONNX", "Onnx")):
        out.append(case(f"engine spelled {cs}", h_net, engine=e, seq=("q", "lut", "dq"), kind="real", shp=(1,), zsym=False, case_=cs))
    for shp in ((2,), (1, 2)):
        out.append(case(f"list input {shp}", h_list, engine=T, seq=("q", "relu", "dq"), shp=shp))
    # long graphs and large batches
    LG = (T, ("q", "relu", "lut", "relu2", "fc2", "relu", "slut", "fc2", "lut", "relu2", "fc2", "relu", "fc2", "dq")), ("ONNX", ("q", "add", "lut", "qsig", "slut", "add", "lut", "qsig", "add", "slut", "lut", "dq", "tanh"))
    for e, seq in LG:
        out.append(case(f"{e} {len(seq)} operators", sparse(h_net, r"^x\[(0,)?0\]$"), engine=e, seq=seq, kind="real", shp=(2,), zsym=False, hist=2, weight=4))
        out.append(case(f"{e} large batch", sparse(h_net, r"^x\[69,1\]$"), engine=e, seq=seq[:4] + seq[-1:], kind="real", shp=(70, 2), zsym=False, hist=1, weight=4))
    for grid in (-10, -40):
        out.append(case(f"value 2^{grid}", h_value, grid=grid))
    for n in (0, 1, 4, 6, 7) if not th else range(0, 10):
        out.append(case(f"engine names of length {n}", h_engine, n=n))
    return out
