"""Operator names select the right layer or are rejected."""
from .common import *
from . import lstm_model as LM
from .C16 import T as TFL, N, TB, OB, op, nd, LUT8, LUT8B, net, same

P = "itcl_inference_engine.layers."
BOUNDS = ("operator type and engine names: every ASCII string of length 0-16 (20 thorough), symbolic character by character; every supported name in every letter case and with every single "
          "character replaced, one character added in front, behind or removed; operators with symbolic zero points and inputs of 1-2 codes")
TF = {"TANH": ("tflite.tanh", "Tanh"), "TANHLUT": ("common.tanh", "TanhLUT"), "FULLY_CONNECTED": ("tflite.fullyconnected", "FullyConnected"), "LOGISTIC": ("tflite.logistic", "Sigmoid"),
      "SIGMOIDLUT": ("common.sigmoid", "SigmoidLUT"), "SOFTMAX": ("tflite.softmax", "SoftMax"), "QUANTIZE": ("tflite.quantize", "Quantize"),
      "DEQUANTIZE": ("tflite.dequantize", "Dequantize"), "RELU": ("common.relu", "RELU"), "LSTM": ("itclq.lstm", "LSTM")}
ON = {"QLinearAdd": ("onnx.q_linear_add", "QLinearAdd"), "QLinearMatMul": ("onnx.q_linear_mmul", "QLinearMatMul"), "QuantizeLinear": ("onnx.quantize_linear", "QuantizeLinear"),
      "QLinearSigmoid": ("onnx.q_linear_sigmoid", "QLinearSigmoid"), "SigmoidLUT": ("common.sigmoid", "SigmoidLUT"), "DequantizeLinear": ("onnx.dequantize_linear", "DequantizeLinear"),
      "Softmax": ("onnx.softmax", "Softmax"), "Tanh": ("onnx.tanh", "Tanh"), "TanhLUT": ("common.tanh", "TanhLUT")}


def cls(c, table, k):
    return getattr(c.mod(P + table[k][0]), table[k][1])


def ops(c, engine, kind, v):
    """an operator of this kind with parameters of its own (v tells two of them apart); symbolic zero points"""
    lo, hi = (-128, 127) if engine == TFL else (0, 255)
    z = lambda k: c.int(f"z{v}{k}", lo, hi)
    s = 0.25 if v == 0 else 0.5
    lut = (LUT8, LUT8B)[v]
    if engine == TFL:
        if kind == "FULLY_CONNECTED":
            W, B = ([[3, -2], [5, 1]], [40, -9]) if v == 0 else ([[-7, 4]], [13])
            return op(kind, [nd(s, z("i")), nd(0.5, z("w"), t=W), nd(s * 0.5, 0, "int32", t=B)], [nd(2.0, z("o"))])
        if kind in ("TANHLUT", "SIGMOIDLUT"):
            return op(kind, [nd(s, 0, lut={"LUT": lut, "reduced_LUT": None, "offset": 128})], [nd(s, 0)])
        if kind == "LSTM":
            return LM.opr(1, 1, LM.S_POW2, *LM.weights(c, 1, 1, ()), LM.zpoints(c, "mixed"),
                          {k: LM.table(w) for k, w in dict(i="sigm", f="mixed", g="tanh", o="ramp", ca="tanh" if v else "ramp").items()}, v == 0)
        return op(kind, [nd(s, z("i"))], [nd(s / 2, z("o"), "int8" if v == 0 else "int16")])
    q = lambda sc, zp, t=None, lut=None: nd(sc, zp, "uint8", t, lut, shp=np.shape(t) if t is not None else (1,))
    if kind == "QLinearMatMul":
        W = [[130, 100], [128, 140]] if v == 0 else [[7, 200], [0, 255]]
        return op(kind, [q(s, z("i")), q(0.5, z("w"), W), q(2.0, z("o"))], [])
    if kind == "QLinearAdd":
        return op(kind, [q(s, z("i")), q(0.5, z("b"), [3 + v, 250]), q(0.5, z("o"))], [])
    if kind in ("TanhLUT", "SigmoidLUT"):
        return op(kind, [q(s, 0, lut={"LUT": [x + 128 for x in lut], "reduced_LUT": None, "offset": 0})], [q(s, 0)])
    return op(kind, [q(s, z("i")), q(s / 2, z("o"))], [])


def direct(c, engine, kind, o):
    """the layer's own constructor from the operator"""
    C = cls(c, TF if engine == TFL else ON, kind)
    return C() if engine != TFL and kind in ("Softmax", "Tanh") else C.from_model(o)


def inp(c, engine, kind, name):
    if kind in ("QUANTIZE", "QuantizeLinear"):
        return c.rarr(name, (2,), -300.0, 300.0)
    if kind in ("Softmax", "Tanh"):
        return c.rarr(name, (2,), -8.0, 8.0)
    if kind == "LSTM":
        return c.iarr(name, (1, 1, 1), -128, 127, "int8")
    return c.iarr(name, (2,), -128, 127, "int8") if engine == TFL else c.iarr(name, (2,), 0, 255, "uint8")


def spell(c, engine, kind):
    """any spelling the engine accepts"""
    if engine != TFL:
        return kind
    up = c.string("s", len(kind), 0, 127)
    c.assume(up.upper() == kind)
    return up


def h_layer(c, engine, kind):
    b = c.mod(TB).build_layer if engine == TFL else c.mod(OB).build_operator
    o0, o1 = ops(c, engine, kind, 0), ops(c, engine, kind, 1)
    w0, w1 = direct(c, engine, kind, o0), direct(c, engine, kind, o1)
    nm = spell(c, engine, kind)
    o0, o1 = dict(o0, op_type=nm), dict(o1, op_type=nm)
    l0, l1 = b(o0), b(o1)
    c.check(type(l0) is type(w0) and type(l1) is type(w1), "the layer of the operator")
    x = inp(c, engine, kind, "x")
    same(c, l0.infer(x), w0.infer(x), "own parameters")
    same(c, l1.infer(x), w1.infer(x), "own parameters of the second operator")
    same(c, l0.infer(x), w0.infer(x), "operators do not share parameters")
    n = net(c, engine, [o0])
    c.check(len(n.layers) == 1 and type(n.layers[0]) is type(w0), "the network builds the same layer")


def h_quant(c, engine):
    """the four conversions against their formula"""
    lo, hi = (-128, 127) if engine == TFL else (0, 255)
    z, y = c.int("z", lo, hi), c.int("y", lo, hi)
    b = c.mod(TB).build_layer if engine == TFL else c.mod(OB).build_operator
    if engine == TFL:
        q = op("QUANTIZE", [nd(None, None, "float32")], [nd(0.5, z)])
        d = op("DEQUANTIZE", [nd(0.125, y)], [nd(None, None, "float32")])
    else:
        q = op("QuantizeLinear", [nd(0.5, z, "uint8")], [])
        d = op("DequantizeLinear", [nd(0.125, y, "uint8")], [])
    x = c.real("x", -300.0, 300.0)
    r = exl(b(q).infer(c.mkarr([x], (1,), np.float64)))[0]
    c.check(eq(r, clamp(floor(ex(x) * 2 + ex(z) + Fr(1, 2)), lo, hi)), "quantise")
    k = c.int("k", lo, hi)
    r = exl(b(d).infer(c.mkarr([k], (1,), "int8" if engine == TFL else "uint8")))[0]
    c.check(eq(r, (ex(k) - ex(y)) * Fr(1, 8)), "dequantise")


def universal(c, engine, nm):
    """an operator every layer could be built from"""
    if engine == TFL:
        o = LM.opr(1, 1, LM.S_POW2, *LM.weights(c, 1, 1, ()), LM.zpoints(c, "mixed"), {k: LM.table("ramp") for k in ("i", "f", "g", "o", "ca")}, True)
        o["inputs"][0]["LUT"] = {"LUT": LUT8, "reduced_LUT": None, "offset": 128}
    else:
        o = op("", [nd(0.25, 3, "uint8", [1, 2], {"LUT": LUT8, "reduced_LUT": None, "offset": 128}), nd(0.5, 2, "uint8", [[1, 2], [3, 4]])], [nd(0.5, 2, "uint8")])
    o["op_type"] = nm
    return o


def judge_name(c, engine, nm, ups):
    b = c.mod(TB).build_layer if engine == TFL else c.mod(OB).build_operator
    table = TF if engine == TFL else ON
    want = None
    for k in table:
        if len(k) == len(nm) and bool((nm.upper() if engine == TFL else nm) == k):
            want = k
    o = universal(c, engine, nm)
    if want is None:
        c.check(c.expect_raises(lambda: b(o), (ValueError,)), "unsupported operators are rejected")
        c.check(c.expect_raises(lambda: net(c, engine, [dict(o, name="n")]), (ValueError,)), "networks with unsupported operators are rejected")
    else:
        o = dict(ops(c, engine, want, 0), op_type=nm)
        c.check(type(b(o)) is type(direct(c, engine, want, o)), "the layer of the operator")


def h_names(c, engine, n):
    judge_name(c, engine, c.string("s", n, 0, 127), None)


def h_near(c, engine, kind):
    """one character replaced, added in front or behind; one removed"""
    ch = c.string("c", 1, 0, 127)
    pick = c.choice("edit", list(range(len(kind) + 2)))
    nm = ch + kind if pick == len(kind) else kind + ch if pick == len(kind) + 1 else kind[:pick] + ch + kind[pick + 1:]
    judge_name(c, engine, nm, None)


def h_drop(c, engine, kind):
    pick = c.choice("edit", list(range(len(kind))))
    judge_name(c, engine, kind[:pick] + kind[pick + 1:], None)


def cases(tier):
    th = tier == "thorough"
    out = []
    for e, table in ((TFL, TF), ("ONNX", ON)):
        for k in table:
            f = {"opts": {"fork_max": True}} if k == "Softmax" else {"opts": {"cut": True}} if k == "LSTM" else {}
            out.append(case(f"{e} {k}", h_layer, weight=2, engine=e, kind=k, **f))
            out.append(case(f"{e} near {k}", h_near, weight=2, engine=e, kind=k))
            out.append(case(f"{e} shortened {k}", h_drop, engine=e, kind=k))
        for n in range(0, 21 if th else 17):
            out.append(case(f"{e} names of length {n}", h_names, engine=e, n=n))
        out.append(case(f"{e} conversions", h_quant, engine=e))
    from .C16 import h_engine
    for n in range(0, 12) if th else (0, 3, 4, 5, 6):
        out.append(case(f"engine names of length {n}", h_engine, n=n))
    return out
