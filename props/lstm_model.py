"""An LSTM operator as the quantiser writes it, and the equations it stands for."""
from .common import *

L = "itcl_inference_engine.layers.itclq.lstm"
B = "itcl_inference_engine.layers.tflite.build_layer"
GATES = ("input", "forget", "cell", "output")


def sat(v, lo=-128, hi=127):
    return max(lo, min(hi, v))


# tables: a monotone one, one that is not, one that reaches the ends of the dtype
def table(kind, lo=-128, hi=127):
    n = hi - lo + 1
    if kind == "ramp":
        return [sat(lo + (i * 255) // max(1, n - 1) - (lo + 128)) for i in range(n)]
    if kind == "tanh":
        return [sat(round(127 * np.tanh((i + lo) / 32.0))) for i in range(n)]
    if kind == "sigm":
        return [sat(round(255 / (1 + np.exp(-(i + lo) / 24.0)) - 128)) for i in range(n)]
    return [sat(((i * 73 + 29) % 251) - 125) for i in range(n)]


S_POW2 = dict(inp=0.03125, k=[2.0 ** -6, 2.0 ** -7, 2.0 ** -5, 2.0 ** -6], rk=[2.0 ** -6, 2.0 ** -5, 2.0 ** -7, 2.0 ** -6], radd=[2.0 ** -4, 2.0 ** -5, 2.0 ** -4, 2.0 ** -3],
              hid=2.0 ** -7, cell=2.0 ** -5, i=2.0 ** -8, f=2.0 ** -8, g=2.0 ** -7, o=2.0 ** -8, ca=2.0 ** -7)
S_REAL = dict(inp=0.0271, k=[0.0113, 0.0091, 0.0137, 0.0101], rk=[0.0119, 0.0083, 0.0099, 0.0127], radd=[0.041, 0.037, 0.053, 0.029],
              hid=0.0079, cell=0.031, i=0.0039, f=0.00385, g=0.0078, o=0.0041, ca=0.0077)
S_BIG = dict(inp=0.25, k=[0.25, 0.5, 0.125, 0.25], rk=[0.0625, 0.125, 0.0625, 0.25], radd=[2.0 ** -6, 2.0 ** -5, 2.0 ** -6, 2.0 ** -7],
             hid=2.0 ** -8, cell=2.0 ** -6, i=2.0 ** -6, f=2.0 ** -6, g=2.0 ** -6, o=2.0 ** -6, ca=2.0 ** -7)


def opr(n, units, s, K, U, b, zps, luts, seq, dts=None):
    dts = dts or {}
    d = lambda k, dflt="int8": dts.get(k, dflt)
    t = lambda name, dt, tensor=None, shp=(1,): {"name": name, "dtype": dt, "shape": list(shp), "tensor": tensor}
    nd = lambda sc, z, ten, lut=None: {"scale": sc, "zero_point": z, "tensor": ten, "LUT": lut}
    off = lambda dt: -irange(dt)[0]
    lt = lambda tab, dt: {"LUT": tab, "reduced_LUT": None, "offset": off(dt)}
    ins = [nd(s["inp"], zps["inp"], t("in", "int8"))]
    ins += [nd(s["k"][g], zps["k"][g], t("k", "int8", K[g], (n, units))) for g in range(4)]
    ins += [nd(s["rk"][g], zps["rk"][g], t("rk", "int8", U[g], (units, units))) for g in range(4)]
    ins += [nd(s["inp"] * s["k"][g], 0, t("b", "int32", b[g], (units,))) for g in range(4)]
    ins += [nd(s["hid"] * s["rk"][g], 0, t("ba", "int32")) for g in range(4)]
    ins += [nd(s["radd"][g], zps["radd"][g], t("ra", d("radd"))) for g in range(4)]
    ins += [nd(s["cell"], zps["cell"], t("cell", d("cell")))]
    for j, g in enumerate("ifgo"):
        ins += [nd(s["radd"][j], zps["radd"][j], t("gi", d("radd")), lt(luts[g], d("radd"))), nd(s[g], zps[g], t("go", "int8"))]
    ins += [nd(s["cell"], zps["cell"], t("ci", d("cell")), lt(luts["ca"], d("cell"))), nd(s["ca"], zps["ca"], t("co", d("ca")))]
    outs = [nd(s["hid"], zps["hid"], t("h", d("hid")))]
    at = {"return_sequences": {"value": [seq], "dtype": "bool"}, "n_cells": {"value": [units], "dtype": "int"}}
    return {"op_type": "LSTM", "name": "lstm", "description": None, "attributes": at, "inputs": ins, "outputs": outs}


def weights(c, n, units, sym):
    """symbolic weights of the listed parts, fixed ones elsewhere"""
    def w(name, r, k, f, lo=-128, hi=127):
        if name in sym:
            return [[c.int(f"{name}_{i}_{j}", lo, hi) for j in range(k)] for i in range(r)]
        return [[f(i, j) for j in range(k)] for i in range(r)]
    K = [w(f"K{g}", n, units, lambda i, j: sat((i * 37 + j * 71 + g * 53) % 256 - 128)) for g in range(4)]
    U = [w(f"U{g}", units, units, lambda i, j: sat((i * 91 + j * 29 + g * 67 + 40) % 256 - 128)) for g in range(4)]
    b = [w(f"b{g}", 1, units, lambda i, j: (j * 977 + g * 1511) % 2000 - 1000, -2 ** 31, 2 ** 31 - 1)[0] for g in range(4)]
    return K, U, b


def zpoints(c, which):
    z = lambda k, v: c.int("z" + k, 1, 127) if which == "pos" else c.int("z" + k, -128, -1) if which == "neg" else v if which == "mixed" else 0
    zp = {k: z(k, v) for k, v in (("inp", -7), ("hid", 11), ("cell", -5), ("i", -128), ("f", -119), ("g", 3), ("o", -101), ("ca", -2))}
    zp["k"] = [z(f"k{g}", v) for g, v in enumerate((0, 5, -9, 2))]
    zp["rk"] = [z(f"rk{g}", v) for g, v in enumerate((4, 0, -3, 7))]
    zp["radd"] = [z(f"ra{g}", v) for g, v in enumerate((9, -17, 0, 30))]
    return zp
