"""A small quantised LSTM operator."""
import os
import sys
sys.path[:0] = [os.path.join(os.getcwd(), "core"), os.path.join(os.getcwd(), "inference_engine")]
import numpy as np
from itcl_inference_engine.layers.itclq.lstm import LSTM


def node(s, zp, tensor=None, dtype="int8", lut=None):
    return {"scale": s, "zero_point": zp, "tensor": {"name": "", "dtype": dtype, "shape": [], "tensor": tensor},
            "LUT": None if lut is None else {"LUT": lut, "reduced_LUT": None, "offset": 128}}


def table(fn, s_in, zp_in, s_out, zp_out):
    return [int(np.clip(np.floor(fn((c - zp_in) * s_in) / s_out + zp_out + 0.5), -32768, 32767)) for c in range(-128, 128)]


def operator(zps={}, sequences=True):
    sig, tanh = (lambda x: 1 / (1 + np.exp(-x))), np.tanh
    z = dict(dict(input=0, forget=0, cell=0, output=0, state=0), **zps)
    inputs = [node(1 / 32, 0)]
    inputs += [node(1 / 64, 0, [[k]]) for k in (40, 50, -30, 60)]
    inputs += [node(1 / 64, 0, [[k]]) for k in (20, 30, 50, -20)]
    inputs += [node(1 / 2048, 0, [b], "int32") for b in (100, 700, -300, 400)]
    inputs += [node(1 / 4096, 0, None, "int32") for _ in range(4)]
    inputs += [node(1 / 32, 0) for _ in range(4)]
    inputs += [node(1 / 64, 0)]
    for n, f in (("input", sig), ("forget", sig), ("cell", tanh), ("output", sig)):
        inputs += [node(1 / 32, 0, lut=table(f, 1 / 32, 0, 1 / 64, z[n])), node(1 / 64, z[n])]
    inputs += [node(1 / 64, 0, lut=table(tanh, 1 / 64, 0, 1 / 64, z["state"])), node(1 / 64, z["state"])]
    return {"op_type": "LSTM", "name": "LSTM", "description": "", "inputs": inputs, "outputs": [node(1 / 64, 0)],
            "attributes": {"return_sequences": {"value": [sequences], "type": "bool"}}}


def layer(op):
    return LSTM.from_model(op)


def run(op):
    return layer(op).infer(np.array([[[60], [-90], [30], [100], [5]]]))
