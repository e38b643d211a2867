"""The planted bugs: id, property, edits, what they need, what they break, demo."""
SEEDS = []
CORE = "core/itcl_quantization/quantization/"
IE = "inference_engine/itcl_inference_engine/"
QZ = "quantizer/itcl_quantizer/"
MC = "model_converters/"


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed("C01-int16-storage", "C01",
     [(CORE + "operators.py", 'self.dtype.max()).astype("int32")', 'self.dtype.max()).astype("int16" if self.dtype.max() < 2**16 else "int32")')],
     "an unsigned 16-bit dtype and a value whose code is above 32767", "codes of uint16 above 32767 wrap to negative numbers",
     '''
import numpy as np
from itcl_quantization import Quantization
r = Quantization("uint16").quantize(np.array([40000.0, 70000.0, 3.0]), 0, 1.0)
assert r.tolist() == [40000, 65535, 3], r
''')

seed("C02-narrow-subtraction", "C02",
     [(IE + "util/quantization.py", "return int8_quantization.dequantize(int8_val, zero_point, scale)",
       "return (np.asarray(int8_val) - zero_point) * scale")],
     "an int8 array whose difference to the zero point leaves int8", "the zero point is subtracted in int8 and wraps around",
     '''
import numpy as np
from itcl_inference_engine.util.quantization import from_int8
r = from_int8(np.array([-128, 0, 127], dtype=np.int8), 100, 0.5)
assert r.tolist() == [-114.0, -50.0, 13.5], r
''')

seed("C03-base-policy-ties", "C03",
     [(QZ + "equalizers/adaround/irounding_policy.py", "np.where(np.floor(tensor + 0.5) > tensor, 1, 0)", "np.where(np.round(tensor) > tensor, 1, 0)")],
     "a weight exactly half way between two codes, the lower one even", "the base policy rounds such a tie down while quantisation to nearest rounds it up",
     '''
from shell import mod
import numpy as np
from itcl_quantization import Quantization
base = mod("itcl_quantizer.equalizers.adaround.irounding_policy").get_base_rounding
x, s = np.array([0.5, 1.5, -0.5, 2.25, 2.75]), 1.0
q = Quantization("int8")
a, b = q.quantize(x, 3, s), q.quantize(x, 3, s, base(x, s))
assert a.tolist() == b.tolist(), (a, b)
''')

seed("C04-padded-names", "C04",
     [(CORE + "operators.py", "if self.__repr != dtype.lower():", "if self.__repr != dtype.strip().lower():")],
     "a name with white space around it", "names that are not exactly a type and a width are accepted",
     '''
from itcl_quantization.quantization.operators import GenericDtype
for name in (" int8", "uint16\\n", "int8 "):
    try:
        GenericDtype(name)
    except Exception:
        continue
    raise SystemExit(f"{name!r} accepted")
assert str(GenericDtype("INT8")) == "int8"
''')

seed("C05-narrow-table-output", "C05",
     [(IE + "layers/common/lut.py", "np.vectorize(lut)", "np.vectorize(lut, otypes=[np.int8])")],
     "a table with entries outside int8 (unsigned or 16-bit tables)", "entries above 127 wrap",
     '''
import numpy as np
from itcl_inference_engine.layers.common.lut import LUTActivation
r = LUTActivation([10, 200, 300, -5], 2).infer(np.array([[-2, -1], [0, 1]]))
assert r.tolist() == [[10, 200], [300, -5]], r
''')

seed("C06-sorted-tail", "C06",
     [(CORE + "lut.py", '"tuples": self.right_tuples,', '"tuples": sorted(self.right_tuples),')],
     "a tail with at least two values, after serialisation", "a deserialised table answers the codes of the tail with the value of its first interval",
     '''
import json
from itcl_quantization.quantization.lut import ReducedLUT
t = [0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 7, 8, 8, 8]
r = ReducedLUT(t, 3, 1)
d = ReducedLUT.deserialize(json.loads(json.dumps(r.serialize())))
assert [d[i] for i in range(len(t))] == t
''')

seed("C07-narrow-minuend", "C07",
     [(CORE + "operators.py", "    def __sub__(self, other):\n        larger = self.get_larger_dtype(self, other)\n", "    def __sub__(self, other):\n        larger = self\n")],
     "a subtraction whose first operand is narrower than the second", "the wider operand wraps to the doubled width of the narrower one",
     '''
import numpy as np
from itcl_quantization.quantization.operators import Dtype
r = Dtype(np.int8(1), "int8") - Dtype(np.int32(100000), "int32")
assert int(r.value) == -99999, r.value
''')

seed("C08-mantissa-carry", "C08",
     [(IE + "util/floating.py", "            quantized_multiplier //= 2\n            shift += 1\n", "            quantized_multiplier //= 2\n")],
     "a factor just below a power of two, whose mantissa rounds up to it", "the product is half of the expected one",
     '''
from itcl_inference_engine.util.floating import FloatingIntegerApprox
f = 1 - 2.0**-34
r = FloatingIntegerApprox(f) * 1000
assert abs(r - 1000 * f) < 1, r
''')

seed("C09-int32-accumulator", "C09",
     [(IE + "layers/tflite/fullyconnected.py", "        weights_matrix = self.__weights.astype(np.int64)\n\n        bias_vector = self.__bias.astype(np.int64)\n",
       "        weights_matrix = self.__weights.astype(np.int32)\n\n        bias_vector = self.__bias.astype(np.int32)\n"),
      (IE + "layers/tflite/fullyconnected.py", "        return mmul_res + self.__bias\n\n        accumulator = []", "        return mmul_res.astype(np.int32) + bias_vector\n\n        accumulator = []")],
     "a bias near the end of int32", "the accumulator wraps when the products are added to a large bias",
     '''
import numpy as np
from itcl_inference_engine.layers.tflite.fullyconnected import FullyConnected
fc = FullyConnected.build(0.001, 0, 0.001, 0, np.array([[100, 100]]), 1e-6, 0, np.array([2**31 - 100]), 0.1, 0)
r = fc.infer(np.array([127, 127]))
assert r.tolist() == [127], r
''')

seed("C10-zero-point-before-rounding", "C10",
     [(IE + "layers/onnx/q_linear_add.py", "np.round((i_scale * i + b_scale * b) / o_scale) + o_zp", "np.round((i_scale * i + b_scale * b) / o_scale + o_zp)")],
     "a sum exactly half way between two codes and an odd output zero point", "the tie is rounded to the even code instead of the even quotient",
     '''
import numpy as np
from itcl_inference_engine.layers.onnx.q_linear_add import QLinearAdd
r = QLinearAdd(0.5, 0, np.array([0, 0], dtype=np.uint8), 0.5, 0, 1.0, 3).infer(np.array([1, 3], dtype=np.uint8))
assert r.tolist() == [3, 5], r
''')

seed("C11-saturated-tanh", "C11",
     [(IE + "layers/tflite/tanh.py", "return quant.to_int8(np.array(np.tanh(res)), 0, 1 / 128)", "return np.round(np.tanh(res) * 128).astype(np.int8)")],
     "an input so large that tanh rounds to one", "the code 128 wraps to -128",
     '''
import numpy as np
from itcl_inference_engine.layers.tflite.tanh import Tanh
r = Tanh(0.5, 0).infer(np.array([-128, -1, 0, 1, 127]))
assert r.tolist() == [-128, -59, 0, 59, 127], r
''')

seed("C14-forget-zero-point", "C14",
     [(IE + "layers/itclq/lstm.py", "* (activated_forget_gate - self._forget_gate_zp)", "* (activated_forget_gate - self._input_gate_zp)")],
     "gate outputs with different zero points and at least two steps", "the forget gate is corrected with the zero point of the input gate",
     '''
from lstmop import operator, run
import numpy as np
a = run(operator(zps=dict(forget=0)))
# shifting the codes of the forget gate and its zero point together changes nothing
b = run(operator(zps=dict(forget=-20)))
assert a.tolist() == b.tolist(), (a, b)
''')

seed("C15-skipped-steps", "C15",
     [(IE + "layers/itclq/lstm.py", "        for input_timestep in input_norm:\n", "        # Skip the padding\n        for input_timestep in (step for step in input_norm if step.any()):\n")],
     "a batch in which one element has a step of zeros and another has not", "the step of zeros is skipped only when the element runs alone",
     '''
from lstmop import operator, layer
import numpy as np
x = np.array([[[0], [0], [40]], [[30], [20], [10]]])
l = layer(operator(sequences=False))
both = l.infer(x)
alone = l.infer(x[:1])
assert both[0].tolist() == alone[0].tolist(), (both, alone)
''')

seed("C16-layers-by-name", "C16",
     [(IE + "network/sequential.py", "        for layer in schema[\"graph\"]:\n            logger.info(layer[\"name\"])\n            layers.append(build_layer(layer))\n",
       "        built = {}\n        for layer in schema[\"graph\"]:\n            logger.info(layer[\"name\"])\n            if layer[\"name\"] not in built:\n                built[layer[\"name\"]] = build_layer(layer)\n            layers.append(built[layer[\"name\"]])\n")],
     "two operators with the same name (the converters name operators after their type)", "the second operator runs with the parameters of the first",
     '''
import sys, types
tf = types.ModuleType("tensorflow"); k = types.ModuleType("tensorflow.keras"); a = types.ModuleType("tensorflow.keras.activations")
a.sigmoid = None
sys.modules.update({"tensorflow": tf, "tensorflow.keras": k, "tensorflow.keras.activations": a})
import numpy as np
from itcl_inference_engine.network.sequential import SequentialNetwork
def node(s, zp):
    return {"scale": s, "zero_point": zp, "tensor": None, "LUT": None}
def op(t, n, i, o):
    return {"op_type": t, "name": n, "description": n, "inputs": i, "outputs": o, "attributes": {}}
net = {"engine": "ONNX", "input": [node(1.0, 0)], "output": [node(1.0, 0)], "generated_at": "",
       "graph": [op("QuantizeLinear", "QuantizeLinear", [node(2.0, 10)], []), op("DequantizeLinear", "DequantizeLinear", [node(2.0, 10)], []),
                 op("QuantizeLinear", "QuantizeLinear", [node(1.0, 0)], []), op("DequantizeLinear", "DequantizeLinear", [node(1.0, 0)], [])]}
r = SequentialNetwork(net).infer(np.array([100.0, -6.0]))
assert r.tolist() == [100.0, 0.0], r
''')

seed("C17-softmax-suffix", "C17",
     [(IE + "layers/onnx/build_operator.py", 'elif opt == "Softmax":', 'elif opt.endswith("Softmax"):')],
     "an operator type that ends in Softmax, such as QLinearSoftmax or LogSoftmax", "an unsupported operator builds a softmax",
     '''
from itcl_inference_engine.layers.onnx.build_operator import build_operator
try:
    build_operator({"op_type": "LogSoftmax", "name": "x", "description": "", "inputs": [], "outputs": [], "attributes": {}})
except ValueError:
    raise SystemExit(0)
raise SystemExit("LogSoftmax accepted")
''')

seed("C18-symmetric-top-code", "C18",
     [(QZ + "quantizer/distributions/distribution.py", "            if symmetric:\n                scale /= q_max\n            else:\n", "            if symmetric:\n                scale /= (q_max - q.min_value()) / 2\n            else:\n")],
     "symmetric calibration with a forced zero point", "the largest magnitude falls between the top code and the one above it",
     '''
from shell import mod
import numpy as np
D = mod("itcl_quantizer.quantizer.distributions.distribution").Distribution
s, zp = D(np.array([-1.0, -3.0, 127.0, 50.0])).quantize(force_zp=0, symmetric=True)
assert zp == 0 and abs(127.0 / s - 127) < 1e-9, (s, zp)
''')

seed("C19-unchanged-parameters", "C19",
     [(QZ + "tensor_extractor/tensor.py", "        self._scale = scale\n        self._zero_p = zero_point\n        if requantize:\n            self._requantize()\n",
       "        changed = (scale, zero_point) != (self._scale, self._zero_p)\n        self._scale = scale\n        self._zero_p = zero_point\n        if requantize and changed:\n            self._requantize()\n")],
     "an update without requantisation followed by one to the same parameters with it", "the tensor keeps the integers of older parameters",
     '''
from shell import mod
import numpy as np
from itcl_quantization import Quantization
T = mod("itcl_quantizer.tensor_extractor.tensor")
n = T.NodeTensorBase(1.0, 0, "n", Quantization("int8")).with_tensor(np.array([1.0, 2.0, 3.0]))
n.update_quant_parameters(0.5, 1, requantize=False)
n.update_quant_parameters(0.5, 1)
assert n.quantized.tolist() == [3, 5, 7], n.quantized
''')

seed("C20-zero-point-update", "C20",
     [(QZ + "tensor_extractor/tensor.py", "        self._input_s = input_s\n        self._input_zp = input_zp\n        self._create()\n",
       "        if input_s != self._input_s:\n            self._input_s = input_s\n            self._input_zp = input_zp\n            self._create()\n")],
     "an update that changes only the zero point of the input node", "the table stays at the old zero point",
     '''
from shell import mod
import numpy as np
from itcl_quantization import Quantization
T = mod("itcl_quantizer.tensor_extractor.tensor")
q = Quantization("int4")
n = T.NodeTensorBase(0.5, 0, "n", q).with_lut(lambda x: 2 * x, 1.0, 0)
n.update_quant_parameters(0.5, 3)
f = T.NodeTensorBase(0.5, 3, "n", q).with_lut(lambda x: 2 * x, 1.0, 0)
assert [n.LUT(c) for c in range(-8, 8)] == [f.LUT(c) for c in range(-8, 8)]
''')

seed("C21-stale-input-scale", "C21",
     [(QZ + "tensor_extractor/keras/layers/keras_dense.py", "            kernel_node.scale * input_node.scale, bias_node.zero_point\n", "            kernel_node.scale * input_node_s, bias_node.zero_point\n")],
     "a change of the input scale after the quantisation of the layer", "the bias scale keeps using the input scale of the quantisation",
     '''
from shell import mod, Dense
import numpy as np
from itcl_quantization import Quantization
T, AL, KD = (mod("itcl_quantizer.tensor_extractor." + m) for m in ("tensor", "abstract_layer", "keras.layers.keras_dense"))
def linear(x):
    return x
d = Dense([np.array([[1.0, -2.0], [0.5, 3.0]]), np.array([0.25, -1.0])], linear)
x = np.array([[1.0, 2.0], [-1.0, 0.5]])
n = T.NodeTensorBase(0.25, 0, "in", Quantization("int8")).with_tensor(x)
r = KD.KerasDense(d).quantize(AL.QuantizationResult(x, [], n, None))
i, k, b = r.operators[0].inputs
i.update_quant_parameters(0.125, 0)
k.update_quant_parameters(0.5, 0)
assert abs(b.scale - i.scale * k.scale) < 1e-12, (b.scale, i.scale * k.scale)
''')

seed("C30-values-on-edges", "C30",
     [(QZ + "quantizer/distributions/distribution.py", 'min_idx = a.searchsorted(lower, side="left")', 'min_idx = a.searchsorted(lower, side="right")')],
     "data exactly on the lower edge of a slice", "values on the lower edge are dropped from the data but counted in the histogram",
     '''
from shell import mod
import numpy as np
D = mod("itcl_quantizer.quantizer.distributions.distribution").Distribution
d = D(np.array([0.0, 1.0, 2.0, 2.0, 3.0, 4.0]), bins=4)[2.0:3.5]
assert sum(d.get_histogram()) == len(d._sorted_a), (d.get_histogram(), d._sorted_a)
''')

seed("C12-narrow-comparison", "C12",
     [(IE + "layers/common/relu.py", "(input_.astype(np.int16)).clip(min=self.input_zp)", "np.where(input_ - self.input_zp < 0, self.input_zp, input_.astype(np.int16))")],
     "an int8 array and a zero point so far from the code that their difference leaves int8",
     "the sign of the represented real is taken from a difference that wraps around",
     '''
import numpy as np
from itcl_inference_engine.layers.common.relu import RELU
r = RELU(0.5, -100, 0.5, -100)
got = np.asarray(r.infer(np.array([-128, -100, 0, 100, 127], dtype=np.int8))).tolist()
assert got == [-100, -100, 0, 100, 127], got
''')

seed("C22-cell-slice", "C22",
     [(QZ + "tensor_extractor/keras/layers/keras_lstm.py", "            recurrent_add[:, :, 2 * self._n_units : 3 * self._n_units],\n",
       "            recurrent_add[:, :, 2 * self._n_units : -1],\n")],
     "more than one unit, or pre-activations of the output gate outside the range of those of the cell gate",
     "the table of the cell gate is calibrated on data of the output gate as well",
     '''
from shell import mod
import numpy as np
from itcl_quantization import Quantization
import types, sys
KL = mod("itcl_quantizer.tensor_extractor.keras.layers.keras_lstm")
T, AL = mod("itcl_quantizer.tensor_extractor.tensor"), mod("itcl_quantizer.tensor_extractor.abstract_layer")
KL.tf.math = types.SimpleNamespace(sigmoid=lambda x: 1 / (1 + np.exp(-np.asarray(x))))
seen = []
old = KL.quantize_activation_node
def spy(fn, name, data, *a, **k):
    seen.append(np.asarray(data))
    return old(fn, name, data, *a, **k)
KL.quantize_activation_node = spy
w = np.array([[1.0, -1.0, 0.5, 2.0, 0.25, -0.75, 7.0, -9.0]])
layer = types.SimpleNamespace(name="lstm", units=2, return_sequences=True, get_weights=lambda: [w, w[[0, 0]] / 8, w[0] / 4])
x = np.array([[[1.0], [-2.0], [0.5]]])
node = T.NodeTensorBase(0.25, 0, "in", Quantization("int8")).with_tensor(x)
KL.KerasLSTM(layer).quantize(AL.QuantizationResult(x, [], node, None))
whole = KL.LSTM(layer).call(x).recurrent_add
for i in range(4):
    assert np.array_equal(seen[i], whole[:, :, 2 * i:2 * i + 2]), (i, seen[i].shape)
''')

seed("C23-unchanged-stay", "C23",
     [(QZ + "equalizers/param_equalizer/abstract_param_optimizer.py",
       "            t.update_quant_parameters(f.scale, f.zero_point, requantize=requantize)\n",
       "            if (t.scale, t.zero_point) != (f.scale, f.zero_point):\n                t.update_quant_parameters(f.scale, f.zero_point, requantize=requantize)\n")],
     "a tensor whose parameters were changed without requantising it before the best parameters are installed",
     "the tensor has the installed parameters already and keeps integers of other parameters",
     '''
from shell import mod
import numpy as np
from itcl_quantization import Quantization
T = mod("itcl_quantizer.tensor_extractor.tensor")
P = mod("itcl_quantizer.equalizers.param_equalizer.abstract_param_optimizer")
class Opt(P.AbstractParamOptimizer):
    def optimize(self):
        return self.state, 0.0
x = np.array([1.0, -2.0, 3.5])
a = T.NodeTensorBase(0.5, 0, "a", Quantization("int8")).with_tensor(x)
b = T.NodeTensorBase(0.25, 3, "b", Quantization("int8")).with_tensor(x)
o = Opt()
o.copy([a], [b], False)
o.copy([a], [b], True)
assert a.quantized.tolist() == b.quantized.tolist() == [7, -5, 17], a.quantized
''')

seed("C24-shared-bits", "C24",
     [(QZ + "equalizers/adaround/annealer.py", "            flatten = tensor.flatten()\n", "            flatten = tensor.ravel()\n")],
     "a search step that is worse than the best policy so far", "the bits of the best policy are flipped in place",
     '''
from shell import mod
import numpy as np
import importlib
class Annealer:
    def anneal(self):
        return self.state, self.energy()
importlib.import_module("simanneal").Annealer = Annealer
R = mod("itcl_quantizer.equalizers.adaround.annealer").RoundingAnnealer
r = R(max_retries=3)
cost = lambda p: float(np.sum(p[0]))
r.set_cost_fn(cost)
r.set_initial_neigh([np.zeros(6, dtype=int)])
best, energy = r.optimize()
assert cost(best) == energy == 0.0, (best, energy)
''')

seed("C25-positive-couplings", "C25",
     [(QZ + "equalizers/adaround/qubocalculation.py", """def Bterm_Calculation_Vuelta(Bt2,Diccionario2,Dimension_Input,Indice_del_subespacio):
    for i in range(0,Dimension_Input):
        for j in range(0,Dimension_Input):
            if Bt2[j+i*Dimension_Input]==0:
""", """def Bterm_Calculation_Vuelta(Bt2,Diccionario2,Dimension_Input,Indice_del_subespacio):
    for i in range(0,Dimension_Input):
        for j in range(0,Dimension_Input):
            if Bt2[j+i*Dimension_Input]<=0:
""")],
     "a second neuron and two inputs that are negatively correlated", "the couplings between those two weights are left out of the energy",
     '''
from shell import mod
import numpy as np
Q = mod("itcl_quantizer.equalizers.adaround.qubocalculation")
bt2 = np.array([0.0, -0.5, -0.5, 0.0])
d = Q.Bterm_Calculation_Vuelta(bt2, {}, 2, 1)
assert d == {(3, 4): -0.5, (4, 3): -0.5}, d
''')

seed("C26-upper-half", "C26",
     [(QZ + "equalizers/adaround/qubocalculation.py", "    J=Diccionario\n", "    J={k: v for k, v in Diccionario.items() if k[0] <= k[1]}\n")],
     "a coupling that outweighs the linear terms only when both of its halves count", "the problem handed to the sampler has half of each coupling",
     '''
from shell import mod
import itertools
from types import SimpleNamespace as N
Q = mod("itcl_quantizer.equalizers.adaround.qubocalculation")
class Sampler:
    def sample(self, p):
        vs = sorted({v for k in p for v in k})
        return min(({v: b for v, b in zip(vs, bits)} for bits in itertools.product((0, 1), repeat=len(vs))),
                   key=lambda a: sum(w * a[i] * a[j] for (i, j), w in p.items()))
Q.dimod = N(BinaryQuadraticModel=lambda h, J, o, t: J, BINARY="BINARY")
Q.neal = N(SimulatedAnnealingSampler=Sampler)
r = Q.Quantum_annealing_simulator({(1, 1): -1.0, (2, 2): -1.5, (1, 2): 0.75, (2, 1): 0.75}, 0)
assert r == {1: 0, 2: 1}, r
''')

ONNXDEMO = '''
import os, sys
from types import SimpleNamespace as N
from shell import mod
import numpy as np
sys.path.insert(0, os.path.join(os.getcwd(), "model_converters", "onnx2json"))
'''

seed("C27-transpose-by-shape", "C27",
     [(MC + "onnx2json/helpers/nodeBuilders/buildBaseNode.py", "input_arr = np.transpose(input_arr)", "input_arr = input_arr.reshape(input_arr.shape[::-1])")],
     "a weight matrix with more than one row and one column", "the entries of the matrix are in the wrong places",
     ONNXDEMO + '''
from helpers.nodeBuilders.buildBaseNode import build_quantized_node
w = np.array([[1, 2, 3], [4, 5, 6]], dtype="uint8")
init = [N(name="w", raw_data=w.tobytes(), dims=[2, 3]), N(name="s", float_data=[0.5]), N(name="z", int32_data=[7])]
r = build_quantized_node(N(graph=N(initializer=init)), "w", "s", "z", "uint8", transpose=True)
assert r["tensor"]["tensor"] == w.T.tolist() and r["tensor"]["shape"] == [3, 2], r
''')

seed("C28-dynamic-steps", "C28",
     [(MC + "keras2json/keras2json/layers/lstm.py", "window_size = layer._batch_input_shape[-2]", "window_size = layer._batch_input_shape[-2] or 1")],
     "an LSTM layer whose number of steps is left open", "the open number of steps is written as one step",
     '''
import os, sys
from shell import mod
import numpy as np
sys.path.insert(0, os.path.join(os.getcwd(), "model_converters", "keras2json"))
import types
pkg = types.ModuleType("keras2json"); pkg.__path__ = [os.path.join(os.getcwd(), "model_converters", "keras2json", "keras2json")]
sys.modules["keras2json"] = pkg
lay = types.ModuleType("keras2json.layers"); lay.__path__ = [pkg.__path__[0] + "/layers"]
sys.modules["keras2json.layers"] = lay
from keras2json.layers.lstm import LSTM
class Layer:
    _batch_input_shape = (None, None, 2)
    def get_config(self):
        return {"units": 1, "name": "lstm", "return_sequences": True}
    def get_weights(self):
        return [np.ones((2, 4)), np.ones((1, 4)), np.zeros(4)]
op, = LSTM.from_model(Layer())
assert op["attributes"]["steps"]["value"] == [None], op["attributes"]
Layer._batch_input_shape = (None, 5, 2)
assert LSTM.from_model(Layer())[0]["attributes"]["steps"]["value"] == [5]
''')

seed("C29-zero-zero-point", "C29",
     [(MC + "tflite2json/itcl_tflite2json/operators/BaseOperator.py", "if isinstance(s, np.ndarray) or isinstance(zp, np.ndarray):", "if isinstance(s, np.ndarray) and isinstance(zp, np.ndarray):")],
     "a tensor with zero point 0", "its scale and zero point are lost",
     '''
import os, sys, types
from shell import mod
import numpy as np
pkg = types.ModuleType("itcl_tflite2json"); pkg.__path__ = [os.path.join(os.getcwd(), "model_converters", "tflite2json", "itcl_tflite2json")]
sys.modules["itcl_tflite2json"] = pkg
ops = types.ModuleType("itcl_tflite2json.operators"); ops.__path__ = [pkg.__path__[0] + "/operators"]
sys.modules["itcl_tflite2json.operators"] = ops
enum = types.ModuleType("itcl_tflite2json.util.enum2str"); enum.layers2str = enum.dtype2str = str
sys.modules["itcl_tflite2json.util.enum2str"] = enum
B = __import__("itcl_tflite2json.operators.BaseOperator", fromlist=["BaseOperator"])
N = types.SimpleNamespace
for zp in (0, 5):
    q = N(ScaleAsNumpy=lambda: np.array([0.5]), ZeroPointAsNumpy=lambda: np.array([zp]))
    t = N(Name=lambda: b"t", Buffer=lambda: 0, Quantization=lambda: q, ShapeAsNumpy=lambda: np.array([1, 2]), Type=lambda: 9)
    r = B.BaseOperator.build_from_node(None, t, N(Buffers=lambda i: N(DataAsNumpy=lambda: 0)), {})
    assert (r["scale"], r["zero_point"]) == (0.5, zp), r
''')

seed("C31-operators-once", "C31",
     [(QZ + "util/network.py", "                if op is not None:\n                    self._layers.append(op)\n",
       "                # every operator is listed once\n                if op is not None and op.name not in [layer.name for layer in self._layers]:\n                    self._layers.append(op)\n")],
     "two layers with the same table activation (table operators are named after their function)", "the second activation is missing from the network",
     '''
from shell import mod, Dense
import numpy as np
from itcl_quantization import Quantization
KI = mod("itcl_quantizer.tensor_extractor.keras.layers.keras_input").KerasInput
KD = mod("itcl_quantizer.tensor_extractor.keras.layers.keras_dense").KerasDense
DQ = mod("itcl_quantizer.tensor_extractor.keras.layers.dequantize").Dequantize
R = mod("itcl_quantizer.tensor_extractor.abstract_layer").QuantizationResult
Network = mod("itcl_quantizer.util.network").Network
def tanh(x):
    return np.tanh(x)
X = np.random.RandomState(0).uniform(-1, 1, (200, 2))
W = [np.array([[1.0, -0.5], [0.25, 1.5]]), np.array([[2.0, -1.0], [0.5, 1.0]])]
inp = KI(Quantization("int8"))
res = [inp.quantize(R(X, None, None, inp))]
want = X
for k, w in enumerate(W):
    res.append(KD(Dense([w, np.zeros(2)], tanh, f"dense_{k}")).quantize(res[-1]))
    want = np.tanh(want @ w)
res.append(DQ().quantize(res[-1]))
got = Network(res).as_sequential_network().infer(X)
assert np.abs(got - want).max() < 0.1, np.abs(got - want).max()
''')

seed("C32-default-retries", "C32",
     [(QZ + "config/models/keras.py", "t_min=0.1, t_max=0.1, updates=100, steps=0, max_retries=self.max_retries\n", "t_min=0.1, t_max=0.1, updates=100, steps=0\n")],
     "a local search of the rounding configured with another number of retries than the default", "the search ignores the configured number of retries",
     '''
from shell import mod
import numpy as np
import simanneal
class Annealer:
    def anneal(self):
        return self.state, self.energy()
simanneal.Annealer = Annealer
cfg = mod("itcl_quantizer.config.models.keras").RoundingMinimaCfg()
for n in (100, 3):
    cfg.max_retries = n
    calls = []
    opt = cfg.build().set_cost_fn(lambda neigh: calls.append(neigh) or 1.0).set_initial_neigh([np.zeros((2, 2), dtype="int64")])
    opt.optimize()
    assert n <= len(calls) <= n + 3, (n, len(calls))
''')

seed("C33-stale-batch", "C33",
     [("demo/demo_lib/demo_lib/fpga.py", "            # Clear the result sync event & buffer\n            self._result_event.clear()\n            self._result = None\n", "            # Clear the result sync event\n            self._result_event.clear()\n")],
     "two batches, the answer of the second one does not arrive", "the answer of the batch before it is returned for a batch that was never answered",
     '''
import json, logging, os, sys, types
logging.disable(logging.CRITICAL)
sys.dont_write_bytecode = True
for p in ("core", "inference_engine", "demo/demo_lib"):
    sys.path.insert(0, os.path.join(os.getcwd(), p))
for n in ("paho", "paho.mqtt", "paho.mqtt.client", "tensorflow", "tensorflow.keras", "tensorflow.keras.activations"):
    m = sys.modules[n] = types.ModuleType(n)
    m.__path__, m.sigmoid, m.tanh = [], None, None
sys.modules["paho.mqtt.client"].Client = sys.modules["paho.mqtt.client"].MQTTMessage = object
import typing
sys.modules.setdefault("typing_extensions", typing)
import numpy as np
from demo_lib.fpga import InferFPGAMQTT


class Client:
    answers = 0

    def subscribe(self, *a, **k):
        pass

    def message_callback_add(self, topic, f):
        self.f = f

    def publish(self, topic, text, qos=0):
        if topic == "in" and self.answers > 0:
            self.answers -= 1
            r = json.loads(text)["input"]
            y = [2 * v for v in r["tensor"]]
            out = json.dumps({"id": r["id"], "shape": r["shape"], "tensor": y}).encode()
            self.f(self, None, types.SimpleNamespace(topic="out", payload=out))


c = Client()
infer = InferFPGAMQTT(c, "out", "model", "in", 2, timeout=0.05)
net = types.SimpleNamespace(schema={})
x = np.array([[1.0], [2.0], [3.0], [4.0]])
c.answers = 2
assert infer(net, x).tolist() == [[2.0], [4.0], [6.0], [8.0]]
c.answers = 1
try:
    r = infer(net, x)
except Exception:
    r = None
assert r is None, r
''')

seed("C34-average-columns", "C34",
     [(QZ + "tensor_extractor/keras/layers/keras_dense.py", "                collision_policy(activation.fp_tensor, activation.quantized)\n                / activation.fp_tensor.shape[0]\n", "                collision_policy(activation.fp_tensor, activation.quantized)\n                / activation.fp_tensor.shape[-1]\n")],
     "a table activation whose number of units differs from the number of calibration rows", "the collisions of the activation are divided by the units instead of the rows",
     '''
from shell import mod, Dense
import numpy as np
from itcl_quantization import Quantization
def tanh(x):
    return np.tanh(x)
AL, TE = mod("itcl_quantizer.tensor_extractor.abstract_layer"), mod("itcl_quantizer.tensor_extractor.tensor")
KD = mod("itcl_quantizer.tensor_extractor.keras.layers.keras_dense")
X = np.array([[0.5, 1.0], [0.25, -1.0], [0.0, 0.75], [1.0, -0.5]])
node = TE.NodeTensorBase(0.01, 0, "previous", Quantization("int8")).with_tensor(X).exclude_batch_dimension().exclude_tensor()
layer = KD.KerasDense(Dense([np.array([[0.5], [-0.25]]), np.array([0.125])], tanh, "fc"))
res = layer.quantize(AL.QuantizationResult(X, None, node, None))
out = res.operators[1].outputs[0].name
got = layer.calc_collisions(res, lambda fp, q: 8)
assert got[out] == 2, got
''')
