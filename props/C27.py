"""ONNX conversion preserves operators, order and parameters."""
import math
import os
from .common import *

BOUNDS = ("graphs of every operator sequence of length 0-2 over eight supported and two unsupported types, of length 3-5 over dequantise, tanh, quantise (4-5 over these and softmax thorough), and with any ASCII string of length 0-18 as a type; "
          "all zero points, all scales in [2^-10, 16] (for fused operators and sigmoids fixed pairs), all bytes of weight tensors of up to 3x2 and 3 entries; initialisers and value infos in several orders; tables at every code; "
          "single operators and chains of up to four run by the inference engine on all inputs of 1-2 elements; "
          "larger cases: fixed graphs of 5, 12 and 25 operators with any parameters and weights")
ASSUMPTIONS = ["values over the real numbers, rounding errors of the float arithmetic left out (tolerance 1e-5 of a step for the tables)"]
B = {"exact": True, "max_paths": 6000}
D, T, Qz, M, A, S, G, X, X2 = "DequantizeLinear", "Tanh", "QuantizeLinear", "QLinearMatMul", "QLinearAdd", "Softmax", "QLinearSigmoid", "Conv", "TanhLU"
TOL = Fr(1, 10 ** 5)
REJECT = (ValueError, TypeError, KeyError, NotImplementedError)
PARAMS = [(0.0625, 128), (0.0078125, 128), (0.125, 3), (0.00390625, 0), (0.03125, 250), (0.015625, 64), (0.5, 7), (0.25, 200)]


class O:
    def __init__(self, **k):
        self.__dict__.update(k)


def dims(*d):
    return O(tensor_type=O(elem_type=2, shape=O(dim=[O(dim_value=v, dim_param="") for v in d])))


class Graph:
    """a stand-in for an ONNX model; every operator has initialisers of its own"""

    def __init__(self, c, order=1):
        self.c, self.node, self.want, self.init, self.infos, self.order = c, [], [], [], [], order

    def scalar(self, name, s, z, fixed):
        if fixed is not None:
            sv, zv = fixed
        else:
            sv, zv = self.c.real(name + "s", 2 ** -10, 16, -10), self.c.int(name + "z", 0, 255)
        self.init += [O(name=s, float_data=[sv], int32_data=[], raw_data=b"", dims=[]), O(name=z, float_data=[], int32_data=[zv], raw_data=b"", dims=[])]
        return sv, zv

    def tensor(self, name, shp):
        v = [self.c.int(f"{name}_{i}", 0, 255) for i in range(prod(shp))]
        raw = self.c.mkarr(v, (len(v),), np.uint8)
        self.init.append(O(name=name, float_data=[], int32_data=[], dims=list(shp), raw_data=raw if self.c.symbolic else raw.tobytes()))
        return v

    def add(self, t, fixed=None, shp=(2, 3), any_type=False):
        k = len(self.node)
        n = f"n{k}_"
        x, y = (f"t{k}", f"t{k + 1}")
        fx = fixed or [None] * 3
        P = lambda j: self.scalar(f"{n}{j}", f"{n}s{j}", f"{n}z{j}", fx[j])
        w = {"type": t}
        if any_type or t in (D, Qz, X):
            w["q"] = [P(0)]
            ins = [x, n + "s0", n + "z0"]
        elif t in (M, A):
            ins = [x, n + "s0", n + "z0", n + "w", n + "s1", n + "z1", n + "s2", n + "z2"]
            w["q"] = [P(0), P(1), P(2)]
            w["shape"] = shp if t == M else shp[1:]
            w["tensor"] = self.tensor(n + "w", w["shape"])
        elif t == G:
            w["q"] = [P(0), P(1)]
            ins = [x, n + "s0", n + "z0", n + "s1", n + "z1"]
        else:
            ins = [x]
        w["in"], w["out"] = x, y
        self.node.append(O(op_type=t, name=f"node_{k}", input=ins, output=[y], domain="", attribute=[]))
        self.want.append(w)
        return self

    def model(self):
        n = len(self.node)
        info = lambda k: O(name=f"t{k}", type=dims(1, 5 + k))
        mids = [info(k) for k in range(1, n)]
        ini = list(self.init)
        if self.order < 0:
            mids, ini = mids[::-1], ini[::-1]
        if self.order == 2:
            ini = ini[len(ini) // 2:] + [O(name="unused", float_data=[9.0], int32_data=[9], raw_data=b"\x09", dims=[1])] + ini[:len(ini) // 2]
        return O(ir_version=7, graph=O(node=self.node, initializer=ini, value_info=mids, input=[info(0)], output=[info(n)], name="g"))


def inside(f):
    """the converter reads its settings from the working directory"""
    from sx import loader
    old = os.getcwd()
    os.chdir(os.path.join(loader.REPO, "model_converters/onnx2json"))
    try:
        return f()
    finally:
        os.chdir(old)


def build(c, m):
    return inside(lambda: c.mod("helpers.graph", "onnx").OnnxGraph(m).build_graph())


def groups(seq):
    """the operators that belong together, in order"""
    out, k = [], 0
    while k < len(seq):
        n = 3 if seq[k:k + 3] == [D, T, Qz] else 1
        out.append((k, n))
        k += n
    return out


def params(c, node, sz, what):
    s, z = sz
    c.check(node["scale"] is not None and node["zero_point"] is not None, what + ": has its parameters")
    c.check(And(eq(node["scale"], s), eq(node["zero_point"], z)), what + ": scale and zero point")


def table(c, node, f, i, o):
    """table of f for the codes of i and o, plain and reduced"""
    lut = node["LUT"]
    c.check(lut is not None and len(lut["LUT"]) == 256 and (lut["offset"] or 0) == 0, "a table of every code")
    red = lut.get("reduced_LUT")
    RL = c.mod("itcl_quantization.quantization.lut", "onnx").ReducedLUT.deserialize(red) if red is not None else lut["LUT"]
    (si, zi), (so, zo) = i, o
    for q in range(256):
        v = Fr(f((q - zi) * si)) / Fr(so) + zo + Fr(1, 2)
        lo, hi = clamp(floor(v - TOL), 0, 255), clamp(floor(v + TOL), 0, 255)
        for kind, e in (("table", lut["LUT"][q]), ("reduced table", RL[q])):
            c.check(And(ge(e, lo), le(e, hi)), f"{kind} entry of the code", str(q))


def sigmoid(x):
    return 1 / (1 + math.exp(-x))


@wellformed
def judge(c, ops, want, types):
    gs = groups(types)
    c.check(len(ops) == len(gs), "every operator once", str([o["op_type"] for o in ops]))
    for o, (k, n) in zip(ops, gs):
        w = want[k]
        if n == 3:
            c.check(o["op_type"] == "TanhLUT", "fused operator", str(o["op_type"]))
            table(c, o["inputs"][0], math.tanh, w["q"][0], want[k + 2]["q"][0])
            continue
        t = types[k]
        if t == G:
            c.check(o["op_type"] == "SigmoidLUT" and len(o["inputs"]) == 1, "table operator")
            params(c, o["inputs"][0], w["q"][0], "sigmoid input")
            table(c, o["inputs"][0], sigmoid, *w["q"])
            continue
        c.check(o["op_type"] == t, "operator type", str(o["op_type"]))
        if t in (T, S):
            c.check(o["inputs"][0]["tensor"]["name"] == w["in"] and o["outputs"][0]["tensor"]["name"] == w["out"], "tensors of the operator")
            for nd, name in ((o["inputs"][0], w["in"]), (o["outputs"][0], w["out"])):
                sh = nd["tensor"]["shape"]
                c.check((sh[-1] if isinstance(sh, (list, tuple)) else sh) == 5 + int(name[1:]), "size of the tensor")
            continue
        c.check(len(o["inputs"]) == len(w["q"]), "operands")
        for j, (nd, sz) in enumerate(zip(o["inputs"], w["q"])):
            params(c, nd, sz, f"operand {j}")
        if t in (M, A):
            c.check(all(o["inputs"][j]["tensor"] is None for j in (0, 2)), "input and output without data")
            ten = o["inputs"][1]["tensor"]
            sh = w["shape"]
            c.check(list(ten["shape"]) == list(sh[::-1] if t == M else sh) and ten["dtype"] == "uint8", "shape and dtype of the tensor", str(ten["shape"]))
            if t == M:
                c.check(len(ten["tensor"]) == sh[1] and all(len(r) == sh[0] for r in ten["tensor"]), "layout of the tensor")
                flat = [ten["tensor"][j][i] for i in range(sh[0]) for j in range(sh[1])]
            else:
                flat = list(ten["tensor"])
            c.eq_list(flat, w["tensor"], "data of the tensor")


def fill(c, types, order=1):
    g = Graph(c, order)
    pure = T in types
    for k, t in enumerate(types):
        p = PARAMS[(2 * k) % len(PARAMS):] + PARAMS
        g.add(t, p[:3] if t == G or (pure and t in (D, Qz)) else None)
    return g


def h_sequence(c, n, alphabet, order=1):
    types = [c.choice(f"type{k}", alphabet) for k in range(n)]
    g = fill(c, types, order)
    m = g.model()
    if any(t in (X, X2) for t in types):
        c.check(c.expect_raises(lambda: build(c, m), REJECT), "unsupported operators are rejected", str(types))
        return
    judge(c, build(c, m), g.want, types)


def h_name(c, before, n, after):
    """any operator type"""
    types = [D, T, Qz, M, A, S, G]
    t = c.string("type", n)
    g = fill(c, before)
    g.add(t, PARAMS[:3], any_type=True)
    for k, a in enumerate(after):
        g.add(a, PARAMS[:3])
    m = g.model()
    known = False
    for k in types:
        if t == k:
            known = True
    if known:
        return          # decided by the other cases (this operator has no initialisers here)
    c.check(c.expect_raises(lambda: build(c, m), REJECT), "unsupported operators are rejected")


@wellformed
def h_entries(c, n_in, n_out, k):
    """input and output entries of the model"""
    g = fill(c, [Qz] * k)
    m = g.model()
    m.graph.input = [O(name=f"in{i}", type=dims(1, 3 + i)) for i in range(n_in)]
    m.graph.output = [O(name=f"out{i}", type=dims(1, 13 + i)) for i in range(n_out)]
    j = inside(lambda: c.path_mod("model_converters/onnx2json/2json.py", "onnx2json_main", "onnx").model2json(m))
    for key, n, lo in (("input", n_in, 3), ("output", n_out, 13)):
        c.check(len(j[key]) == n, f"one {key} entry per {key}")
        for i, nd in enumerate(j[key]):
            sh = nd["tensor"]["shape"]
            c.check(nd["tensor"]["name"] == f"{key[:-3]}{i}" and (sh[-1] if isinstance(sh, (list, tuple)) else sh) == lo + i, f"{key} entries describe the model's {key}s", str(nd))
    c.check(j["engine"] == "ONNX", "engine")
    judge(c, j["graph"], g.want, [Qz] * k)


def h_run(c, t, shp):
    """a single operator run by the inference engine computes its ONNX definition"""
    g = Graph(c)
    sc = [0.5, 0.25, 0.125]
    g.add(t, [(s, c.int(f"zp{j}", 0, 255)) for j, s in enumerate(sc)], shp)
    m = g.model()
    net = network(c, m)
    w = g.want[0]
    (si, zi) = w["q"][0]
    if t == Qz:
        x = c.rarr("x", (2,), -80.0, 80.0)
        ref = [Fr(1) * v / Fr(si) + zi for v in exl(x)]
    elif t == D:
        x = c.iarr("x", (2,), 0, 255, "uint8")
        c.eq_list(exl(net(x)), [(v - zi) * Fr(si) for v in exl(x)], "dequantised")
        return
    else:
        (sw, zw), (so, zo) = w["q"][1:]
        x = c.iarr("x", (1, shp[0]) if t == M else (1, shp[1]), 0, 255, "uint8")
        e = exl(x)
        k = Fr(si) * Fr(sw) / Fr(so)
        if t == M:
            ref = [k * sum((e[i] - zi) * (w["tensor"][i * shp[1] + j] - zw) for i in range(shp[0])) + zo for j in range(shp[1])]
        else:
            ref = [(Fr(si) * (v - zi) + Fr(sw) * (b - zw)) / Fr(so) + zo for v, b in zip(e, w["tensor"])]
    out = exl(net(x))
    c.check(len(out) == len(ref), "size of the result")
    for y, r in zip(out, ref):
        c.check(And(ge(y, 0), le(y, 255), le(ab(y - clamp(r, 0, 255)), Fr(1, 2))), "the operator's ONNX definition")


def network(c, m):
    j = inside(lambda: c.path_mod("model_converters/onnx2json/2json.py", "onnx2json_main", "onnx").model2json(m))
    net = c.mod("itcl_inference_engine.network.sequential", "onnx").SequentialNetwork(j)
    if m.graph.node[0].op_type == Qz:
        return net.infer

    def run(x):             # networks without quantise layers take other inputs
        for l in net.layers:
            x = l.infer(x)
        return x
    return run


def h_chain(c, types):
    """a converted graph computes the composition of its operators"""
    g = Graph(c)
    f = [[(0.25, 128), (0.5, 100), (0.5, 128)], [(0.5, 128), (0.25, 7), (0.125, 130)], [(0.125, 130), (0.5, 3), (0.0625, 120)], [(0.0625, 120), (0.5, 128), (0.25, 128)], [(0.0078125, 128)] * 3]
    for k, t in enumerate(types):
        g.add(t, f[k], (2, 2))
    m = g.model()
    x = c.rarr("x", (1, 2), -40.0, 40.0) if types[0] == Qz else c.iarr("x", (1, 2), 0, 255, "uint8")
    got = network(c, m)(x)
    y = x
    for k, n in groups(types):
        m2 = O(ir_version=7, graph=O(node=g.node[k:k + n], initializer=g.init, value_info=[], input=[O(name=f"t{k}", type=dims(1, 5))], output=[O(name=f"t{k + n}", type=dims(1, 5))], name="g"))
        y = network(c, m2)(y)
    c.same_shape(got, shape(y))
    c.eq_list(exl(got), exl(y), "operators run in order")


def cases(tier):
    deep = tier == "thorough"
    out = []
    ALL = [D, T, Qz, M, A, S, G, X, X2]
    for n in (0, 1, 2):
        out.append(case(f"every sequence of {n}", h_sequence, weight=9 ** n / 8, opts=B, n=n, alphabet=ALL))
    for order in (-1, 2):
        out.append(case(f"every sequence of 1, order {order}", h_sequence, weight=2, opts=B, n=1, alphabet=ALL, order=order))
    for n in (3, 4):
        out.append(case(f"sequences of {n} around fused tables", h_sequence, weight=3 ** n / 4, opts=B, n=n, alphabet=[D, T, Qz], order=(1, -1)[n % 2]))
    if deep:
        out.append(case("sequences of 3 of everything", h_sequence, weight=40, opts=B, n=3, alphabet=[D, T, Qz, M, A, S, X2]))
        out.append(case("sequences of 5 around fused tables", h_sequence, weight=60, opts=B, n=5, alphabet=[D, T, Qz]))
        out.append(case("sequences of 6 around fused tables", h_sequence, weight=80, opts=B, n=6, alphabet=[D, T, Qz]))
    for n in (5, 12, 25):
        for order in (1, -1):
            out.append(case(f"large sequence of {n}, order {order}", sparse(h_sequence, r"^(?!type)"), weight=2, opts=B, n=n, alphabet=[D, T, Qz, M, A, S], order=order))
    for n in range(0, 19):
        out.append(case(f"any type of length {n}", h_name, opts=B, before=[], n=n, after=[]))
    for n in (14, 15) + ((10, 13, 16, 17, 18) if deep else ()):
        out.append(case(f"tanh between dequantise and any type of length {n}", h_name, opts=B, before=[D, T], n=n, after=[]))
    for n in (16, 17) + ((15, 18) if deep else ()):
        out.append(case(f"tanh between any type of length {n} and quantise", h_name, opts=B, before=[], n=n, after=[T, Qz]))
    for n in (3, 4, 5, 7):
        out.append(case(f"any type of length {n} between dequantise and quantise", h_name, opts=B, before=[D], n=n, after=[Qz]))
    for a in ((1, 1), (2, 1), (1, 2), (2, 3)):
        out.append(case(f"{a[0]} inputs, {a[1]} outputs", h_entries, opts=B, n_in=a[0], n_out=a[1], k=1))
    for t, shp in ((Qz, ()), (D, ()), (M, (2, 2)), (M, (1, 3)), (M, (3, 2)), (A, (1, 2)), (A, (1, 3))):
        out.append(case(f"run {t} {shp}", h_run, weight=2, opts=B, t=t, shp=shp or (2, 3)))
    for types in ([Qz, M, A, D], [Qz, D], [M, A], [Qz, G], [Qz, M, D, T, Qz]):
        out.append(case("run " + "+".join(types), h_chain, weight=4, opts=B, types=types))
    return out
