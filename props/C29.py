"""TFLite conversion preserves operators, order, parameters and data."""
import math
import os
import tempfile
from .common import *
from .C27 import sigmoid, O
from sx import stubs

BOUNDS = ("int8 graphs of every operator sequence of length 0-2 over seven types (3-4 over quantise, dense, tanh, sigmoid; 5 thorough), single operators of every known type code and of unknown codes; all scales in [2^-10, 16] and zero points in -128..127 "
          "(fixed pairs for tables), tensors without parameters, without zero points, with parameters per channel; all int8 weights of up to 3x2 and biases in +-2^20; tensors, buffers and type codes in several orders; absent optional operands; "
          "tables at every code; single operators and chains of up to four run by the inference engine on all inputs of 1-2 elements; "
          "larger cases: fixed graphs of 5, 12 and 25 operators with any parameters")
ASSUMPTIONS = ["tensor names are distinct", "dense layers have no fused activation", "values over the real numbers, rounding errors of the float arithmetic left out (tolerance 1e-5 of a step for the tables)",
               "the flatbuffer reader is a stand-in with the accessors of the tflite package; reading a tensor with an index outside the graph gives some other tensor"]
B = {"exact": True, "max_paths": 6000}
Qz, D, F, T, G, S, R = "QUANTIZE", "DEQUANTIZE", "FULLY_CONNECTED", "TANH", "LOGISTIC", "SOFTMAX", "RELU"
TABLES = {T: ("TANHLUT", math.tanh), G: ("SIGMOIDLUT", sigmoid)}
TOL = Fr(1, 10 ** 5)
REJECT = (ValueError, TypeError, KeyError, NotImplementedError, IndexError, AttributeError)
PAIRS = [((0.0625, 3), (0.0078125, 0)), ((0.03125, -128), (0.00390625, -128)), ((0.125, 127), (0.0078125, 0)), ((0.015625, -5), (0.015625, 17)), ((0.25, 0), (0.00390625, -128)), ((0.5, 64), (0.0078125, -1))]


class Quant:
    def __init__(self, c, scale, zp):
        self.c, self.s, self.z = c, scale, zp

    def _vec(self, v, dt):
        if v is None:
            return 0            # the table has no such field
        return self.c.mkarr(list(v), (len(v),), dt)

    def ScaleAsNumpy(self):
        return self._vec(self.s, np.float32)

    def ZeroPointAsNumpy(self):
        return self._vec(self.z, np.int64)

    def ScaleLength(self):
        return len(self.s or ())

    def ZeroPointLength(self):
        return len(self.z or ())

    def ScaleIsNone(self):
        return self.s is None

    def ZeroPointIsNone(self):
        return self.z is None

    def Scale(self, i):
        return self.s[i] if i < len(self.s or ()) else 0

    def ZeroPoint(self, i):
        return self.z[i] if i < len(self.z or ()) else 0

    def QuantizedDimension(self):
        return 0


class Tens:
    def __init__(self, c, name, shp, dt, q, data=None):
        self.c, self.name, self.shp, self.dt, self.q, self.data, self.buf = c, name, tuple(shp), dt, q, data, 0

    def Name(self):
        return self.name.encode()

    def Shape(self, i):
        return self.shp[i]

    def ShapeLength(self):
        return len(self.shp)

    def ShapeAsNumpy(self):
        return np.array(self.shp, dtype=np.int32) if self.shp else 0

    def Type(self):
        return stubs._TYPES[self.dt]

    def Buffer(self):
        return self.buf

    def Quantization(self):
        return self.q

    def IsVariable(self):
        return False


class Buf:
    def __init__(self, data):
        self.data = data

    def DataAsNumpy(self):
        return np.frombuffer(self.data, dtype=np.uint8) if self.data else 0

    def DataLength(self):
        return len(self.data)

    def DataIsNone(self):
        return not self.data

    def Data(self, i):
        return self.data[i]


class Oper:
    def __init__(self, code, ins, outs):
        self.code, self.ins, self.outs = code, ins, outs

    def OpcodeIndex(self):
        return self.code

    def InputsAsNumpy(self):
        return np.array(self.ins, dtype=np.int32)

    def OutputsAsNumpy(self):
        return np.array(self.outs, dtype=np.int32)

    def InputsLength(self):
        return len(self.ins)

    def OutputsLength(self):
        return len(self.outs)

    def Inputs(self, i):
        return self.ins[i]

    def Outputs(self, i):
        return self.outs[i]

    def BuiltinOptions(self):
        return None


class Code:
    def __init__(self, b):
        self.b = b

    def BuiltinCode(self):
        return self.b

    def DeprecatedBuiltinCode(self):
        return min(self.b, 127)

    def CustomCode(self):
        return None

    def Version(self):
        return 1


class Graph:
    """a stand-in for a TFLite model"""

    def __init__(self, c, order=0):
        self.c, self.order = c, order
        self.tens, self.ops, self.codes = [], [], []
        self.ins, self.outs = [], []

    # -- construction
    def tensor(self, shp, dt="INT8", sz=None, data=None, q="per tensor"):
        n = f"t{len(self.tens)}"
        if sz is None and q == "per tensor":
            quant = Quant(self.c, None, None) if dt == "FLOAT32" else None
        elif q == "per tensor":
            quant = Quant(self.c, [sz[0]], [sz[1]])
        else:
            quant = q
        t = Tens(self.c, n, shp, dt, quant, data)
        t.sz = sz
        self.tens.append(t)
        return t

    def op(self, code, ins, outs):
        self.ops.append((code, ins, outs))
        return self

    def model(self):
        """fixes the indices"""
        n = len(self.tens)
        pos = list(range(n))
        if self.order == 1:
            pos.reverse()
        elif self.order == 2:
            pos = [(3 * i + 1) % n for i in range(n)] if n % 3 else [(i + 1) % n for i in range(n)]
        self.at = {id(t): pos[i] for i, t in enumerate(self.tens)}
        self.list = sorted(self.tens, key=lambda t: self.at[id(t)])
        codes = []
        for k, _, _ in self.ops:
            if k not in codes:
                codes.append(k)
        if self.order:
            codes = [77] + codes[::-1]
        self.codes = [Code(k) for k in codes]
        ix = lambda ts: [-1 if t is None else self.at[id(t)] for t in ts]
        self.opers = [Oper(codes.index(k), ix(i), ix(o)) for k, i, o in self.ops]
        self.bufs = [Buf(b"")]
        for t in (self.tens if self.order else self.list):
            if t.data is not None:
                t.buf = len(self.bufs)
                self.bufs.append(Buf(b"\1\2\3\4"))
        self.garbage = Tens(self.c, "elsewhere", (1, 2), "INT8", Quant(self.c, [9.0], [9]), None)
        for t in self.list:
            if t.data is not None:
                self.garbage.data, self.garbage.buf = t.data, t.buf
        return self

    # -- the subgraph and the model
    def Subgraphs(self, i):
        assert i == 0
        return self

    def SubgraphsLength(self):
        return 1

    def Tensors(self, i):
        return self.list[i] if 0 <= i < len(self.list) else self.garbage

    def TensorsLength(self):
        return len(self.list)

    def Operators(self, i):
        return self.opers[i]

    def OperatorsLength(self):
        return len(self.opers)

    def OperatorCodes(self, i):
        return self.codes[i]

    def OperatorCodesLength(self):
        return len(self.codes)

    def Buffers(self, i):
        return self.bufs[i]

    def BuffersLength(self):
        return len(self.bufs)

    def Inputs(self, i):
        return self.at[id(self.ins[i])]

    def Outputs(self, i):
        return self.at[id(self.outs[i])]

    def InputsLength(self):
        return len(self.ins)

    def OutputsLength(self):
        return len(self.outs)

    def InputsAsNumpy(self):
        return np.array([self.Inputs(i) for i in range(len(self.ins))], dtype=np.int32)

    def OutputsAsNumpy(self):
        return np.array([self.Outputs(i) for i in range(len(self.outs))], dtype=np.int32)

    def Version(self):
        return 3

    # -- the interpreter
    @property
    def tensor_details(self):
        d = [{"name": t.name, "index": i, "shape": np.array(t.shp), "dtype": np.int8} for i, t in enumerate(self.list)]
        return d[::-1] if self.order == 2 else d

    def get_tensor(self, i):
        if not isinstance(i, (int, np.integer)):
            raise ValueError("not an index")
        t = self.list[i]
        if t.data is None:
            return self.c.mkarr([77] * prod(t.shp), t.shp, np.int8)         # whatever the arena holds
        return self.c.mkarr(list(t.data), t.shp, np.int32 if t.dt == "INT32" else np.int8)

    def convert(self):
        """the JSON network of the converter"""
        self.model()
        c = self.c
        with tempfile.TemporaryDirectory() as d:
            i, o = os.path.join(d, "model.tflite"), os.path.join(d, "model.json")
            with open(i, "wb") as f:
                f.write(b"TFL3")
            c.files["tflite"] = c.files[i] = self
            c.mod("itcl_tflite2json", "tflite").convert(i, o)
            with open(o) as f:
                return c.loads(f.read())


def sz(c, n, k=None):
    """parameters; every zero point where few tensors have one, else those of one sign"""
    return c.real(n + "s", 2 ** -10, 16, -10), c.int(n + "z", *((-128, 127), (1, 127), (-128, -1))[0 if k is None else 1 + (k + len(n)) % 2])


def ints(c, n, k, lo=-128, hi=127):
    return [c.int(f"{n}{i}", lo, hi) for i in range(k)]


def add(c, g, x, t, k, sz, bias=True):
    """an operator of type t reading tensor x"""
    n = f"n{k}"
    b = stubs._BUILTIN[t]
    if t == F:
        i = x.shp[1]
        o = 2 if i != 2 else 3
        w = g.tensor((o, i), sz=sz(c, n + "w"), data=ints(c, n + "k", o * i))
        bi = g.tensor((o,), "INT32", sz=sz(c, n + "b"), data=ints(c, n + "c", o, -2 ** 20, 2 ** 20)) if bias else None
        y = g.tensor((1, o), sz=sz(c, n))
        g.op(b, [x, w, bi], [y])
    elif t in TABLES:
        y = g.tensor(x.shp, sz=PAIRS[k % len(PAIRS)][1])
        g.op(b, [x], [y])
    elif t == D:
        y = g.tensor(x.shp, "FLOAT32")
        g.op(b, [x], [y])
    else:
        y = g.tensor(x.shp, sz=sz(c, n))
        g.op(b, [x], [y])
    return y


def describes(c, nd, t, what):
    """the entry of a tensor"""
    ten = nd["tensor"]
    c.check(ten is not None and ten["name"] == t.name, what + ": tensor", str(ten and ten["name"]))
    c.check(str(ten["dtype"]).upper() == t.dt, what + ": dtype", str(ten["dtype"]))
    c.check(list(ten["shape"]) == list(t.shp), what + ": shape", str(ten["shape"]))
    if t.sz is None:
        c.check(nd["scale"] is None, what + ": no parameters")
    else:
        c.check(nd["scale"] is not None and nd["zero_point"] is not None, what + ": has its parameters")
        c.check(And(eq(nd["scale"], t.sz[0]), eq(nd["zero_point"], t.sz[1])), what + ": scale and zero point")
    if t.data is None:
        c.check(ten["tensor"] is None, what + ": no data")
    else:
        flat, sh = [], t.shp
        rows = ten["tensor"] if len(sh) == 2 else [ten["tensor"]]
        c.check(rows[0] is not None and len(rows) == (sh[0] if len(sh) == 2 else 1) and all(len(r) == sh[-1] for r in rows), what + ": layout of the data")
        for r in rows:
            flat += list(r)
        c.eq_list(flat, t.data, what + ": data")


def table(c, nd, f, i, o):
    lut = nd.get("LUT")
    c.check(lut is not None and len(lut["LUT"]) == 256 and lut["offset"] == 128, "a table of every code")
    red = lut.get("reduced_LUT")
    RL = c.mod("itcl_quantization.quantization.lut", "tflite").ReducedLUT.deserialize(red) if red is not None else lut["LUT"]
    (si, zi), (so, zo) = i, o
    for q in range(-128, 128):
        v = Fr(f((q - zi) * si)) / Fr(so) + zo + Fr(1, 2)
        lo, hi = clamp(floor(v - TOL), -128, 127), clamp(floor(v + TOL), -128, 127)
        for kind, e in (("table", lut["LUT"][q + 128]), ("reduced table", RL[q + 128])):
            c.check(And(ge(e, lo), le(e, hi)), f"{kind} entry of the code", str(q))


@wellformed
def judge(c, j, g):
    c.check(j["engine"].upper() == "TFLITE", "engine")
    c.check(j["operators"] == len(g.ops) and len(j["graph"]) == len(g.ops), "every operator once", str([o["op_type"] for o in j["graph"]]))
    names = {v: k for k, v in stubs._BUILTIN.items()}
    for o, (code, ins, outs) in zip(j["graph"], g.ops):
        t = names.get(code)
        if t in TABLES:
            c.check(o["op_type"] == TABLES[t][0] and o["name"] == TABLES[t][0], "table operator", str(o["op_type"]))
            table(c, o["inputs"][0], TABLES[t][1], ins[0].sz, outs[0].sz)
        elif t is None:
            c.check(o["op_type"] not in stubs._BUILTIN and o["op_type"] not in ("TANHLUT", "SIGMOIDLUT"), "unknown operators stay unknown", str(o["op_type"]))
        else:
            c.check(o["op_type"] == t and o["name"] == t, "operator type", str(o["op_type"]))
        c.check(len(o["outputs"]) == len(outs), "results")
        for nd, x in zip(o["outputs"], outs):
            describes(c, nd, x, "result")
        while ins and ins[-1] is None and len(o["inputs"]) < len(ins):
            ins = ins[:-1]          # left out
        c.check(len(o["inputs"]) == len(ins), "operands")
        for nd, x in zip(o["inputs"], ins):
            if x is None:
                c.check(nd is None or ((nd.get("tensor") is None or nd["tensor"].get("tensor") is None) and nd.get("scale") is None), "absent operands have no data", str(nd))
            else:
                describes(c, nd, x, "operand")
    for key, ts in (("input", g.ins), ("output", g.outs)):
        c.check(len(j[key]) == len(ts), f"one {key} entry per {key}")
        for nd, x in zip(j[key], ts):
            describes(c, nd, x, key)


def first(c, g, t, sz, k=0):
    """the input of an operator of type t"""
    if t == Qz:
        return g.tensor((1, 2), "FLOAT32")
    if t in TABLES:
        return g.tensor((1, 2), sz=PAIRS[k % len(PAIRS)][0])
    return g.tensor((1, 2), sz=sz(c, f"in{k}"))


def h_sequence(c, n, alphabet, order=0):
    types = [c.choice(f"type{k}", alphabet) for k in range(n)]
    par = sz if n < 2 else lambda c, m: sz(c, m, n)
    g = Graph(c, order)
    if order == 2:
        g.tensor((3, 1), sz=sz(c, "u"), data=ints(c, "uk", 3))       # unused
    x = first(c, g, types[0] if types else Qz, par)
    g.ins = [x]
    for k, t in enumerate(types):
        if t in TABLES and k and x.sz is not None:
            x = first(c, g, t, par, k)             # a table needs fixed parameters; it starts a branch of its own
            g.ins.append(x)
        elif t in TABLES and x.sz is None:
            x = first(c, g, t, par, k)
            g.ins.append(x)
        elif x.dt == "FLOAT32" and t != Qz:
            x = first(c, g, t, par, k)
            g.ins.append(x)
        x = add(c, g, x, t, k, par)
    g.outs = [x]
    judge(c, g.convert(), g)


def h_type(c, n_in, n_out, codes):
    """any operator code"""
    code = c.choice("code", codes)
    g = Graph(c, 1)
    g.ins = [g.tensor((1, 2 + i), sz=sz(c, f"i{i}")) for i in range(n_in)]
    g.outs = [g.tensor((1, 5 + i), sz=sz(c, f"o{i}")) for i in range(n_out)]
    g.op(code, list(g.ins), list(g.outs))
    judge(c, g.convert(), g)


def h_params(c, kind):
    """parameters of a tensor"""
    g = Graph(c)
    s = [c.real(f"s{i}", 2 ** -10, 16, -10) for i in range(2)]
    z = ints(c, "z", 2)
    q = {"none": None, "empty": Quant(c, None, None), "no zero point": Quant(c, s[:1], None), "both": Quant(c, s[:1], z[:1]),
         "zero": Quant(c, s[:1], [0]), "scale one": Quant(c, [1.0], z[:1]), "per channel": Quant(c, s, z)}[kind]
    x = g.tensor((1, 2), sz=sz(c, "x"))
    w = g.tensor((2, 2), data=ints(c, "k", 4), q=q)
    y = g.tensor((1, 2), sz=sz(c, "y"))
    w.sz = {"none": None, "empty": None, "no zero point": (s[0], 0), "both": (s[0], z[0]), "zero": (s[0], 0), "scale one": (1, z[0]), "per channel": None}[kind]
    g.ins, g.outs = [x], [y]
    g.op(stubs._BUILTIN["MUL"], [x, w], [y])
    if kind == "per channel":
        try:
            j = g.convert()
        except REJECT:
            return c.check(True, "rejected")
        nd = j["graph"][0]["inputs"][1]
        c.check(isinstance(nd["scale"], list) and isinstance(nd["zero_point"], list) and len(nd["scale"]) == 2 and len(nd["zero_point"]) == 2, "parameters of every channel, or a rejection", str(nd["scale"]))
        c.eq_list(list(nd["scale"]) + list(nd["zero_point"]), s + z, "parameters of every channel")
        return
    judge(c, g.convert(), g)


def h_table(c, t, order):
    (i, o) = c.choice("pair", PAIRS)
    g = Graph(c, order)
    x = g.tensor((1, 3), sz=i)
    y = g.tensor((1, 3), sz=o)
    g.op(stubs._BUILTIN[t], [x], [y])
    g.ins, g.outs = [x], [y]
    judge(c, g.convert(), g)


def h_absent(c, at, n, order):
    """an absent optional operand"""
    g = Graph(c, order)
    ts = [g.tensor((1, 2), sz=sz(c, "x"))]
    ts += [g.tensor((2, 2), sz=sz(c, f"w{i}"), data=ints(c, f"k{i}_", 4)) for i in range(1, n)]
    g.ins = [ts[0]]
    y = g.tensor((1, 2), sz=sz(c, "y"))
    g.outs = [y]
    for i in at:
        g.tens.remove(ts[i])
        ts[i] = None
    g.op(stubs._BUILTIN[F if n == 3 else "LSTM"], ts, [y])
    try:
        j = g.convert()
    except REJECT:
        return c.check(True, "rejected")
    judge(c, j, g)


def h_entries(c, n_in, n_out):
    g = Graph(c, 2)
    g.ins = [g.tensor((1, 2 + i), *(("FLOAT32",) if i % 2 else ("INT8", sz(c, f"i{i}")))) for i in range(n_in)]
    g.outs = [g.tensor((1, 5 + i), sz=sz(c, f"o{i}")) for i in range(n_out)]
    g.op(stubs._BUILTIN["ADD"], list(g.ins), g.outs[:1])
    judge(c, g.convert(), g)


def network(c, j):
    return c.mod("itcl_inference_engine.network.sequential", "tflite").SequentialNetwork(j).infer


def h_run(c, shp, tail):
    """a converted network computes the TFLite definitions of its operators"""
    i, o = shp
    zx, zw, zy = (c.int(n, -128, 127) for n in ("zx", "zw", "zy"))
    g = Graph(c, 1)
    x = g.tensor((1, i), "FLOAT32")
    a = g.tensor((1, i), sz=(0.25, zx))
    w = g.tensor((o, i), sz=(0.125, zw), data=ints(c, "k", o * i))
    b = g.tensor((o,), "INT32", sz=(0.03125, 0), data=ints(c, "c", o, -2 ** 14, 2 ** 14))
    y = g.tensor((1, o), sz=(2.0 if not tail else 0.5, zy))
    g.op(stubs._BUILTIN[Qz], [x], [a]).op(stubs._BUILTIN[F], [a, w, b], [y])
    g.ins = [x]
    if tail:
        d = g.tensor((1, o), "FLOAT32")
        g.op(stubs._BUILTIN[D], [y], [d])
        g.outs = [d]
    else:
        g.outs = [y]
    xs = c.rarr("x", (1, i), -40.0, 40.0)
    out = exl(network(c, g.convert())(xs))
    c.check(len(out) == o, "size of the result")
    q = c.mod("itcl_quantization", "tflite").Quantization("int8").quantize(xs, zx, 0.25)
    qs = exl(q)
    for p, (u, v) in enumerate(zip(qs, exl(xs))):
        c.check(le(ab(u - clamp(v * 4 + zx, -128, 127)), Fr(1, 2)), "quantised input")
    for r in range(o):
        acc = sum((qs[k] - zx) * (w.data[r * i + k] - zw) for k in range(i)) + b.data[r]
        ref = acc * Fr(1, 32) / Fr(y.sz[0]) + zy
        got = out[r] if not tail else out[r] / Fr(y.sz[0]) + zy
        c.check(And(ge(got, -128), le(got, 127), le(ab(got - clamp(ref, -128, 127)), Fr(1, 2))), "the dense layer's definition", str(r))


def h_chain(c, types):
    """layers run in order: the network is the composition of the networks of its operators"""
    g = Graph(c)
    x = g.tensor((1, 1), "FLOAT32") if types[0] == Qz else g.tensor((1, 1), sz=(0.0625, c.int("z0", -128, 127)))
    g.ins = [x]
    ts = [x]
    for k, t in enumerate(types):
        z = 11 * k - 20
        if t == F:
            w = g.tensor((1, 1), sz=(0.25, 0), data=ints(c, f"k{k}", 1))
            b = g.tensor((1,), "INT32", sz=(0.015625, 0), data=[33 * k])
            y = g.tensor((1, 1), sz=(1.0, z))
            g.op(stubs._BUILTIN[t], [ts[-1], w, b], [y])
        else:
            y = g.tensor((1, 1), "FLOAT32") if t == D else g.tensor((1, 1), sz=(0.0078125, 0) if t == T else (0.00390625, -128) if t == G else (0.0625, z))
            g.op(stubs._BUILTIN[t], [ts[-1]], [y])
        ts.append(y)
    g.outs = [ts[-1]]
    j = g.convert()
    v = c.rarr("x", (1, 1), -40.0, 40.0)
    got = network(c, j)(v)
    ref = v
    N = c.mod("itcl_inference_engine.network.sequential", "tflite").SequentialNetwork
    for k, t in enumerate(types):
        one = Graph(c)
        one.tens, one.ops = g.tens, [g.ops[k]]
        one.ins, one.outs = [g.ops[k][1][0]], list(g.ops[k][2])
        ref = N(one.convert()).layers[0].infer(ref)
    c.same_shape(got, shape(ref))
    c.eq_list(exl(got), exl(ref), "operators run in order")


def cases(tier):
    deep = tier == "thorough"
    out = []
    ALL = [Qz, D, F, T, G, S, R]
    for n in (0, 1, 2):
        out.append(case(f"every sequence of {n}", h_sequence, weight=7 ** n / 8, opts=B, n=n, alphabet=ALL))
    for order in (1, 2):
        out.append(case(f"every sequence of 1, order {order}", h_sequence, weight=2, opts=B, n=1, alphabet=ALL, order=order))
        out.append(case(f"every sequence of 2, order {order}", h_sequence, weight=4, opts=B, n=2, alphabet=[Qz, F, T, D], order=order))
    for n in (3,) + ((4,) if deep else ()):
        out.append(case(f"sequences of {n}", h_sequence, weight=4 ** n / 8, opts=B, n=n, alphabet=[Qz, F, T, G], order=n - 2))
    if deep:
        out.append(case("sequences of 3 of everything", h_sequence, weight=40, opts=B, n=3, alphabet=ALL, order=2))
        out.append(case("sequences of 5", h_sequence, weight=40, opts=B, n=5, alphabet=[Qz, F, T], order=1))
    for n in (5, 12, 25):
        out.append(case(f"large sequence of {n}", sparse(h_sequence, r"^(?!type)"), weight=2, opts=B, n=n, alphabet=ALL, order=n % 3))
    codes = [v for k, v in stubs._BUILTIN.items() if k not in TABLES] + [500, 999]
    for a in ((1, 1), (2, 1), (3, 2)):
        out.append(case(f"operator codes, {a[0]} operands, {a[1]} results", h_type, weight=2, opts=B, n_in=a[0], n_out=a[1], codes=codes))
    for k in ("none", "empty", "no zero point", "both", "zero", "scale one", "per channel"):
        out.append(case(f"parameters: {k}", h_params, opts=B, kind=k))
    for t in TABLES:
        for order in (0, 1):
            out.append(case(f"tables of {t}, order {order}", h_table, weight=2, opts=B, t=t, order=order))
    for at, n in (((2,), 3), ((1,), 3), ((1, 2), 3), ((1, 3), 5), ((2, 4), 5)):
        for order in (0, 1):
            out.append(case(f"absent operands {at} of {n}, order {order}", h_absent, opts=B, at=at, n=n, order=order))
    for a in ((1, 1), (2, 1), (1, 2), (2, 3)):
        out.append(case(f"{a[0]} inputs, {a[1]} outputs", h_entries, opts=B, n_in=a[0], n_out=a[1]))
    for shp in ((1, 1), (2, 1), (1, 2)) + (((3, 1), (2, 2)) if deep else ()):
        for tail in (False, True):
            out.append(case(f"run dense {shp}{' dequantised' * tail}", h_run, weight=3, opts=B, shp=shp, tail=tail))
    for types in ([Qz, T], [Qz, F, T], [Qz, G, F], [Qz, F, R, D], [Qz, T, F, D]):
        out.append(case("run " + "+".join(types), h_chain, weight=4, opts=B, types=types))
    return out
