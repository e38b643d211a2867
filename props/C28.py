"""Keras conversion preserves layers, weights and shapes."""
from .common import *
from .keras_model import act, reals
from sx import stubs

BOUNDS = ("models of every sequence of up to two layers (three thorough) over dense (with and without bias, several activations), LSTM, 2D convolution (with and without bias), pooling, flatten, input, dropout and layers that have no conversion, "
          "and single layers of every name of a Keras layer class; all weights in -4..4 of float32 and float64 arrays, 1-3 inputs, 1-3 units, kernels of up to 2x3 and 1-2 channels and filters; "
          "larger cases: fixed models of 5, 12 and 30 layers and layers of up to 40 inputs and units with any weights")
B = {"exact": True, "max_paths": 6000}
KINDS = {
    "dense": lambda c, n: dense(c, n, 3, 2, "relu"),
    "dense linear": lambda c, n: dense(c, n, 1, 3, "linear", np.float64),
    "dense without bias": lambda c, n: dense(c, n, 2, 3, "tanh", bias=False),
    "lstm": lambda c, n: lstm(c, n, 2, 2, 5, True),
    "lstm last": lambda c, n: lstm(c, n, 1, 3, None, False),
    "conv": lambda c, n: conv(c, n, (2, 3, 1, 2), (1, 2), "valid", "relu"),
    "conv same": lambda c, n: conv(c, n, (1, 2, 2, 1), (2, 2), "same", "softmax"),
    "conv without bias": lambda c, n: conv(c, n, (2, 2, 2, 3), (1, 1), "valid", "linear", bias=False),
    "pool": lambda c, n: pool(c, n, (2, 3), (1, 2), "valid"),
    "pool same": lambda c, n: pool(c, n, (3, 2), (2, 2), "same"),
    "flatten": lambda c, n: (layer("Flatten", name=n, weights=[], config={"name": n}), ("one", "FLATTEN")),
    "input": lambda c, n: (layer("InputLayer", name=n, weights=[], config={"name": n}), ("none",)),
    "dropout": lambda c, n: (layer("Dropout", name=n, weights=[], config={"name": n}), ("none",)),
    "gru": lambda c, n: (layer("GRU", name=n, weights=[], config={"name": n, "units": 2}), ("reject",)),
}
KNOWN = ["Dense", "LSTM", "Conv2D", "Flatten", "MaxPooling2D", "InputLayer", "Dropout"]
OTHER = ["Activation", "ReLU", "Softmax", "BatchNormalization", "GRU", "SimpleRNN", "Embedding", "Reshape", "Conv1D", "Conv3D", "AveragePooling2D", "MaxPooling1D", "Bidirectional", "Add", "Concatenate", "LayerNormalization",
         "DenseFeatures", "Conv2DTranspose", "DepthwiseConv2D", "SeparableConv2D", "ConvLSTM2D", "GlobalMaxPooling2D", "LSTMCell", "SpatialDropout2D", "AlphaDropout", "UpSampling2D", "ZeroPadding2D", "TimeDistributed"]


def layer(cls, **k):
    base = stubs._layer(cls)
    return base(**k)


def arr(c, name, shp, dt=np.float32):
    return c.mkarr([c.real(f"{name}_{i}", -4, 4, -6) for i in range(prod(shp))], shp, dt)


def dense(c, n, i, o, a, dt=np.float32, bias=True, cls="Dense"):
    W = arr(c, n + "w", (i, o), dt)
    ws = [W] + ([arr(c, n + "b", (o,), dt)] if bias else [])
    return layer(cls, name=n, weights=ws, activation=act(a, lambda x: x), units=o, use_bias=bias, config={"name": n, "units": o}), ("dense", ws, a, i, o)


def lstm(c, n, i, u, steps, seq, bias=True, cls="LSTM"):
    ws = [arr(c, n + "w", (i, 4 * u)), arr(c, n + "u", (u, 4 * u))] + ([arr(c, n + "b", (4 * u,))] if bias else [])
    cfg = {"name": n, "units": u, "return_sequences": seq, "use_bias": bias}
    return layer(cls, name=n, weights=ws, units=u, return_sequences=seq, _batch_input_shape=(None, steps, i), batch_input_shape=(None, steps, i), config=cfg), ("lstm", ws, i, u, steps, seq)


def conv(c, n, shp, strides, padding, a, bias=True, cls="Conv2D"):
    ws = [arr(c, n + "w", shp)] + ([arr(c, n + "b", shp[3:])] if bias else [])
    return layer(cls, name=n, weights=ws, strides=strides, padding=padding, activation=act(a, lambda x: x), use_bias=bias, pool_size=(2, 2), _batch_input_shape=(None, 8, 8, shp[2]),
                 config={"name": n, "strides": strides, "padding": padding, "units": 1, "return_sequences": False}), ("conv", ws, shp, strides, padding, a)


def pool(c, n, size, strides, padding, cls="MaxPooling2D"):
    return layer(cls, name=n, weights=[], pool_size=size, strides=strides, padding=padding, config={"name": n}), ("pool", size, strides, padding)


def nest(v, sh):
    """nested lists of a shape"""
    if not sh:
        return v[0]
    k = len(v) // sh[0] if sh[0] else 0
    return [nest(v[i * k:(i + 1) * k], sh[1:]) for i in range(sh[0])]


def same(a, b):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b)):
            return False
        return And(*[same(x, y) for x, y in zip(a, b)]) if len(a) else True
    return eq(a, b)


def holds(c, node, sh, want, dt, what):
    t = node["tensor"]
    c.check(list(t["shape"]) == list(sh), what + ": shape", str(t["shape"]))
    if dt is not None:
        c.check(t["dtype"] == np.dtype(dt).name, what + ": dtype", str(t["dtype"]))
    c.check(same(t["tensor"], nest(want, list(sh))), what + ": data")


def transposed(w):
    n, m = shape(w)
    v = exl(w)
    return [v[i * m + j] for j in range(m) for i in range(n)]


@wellformed
def judge(c, ops, what, name):
    """consumes the operators of one layer"""
    kind = what[0]
    if kind == "none":
        return
    op = ops.pop(0)
    if kind == "one":
        c.check(op["op_type"] == what[1], "operator of the layer", str(op["op_type"]))
        return
    A = op["attributes"] or {}
    if kind == "pool":
        _, size, strides, padding = what
        c.check(op["op_type"] == "MAXPOOLING_2D_F", "operator of the layer", str(op["op_type"]))
        c.check(list(A["pool_size"]["value"]) == list(size) and list(A["strides"]["value"]) == list(strides) and list(A["padding"]["value"]) == [0 if padding == "valid" else 1], "attributes of the layer", str(A))
        return
    ws = what[1]
    if kind == "lstm":
        _, _, i, u, steps, seq = what
        c.check(op["op_type"] == "LSTM_F", "operator of the layer", str(op["op_type"]))
        full = {n["tensor"]["name"]: n for n in op["inputs"]}
        for key, w in zip(("kernel", "recurrent_kernel"), ws):
            c.check(key + "/complete" in full, "weights of the layer")
            holds(c, full[key + "/complete"], shape(w)[::-1], transposed(w), np.float32, key)
        holds(c, full["bias/complete"], (4 * u,), exl(ws[2]) if len(ws) > 2 else [0] * (4 * u), np.float32 if len(ws) > 2 else None, "bias")
        c.check(list(A["units"]["value"]) == [u] and list(A["return_sequences"]["value"]) == [seq] and list(A["steps"]["value"]) == [steps], "attributes of the layer", str(A))
        return
    if kind == "dense":
        _, _, a, i, o = what
        dt = ws[0].dtype
        c.check(op["op_type"] == "FULLY_CONNECTED_F" and op["name"] == name, "operator of the layer", str(op["op_type"]))
        c.check(len(op["inputs"]) == 2, "kernel and bias")
        holds(c, op["inputs"][0], (o, i), transposed(ws[0]), dt, "kernel")
        holds(c, op["inputs"][1], (o,), exl(ws[1]) if len(ws) > 1 else [0] * o, dt if len(ws) > 1 else None, "bias")
    else:
        _, _, shp, strides, padding, a = what
        c.check(op["op_type"] == "CONV_2D_F", "operator of the layer", str(op["op_type"]))
        holds(c, op["inputs"][0], shp, exl(ws[0]), np.float32, "kernel")
        holds(c, op["inputs"][1], shp[3:], exl(ws[1]) if len(ws) > 1 else [0] * shp[3], np.float32 if len(ws) > 1 else None, "bias")
        c.check(list(A["strides"]["value"]) == list(strides) and list(A["padding"]["value"]) == [0 if padding == "valid" else 1], "attributes of the layer", str(A))
    fn = ops.pop(0)
    got = fn["op_type"].upper()
    c.check(got in (a.upper(), a.upper() + "_F") and not fn["inputs"], "activation of the layer", str(fn["op_type"]))


def convert(c, layers):
    m = c.mod("keras2json._convert", "keras")
    return m.keras2json(c.mod("tensorflow", "keras").keras.Model(layers))


@wellformed
def judge_model(c, made):
    if any(w[0] == "reject" for _, w in made):
        c.check(c.expect_raises(lambda: convert(c, [l for l, _ in made]), ValueError), "layers without a conversion are rejected")
        return
    before = [[exl(x) for x in l.weights] for l, _ in made]
    j = convert(c, [l for l, _ in made])
    ops = list(j["graph"])
    c.check(j["operators"] == len(ops), "number of operators")
    need = sum({"none": 0, "dense": 2, "conv": 2}.get(w[0], 1) for _, w in made)
    c.check(len(ops) == need, "every layer emits its operators", str([o["op_type"] for o in ops]))
    for l, w in made:
        judge(c, ops, w, l.name)
    for (l, _), old in zip(made, before):
        for x, y in zip(l.weights, old):
            c.eq_list(exl(x), y, "the model stays as it is")
    c.dumps(j)


def h_sequence(c, n, kinds):
    judge_model(c, [KINDS[c.choice(f"layer{k}", kinds)](c, f"l{k}") for k in range(n)])


def h_one(c, make, args):
    judge_model(c, [globals()[make](c, "l", **args)])


def h_other(c, cls, make):
    """a layer class that is not one of the known ones, whatever it looks like"""
    l = {"dense": lambda: dense(c, "l", 2, 2, "relu", cls=cls), "lstm": lambda: lstm(c, "l", 2, 1, 3, False, cls=cls), "conv": lambda: conv(c, "l", (2, 2, 1, 1), (1, 1), "valid", "relu", cls=cls),
         "pool": lambda: pool(c, "l", (2, 2), (1, 1), "valid", cls=cls), "plain": lambda: (layer(cls, name="l", weights=[], config={"name": "l"}), None)}[make]()[0]
    c.check(c.expect_raises(lambda: convert(c, [l]), ValueError), "layers without a conversion are rejected", cls)


def cases(tier):
    deep = tier == "thorough"
    out = []
    for n in (0, 1, 2):
        out.append(case(f"every sequence of {n}", h_sequence, weight=len(KINDS) ** n / 10, opts=B, n=n, kinds=list(KINDS)))
    if deep:
        out.append(case("sequences of 3", h_sequence, weight=200, opts=B, n=3, kinds=list(KINDS)))
    for i, o in ((1, 1), (1, 3), (3, 1), (2, 2), (3, 3)) + (((4, 2), (2, 5)) if deep else ()):
        for bias in (True, False):
            for a in ("relu", "linear"):
                out.append(case(f"dense {i}x{o} {a} {'with' if bias else 'without'} bias", h_one, opts=B, make="dense", args=dict(i=i, o=o, a=a, bias=bias)))
    for i, u, steps, seq in ((1, 1, 1, False), (2, 1, 4, True), (1, 3, None, True), (3, 2, 7, False)):
        for bias in (True, False):
            out.append(case(f"lstm {i}x{u}, {steps} steps, {seq}, {'with' if bias else 'without'} bias", h_one, opts=B, make="lstm", args=dict(i=i, u=u, steps=steps, seq=seq, bias=bias)))
    for shp in ((1, 1, 1, 1), (2, 3, 1, 2), (3, 1, 2, 1), (2, 2, 2, 3)):
        for bias in (True, False):
            for padding in ("valid", "same"):
                out.append(case(f"conv {shp} {padding} {'with' if bias else 'without'} bias", h_one, opts=B, make="conv", args=dict(shp=shp, strides=(1, 2), padding=padding, a="tanh", bias=bias)))
    for k in (5, 12, 30):
        out.append(case(f"large sequence of {k}", sparse(h_sequence, r"^(?!layer)"), weight=2, opts=B, n=k, kinds=list(KINDS)))
    for make, args in (("dense", dict(i=40, o=11, a="relu", bias=True)), ("dense", dict(i=11, o=40, a="linear", bias=False)), ("lstm", dict(i=5, u=11, steps=20, seq=True, bias=True)),
                       ("conv", dict(shp=(3, 5, 4, 12), strides=(2, 1), padding="same", a="relu", bias=True))):
        out.append(case(f"large {make} {args}", h_one, weight=2, opts=B, make=make, args=args))
    for cls in OTHER:
        for make in ("dense", "lstm", "conv", "pool", "plain"):
            out.append(case(f"{cls} that looks like {make}", h_other, opts=B, cls=cls, make=make))
    return out
