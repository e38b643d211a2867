"""A quantised network computes the float network up to the quantisation steps."""
import itertools
import os
import tempfile
from .common import *
from .keras_model import *
from .C26 import scratch

KB = "itcl_quantizer.tensor_extractor.keras.keras_builder"
CFG = "itcl_quantizer.config.models.keras"
SEQ = "itcl_inference_engine.network.sequential"
BOUNDS = ("models of 1-3 dense layers with 1-3 inputs and 1-3 neurons, linear, rectified (relu, relu6) and table activations, with and without biases, dropout between layers, int8 data types, symmetric and plain kernels, "
          "calibrated by the real histogram code on the corners and inner points of a box; fixed weights and data sets, every real input of the box and beyond it (saturation); "
          "larger cases: a layer of 11 neurons, a model of 6 layers and a batch of 12 rows with part of the input symbolic")
ASSUMPTIONS = ["values and codes over the real numbers, rounding errors of the float arithmetic left out",
               "activations of table layers are piecewise linear stand-ins (tables of tanh and sigmoid are decided on their own)"]
LIP = {"tanh": Fr(1), "sigmoid": Fr(1, 4)}
FNS = {**ACTS, "tanh": lambda x: np.minimum(np.maximum(x, -0.75), 0.5)}
REF = {"linear": lambda v: v, "softmax": lambda v: v, "relu": lambda v: mx(v, 0), "relu6": lambda v: mn(mx(v, 0), 6),
       "tanh": lambda v: mn(mx(v, -Fr(3, 4)), Fr(1, 2)), "sigmoid": lambda v: 1 - v * Fr(1, 4)}


SEED = 34


def weights(n, m, seed):
    """fixed, distinct and uneven numbers"""
    r = np.random.RandomState(seed)
    return np.round(r.uniform(-1.5, 1.5, (n, m)), 3)


def biases(m, seed):
    return np.round(np.random.RandomState(seed + 100).uniform(-0.75, 0.75, (m,)), 3)


def data(lo, hi):
    pts = [list(p) for p in itertools.product(*[sorted({l, (l + 2 * h) / 3, h}) for l, h in zip(lo, hi)])]
    return np.array(pts, dtype=np.float64)


def reach(rows):
    """ends of the calibrated ranges of a tensor, over all its elements"""
    v = [x for r in rows for x in r]
    return min(min(v), Fr(0)), max(max(v), Fr(0))


def step(lo, hi):
    return (hi - lo) / 255 if hi > lo else Fr(1)


def reference(layers, rows, x, levels=127):
    """float output of the model with every tensor kept inside its calibrated range, and the error the steps allow"""
    lo, hi = reach(rows)
    s = step(lo, hi)
    # half a step of rounding, half a step because the zero point is rounded, each with a margin
    x, e, size = [clamp(v, lo, hi) for v in x], s * Fr(101, 100), max(-lo, hi) + s
    for W, b, act in layers:
        W = [[Fr(float(v)) for v in r] for r in W]
        n, m = len(W), len(W[0])
        B = [Fr(float(v)) for v in b] if b is not None else [Fr(0)] * m
        sw = max(abs(v) for r in W for v in r) / levels
        sb = s * sw
        y = [sum(x[i] * W[i][j] for i in range(n)) + B[j] for j in range(m)]
        Y = [[sum(r[i] * W[i][j] for i in range(n)) + B[j] for j in range(m)] for r in rows]
        # weights are half a step off, those at the upper end of a plain kernel up to a whole step
        off = [[sw * Fr(101, 100) if v > (levels - 1) * sw * levels / (levels + 1) else sw * Fr(51, 100) for v in r] for r in W]
        e = max(sum(abs(W[i][j]) * e + off[i][j] * (size + e) for i in range(n)) for j in range(m)) + sb
        f = REF[act] if act in ("relu", "relu6") else REF["linear"]
        rows, y = [[f(v) for v in r] for r in Y], [f(v) for v in y]
        lo, hi = reach(rows)
        s = step(lo, hi)
        y = [clamp(v, lo, hi) for v in y]
        e, size = e * Fr(1001, 1000) + s * Fr(102, 100), max(-lo, hi) + s
        if act in LIP:
            rows, y = [[REF[act](v) for v in r] for r in rows], [REF[act](v) for v in y]
            lo, hi = reach(rows)
            s = step(lo, hi)
            y = [clamp(v, lo, hi) for v in y]
            e, size = e * LIP[act] + s * Fr(102, 100), max(-lo, hi) + s
        x = y
    return x, e


def model(c, spec, lo, hi, drop, fixed):
    sizes = [len(lo)] + [m for m, _, _ in spec]
    layers, keras = [], []
    for k, (m, act, bias) in enumerate(spec):
        W = weights(sizes[k], m, SEED + 7 * k + 3 * m + len(spec))
        b = biases(m, k) if bias else None
        if fixed:
            W, b = (None if v is None else np.array(v, dtype=np.float64) for v in fixed[k])
        layers.append((W, b, act))
        keras.append(dense(c, f"dense_{k}", c.const(W), None if b is None else c.const(b), act, FNS))
        if drop:
            keras.append(type("Dropout", (stubs._keras_layers().Dropout,), {"name": f"dropout_{k}"})())
    return layers, keras


def h_end_to_end(c, spec, lo, hi, over, drop=False, sym_kernel=False, saved=False, kernel="int8", batch=1, fixed=None):
    layers, keras = model(c, spec, lo, hi, drop, fixed)
    X = data(lo, hi)
    m = c.mod(KB)
    c.files["model.h5"] = m.keras.Model(keras)
    cfg = c.mod(CFG).QuantizerCfg()
    cfg.dense.kernel_symmetric, cfg.dense.kernel_dtype = sym_kernel, kernel
    S = c.mod(SEQ).SequentialNetwork

    def build():
        net = m.build("model.h5", "net.json", c.const(X), None, cfg)
        return S.from_json_file("net.json") if saved else net.as_sequential_network()
    net = scratch(build)
    n = len(lo)
    x = c.mkarr([c.real(f"x{r}_{i}", lo[i] - over, hi[i] + over, 0) for r in range(batch) for i in range(n)], (batch, n), np.float64)
    y = net.infer(x)
    rows, levels = [[Fr(float(v)) for v in r] for r in X], irange(kernel)[1]
    c.check(prod(shape(y)) == batch * spec[-1][0], "one output per neuron", str(shape(y)))
    got, xs, m = exl(y), exl(x), spec[-1][0]
    for r in range(batch):
        want, tol = reference(layers, rows, xs[r * n:(r + 1) * n], levels)
        for k, b in enumerate(want):
            a = got[r * m + k]
            c.check(And(ge(a, b - tol), le(a, b + tol)), "output within the quantisation steps of the float network", f"{r} {k}: within {float(tol):.4g}")


def cases(tier):
    T = tier != "quick"
    o = {"check_timeout": 120000 if T else 40000, "time_s": 600 if T else 150, "max_paths": 400, "exact": True}
    U, V = [-1.0, -0.5, -2.0], [1.0, 0.75, 0.5]
    out = []

    def add(name, spec, n=2, over=0.0, **k):
        out.append(case(name, h_end_to_end, weight=len(spec) * 4, opts=o, spec=spec, lo=U[:n], hi=V[:n], over=over, **k))
    for act in ("linear", "relu", "relu6", "tanh", "sigmoid"):
        add(f"one layer {act}", [(2, act, True)])
    add("one input", [(1, "linear", True)], n=1)
    add("three inputs, no bias", [(1, "linear", False)], n=3)
    add("symmetric kernel", [(2, "linear", True)], sym_kernel=True)
    add("beyond the box", [(2, "linear", True)], over=2.0)
    out.append(case("large batch", sparse(h_end_to_end, r"^x11_"), weight=6, opts=o, spec=[(2, "relu", True), (2, "linear", True)], lo=U[:2], hi=V[:2], over=0.0, batch=12))
    out.append(case("large layers", sparse(h_end_to_end, r"^x0_0"), weight=6, opts=o, spec=[(11, "relu", True), (3, "linear", True)], lo=U[:2], hi=V[:2], over=0.0))
    out.append(case("large depth", sparse(h_end_to_end, r"^x0_1"), weight=6, opts=o, spec=[(2, "relu", True)] + 4 * [(2, "linear", True)] + [(1, "relu", True)], lo=U[:2], hi=V[:2], over=0.0))
    add("from file", [(2, "relu", True)], saved=True)
    add("kernel of 4 bits", [(2, "linear", True)], kernel="int4")
    add("kernel of 4 bits, symmetric", [(2, "relu", True)], kernel="int4", sym_kernel=True)
    add("two rows", [(2, "relu6", True)], batch=2)
    add("three layers", [(2, "relu", True), (2, "linear", True), (1, "linear", False)])
    for a, b in (("linear", "linear"), ("relu", "linear"), ("tanh", "linear"), ("relu", "sigmoid")):
        add(f"two layers {a} {b}", [(2, a, True), (1, b, a != "tanh")], drop=a == "relu")
    add("two tables of a kind", [(2, "tanh", True), (2, "tanh", True)])
    # rectified neurons that cancel without their activation, wide ranges
    V_ = [([[1.0, -1.0], [0.5, -0.5]], None), ([[1.0], [1.0]], [0.25])]
    for a in ("relu", "relu6"):
        add(f"opposite neurons {a}", [(2, a, False), (1, "linear", True)], fixed=V_)
        out.append(case(f"wide range {a}", h_end_to_end, weight=4, opts=o, spec=[(2, a, True), (1, "linear", True)], lo=[-3.0, -1.0], hi=[4.0, 9.0], over=0.0, fixed=V_))
    out.append(case("range off zero", h_end_to_end, weight=4, opts=o, spec=[(2, "linear", True), (1, "sigmoid", True)], lo=[2.0, 5.0], hi=[4.0, 9.0], over=0.0))
    if T:
        add("three layers with a table", [(2, "relu", True), (2, "tanh", True), (1, "linear", True)])
        add("wide", [(3, "relu", True), (2, "linear", True)], n=3)
        for a, b in itertools.product(("linear", "relu", "relu6", "tanh", "sigmoid"), repeat=2):
            add(f"two layers {a} {b} thorough", [(2, a, True), (2, b, True)])
    return out
