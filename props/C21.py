"""Dense extraction keeps the bias scale tied to the input and the kernel."""
from .common import *
from .keras_model import *

AC = "itcl_quantizer.tensor_extractor.keras.layers.activations"
BOUNDS = ("dense layers of 1-3 inputs and 1-3 units with and without bias; kernels, biases and 1-2 rows of calibration data with real values (multiples of 2^-4) in [-4, 4] and calibration histograms of 1-2 bins, "
          "or fixed kernels and data with the default 512 bins; kernels symmetric or not; dtypes int8/uint8/int4 kernels, int32 bias; activations linear, softmax, relu, relu6 and the two table activations; "
          "every sequence of up to 2 updates (3 thorough) of the parameters of the input and the kernel, with scales out of powers of two; "
          "larger cases: layers of up to 40 inputs, 20 units and 9 rows with fixed weights and data, any zero points")
O = {"fork_max": True, "max_paths": 3000}
TOL = Fr(1, 10 ** 6)


def steps_apart(q, v, rng, label, c, tol=TOL):
    """q is the nearest code of v, up to ties within tol"""
    lo, hi = rng
    c.check(And(ge(q, clamp(floor(v + Fr(1, 2) - tol), lo, hi)), le(q, clamp(floor(v + Fr(1, 2) + tol), lo, hi))), label)


def tied(c, ops, B, n_out, rng, what, rounded=True):
    """the bias of the operator is tied to its input and kernel"""
    i, k, b = ops[0].inputs
    c.check(eq(b.zero_point, 0), what + ": bias zero point")
    c.check(near(ex(b.scale), ex(i.scale) * ex(k.scale), 1e-12 * 16), what + ": bias scale")
    c.check(len(exl(b.quantized)) == n_out, what + ": bias length")
    want = exl(B) if B is not None else [0] * n_out
    j = ops[0].as_json()["inputs"][2]
    c.check(eq(j["scale"], b.scale) and eq(j["zero_point"], 0), what + ": JSON of the bias")
    c.eq_list(exl(j["tensor"]["tensor"]), exl(b.quantized), what + ": JSON of the bias")
    pol = exl(b.rounding_policy)
    for q, v, p in zip(exl(b.quantized), want, pol):
        # in steps of the current scale; the policy is the one of the tensor
        s = ex(b.scale)
        if rounded:
            c.check(And(ge(q * s, v - s * Fr(1, 2) - TOL * s), le(q * s, v + s * Fr(1, 2) + TOL * s)), what + ": bias integers")
        else:
            c.check(And(gt(q * s, v + (ex(p) - 1) * s - TOL * s), le(q * s, v + ex(p) * s + TOL * s)), what + ": bias integers")


def kernel_ok(c, ops, W, sym, dtype, what, cal=None):
    k = ops[0].inputs[1]
    lo, hi = irange(dtype)
    n_in, n_out = shape(W)
    M = mat(W)
    T = [M[i][j] for j in range(n_out) for i in range(n_in)]
    c.same_shape(k.quantized, (n_out, n_in), what + ": output-major kernel")
    c.check(eq(k.zero_point, 0), what + ": kernel zero point")
    top = mx(*[ab(v) for v in T])
    s = ex(k.scale)
    c.check(gt(s, 0), what + ": kernel scale")
    if cal:
        k0 = [e for e in cal.calls if e["s"] == k.scale]
        c.check(len(k0) == 1 and k0[0]["force_zp"] is not None and bool(k0[0]["symmetric"]) == sym, "calibration of the kernel")
        c.check(eq(k0[0]["q"].max_value(), hi), "dtype of the calibration of the kernel")
        c.check(And(*[And(le(k0[0]["min"], v), ge(k0[0]["max"], v)) for v in T]), "the kernel range covers the kernel")
        for q, v in zip(exl(k.quantized), T):
            c.check(eq(q, clamp(floor(v / s + Fr(1, 2)), lo, hi)), what + ": kernel integers")
    elif sym:
        c.check(Or(eq(top, 0), near(s * hi, top, top * TOL if not isinstance(top, (int, Fr)) else Fr(top) * TOL)), what + ": symmetric kernel scale")
    for q, v in zip(exl(k.quantized), T) if not cal else ():
        # no value is further than half a step away; without symmetry the largest one may miss its code by one step
        h = s * (Fr(1, 2) if sym else Fr(1)) + TOL * s
        c.check(And(ge(q * s, v - h), le(q * s, v + h)), what + ": kernel integers")
    j = ops[0].as_json()["inputs"][1]
    c.check(tuple(j["tensor"]["shape"]) == (n_out, n_in) and j["tensor"]["dtype"].lower() == dtype, what + ": JSON of the kernel")
    c.eq_list(exl(j["tensor"]["tensor"]), exl(k.quantized), what + ": JSON of the kernel")


def structure(c, res, ops, node, n_out, activation, rows):
    c.check(ops[0].inputs[0] is node and len(ops[0].inputs) == 3 and len(ops[0].outputs) == 1, "operands of the dense operator")
    j = ops[0].as_json()
    c.check(j["op_type"] == "FULLY_CONNECTED", "operator type", str(j["op_type"]))
    table = activation in ("tanh", "sigmoid")
    c.check(len(ops) == (2 if table else 1), "number of operators")
    out = ops[0].outputs[0]
    c.check(tuple(j["outputs"][0]["tensor"]["shape"]) == (n_out,), "shape of the output", str(j["outputs"][0]["tensor"]["shape"]))
    c.check(j["outputs"][0]["tensor"]["tensor"] is None, "data of intermediate tensors are left out")
    c.check(tuple(j["inputs"][2]["tensor"]["shape"]) == (n_out,), "shape of the bias")
    if table:
        c.check(ops[1].inputs[0] is out and out.LUT is not None, "the table belongs to the output of the dense operator")
        a = ops[1].as_json()
        c.check(tuple(a["outputs"][0]["tensor"]["shape"]) == (n_out,), "shape of the activated output")
        c.check(a["inputs"][0]["LUT"] is not None and a["op_type"] == activation.upper() + "LUT", "table operator")
    c.check(res.out_node is ops[-1].outputs[0], "the next layer continues from the last node")
    c.same_shape(res.input_data, (rows, n_out), "data of the next layer")


def updates(c, ops, node, B, n_out, W, steps, kinds=("input", "kernel", "input zp")):
    k = ops[0].inputs[1]
    for t in range(steps):
        u = c.choice(f"u{t}", list(kinds))
        if u == "input":
            node.update_quant_parameters(c.choice(f"us{t}", [0.5, 0.125]), c.int(f"uz{t}", -128, 127))
        elif u == "kernel":
            k.update_quant_parameters(c.choice(f"us{t}", [0.25, 0.0625]), 0)
        else:
            node.update_quant_parameters(node.scale, c.int(f"uz{t}", -128, 127))
        tied(c, ops, B, n_out, None, u, rounded=False)


def h_dense(c, n_in, n_out, rows, bias, bins=1, activation="linear", sym=True, dtype="int8", steps=0, W=None, X=None, sx=0.25, kinds=None, cal=True):
    if bins:
        histogram_bins(c, bins)
    real_calibration(c)
    cal = Calibration(c, [0.25, 0.5, 0.125]) if cal else None
    Wa = reals(c, "w", (n_in, n_out), -4, 4, -4) if W is None else np.array(W)
    Xa = reals(c, "x", (rows, n_in), -4, 4, -4) if X is None else np.array(X)
    Ba = reals(c, "b", (n_out,), -4, 4, -4) if bias else None
    node_zp = c.int("zp", -128, 127)
    src, node = source(c, Xa, sx, node_zp)
    lay = dense(c, "fc", Wa, Ba, activation)
    res = c.mod(KD).KerasDense(lay, kernel_dtype=dtype, kernel_symmetric=sym).quantize(src)
    ops = res.operators
    structure(c, res, ops, node, n_out, activation, rows)
    kernel_ok(c, ops, Wa, sym, dtype, "new layer", cal)
    tied(c, ops, Ba, n_out, None, "new layer")
    Y = affine(Xa, Wa, Ba)
    flat = [v for r in Y for v in r]
    if activation in ("relu", "relu6"):      # a layer without a positive output is dead: there is no range to speak of
        act_v = [mx(v, 0) if activation == "relu" else mn(mx(v, 0), 6) for v in flat]
        c.assume(lt(mn(*act_v), mx(*act_v)))
    f = {"relu": lambda v: mx(v, 0), "relu6": lambda v: mn(mx(v, 0), 6), "tanh": lambda v: v * Fr(1, 2), "sigmoid": lambda v: 1 - v * Fr(1, 4)}.get(activation, lambda v: v)
    c.eq_list(exl(res.input_data), [f(v) for v in flat], "data of the next layer", TOL)
    out = ops[0].outputs[0]
    c.check(And(ge(out.zero_point, -128), le(out.zero_point, 127), gt(out.scale, 0)), "output parameters")
    s = ex(out.scale)
    if cal:
        act_v = [mx(v, 0) if activation == "relu" else mn(mx(v, 0), 6) if activation == "relu6" else v for v in flat]
        for o, vs in zip([o.outputs[0] for o in ops], (act_v, [f(v) for v in flat])):
            k = [e for e in cal.calls if same_value(e["s"], o.scale) and same_value(e["zp"], o.zero_point)]
            c.check(len(k) == 1 and not k[0]["symmetric"], "calibration of the outputs")
            c.check(And(*[And(le(k[0]["min"], v), ge(k[0]["max"], v)) for v in vs]), "the output range covers the outputs")
            if activation in ("relu", "relu6") and o is out:
                c.check(And(ge(k[0]["min"], 0), le(k[0]["max"], mx(*act_v))), "the output range is rectified")
    elif activation in ("relu", "relu6"):
        c.check(eq(out.zero_point, -128), "the lowest code of a rectified output is zero")
        if activation == "relu6":
            c.check(le(255 * s, 6 + TOL), "the highest code of the output is six")
    for v in flat if not cal else ():
        if activation == "relu":
            v = mx(v, 0)
        elif activation == "relu6":
            v = mn(mx(v, 0), 6)
        # the calibrated range covers the outputs (one step: the zero point is rounded)
        c.check(And(le(v, (127 - ex(out.zero_point)) * s + s), ge(v, (-128 - ex(out.zero_point)) * s - s)), "the output range covers the outputs")
    c.eq_list(exl(src.input_data), exl(Xa), "the input data are left alone")
    # the layer itself is left alone
    c.eq_list(exl(lay.weights[0]), exl(Wa), "the layer is left alone")
    c.check(lay.activation is not None, "the layer is left alone")
    if steps:
        updates(c, ops, node, Ba, n_out, Wa, steps, kinds or ("input", "kernel", "input zp"))


def h_missing_input(c):
    W = np.array([[1.0]])
    r = c.mod(AL).QuantizationResult(np.array([[1.0]]), None, None, None)
    ok = c.expect_raises(lambda: c.mod(KD).KerasDense(dense(c, "fc", W)).quantize(r), ValueError)
    c.check(ok, "a layer needs an input node")


def h_chain(c, bias):
    """two layers: an update of the node between them reaches the bias of the second one, and only that one"""
    histogram_bins(c, 1)
    real_calibration(c)
    Calibration(c, [0.25, 0.5, 0.125, 1.0])
    W1, W2 = np.array([[1.0, -2.0], [0.5, 0.25]]), np.array([[0.75], [-1.5]])
    B1, B2 = reals(c, "b", (2,), -4, 4, -4), reals(c, "d", (1,), -4, 4, -4) if bias else None
    X = np.array([[1.0, 2.0], [-1.0, 0.5]])
    src, node = source(c, X, 0.25, 0)
    K = c.mod(KD).KerasDense
    r1 = K(dense(c, "one", W1, B1)).quantize(src)
    r2 = K(dense(c, "two", W2, B2)).quantize(r1)
    c.check(r2.operators[0].inputs[0] is r1.out_node, "the layers are chained")
    b1 = exl(r1.operators[0].inputs[2].quantized)
    for t in range(2):
        r1.out_node.update_quant_parameters(c.choice(f"s{t}", [0.5, 0.125]), c.int(f"z{t}", -128, 127))
        tied(c, r2.operators, B2, 1, None, "second layer", rounded=False)
        tied(c, r1.operators, B1, 2, None, "first layer", rounded=False)
        c.eq_list(exl(r1.operators[0].inputs[2].quantized), b1, "the first layer keeps its bias")
    r2.operators[0].inputs[1].update_quant_parameters(0.25, 0)
    tied(c, r2.operators, B2, 1, None, "second layer", rounded=False)


def h_skip(c, act_name, expect):
    """linear, softmax and rectified activations need no operator; the next layer gets the rectified data"""
    m, a = c.mod(TE), c.mod(AC)
    x = [c.real(f"x{i}", -8, 8, -6) for i in range(3)]
    node = m.NodeTensorBase(0.5, 0, "n", Q(c, "int8"))
    op, y = a.quantize_activation_node(act(act_name, ACTS[act_name.lower()]), act_name, c.mkarr(x, (3,), np.float64), Q(c, "int8"), node)
    c.check(op is None and node.LUT is None, "no operator")
    c.eq_list(exl(y), [{"relu": mx(v, 0), "relu6": mn(mx(v, 0), 6)}.get(expect, ex(v)) for v in x], "data of the next layer")


def cases(tier):
    th = tier == "thorough"
    out = [case("no input node", h_missing_input), case("two layers", h_chain, bias=True), case("two layers without bias", h_chain, bias=False)]
    for name in ("linear", "Softmax", "RELU", "relu6"):
        out.append(case(f"no table for {name}", h_skip, act_name=name, expect=name.lower()))
    WF = [[0.5, -1.25, 2.0], [1.0, 0.0, -0.75]]
    XF = [[1.0, -2.0], [0.5, 3.0], [-1.5, 0.25]]
    R = {"cal": False, "opts": O}
    for a in ("linear", "tanh", "sigmoid", "relu", "relu6", "softmax"):
        out.append(case(f"512 bins {a}", h_dense, n_in=2, n_out=3, rows=3, bias=False, bins=0, activation=a, W=WF, X=XF, steps=1, weight=2, **R))
    out.append(case("512 bins, 2 updates", h_dense, n_in=2, n_out=3, rows=3, bias=False, bins=0, W=WF, X=XF, steps=2, weight=2, **R))
    X2 = [[1.0, -0.5]]
    for sym in (True, False):
        for dt in ("int8", "uint8", "int4"):
            out.append(case(f"any kernel {dt} {'sym' if sym else 'asym'}", h_dense, n_in=2, n_out=1, rows=1, bias=False, sym=sym, dtype=dt, X=X2, opts=O, weight=3))
    out.append(case("any kernel and bias 2x2", h_dense, n_in=2, n_out=2, rows=1, bias=True, X=X2, opts=O, weight=5))
    out.append(case("any kernel and bias 1x2", h_dense, n_in=1, n_out=2, rows=1, bias=True, X=[[1.0]], steps=1, opts=O, weight=5))
    out.append(case("any bias", h_dense, n_in=2, n_out=2, rows=2, bias=True, W=[[1.0, -0.5], [2.0, 0.25]], X=[[1.0, -0.5], [2.0, 1.0]], steps=2, opts=O, weight=3))
    for a in ("linear", "relu", "relu6", "tanh", "sigmoid"):
        out.append(case(f"any data {a}", h_dense, n_in=2, n_out=2, rows=1, bias=True, activation=a, W=[[1.0, -0.5], [2.0, 0.25]], opts=O, weight=3))
    for a in ("linear", "relu"):
        out.append(case(f"any data {a} 2 bins", h_dense, n_in=2, n_out=1, rows=2, bins=2, bias=False, activation=a, W=[[1.0], [2.0]], opts=O, weight=3))
    for i, o, r, a in ((12, 9, 6, "linear"), (3, 20, 9, "relu"), (40, 2, 3, "tanh")):
        out.append(case(f"large {i}x{o} {a}, {r} rows", sparse(h_dense, r"^(zp|uz0)$"), n_in=i, n_out=o, rows=r, bias=True, activation=a, steps=1, opts=O, weight=5))
        out.append(case(f"large {i}x{o} {a}, {r} rows, real calibration", sparse(h_dense, r"^(zp|uz0)$"), n_in=i, n_out=o, rows=r, bias=False, bins=0, activation=a, steps=1, weight=5, **R))
    if th:
        out.append(case("any kernel, real calibration", h_dense, n_in=1, n_out=2, rows=1, bias=False, X=[[1.0]], weight=3, **R))
        for sym in (True, False):
            for dt in ("int8", "int4"):
                out.append(case(f"any kernel {dt} {'sym' if sym else 'asym'}, real calibration", h_dense, n_in=2, n_out=1, rows=1, bias=False, sym=sym, dtype=dt, X=X2, weight=5, **R))
        out.append(case("any kernel 2x2, real calibration", h_dense, n_in=2, n_out=2, rows=1, bias=False, X=X2, weight=5, **R))
        out.append(case("any kernel, bias and data", h_dense, n_in=1, n_out=1, rows=2, bias=True, steps=2, opts=O, weight=5))
        for a in ("linear", "tanh", "sigmoid", "relu", "relu6"):
            out.append(case(f"any data {a}, real calibration", h_dense, n_in=2, n_out=2, rows=1, bias=False, activation=a, W=[[1.0, -0.5], [2.0, 0.25]], weight=5, **R))
        out.append(case("any bias, 3 updates", h_dense, n_in=2, n_out=2, rows=2, bias=True, W=[[1.0, -0.5], [2.0, 0.25]], X=[[1.0, -0.5], [2.0, 1.0]], steps=3, opts=O, weight=5))
        out.append(case("any kernel and bias 3x3", h_dense, n_in=3, n_out=3, rows=1, bias=True, X=[[1.0, -0.5, 0.25]], steps=1, opts=O, weight=5))
    return out
