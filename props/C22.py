"""LSTM extraction is consistent with the LSTM inference layer."""
from .common import *
from .keras_model import *
from sx import stubs

KL = "itcl_quantizer.tensor_extractor.keras.layers.keras_lstm"
IL = "itcl_inference_engine.layers.itclq.lstm"
BOUNDS = ("LSTM layers of 1-2 features and 1-2 units (3 thorough), 1-2 samples of 1-3 time steps, both return modes; weights, biases and calibration data with real values (multiples of 2^-4) in [-2, 2]; tables of 2^2 codes "
          "(2^4 thorough); sigmoid and tanh are strictly monotone real functions; calibration replaced by its contract (any zero point of the dtype, one of the listed scales), which is decided on its own; "
          "every sequence of up to 2 updates (3 thorough) of the parameters of the input and of the kernels; any rounding bits; the inference layer on every int8 input code, first step; "
          "larger cases: a layer of 5 features and 6 units over 3 samples of 5 steps with fixed weights and data, any calibrated zero points")
ASSUMPTIONS = ["the float simulation is judged over the real numbers, rounding errors of the float arithmetic left out"]
GATES = ("input", "forget", "cell", "output")
TOL = Fr(1, 10 ** 6)
SCALES = [0.25, 0.5, 0.125, 1.0, 0.0625] + [k / 32 for k in range(1, 36) if k & (k - 1)]


def lstm(c, name, K, U, B, seq):
    base = stubs._keras_layers().LSTM

    class LSTM(base):
        def __init__(self):
            self.name, self.units, self.return_sequences = name, shape(U)[0], seq
            self.weights = [K, U, B]
            self.use_bias = True

        def get_weights(self):
            return self.weights
    return LSTM()


def simulate(X, K, U, B):
    """the float equations; X[sample][step][feature] -> rows of every stage, [step][sample][unit]"""
    n = len(U)
    sg, th = lambda v: fn("sigmoid", v), lambda v: fn("tanh", v)
    T = len(X[0])
    st = {k: [] for k in ("bias_add", "add", "i", "f", "g", "o", "c", "ca", "h")}
    h = [[0] * n for _ in X]
    cs = [[0] * n for _ in X]
    for t in range(T):
        row = {k: [] for k in st}
        for b in range(len(X)):
            ba = [sum(X[b][t][i] * K[i][j] for i in range(len(K))) + B[j] for j in range(4 * n)]
            y = [ba[j] + sum(h[b][k] * U[k][j] for k in range(n)) for j in range(4 * n)]
            i, f, g, o = [sg(v) for v in y[:n]], [sg(v) for v in y[n:2 * n]], [th(v) for v in y[2 * n:3 * n]], [sg(v) for v in y[3 * n:]]
            cs[b] = [f[k] * cs[b][k] + i[k] * g[k] for k in range(n)]
            ca = [th(v) for v in cs[b]]
            h[b] = [o[k] * ca[k] for k in range(n)]
            for k, v in zip(("bias_add", "add", "i", "f", "g", "o", "c", "ca", "h"), (ba, y, i, f, g, o, cs[b], ca, h[b])):
                row[k].append(v)
        for k in st:
            st[k].append(row[k])
    return st


def gate(stage, g, n):
    """the gate's part of a stage, flat"""
    return [v for step in stage for r in step for v in r[g * n:(g + 1) * n]]


def flat(stage):
    return [v for step in stage for r in step for v in r]


def same_data(got, want):
    """the same values, or at least the same range"""
    got = [ex(v) for v in got]
    if len(got) == len(want):
        a = And(*[near(p, q, TOL) for p, q in zip(got, want)])
        if a is True or not isinstance(a, bool):
            return Or(a, And(near(mn(*got), mn(*want), TOL), near(mx(*got), mx(*want), TOL)))
    return And(near(mn(*got), mn(*want), TOL), near(mx(*got), mx(*want), TOL))


def setup(c, feat, units, batch, steps, seq, sym, dtypes, real=False):
    g = lambda nm, shp, f: reals(c, nm, shp, -2, 2, -4) if nm in sym else np.array([f(i) for i in range(prod(shp))], dtype=np.float64).reshape(shp)
    K = g("k", (feat, 4 * units), lambda i: ((i * 37 + 11) % 41 - 20) / 16)
    U = g("u", (units, 4 * units), lambda i: ((i * 29 + 5) % 43 - 21) / 16)
    B = g("b", (4 * units,), lambda i: ((i * 23 + 3) % 37 - 18) / 16)
    X = g("x", (batch, steps, feat), lambda i: ((i * 19 + 7) % 29 - 14) / 8)
    real_calibration(c)
    cal = None if real else Contract(c, SCALES)
    src, node = source(c, X, 0.25, c.int("zp", -128, 127))
    lay = lstm(c, "rnn", K, U, B, seq)
    L = c.mod(KL).KerasLSTM(lay, **dtypes)
    return L, lay, src, node, K, U, B, X, cal


class Contract(Calibration):
    """the calibration contract without the histogram: the data of every call are recorded"""

    def __init__(self, c, scales):
        super().__init__(c, scales)
        D, cal = self.D, self
        D._real_init = getattr(D, "_real_init", D.__init__)

        def init(self, a, *args, **kw):
            self._sorted_a = a
        D.__init__ = init

        def quantize(self, q=None, force_zp=None, force_s=None, symmetric=False):
            q = q or Q(c, "int8")
            k = len(cal.calls)
            s = scales[k % len(scales)] if force_s is None else force_s
            zp = force_zp if force_zp is not None else c.int(f"calibrated{k}", int(q.min_value()), int(q.max_value()))
            cal.calls.append({"q": q, "force_zp": force_zp, "symmetric": symmetric, "data": exl(self._sorted_a), "s": s, "zp": zp})
            return s, zp
        D.quantize = quantize

    def of(self, node):
        return [e for e in self.calls if e["s"] == node.scale and (e["zp"] is node.zero_point or (not hasattr(e["zp"], "z") and not hasattr(node.zero_point, "z") and e["zp"] == node.zero_point))]


def restore(c):
    D = c.mod(DIST).Distribution
    if hasattr(D, "_real_init"):
        D.__init__ = D._real_init
    real_calibration(c)


def cols(W, g, n):
    return [r[g * n:(g + 1) * n] for r in mat(W)]


def nearest_code(c, node, vals, dtype, label):
    lo, hi = irange(dtype)
    s, z = ex(node.scale), ex(node.zero_point)
    qs = exl(node.quantized)
    c.check(len(qs) == len(vals), label + ": size")
    for q, v in zip(qs, vals):
        c.check(And(ge(q, clamp(floor(v / s + z + Fr(1, 2) - TOL), lo, hi)), le(q, clamp(floor(v / s + z + Fr(1, 2) + TOL), lo, hi))), label)


def tied(c, op, B, n, what, first=False):
    """the biases follow the scales of the input and of the kernels"""
    j = op.as_json()["inputs"]
    b = exl(B)
    for g in range(4):
        k, bn = op.inputs[1 + g], op.inputs[9 + g]
        c.check(eq(bn.zero_point, 0), f"{what}: {GATES[g]} bias zero point")
        c.check(near(ex(bn.scale), ex(op.inputs[0].scale) * ex(k.scale), 1e-12), f"{what}: {GATES[g]} bias scale")
        s = ex(op.inputs[0].scale) * ex(k.scale)
        pol = exl(bn.rounding_policy)
        qs = exl(bn.quantized)
        c.check(len(qs) == n, f"{what}: {GATES[g]} bias length")
        for q, v, p in zip(qs, b[g * n:(g + 1) * n], pol):
            if first:
                c.check(And(ge(q * s, v - s * Fr(1, 2) - TOL), le(q * s, v + s * Fr(1, 2) + TOL)), f"{what}: {GATES[g]} bias integers")
            else:
                c.check(And(gt(q * s, v + (ex(p) - 1) * s - TOL), le(q * s, v + ex(p) * s + TOL)), f"{what}: {GATES[g]} bias integers")
        c.check(eq(j[9 + g]["scale"], bn.scale), f"{what}: JSON of the {GATES[g]} bias")
        c.eq_list(exl(j[9 + g]["tensor"]["tensor"]), qs, f"{what}: JSON of the {GATES[g]} bias")


def table_ok(c, jin, node_in, jout, f, dtype, what):
    """the table of the gate, of its own activation and parameters"""
    lo, hi = irange(dtype)
    t = jin["LUT"]
    c.check(t is not None and len(t["LUT"]) == hi - lo + 1, what + ": table")
    if t is None:
        return
    c.check(eq(t["offset"], -lo), what + ": offset of the table")
    s, z, so, zo = ex(jin["scale"]), ex(jin["zero_point"]), ex(jout["scale"]), ex(jout["zero_point"])
    for k, q in enumerate(exl(t["LUT"])):
        v = fn(f, (lo + k - z) * s) / so + zo
        c.check(And(ge(q, clamp(floor(v + Fr(1, 2) - TOL * 2), lo, hi)), le(q, clamp(floor(v + Fr(1, 2) + TOL * 2), lo, hi))), what + ": table entries")


def h_extract(c, feat, units, batch, steps, seq=True, sym=(), dt="int2", updates=0, tables=True, calibrated=True, kinds=("input", "kernel 0", "kernel 1", "kernel 2", "kernel 3")):
    d = dict(recurrent_add_dtype=dt, activation_dtype=dt, cell_state_dtype=dt) if dt else {}
    dt = dt or "int8"
    L, lay, src, node, K, U, B, X, cal = setup(c, feat, units, batch, steps, seq, sym, d)
    try:
        res = L.quantize(src)
    finally:
        restore(c)
    n = units
    Xr = [[[ex(v) for v in exl(X)[(b * steps + t) * feat:(b * steps + t + 1) * feat]] for t in range(steps)] for b in range(batch)]
    st = simulate(Xr, mat(K), mat(U), exl(B))
    # the data of the next layer
    h = st["h"]
    want = [h[t][b][k] for b in range(batch) for t in range(steps) for k in range(n)] if seq else [v for r in h[-1] for v in r]
    c.same_shape(res.input_data, (batch, steps, n) if seq else (batch, n), "data of the next layer")
    c.eq_list(exl(res.input_data), want, "data of the next layer", TOL)
    c.eq_list(exl(src.input_data), exl(X), "the input data are left alone")
    c.check(len(res.operators) == 1 and res.out_node is res.operators[0].outputs[0], "the next layer continues from the last node")
    op = res.operators[0]
    j = op.as_json()
    ji = j["inputs"]
    c.check(j["op_type"] == "LSTM" and len(ji) == 32 and len(j["outputs"]) == 1, "operands of the operator")
    c.check(op.inputs[0] is node, "the input is the node of the previous layer")
    a = j["attributes"]
    c.check(bool(a["return_sequences"]["value"][0]) == seq and int(a["n_cells"]["value"][0]) == n, "attributes")
    for g in range(4):
        k, u, what = op.inputs[1 + g], op.inputs[5 + g], GATES[g] + " gate"
        kv, uv = [v for r in cols(K, g, n) for v in r], [v for r in cols(U, g, n) for v in r]
        nearest_code(c, k, kv, "int8", what + ": kernel")
        nearest_code(c, u, uv, "int8", what + ": recurrent kernel")
        c.check(tuple(ji[1 + g]["tensor"]["shape"]) == (feat, n) and tuple(ji[5 + g]["tensor"]["shape"]) == (n, n), what + ": shapes of the kernels")
        for p in (1 + g, 5 + g):
            c.eq_list(exl(ji[p]["tensor"]["tensor"]), exl(op.inputs[p].quantized), what + ": JSON of the kernels")
            c.check(And(eq(ji[p]["scale"], op.inputs[p].scale), eq(ji[p]["zero_point"], op.inputs[p].zero_point)), what + ": JSON of the kernels")
        c.check(And(eq(op.inputs[13 + g].zero_point, 0), near(ex(op.inputs[13 + g].scale), ex(u.scale) * ex(res.out_node.scale), 1e-12)), what + ": scale of the input product")
        if tables:
            nearest_code(c, op.inputs[13 + g], gate(st["bias_add"], g, n), "int32", what + ": input product")
        ra, gi, go = op.inputs[17 + g], ji[22 + 2 * g], ji[23 + 2 * g]
        c.check(And(eq(gi["scale"], ra.scale), eq(gi["zero_point"], ra.zero_point)), what + ": the table reads the recurrent product")
        if tables:
            table_ok(c, gi, ra, go, "tanh" if g == 2 else "sigmoid", dt, what)
        if calibrated:
            data = {17 + g: gate(st["add"], g, n), 23 + 2 * g: flat(st["ifgo"[g]]), 1 + g: kv, 5 + g: uv}
            for p, want in data.items():
                e = cal.of(op.inputs[p])
                c.check(bool(e) and not e[0]["symmetric"], f"{what}: calibration of operand {p}")
                if e:
                    c.check(same_data(e[0]["data"], want), f"{what}: data operand {p} is calibrated on")
    cell, ci, co = op.inputs[21], ji[30], ji[31]
    c.check(eq(cell.zero_point, 0), "cell state: symmetric")
    c.check(And(eq(ci["scale"], cell.scale), eq(ci["zero_point"], cell.zero_point)), "cell state: the table reads the cell state")
    if tables:
        table_ok(c, ci, cell, co, "tanh", dt, "cell state")
    if calibrated:
        for nd, want, sy in ((cell, flat(st["c"]), True), (op.inputs[31], flat(st["ca"]), False), (res.out_node, flat(st["h"]), False)):
            e = cal.of(nd)
            c.check(bool(e) and bool(e[0]["symmetric"]) == sy, "calibration of the states")
            if e:
                c.check(same_data(e[0]["data"], want), "data the states are calibrated on")
    tied(c, op, B, n, "new layer", first=True)
    for t in range(updates):
        w = c.choice(f"u{t}", list(kinds))
        nd = node if w == "input" else op.inputs[1 + int(w[-1])]
        nd.update_quant_parameters(c.choice(f"us{t}", [0.5, 0.125]), c.int(f"uz{t}", -128, 127))
        tied(c, op, B, n, f"update of {w.split()[0]}")


def h_infer(c, feat, units, batch, steps, seq):
    """the inference layer takes the operator as it is"""
    L, lay, src, node, K, U, B, X, cal = setup(c, feat, units, batch, steps, seq, (), {})
    cal.calls.clear()
    D = c.mod(DIST).Distribution
    zps = iter([3, -5, 7, 0, 1, -2, 4, -9, 6, -7, 12, 0, -1, 0, -128, -119, 2, -100, 5, -3])

    def quantize(self, q=None, force_zp=None, force_s=None, symmetric=False):
        k = len(cal.calls)
        cal.calls.append(k)
        z = next(zps)
        return SCALES[k % len(SCALES)], z if force_zp is None else force_zp
    D.quantize = quantize
    try:
        res = L.quantize(src)
    finally:
        restore(c)
    op = res.operators[0]
    layer = c.mod(IL).LSTM.from_model(op.as_json())
    x = c.iarr("q", (batch, steps, feat), -128, 127, "int8")
    y = layer.infer(x)
    c.same_shape(y, (batch, steps, units) if seq else (batch, units), "inferred data")
    it = layer.intermediate_tensors
    hs, n = exl(it.hidden_state), units
    z = lambda p: ex(op.inputs[p].zero_point)
    s = lambda p: ex(op.inputs[p].scale)
    so, zo = ex(res.out_node.scale), ex(res.out_node.zero_point)
    q = exl(x)
    one = 1 + Fr(1, 10 ** 4)
    # first step: from the integers of the gates' own nodes
    for b in range(batch):
        for u in range(n):
            for g in range(4):
                k = mat(op.inputs[1 + g].quantized)
                acc = sum((ex(q[b * steps * feat + i]) - z(0)) * (k[i][u] - z(1 + g)) for i in range(feat)) + ex(exl(op.inputs[9 + g].quantized)[u])
                v = acc * s(0) * s(1 + g)
                ra = exl(it.recurrent_add[0][g])[b * n + u]
                c.check(And(ge(ra, -128), le(ra, 127)), "codes of the recurrent product")
                # one step of the input product, one of the recurrent product
                t = one * s(5 + g) * so / s(17 + g) + one
                w = v / s(17 + g) + z(17 + g)
                c.check(And(ge(ra, mn(127, w - t)), le(ra, mx(-128, w + t))), GATES[g] + " gate of the inference layer")


def h_missing(c):
    L = setup(c, 1, 1, 1, 1, True, (), {})[0]
    restore(c)
    r = c.mod(AL).QuantizationResult(np.array([[[1.0]]]), None, None, None)
    c.check(c.expect_raises(lambda: L.quantize(r), ValueError), "a layer needs an input node")


def h_adaround(c, feat, units):
    """any policy of the optimiser ends up in the tensors it belongs to"""
    L, lay, src, node, K, U, B, X, cal = setup(c, feat, units, 1, 1, False, (), dict(recurrent_add_dtype="int2", activation_dtype="int2", cell_state_dtype="int2"))
    try:
        res = L.quantize(src)
    finally:
        restore(c)
    op = res.operators[0]
    log = {"n": 0}

    class Optimizer:
        def set_cost_fn(self, f):
            log["cost"] = f

        def set_layer(self, l):
            log["layer"] = l

        def set_input_data(self, d):
            log["data"] = d

        def set_quant_results(self, r):
            log["res"] = r

        def set_initial_neigh(self, ns):
            log["start"] = [exl(v) for v in ns]
            log["shapes"] = [shape(v) for v in ns]

        def optimize(self):
            new = lambda k: [c.mkarr([c.int(f"p{k}_{i}_{t}", 0, 1) for t in range(prod(s))], s, np.float64) for i, s in enumerate(log["shapes"])]
            log["tried"] = new(0)
            log["at tried"] = log["cost"](log["tried"])
            log["best"] = new(1)
            return log["best"], 0.0

    weights = [op.inputs[p] for p in range(1, 13)]
    before = {id(t): exl(t.rounding_policy) for t in weights}

    def cost():
        log["n"] += 1
        log["seen"] = [exl(t.rounding_policy) for t in weights]
        return 1.5
    res.layer.adaround(Optimizer, res, cost)
    c.check(log.get("data") is not None and log.get("layer") is L and log.get("res") is res, "what the optimiser is told")
    c.eq_list(exl(log["data"]), exl(X), "data of the optimiser")
    c.check(len(log["start"]) == 12, "every weight of the layer is optimised")
    c.check(log["n"] == 1 and log["at tried"] == 1.5, "the cost is the one that was asked for")
    # which policy belongs to which tensor: the one it was told to start from
    after = {id(t): exl(t.rounding_policy) for t in weights}
    for i, t in enumerate(weights):
        vals = exl(t._fp_tensor)
        ps = after[id(t)]
        c.check(len(ps) == len(vals), "size of a policy")
        c.check(Or(*[And(*[eq(p, q) for p, q in zip(ps, exl(bst))]) for bst in log["best"] if len(exl(bst)) == len(ps)]), "the best policy is installed")
        lo, hi = irange("int32" if i >= 8 else "int8")
        s, z = ex(t.scale), ex(t.zero_point)
        for q, v, p in zip(exl(t.quantized), vals, ps):
            c.check(eq(q, clamp(floor(v / s + z + ex(p)), lo, hi)) if pow2(t.scale) else And(ge(q, clamp(floor(v / s + z + ex(p) - TOL), lo, hi)), le(q, clamp(floor(v / s + z + ex(p) + TOL), lo, hi))), "integers of the best policy")


def cases(tier):
    th = tier == "thorough"
    O = {"max_paths": 2000, "exact": True}
    out = []
    E = dict(opts=O, tables=False)
    for seq in (True, False):
        n = "sequences" if seq else "last state"
        out.append(case(f"any weights {n}", h_extract, feat=1, units=1, batch=1, steps=1, seq=seq, sym=("k", "u", "b"), opts=O, weight=3))
        out.append(case(f"any data {n}", h_extract, feat=1, units=1, batch=2, steps=2, seq=seq, sym=("x",), weight=4, **E))
        out.append(case(f"two units, any data {n}", h_extract, feat=2, units=2, batch=1, steps=2, seq=seq, sym=("x",), weight=4, **E))
        out.append(case(f"everything {n}", h_extract, feat=2, units=1, batch=2, steps=2, seq=seq, sym=("k", "u", "b", "x"), weight=4, **E))
        out.append(case(f"fixed 2x2 {n}", h_extract, feat=2, units=2, batch=2, steps=3, seq=seq, opts=O, weight=3))
        out.append(case(f"inference {n}", h_infer, feat=2, units=2, batch=2, steps=2, seq=seq, opts={"cut": True}, weight=3))
    out.append(case("two units, any weights", h_extract, feat=2, units=2, batch=1, steps=2, sym=("k", "u", "b"), weight=5, **E))
    out.append(case("any bias, update", h_extract, feat=1, units=2, batch=1, steps=1, sym=("b",), weight=4, updates=1, **E))
    out.append(case("any bias, 2 updates", h_extract, feat=1, units=1, batch=1, steps=1, sym=("b",), weight=4, updates=2, kinds=("input", "kernel 2"), **E))
    out.append(case("large", sparse(h_extract, r"^(?![kubx]_?\d|[kubx]\[)"), feat=5, units=6, batch=3, steps=5, seq=True, sym=("k", "u", "b", "x"), weight=4, **E))
    out.append(case("rounding", h_adaround, feat=1, units=1, opts=O, weight=3))
    out.append(case("rounding of two units", h_adaround, feat=2, units=2, opts=O, weight=3))
    out.append(case("no input node", h_missing))
    if th:
        out.append(case("3x3 units, everything", h_extract, feat=2, units=3, batch=1, steps=1, sym=("k", "u", "b", "x"), weight=6, **E))
        out.append(case("3 steps, everything", h_extract, feat=1, units=1, batch=2, steps=3, sym=("k", "u", "b", "x"), weight=6, **E))
        out.append(case("2 steps 2x2, everything", h_extract, feat=2, units=2, batch=2, steps=2, sym=("k", "u", "b", "x"), weight=6, **E))
        out.append(case("int4 tables, any weights", h_extract, feat=1, units=1, batch=1, steps=2, dt="int4", sym=("k", "u", "b"), opts=O, weight=6))
        out.append(case("any bias, 2 updates of anything", h_extract, feat=1, units=2, batch=1, steps=1, sym=("b",), weight=6, updates=2, **E))
        out.append(case("any bias, 3 updates", h_extract, feat=1, units=1, batch=1, steps=1, sym=("b",), weight=6, updates=3, kinds=("input", "kernel 1"), **E))
    return out
