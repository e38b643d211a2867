"""Collision and noise reports count and measure what they say."""
from .common import *
from .keras_model import *

CO = "itcl_quantizer.util.collisions"
NO = "itcl_quantizer.quantizer.metrics.noise"
BOUNDS = ("collision counts of 1-4 elements, any real values with 0-2 decimals of tolerance and any codes, one- and two-dimensional; dense layers of 1-2 inputs and units, 1-4 rows (fixed weights and data for more than two), with and without tables; "
          "LSTM reports of 1-2 features, units, samples and time steps with fixed weights and any float results; histograms of 1-4 bins with any counts; "
          "larger cases: counts of 20 values with one symbolic code or any zero point")
O = {"max_paths": 3000}
E = {"max_paths": 3000, "exact": True}


def collisions(c, fp, q, eps):
    """for every code that stands for two or more different values: how many they are"""
    v = [ex(x) for x in fp]
    if eps:
        v = [rint(x * 10 ** eps) for x in v]
    q = [ex(x) for x in q]
    n = 0
    for i in range(len(v)):
        new = And(*[Not(And(eq(v[j], v[i]), eq(q[j], q[i]))) for j in range(i)]) if i else True
        merged = Or(*[And(eq(q[j], q[i]), Not(eq(v[j], v[i]))) for j in range(len(v)) if j != i]) if len(v) > 1 else False
        n = n + ite(And(new, merged), 1, 0)
    return n


def h_count(c, shp, eps, own=False, qdt="int8", codes=None):
    f = c.mod(CO).calc_collisions
    n = prod(shp)
    a = reals(c, "a", shp, -2, 2, -5)
    if own:         # the codes of a quantisation
        k = Q(c, qdt)
        q = k.quantize(a, c.int("zp", -4, 4), pow2(0))
    else:           # any codes, also different ones for equal values
        q = np.array(codes, dtype=qdt).reshape(shp) if codes else c.mkarr([c.int(f"q{i}", -2, 2) for i in range(n)], shp, np.dtype(qdt))
    r = f(a, q, eps)
    c.check(eq(r, collisions(c, exl(a), exl(q), eps)), "number of collisions")
    c.check(ge(r, 0) and le(r, n), "between none and all")
    one = f(a, a, eps) if not eps else None
    if one is not None:
        c.check(eq(one, 0), "a tensor does not collide with itself")


def h_order(c, n):
    """the order of the elements does not matter"""
    f = c.mod(CO).calc_collisions
    v = [c.real(f"a{i}", -2, 2, -4) for i in range(n)]
    q = [c.int(f"q{i}", -2, 2) for i in range(n)]
    mk = lambda x, y: (c.mkarr(x, (n,), np.float64), c.mkarr(y, (n,), np.int8))
    c.check(eq(f(*mk(v, q), 0), f(*mk(v[::-1], q[::-1]), 0)), "order of the elements")


def h_layer(c, n_in, n_out, rows, activation="linear"):
    """the layer's report has one entry per tensor, averaged over the rows of batched tensors"""
    histogram_bins(c, 1)
    real_calibration(c)
    Calibration(c, [0.25, 0.5, 0.125])
    W = reals(c, "w", (n_in, n_out), -4, 4, -4) if rows < 3 else np.array([[0.5, -1.25]])[:, :n_out]
    X = reals(c, "x", (rows, n_in), -4, 4, -4) if rows < 3 else np.array([[0.5], [-3.0], [2.0], [0.25]])[:rows]
    src, node = source(c, X, 0.25, 0)
    layer = c.mod(KD).KerasDense(dense(c, "fc", W, None, activation))
    res = layer.quantize(src)
    ops = res.operators
    nodes = [ops[0].inputs[1], ops[0].outputs[0]] + ([ops[1].outputs[0]] if len(ops) == 2 else [])
    # thirds have no exact floating point number: a few counts instead of all
    counts = [c.choice(f"n{i}", [0, 1, 3, 4, 9, 11]) if rows == 3 else c.int(f"n{i}", 0, 20) for i in range(len(nodes))]
    asked = []

    def policy(fp, q):
        for i, t in enumerate(nodes):
            if shape(fp) == shape(t.fp_tensor) and same(exl(fp), exl(t.fp_tensor)) and shape(q) == shape(t.quantized) and same(exl(q), exl(t.quantized)):
                asked.append(i)
                return counts[i]
        asked.append(None)
        return 99
    got = layer.calc_collisions(res, policy)
    c.check(None not in asked, "the policy sees a tensor and its codes")
    c.check(set(got) == {t.name for t in nodes} and len(got) == len(nodes), "one entry per tensor", str(list(got)))
    total = 0
    for i, t in enumerate(nodes):
        want = counts[i] if i == 0 else -floor(-ex(counts[i]) / rows)
        total = total + want
        if t.name in got:
            c.check(eq(got[t.name], want), "the count of its own tensor, averaged over rows")
    c.check(eq(layer.sum_collisions(res, policy), total), "the sum over the tensors")


def same(a, b):
    return len(a) == len(b) and all(same_value(x, y) or (hasattr(x, "z") and hasattr(y, "z") and x.z.eq(y.z)) for x, y in zip(a, b))


def h_other(c):
    """layers without a report have no collisions"""
    I = c.mod("itcl_quantizer.tensor_extractor.keras.layers").KerasInput(Q(c, "int8"))
    X = reals(c, "x", (2, 2), -4, 4, -4)
    real_calibration(c)
    histogram_bins(c, 1)
    Calibration(c, [0.25])
    res = I.quantize(c.mod(AL).QuantizationResult(X, None, None, I))
    calls = []
    n = I.sum_collisions(res, lambda a, b: calls.append(1) or 5)
    c.check(eq(n, 5 * len(calls)), "the sum over the tensors")


def hist(c, name, counts):
    """a distribution with the given counts: one value inside each unit bin, repeated"""
    n = len(counts)
    data = [i + 0.5 for i, k in enumerate(counts) for _ in range(k)]
    return c.mod(DIST).Distribution(np.array(data), bins=np.array([float(i) for i in range(n + 1)]))


def h_compare(c, n):
    """the metric gets the two histograms as shares of their own data"""
    ks = [[c.choice(f"{w}{i}", [0, 1, 3]) for i in range(n)] for w in "ab"]
    ks = [k if sum(k) else k[:-1] + [2] for k in ks]
    A, B = hist(c, "a", ks[0]), hist(c, "b", ks[1])
    seen = []
    r = c.int("r", 0, 100)
    for norm, args in ((True, ()), (True, (True,)), (False, (False,))):
        del seen[:]
        out = A.compare(B, lambda p, q: seen.append((exl(p), exl(q))) or r, *args)
        c.check(out is r or eq(out, r), "the result of the metric")
        c.check(len(seen) == 1, "one comparison")
        for got, k in zip(seen[0], ks):
            want = [Fr(x, sum(k)) if norm else x for x in k]
            c.check(len(got) == n and And(*[near(g, w, 1e-12) for g, w in zip(got, want)]), "histograms of the comparison")
    for D, k in ((A, ks[0]), (B, ks[1])):
        p = exl(D.normalize())
        c.check(near(sum(p), 1, 1e-9) and And(*[ge(v, 0) for v in p]), "shares of the data")
        c.eq_list([ex(v) for v in D.get_histogram()], k, "comparisons leave the histogram alone")


def h_scribble(c):
    """metrics may change their arguments: the distributions stay"""
    A, B = hist(c, "a", [1, 0, 2]), hist(c, "b", [3, 1, 0])
    x = c.choice("x", [-1, 0, 7])

    def scribble(p, q):
        p[...] = x
        q[0] = x
        return 0
    for norm in (True, False):
        A.compare(B, scribble, norm)
        A.compare(A, scribble, norm)
        c.eq_list([ex(v) for v in A.get_histogram()], [1, 0, 2], "comparisons leave the histogram alone")
        c.eq_list([ex(v) for v in B.get_histogram()], [3, 1, 0], "comparisons leave the histogram alone")


def h_mse(c, n):
    p, q = reals(c, "p", (n,), -4, 4, -4), reals(c, "q", (n,), -4, 4, -4)
    f = c.mod(NO).mse
    r = f(p, q)
    a, b = exl(p), exl(q)
    c.check(near(r, sum((x - y) * (x - y) for x, y in zip(a, b)) / n, 1e-9), "mean squared difference")
    c.check(eq(f(p, p), 0), "no difference")
    c.check(near(f(q, p), r, 1e-12), "symmetric")
    c.eq_list(exl(p), a, "arguments are left alone")


STAGES = [(f"bias_add[{g}]", lambda it, t, g=g: it.bias_add[t][g]) for g in range(4)] + [(f"recurrent_add[{g}]", lambda it, t, g=g: it.recurrent_add[t][g]) for g in range(4)] + [
    (k, lambda it, t, k=k: getattr(it, k)[t]) for k in ("input_gate_act", "forget_gate_act", "cell_gate_act", "output_gate_act", "cell_state", "cell_state_act", "hidden_state")]
NODES = [13, 14, 15, 16, 17, 18, 19, 20, 23, 25, 27, 29, 21, 31]


def h_lstm_noise(c, feat, units, batch, steps):
    """an LSTM's report: per intermediate tensor and time step, the mean squared difference of what its codes stand for and the float results"""
    import re
    from . import C22
    c.only = re.compile("^(?!zp$)")
    L, lay, src, node, K, U, B, X, cal = C22.setup(c, feat, units, batch, steps, True, (), {})
    D = c.mod(DIST).Distribution
    zps = iter([3, -5, 7, 0, 1, -2, 4, -9, 6, -7, 12, 0, -1, 0, -128, -119, 2, -100, 5, -3])
    D.quantize = lambda self, q=None, force_zp=None, force_s=None, symmetric=False: (2.0 ** -3, 0 if force_zp is not None else next(zps))
    try:
        res = L.quantize(src)
    finally:
        C22.restore(c)
    op = res.operators[0]
    m = c.mod(C22.KL)
    names = ("hidden_state", "cell_state", "input_gate", "forget_gate", "cell_gate", "output_gate", "cell_state_activation")
    fp = {k: reals(c, k, (steps, batch, units), -4, 4, -4) for k in names}
    fp.update({k: reals(c, k, (steps, batch, 4 * units), -4, 4, -4) for k in ("bias_add", "recurrent_add")})
    layer = c.mod(C22.IL).LSTM.from_model(op.as_json())
    codes = c.mod("itcl_quantization").Quantization("int8").quantize(X, node.zero_point, node.scale)
    layer.infer(codes)
    it = layer.intermediate_tensors
    got = L._quantization_noise(res, m.LSTMResult(result=fp["hidden_state"], **fp), X)
    n = 4 * units
    want = []
    for k in ("bias_add", "recurrent_add"):
        v = exl(fp[k])
        want += [[[v[(t * batch + b) * n + g * units + u] for b in range(batch) for u in range(units)] for t in range(steps)] for g in range(4)]
    for k in ("input_gate", "forget_gate", "cell_gate", "output_gate", "cell_state", "cell_state_activation", "hidden_state"):
        v = exl(fp[k])
        want.append([v[t * batch * units:(t + 1) * batch * units] for t in range(steps)])
    c.check(len(got) == len(STAGES), "one entry per intermediate tensor")
    nodes = [op.inputs[i] for i in NODES] + [op.outputs[0]]
    for (stage, at), nd, w, g in zip(STAGES, nodes, want, got):
        c.check(g[0] == nd.name and len(g[1]) == steps, f"{stage}: name and steps")
        for t in range(steps):
            q = [(ex(v) - ex(nd.zero_point)) * ex(nd.scale) for v in exl(at(it, t))]
            c.check(near(g[1][t], sum((a - b) * (a - b) for a, b in zip(q, w[t])) / len(q), Fr(1, 10 ** 6)), f"{stage}: mean squared difference of the step")


def cases(tier):
    T = tier != "quick"
    out = []

    def add(name, h, w=1, opts=O, **k):
        out.append(case(name, h, weight=w, opts=opts, **k))
    for n, e in ((1, 0), (2, 0), (2, 1), (2, 2), (3, 0)) + (((1, 2), (3, 1), (3, 2), (4, 0)) if T else ()):
        add(f"count {n} with {e} decimals", h_count, w=n ** 3, opts=E if e else O, shp=(n,), eps=e)
    for q in ((0, 0, 1), (1, 0, 0)) + (((2, 2, 2),) if T else ()):
        add(f"count codes {q}, 1 decimal", h_count, w=20, opts=E, shp=(3,), eps=1, codes=q)
    for q in ((0, 1, 1, 0), (0, 0, 0, 1)) + (((0, 0, 0, 0),) if T else ()):
        add(f"count codes {q}", h_count, w=20, shp=(2, 2), eps=0, codes=q)
    for shp, eps in (((2,), 0), ((3,), 0), ((2,), 1)):
        add(f"codes of a quantisation {shp}, {eps} decimals", h_count, w=9, opts=E if eps else O, shp=shp, eps=eps, own=True)
    add("uint8 codes", h_count, shp=(3,), eps=0, own=True, qdt="uint8")
    for shp in ((20,), (5, 4)):
        out.append(case(f"large count {shp}", sparse(h_count, r"^q19$"), weight=5, opts=O, shp=shp, eps=0))
        out.append(case(f"large codes of a quantisation {shp}", sparse(h_count, r"^zp$"), weight=5, opts=O, shp=shp, eps=0, own=True))
    add("order", h_order, w=9, n=3)
    for i, o, r, a in ((1, 1, 1, "linear"), (2, 1, 2, "linear"), (1, 2, 3, "relu"), (2, 2, 2, "tanh"), (1, 2, 4, "tanh"), (1, 1, 4, "sigmoid"), (1, 2, 3, "linear"), (1, 1, 1, "sigmoid")):
        add(f"dense {i}x{o}, {r} rows, {a}", h_layer, n_in=i, n_out=o, rows=r, activation=a)
    for f, u, b, t in ((1, 1, 1, 1), (1, 1, 2, 2), (2, 2, 1, 2)):
        add(f"LSTM report, {f} features, {u} units, {b} samples, {t} steps", h_lstm_noise, w=20, opts=E, feat=f, units=u, batch=b, steps=t)
    add("other layers", h_other)
    for n in (1, 2, 3) if T else (1, 2):
        add(f"compare {n} bins", h_compare, n=n)
    add("metrics that write", h_scribble)
    for n in (1, 2, 4):
        add(f"mean squared difference of {n}", h_mse, n=n)
    return out
