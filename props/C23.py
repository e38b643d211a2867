"""Parameter equalisation never makes the network worse."""
from .common import *
from .keras_model import *
from .C21 import tied, AC

EQ = "itcl_quantizer.equalizers.param_equalizer."
NETM = "itcl_quantizer.util.network"
BOUNDS = ("1-3 nodes (with and without tensors, tables, rounding policies) and 1-2 dense layers with and without a table activation; all random draws (multiples of 2^-12), zero points at and inside the ends of the dtype, "
          "start scales over ten decades; every cost function of what the network shows in its JSON with values out of 0..2 (0..3 thorough), so up to 2 (3) improvements, each followed by up to max_retries + 1 "
          "failures with max_retries 0..1 (3 thorough); annealing with 2 moves (3 thorough) and any acceptance of worse states; layers, networks and the longest searches with draws that follow one of four patterns of upper and lower halves of [0, 1); scale and zero point moves on their own for every scale in [1e-8, 1000]")
ASSUMPTIONS = ["values and codes over the real numbers, rounding errors of the float arithmetic left out"]
TOL = Fr(1, 10 ** 12)
X = {"exact": True}


def flat(t):
    return [v for x in t for v in flat(x)] if isinstance(t, (list, tuple)) else [t]


def view(nodes):
    """parameters of the nodes; that their integers and tables follow from these is asserted where they are seen"""
    return [v for n in nodes for v in (ex(n.scale), ex(n.zero_point))]


def table(c, n, out_s, out_zp, f, what):
    lo, hi = irange(str(n.quant.dtype_str()))
    pol = exl(n.LUT.rounding_policy)
    got = flat(n.as_json()["LUT"]["LUT"])
    c.check(len(got) == hi - lo + 1, what + ": size of the table")
    c.eq_list([ex(v) for v in got], [clamp(floor(f((ex(k) - ex(n.zero_point)) * ex(n.scale)) / ex(out_s) + ex(out_zp) + p), lo, hi) for k, p in zip(range(lo, hi + 1), pol)], what + ": table")


class Cost:
    """any function of what it sees"""

    def __init__(self, c, see, hi):
        self.c, self.see, self.hi, self.log = c, see, hi, []

    def at(self, obs):
        for o, e in self.log:
            if len(o) == len(obs) and all(a is b or (not hasattr(a, "z") and not hasattr(b, "z") and a == b) for a, b in zip(o, obs)):
                return e
        e = self.c.int(f"cost{len(self.log)}", 0, self.hi)
        for o, k in self.log:
            if len(o) == len(obs):
                self.c.assume(Implies(And(*[eq(a, b) for a, b in zip(o, obs)]), eq(e, k)))
        self.log.append((obs, e))
        return e

    def __call__(self, *a):
        return self.at(self.see())


def inside(c, nodes, label):
    for n in nodes:
        q = n.quant
        c.check(And(gt(n.scale, 0), ge(n.zero_point, int(q.min_value())), le(n.zero_point, int(q.max_value()))), label + ": positive scale, zero point of the dtype")


def make(c, kinds, zps, scales):
    m = c.mod(TE)
    nodes, linked = [], []
    for k, kind in enumerate(kinds):
        dt = {"lut": "int2", "wide": "int8"}.get(kind, "int4")
        lo, hi = irange(dt)
        zp = {"lo": lo, "hi": hi}.get(zps[k], zps[k])
        n = m.NodeTensorBase(scales[k], zp, f"n{k}", Q(c, dt))
        if kind in ("tensor", "policy"):
            xs = [0.75, -1.375]
            n = n.with_tensor(c.mkarr(xs, (1, 2), np.float64))
            if kind == "policy":
                n.rounding_policy = c.iarr(f"pol{k}", (1, 2), 0, 1)
        if kind == "lut":
            n.with_lut(lambda x: x * 0.5, 0.25, 0)
        nodes.append(n)
    return nodes


def integers(c, nodes, pols, what):
    for n, pol in zip(nodes, pols):
        s, zp = ex(n.scale), ex(n.zero_point)
        lo, hi = irange(str(n.quant.dtype_str()))
        if pol is not None:
            c.eq_list(exl(n.rounding_policy), pol, what + ": the rounding stays")
            c.eq_list(exl(n.quantized), [clamp(floor(ex(x) / s + zp + p), lo, hi) for x, p in zip(exl(n.fp_tensor), pol)], what + ": integers of the node")
        if n.LUT is not None:
            table(c, n, 0.25, 0, lambda v: v * Fr(1, 2), what)


def optimizer(c, kind, retries):
    if kind == "bfs":
        return c.mod(EQ + "bfs_equalizer").BFSEqualizer(max_retries=retries)
    c.anneal_steps = retries
    return c.mod(EQ + "annealer").ParamEqAnnealer(steps=retries)


def h_optimize(c, opt, kinds, zps, scales, retries, hi, pattern=False):
    if pattern:
        halves(c)
    nodes = make(c, kinds, zps, scales)
    pols = [exl(n.rounding_policy) if hasattr(n, "fp_tensor") else None for n in nodes]
    start = view(nodes)
    seen = []

    def see():
        inside(c, nodes, "tried")
        seen.append([(n.scale, n.zero_point) for n in nodes])
        if opt == "bfs":
            c.check(len(seen) <= 4 * (hi + 1) * (retries + 1) + 4, "the search ends")
            now = view(nodes)
            es = [e for _, e in cost.log]
            for k, (o, e) in enumerate(cost.log):
                best = And(*[lt(e, x) for x in es[:k]], *[le(e, x) for x in es[k + 1:]])
                c.check(Implies(best, And(*[And(le(ab(a - b), ab(b) * Fr(1, 10)) if i % 2 == 0 else le(ab(a - b), 1)) for i, (a, b) in enumerate(zip(now, o))])), "moves start from the best so far")
        integers(c, nodes, pols, "tried")
        return view(nodes)
    cost = Cost(c, see, hi)
    first = cost.at(start)
    o = optimizer(c, opt, retries)
    o.set_cost_fn(cost)
    o.set_initial_neigh(nodes)
    res, got = o.optimize()
    calls = len(seen)
    c.check(len(res) == len(nodes) and all(a is b for a, b in zip(res, nodes)), "the equalised nodes are the given ones")
    c.check(calls >= 2, "parameters are tried")
    inside(c, nodes, "final")
    integers(c, nodes, pols, "final")
    last = cost.at(view(nodes))
    c.check(eq(last, got), "the network left behind has the returned cost")
    c.check(le(last, first), "never worse than the start")
    c.check(And(*[le(last, e) for _, e in cost.log]), "the best parameters that were tried")
    c.check(Or(*[And(*[And(eq(n.scale, s), eq(n.zero_point, z)) for n, (s, z) in zip(nodes, t)]) for t in seen]), "parameters that were tried")
    for k, n in enumerate(nodes):
        if not pattern:
            c.possible(gt(n.scale, scales[k]), f"node {k} ends with a larger scale")
            c.possible(lt(n.scale, scales[k]), f"node {k} ends with a smaller scale")
        z0 = int(n._og_zero_p) if not hasattr(n._og_zero_p, "z") else n._og_zero_p
        if zps[k] != "hi" and not pattern:
            c.possible(gt(n.zero_point, z0), f"node {k} ends with a larger zero point")
        if zps[k] != "lo" and not pattern:
            c.possible(lt(n.zero_point, z0), f"node {k} ends with a smaller zero point")


def h_scale(c, lo, hi, g):
    s = c.real("s", lo, hi, g)
    got = c.mod(EQ + "bfs_equalizer").BFSEqualizer()._eq_scale(s)
    c.check(gt(got, 0), "positive scale")
    c.check(And(ge(got, ex(s) * Fr(9, 10)), le(got, ex(s) * Fr(11, 10))), "a slight change of the scale")
    c.possible(gt(got, s), "larger scale")
    c.possible(lt(got, s), "smaller scale")


def h_zp(c, dtype):
    lo, hi = irange(dtype)
    z = c.int("z", lo, hi)
    got = c.mod(EQ + "bfs_equalizer").BFSEqualizer()._eq_zp(z, Q(c, dtype))
    c.check(And(ge(got, lo), le(got, hi)), "zero point of the dtype")
    c.check(Or(eq(got, ex(z) + 1), eq(got, ex(z) - 1)), "one code up or down")
    for d in (1, -1):
        c.possible(And(eq(got, ex(z) + d), gt(z, lo), lt(z, hi)), f"moves by {d}")


def halves(c):
    """every draw stays in one half of [0, 1), following one of a few patterns"""
    pat = c.choice("draws", [(0, 1), (1, 0), (0, 0, 1), (1, 1, 0)])
    draw, n = c.draw_real, [0]

    def draw_real(lo, hi, g):
        v = draw(lo, hi, g)
        c.assume(gt(v, Fr(1, 2)) if pat[n[0] % len(pat)] else le(v, Fr(1, 2)))
        n[0] += 1
        return v
    c.draw_real = draw_real


def layers(c, acts, bias):
    bins = 1
    histogram_bins(c, bins)
    real_calibration(c)
    Calibration(c, [0.25, 0.5, 0.125, 1.0, 0.0625, 2.0, 0.03125, 0.015625])
    D = c.mod(DIST).Distribution
    rec = D.quantize

    def quantize(self, q=None, force_zp=None, force_s=None, symmetric=False):
        s, zp = rec(self, q, 0 if force_zp is None else force_zp, force_s, symmetric)
        return s, zp
    D.quantize = quantize
    src, node = source(c, np.array([[0.5, -1.0]]), 0.25, 3)
    res = [src]
    src.layer = None
    for k, a in enumerate(acts):
        W = np.array([[0.5, -0.75], [1.25, 0.25]]) * (k + 1)
        lay = dense(c, f"fc{k}", W, np.array(bias), a)
        res.append(c.mod(KD).KerasDense(lay, kernel_dtype="int4", bias_add_dtype="int2" if a in ("tanh", "sigmoid") else "int4", activation_dtype="int4").quantize(res[-1]))
    real_calibration(c)
    net = c.mod(NETM).Network(res[1:])
    return net, res[1:]


def consistent(c, ops, what):
    """integers, bias and tables follow the parameters"""
    for o in [o for o in ops if len(o.inputs) == 3]:
        i, k, b = o.inputs
        c.check(And(eq(b.zero_point, 0), near(ex(b.scale), ex(k.scale) * ex(i.scale), TOL)), what + ": bias scale")
        for n, rng in ((b, "int32"), (k, "int4")):
            lo, hi = irange(rng)
            c.eq_list(exl(n.quantized), [clamp(floor(ex(x) / ex(n.scale) + ex(n.zero_point) + p), lo, hi) for x, p in zip(exl(n.fp_tensor), exl(n.rounding_policy))], what + ": integers")
    for a in ops:
        if len(a.inputs) == 1 and a.inputs[0].LUT is not None:
            table(c, a.inputs[0], a.outputs[0].scale, a.outputs[0].zero_point,
                  (lambda v: v * Fr(1, 2)) if a.as_json()["op_type"] == "TANHLUT" else (lambda v: 1 - v * Fr(1, 4)), what)


def shows(c, j, ops):
    """the network that is judged is the current one"""
    c.check(len(j["graph"]) == len(ops), "tried: the judged network is the current one")
    for g, o in zip(j["graph"], ops):
        for a, b in zip(list(g["inputs"]) + list(g["outputs"]), list(o.inputs) + list(o.outputs)):
            c.check(And(eq(a["scale"], b.scale), eq(a["zero_point"], b.zero_point)), "tried: the judged network is the current one")
            if a["tensor"] and a["tensor"]["tensor"] is not None:
                c.eq_list([ex(v) for v in flat(a["tensor"]["tensor"])], exl(b.quantized), "tried: the judged network is the current one")


def h_layers(c, how, opt, acts, retries, hi, only=None, bias=(0.375, -0.5)):
    halves(c)
    net, res = layers(c, acts, bias)
    ops = [o for r in res for o in r.operators]
    nodes = [n for o in ops for n in list(o.inputs[1:2]) + list(o.outputs)]
    start = view(nodes)
    calls = []

    S = c.mod("itcl_inference_engine.network.sequential").SequentialNetwork

    def init(self, j):      # building and running the network is decided on its own
        self.shown = j
    S.__init__ = init

    def loss(seq):
        calls.append(seq)
        if seq is not None:
            shows(c, seq.shown, ops)
        inside(c, nodes, "tried")
        consistent(c, ops, "tried")
        return cost.at(view(nodes))
    cost = Cost(c, None, hi)
    first = cost.at(start)
    ids = [[id(n) for o in r.operators for n in list(o.inputs) + list(o.outputs)] for r in res]
    fac = lambda: optimizer(c, opt, retries)
    if how == "layer":
        res[only].layer.param_equalizer(fac, res[only], lambda: loss(None))
    elif how == "net":
        c.mod(EQ + "param_equalizer").ParamEqualizerNet(net, loss, fac).equalize()
    else:
        c.mod(EQ + "param_equalizer").ParamEqualizerFullNet(net, loss, fac).equalize()
    if how != "layer":
        c.check(len(calls) > 1 and all(isinstance(s, S) for s in calls), "the loss sees the network that can be run")
    c.check(ids == [[id(n) for o in r.operators for n in list(o.inputs) + list(o.outputs)] for r in res], "the network keeps its nodes")
    last = cost.at(view(nodes))
    c.check(le(last, first), "never worse than the start")
    c.check(And(*[le(last, e) for _, e in cost.log]), "the best network that was tried")
    inside(c, nodes, "final")
    consistent(c, ops, "final")
    for k, n in enumerate(nodes):
        c.possible(Not(eq(n.scale, start[2 * k])), f"kernel or output {k} takes part")


def cases(tier):
    deep = tier == "thorough"
    hi = 3 if deep else 2
    out = []
    for lo, h, g in ((1e-8, 1e-6, -60), (1e-6, 1e-4, -50), (1e-4, 1e-2, -40), (1e-2, 1.0, -30), (1.0, 1000.0, -20)):
        out.append(case(f"scale move in [{lo}, {h}]", h_scale, opts=X, lo=lo, hi=h, g=g))
    for d in ("int8", "int2", "int4", "uint8", "int16"):
        out.append(case(f"zero point move {d}", h_zp, opts=X, dtype=d))
    B = {"exact": True, "max_paths": 6000}
    for kinds, zps, scales in ((("base",), (0,), (0.25,)), (("tensor",), (0,), (0.25,)), (("policy",), ("lo",), (0.5,)), (("policy",), ("hi",), (0.125,)), (("lut",), (0,), (0.5,))):
        nm = f"{'+'.join(kinds)} zp {zps[0]}"
        out.append(case(f"best first, {nm}", h_optimize, weight=3, opts=B, opt="bfs", kinds=kinds, zps=zps, scales=scales, retries=0, hi=hi))
        out.append(case(f"annealing, {nm}", h_optimize, weight=3, opts=B, opt="anneal", kinds=kinds, zps=zps, scales=scales, retries=2, hi=1))
    out.append(case("best first, policy, a retry", h_optimize, weight=4, opts=B, opt="bfs", kinds=("policy",), zps=(1,), scales=(0.25,), retries=1, hi=1))
    for kinds in (("policy", "base"), ("base", "policy")):
        out.append(case(f"best first, {'+'.join(kinds)}", h_optimize, weight=4, opts=B, opt="bfs", kinds=kinds, zps=(0, 1), scales=(0.25, 0.125), retries=0, hi=1))
        out.append(case(f"annealing, {'+'.join(kinds)}", h_optimize, weight=4, opts=B, opt="anneal", kinds=kinds, zps=(0, 1), scales=(0.25, 0.125), retries=1, hi=1))
    if deep:
        out.append(case("best first, policy, three retries", h_optimize, weight=6, opts=B, opt="bfs", kinds=("policy",), zps=(1,), scales=(0.25,), retries=3, hi=3, pattern=True))
        out.append(case("annealing, policy, 3 moves", h_optimize, weight=6, opts=B, opt="anneal", kinds=("policy",), zps=(1,), scales=(0.25,), retries=3, hi=2))
        out.append(case("best first, 3 nodes", h_optimize, weight=6, opts=B, opt="bfs", kinds=("base", "policy", "lut"), zps=(0, "lo", "hi"), scales=(0.25, 0.125, 0.5), retries=0, hi=1))
    for a, opt, r, h in (("linear", "bfs", 0, 1), ("tanh", "bfs", 0, 1), ("linear", "anneal", 1, 1)):
        out.append(case(f"layer {a}, {opt}", h_layers, weight=5, opts=B, how="layer", opt=opt, acts=(a,), retries=r, hi=h, only=0))
    out.append(case("network layer by layer, bfs", h_layers, weight=6, opts=B, how="net", opt="bfs", acts=("linear", "linear"), retries=0, hi=1, bias=(0, 0)))
    out.append(case("whole network, bfs", h_layers, weight=6, opts=B, how="full", opt="bfs", acts=("linear", "linear"), retries=0, hi=1, bias=(0, 0)))
    out.append(case("whole network with a table, bfs", h_layers, weight=6, opts=B, how="full", opt="bfs", acts=("tanh",), retries=0, hi=1))
    out.append(case("whole network, annealing", h_layers, weight=4, opts=B, how="full", opt="anneal", acts=("linear", "tanh"), retries=1, hi=1, bias=(0, 0)))
    out.append(case("layer linear, bfs, a retry", h_layers, weight=4, opts=B, how="layer", opt="bfs", acts=("linear",), retries=1, hi=1, only=0))
    if deep:
        out.append(case("whole network of both kinds, bfs", h_layers, weight=6, opts=B, how="full", opt="bfs", acts=("tanh", "linear"), retries=0, hi=2, bias=(0, 0)))
        out.append(case("network layer by layer, annealing", h_layers, weight=6, opts=B, how="net", opt="anneal", acts=("linear", "sigmoid"), retries=1, hi=1, bias=(0, 0)))
    return out
