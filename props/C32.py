"""Building a quantised network follows the model and the configuration."""
import json
import os
import tempfile
from .common import *
from .keras_model import *
from .C23 import Cost, flat, halves
from .C26 import scratch

KB = "itcl_quantizer.tensor_extractor.keras.keras_builder"
CFG = "itcl_quantizer.config.models.keras"
SEQ = "itcl_inference_engine.network.sequential"
AN = "itcl_quantizer.equalizers.adaround.annealer"
BOUNDS = ("models of 1-3 dense layers of 1-2 inputs and units among dropout and input layers, linear, rectified and table activations, with and without biases; weights and biases with real values (multiples of 2^-4) in [-4, 4], fixed calibration data; "
          "configurations given as objects, JSON and YAML, with data types of 8, 4 and 2 bits per tensor, symmetric and plain kernels, and settings for single layers; calibration replaced by its contract (any zero point of the dtype, listed scales), which is decided on its own; "
          "tuning with every cost function of the judged network with values 0..1, draws following one of four patterns of upper and lower halves of [0, 1), 0-3 retries; optimiser schedules with any numbers; "
          "larger cases: a fixed model of 7 dense layers with any calibrated zero points")
ASSUMPTIONS = ["values and codes over the real numbers, rounding errors of the float arithmetic left out",
               "pydantic and PyYAML (not installed here) are stand-ins: defaults, nested models, literals and unions in order of declaration",
               "activations of table layers are piecewise linear stand-ins (tables of tanh and sigmoid are decided on their own)"]
B = {"exact": True, "max_paths": 3000}
SCALES = [0.25, 0.5, 0.125, 1.0, 0.0625, 2.0, 0.03125] + [k / 64 for k in range(3, 60, 2)]
DENSE = {"activation_dtype": "int8", "bias_add_dtype": "int8", "bias_dtype": "int32", "kernel_dtype": "int8", "kernel_symmetric": False}
REF = {"linear": lambda v: v, "softmax": lambda v: v, "relu": lambda v: mx(v, 0), "relu6": lambda v: mn(mx(v, 0), 6),
       "tanh": lambda v: v * Fr(1, 2), "sigmoid": lambda v: 1 - v * Fr(1, 4)}
DATA = [[0.75, -0.5], [-1.0, 0.25], [0.5, 2.0]]


def other(kind, name):
    return type(kind, (getattr(stubs._keras_layers(), kind),), {"name": name, "trainable": True})()


def model(c, spec, n, fixed=False):
    """spec: dense layers as (name, units, activation, bias), other layers as (kind, name)"""
    out, denses = [], []
    for k, s in enumerate(spec):
        if len(s) == 2:
            out.append(other(*s))
            continue
        name, m, a, bias = s
        W = c.const(np.array([[0.5, -0.75], [1.25, 0.25]])[:n, :m] * (k + 1)) if fixed else reals(c, f"w{k}_", (n, m), -4, 4, -4)
        b = None if not bias else c.const(np.array([0.375, -0.5])[:m]) if fixed else reals(c, f"b{k}_", (m,), -4, 4, -4)
        lay = dense(c, name, W, b, a)
        out.append(lay)
        denses.append((lay, W, b, a))
        n = m
    return out, denses


def yaml_text(o, ind=0):
    out = []
    for k, v in o.items():
        if isinstance(v, dict):
            out += [" " * ind + f"{k}:" + ("" if v else " {}")] + ([yaml_text(v, ind + 2)] if v else [])
        else:
            out.append(" " * ind + f"{k}: " + {None: "null", True: "true", False: "false"}.get(v if isinstance(v, (bool, type(None))) else "", str(v)))
    return "\n".join(out)


def configure(c, how, o):
    Q = c.mod(CFG).QuantizerCfg
    if how == "object":
        cfg = Q()
        for k, v in o.items():
            if k in ("dense", "quantize"):
                for a, b in v.items():
                    setattr(getattr(cfg, k), a, c.mod(CFG).ActivationCfg(**b) if a == "lut_cfg" else b)
            elif k == "specific_layers":
                cfg.specific_layers = {n: c.mod(CFG).KerasDenseCfg(**x) for n, x in v.items()}
            elif isinstance(v, dict):
                M = c.mod(CFG)
                cls = M.ParamEqualizerCfg if k == "param_equalizer" else {"base": M.RoundingMinimaCfg, "annealer": M.RoundingAnnealerCfg, "qubo": M.RoundingQUBOCfg}[v["optimizer"]]
                setattr(cfg, k, cls(**v))
            else:
                setattr(cfg, k, v)
        return cfg
    if how == "keywords":
        return Q(**o)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "cfg." + how)
        with open(p, "w") as f:
            f.write(json.dumps(o) if how == "json" else yaml_text(o) + "\n")
        return Q.from_json(p) if how == "json" else Q.from_yml(p)


def build(c, layers, cfg, loss=None, data=None, keep=None):
    """the network and what was written"""
    m = c.mod(KB)
    c.files["model.h5"] = m.keras.Model(layers)
    X = c.const(np.array(data))

    def go():
        args = ("model.h5", "net.json", X) if cfg is None and loss is None else ("model.h5", "net.json", X, loss) if cfg is None else ("model.h5", "net.json", X, loss, cfg)
        net = m.build(*args)
        c.check(os.path.exists("net.json"), "the network is written")
        with open("net.json") as f:
            return net, c.loads(f.read())
    net, j = scratch(go)
    c.eq_list(exl(X), [ex(v) for r in data for v in r], "the calibration data are left alone")
    return net, j


def same_json(c, a, b, what):
    """two JSON values are equal, apart from the time of writing"""
    if isinstance(a, dict) and isinstance(b, dict):
        ka, kb = set(a) - {"generated_at"}, set(b) - {"generated_at"}
        c.check(ka == kb, what, f"{sorted(ka ^ kb)}")
        for k in sorted(ka & kb):
            same_json(c, a[k], b[k], what)
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        c.check(len(a) == len(b), what)
        for x, y in zip(a, b):
            same_json(c, x, y, what)
    elif a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        c.check(type(a) is type(b) and a == b, what, f"{a!r} {b!r}")
    else:
        c.check(eq(a, b), what)


def node_json(c, o, t, what):
    c.check(And(eq(o["scale"], t.scale), eq(o["zero_point"], t.zero_point)), what)


def plain_ranges(c):
    """ranges of symbolic data are their smallest and largest element (histograms are decided on their own)"""
    D = c.mod(DIST).Distribution
    D._real_init = init_ = getattr(D, "_real_init", D.__init__)
    lo, hi = D._real_ends = getattr(D, "_real_ends", (D.get_min, D.get_max))

    def init(self, a, *more, **k):
        v = exl(a)
        self._plain = any(hasattr(x, "z") for x in v)
        if self._plain:
            self._sorted_a = np.reshape(a, (-1,))
        else:
            init_(self, a, *more, **k)
    D.__init__ = init
    D.get_min = lambda self: mn(*exl(self._sorted_a)) if self._plain else lo(self)
    D.get_max = lambda self: mx(*exl(self._sorted_a)) if self._plain else hi(self)


def h_follow(c, spec, o, how="json", n=2, rows=2, preset=False):
    real_calibration(c)
    plain_ranges(c)
    cal = Calibration(c, SCALES)
    layers, denses = model(c, spec, n)
    kept = [(exl(W), None if b is None else exl(b)) for _, W, b, _ in denses]
    cfg = configure(c, how, o) if o is not None else None
    if preset:
        cfg.tflite()
    data = [r[:n] for r in DATA[:rows]]
    net, j = build(c, layers, cfg, data=data)
    o = o or {}
    base = {**DENSE, **o.get("dense", {})}
    if preset:
        base["kernel_symmetric"] = True
    qd = o.get("quantize", {}).get("dtype", "int8")
    ops = net.as_operators()
    want = ["QUANTIZE"]
    for _, _, _, a in denses:
        want += ["FULLY_CONNECTED"] + ([a.upper() + "LUT"] if a in ("tanh", "sigmoid") else [])
    want.append("DEQUANTIZE")
    types = [g["op_type"] for g in j["graph"]]
    c.check(types == want, "operators of the model in order", str(types))
    c.check(eq(j["operators"], len(want)), "number of operators")
    same_json(c, j, net.as_json(), "the written network is the returned one")
    c.check(len(net.as_quant_results()) == len(denses) + 2, "one result per layer")

    def dtype(x, d, what):
        c.check(str(x["tensor"]["dtype"]).lower() == d, what, f"{x['tensor']['dtype']} instead of {d}")

    def asked(s, zp):
        return [k for k in cal.calls if same_value(k["s"], s) and same_value(k["zp"], zp)]

    def covers(t, d, vs, what):
        k = asked(t.scale, t.zero_point)
        c.check(len(k) >= 1, what + " are calibrated")
        lo, hi = irange(d)
        c.check(Or(*[And(*[And(le(e["min"], v), ge(e["max"], v)) for v in vs], not e["symmetric"], eq(e["q"].min_value(), lo), eq(e["q"].max_value(), hi)) for e in k]), what + " are calibrated on their own data")
    # the model's input
    first = ops[0].outputs[0]
    dtype(j["graph"][0]["outputs"][0], qd, "data type of the input")
    covers(first, qd, [ex(v) for r in data for v in r], "the input parameters")
    c.check(tuple(j["graph"][0]["outputs"][0]["tensor"]["shape"]) == (n,), "shape of the input")
    prev, X, k = first, [[ex(v) for v in r] for r in data], 1
    for lay, W, b, a in denses:
        d = {**DENSE, **o["specific_layers"][lay.name]} if lay.name in o.get("specific_layers", {}) else base
        op, g = ops[k], j["graph"][k]
        M, bs = mat(W), exl(b) if b is not None else [Fr(0)] * shape(W)[1]
        i_, k_, b_ = op.inputs
        c.check(i_ is prev, "a layer continues from the layer before")
        node_json(c, g["inputs"][0], prev, "a layer continues from the layer before")
        for x, f, what in ((g["inputs"][1], "kernel_dtype", "kernel"), (g["inputs"][2], "bias_dtype", "bias"), (g["outputs"][0], "bias_add_dtype", "output of the dense operator")):
            dtype(x, d[f], f"data type of the {what}")
        ck = asked(k_.scale, k_.zero_point)
        c.check(len(ck) >= 1 and any(bool(e["symmetric"]) == d["kernel_symmetric"] and e["force_zp"] is not None for e in ck), "symmetric kernels as configured")
        c.check(eq(k_.zero_point, 0), "zero point of the kernel")
        lo, hi = irange(d["kernel_dtype"])
        T = [M[x][y] for y in range(len(bs)) for x in range(len(M))]
        c.check(Or(*[And(eq(e["q"].min_value(), lo), eq(e["q"].max_value(), hi), *[And(le(e["min"], v), ge(e["max"], v)) for v in T]) for e in ck]), "the kernel is calibrated on its own weights")
        s = ex(k_.scale)
        c.eq_list([ex(v) for v in flat(g["inputs"][1]["tensor"]["tensor"])], [clamp(floor(v / s + Fr(1, 2)), lo, hi) for v in T], "integers of the kernel")
        s = ex(k_.scale) * ex(prev.scale)
        c.check(And(eq(b_.zero_point, 0), near(ex(b_.scale), s, 1e-12)), "scale of the bias")
        lo, hi = irange(d["bias_dtype"])
        for q, v in zip([ex(v) for v in flat(g["inputs"][2]["tensor"]["tensor"])], bs):
            c.check(Or(And(ge(q * s, v - s * Fr(51, 100)), le(q * s, v + s * Fr(51, 100))), And(eq(q, hi), ge(v, s * hi)), And(eq(q, lo), le(v, s * lo))), "integers of the bias")
        X = [[sum(r[x] * M[x][y] for x in range(len(M))) + bs[y] for y in range(len(bs))] for r in X]
        t = op.outputs[0]
        if a in ("relu", "relu6"):
            X = [[REF[a](v) for v in r] for r in X]
        covers(t, d["bias_add_dtype"], [v for r in X for v in r], "the output parameters")
        prev = t
        k += 1
        if a in ("tanh", "sigmoid"):
            X = [[REF[a](v) for v in r] for r in X]
            t, g = ops[k].outputs[0], j["graph"][k]
            c.check(ops[k].inputs[0] is prev, "a table continues from its dense operator")
            node_json(c, g["inputs"][0], prev, "a table continues from its dense operator")
            dtype(g["outputs"][0], d["activation_dtype"], "data type of the activation")
            covers(t, d["activation_dtype"], [v for r in X for v in r], "the activation parameters")
            lo, hi = irange(d["bias_add_dtype"])
            tab = flat(g["inputs"][0]["LUT"]["LUT"])
            c.check(len(tab) == hi - lo + 1, "a table entry for every code", str(len(tab)))
            prev = t
            k += 1
    node_json(c, j["graph"][-1]["inputs"][0], prev, "the result is taken from the last layer")
    c.check(ops[-1].inputs[0] is prev and len(j["graph"][-1]["outputs"]) == 0, "the result is taken from the last layer")
    for (lay, W, b, a), (w0, b0) in zip(denses, kept):
        c.eq_list(exl(lay.weights[0]), w0, "the model is left alone")
        if b is not None:
            c.eq_list(exl(lay.weights[1]), b0, "the model is left alone")
        c.check(lay.activation is not None and lay.activation.__name__ == a, "the model is left alone")


def h_reject(c, kind, at):
    real_calibration(c)
    plain_ranges(c)
    Calibration(c, SCALES)
    spec = [("d0", 2, "linear", True), ("d1", 2, "tanh", True)]
    spec.insert(at, (kind, "odd"))
    layers, _ = model(c, spec, 2)

    def go():
        build(c, layers, c.mod(CFG).QuantizerCfg(), data=[r[:2] for r in DATA])
    c.check(c.expect_raises(go, (ValueError, TypeError, NotImplementedError)), "layers that cannot be quantised are rejected")


# ---------------------------------------------------------------------------------------------------------------------
# tuning
# ---------------------------------------------------------------------------------------------------------------------
def numbers(j, ints=True):
    """everything a network shows, or only its parameters (its integers follow from these while the rounding stays)"""
    out = []
    for g in j["graph"]:
        for t in list(g["inputs"]) + list(g["outputs"]):
            out += [ex(t["scale"]), ex(t["zero_point"])]
            if not ints:
                continue
            if t["tensor"] and t["tensor"]["tensor"] is not None:
                out += [ex(v) for v in flat(t["tensor"]["tensor"])]
            if t.get("LUT"):
                out += [ex(v) for v in flat(t["LUT"]["LUT"])]
    return out


def small(c):
    """calibration with plain scales and zero points, tables of few codes"""
    histogram_bins(c, 1)
    real_calibration(c)
    cal = Calibration(c, [0.25, 0.5, 0.125, 1.0, 0.0625])
    rec, n = cal.D.quantize, [0]

    def quantize(self, q=None, force_zp=None, force_s=None, symmetric=False):
        return rec(self, q, 0 if force_zp is None else force_zp, force_s, symmetric)
    cal.D.quantize = quantize
    return lambda: cal.calls.clear()


TUNE = {"dense": {"kernel_dtype": "int4", "bias_add_dtype": "int2", "activation_dtype": "int4"}}


def h_tune(c, spec, tune, how="json", hi=1, n=2, steps=0):
    again = small(c)
    ints = "param_equalizer" not in tune or hi == 0
    halves(c)
    c.anneal_steps = steps
    S = c.mod(SEQ).SequentialNetwork

    def init(self, j):
        self.shown = j
    S.__init__ = init
    layers, denses = model(c, spec, n, fixed=True)
    data = [r[:n] for r in DATA[:1]]
    plain, j0 = build(c, layers, configure(c, how, TUNE), data=data)
    start = numbers(j0, ints)
    again()
    cost = Cost(c, None, hi)
    first = cost.at(start)
    calls = []

    def loss(seq):
        c.check(isinstance(seq, S), "the loss sees a network that can be run")
        calls.append(numbers(seq.shown, ints))
        if hi == 0:
            c.check(len(calls) <= up, "the configured number of retries", "still searching")
        c.check(len(calls[-1]) == len(start), "the judged network has the tensors of the model")
        return cost.at(calls[-1])
    layers, denses = model(c, spec, n, fixed=True)
    per = lambda k: len(denses) if k == "ada_round_net" else 1
    up = sum((2 * v["max_retries"] + 6) * per(k) for k, v in tune.items())
    net, j = build(c, layers, configure(c, how, {**TUNE, **tune}), loss=loss, data=data)
    same_json(c, j, net.as_json(), "the written network is the returned one")
    end = numbers(j, ints)
    c.check(len(end) == len(start), "the tuned network has the tensors of the model")
    last = cost.at(end)
    c.check(le(last, first), "tuning never makes the network worse")
    c.check(And(*[le(last, e) for _, e in cost.log]), "the best network that was judged")
    if not tune:
        c.check(len(calls) == 0, "nothing is tuned unless it is configured")
        c.eq_list(end, start, "nothing is tuned unless it is configured")
        return
    c.check(len(calls) > 0, "the network is tuned")
    c.eq_list(calls[0], start, "tuning starts from the calibrated network")
    if hi == 0:        # nothing ever improves: the number of evaluations shows the number of retries
        low = sum((v["max_retries"] + 1) * per(k) for k, v in tune.items())
        c.check(low <= len(calls) <= up, "the configured number of retries", f"{len(calls)} evaluations")
        c.eq_list(end, start, "the calibrated network stays when nothing is better")
    else:
        c.possible(Not(And(*[eq(a, b) for a, b in zip(end, start)])), "a better network is kept")


def h_no_loss(c, tune, spec):
    """without a loss there is nothing to tune for"""
    again = small(c)
    layers, _ = model(c, spec, 2, fixed=True)
    data = [r for r in DATA[:1]]
    _, j0 = build(c, layers, configure(c, "json", TUNE), data=data)
    again()
    layers, _ = model(c, spec, 2, fixed=True)
    net, j = build(c, layers, configure(c, "json", {**TUNE, **tune}), data=data)
    c.eq_list(numbers(j), numbers(j0), "no tuning without a loss")
    again()
    layers, _ = model(c, spec, 2, fixed=True)
    net, j = build(c, layers, configure(c, "json", TUNE), loss=lambda s: c.int("l", 0, 3), data=data)
    c.eq_list(numbers(j), numbers(j0), "no tuning unless it is configured")


# ---------------------------------------------------------------------------------------------------------------------
# configurations
# ---------------------------------------------------------------------------------------------------------------------
FULL = {"dense": {"activation_dtype": "int16", "bias_add_dtype": "int4", "bias_dtype": "int16", "kernel_dtype": "int2", "kernel_symmetric": True, "lut_cfg": {"reduced_depth": 5}},
        "quantize": {"dtype": "int4"},
        "ada_round_net": {"optimizer": "annealer", "t_min": 0.25, "t_max": 640.5, "updates": 7, "steps": 11, "max_retries": 13},
        "param_equalizer": {"optimizer": "base", "max_retries": 17},
        "specific_layers": {"a": {"kernel_dtype": "int4", "kernel_symmetric": True}, "b": {"bias_add_dtype": "int16"}}}
DEFAULT = {"dense": {**DENSE, "adaround_optimizer": None, "lut_cfg": {"reduced_depth": 3}}, "quantize": {"dtype": "int8"}, "dequantize": {},
           "ada_round_net": None, "param_equalizer": None, "specific_layers": {}}
ROUND = {"annealer": {"optimizer": "annealer", "t_min": 0.1, "t_max": 25000, "updates": 100, "steps": 5000, "max_retries": 100}, "base": {"optimizer": "base", "max_retries": 100}, "qubo": {"optimizer": "qubo"}}


def contains(c, got, want, what):
    for k, v in want.items():
        c.check(k in got, what + f": {k}")
        if isinstance(v, dict):
            c.check(isinstance(got[k], dict), what + f": {k}")
            contains(c, got[k], v, what + f".{k}")
        else:
            c.check(type(got[k]) is type(v) and got[k] == v if isinstance(v, (str, bool, type(None))) else eq(got[k], v), what + f": {k}", f"{got[k]!r} {v!r}")


def expected(o):
    w = {k: dict(v) if isinstance(v, dict) else v for k, v in DEFAULT.items()}
    for k, v in o.items():
        if k in ("dense", "quantize"):
            w[k] = {**w[k], **v}
        elif k == "specific_layers":
            w[k] = {n: {**DEFAULT["dense"], **x} for n, x in v.items()}
        elif k == "ada_round_net" and v:
            w[k] = {**ROUND[v["optimizer"]], **v}
        elif k == "param_equalizer" and v:
            w[k] = {"optimizer": "base", "max_retries": 100, **v}
        else:
            w[k] = v
    return w


def h_config(c, how, o, preset=False):
    one = configure(c, how, o)
    w = expected(o)
    contains(c, one.dict(), w, "configuration")
    c.check(set(one.specific_layers) == set(w["specific_layers"]), "layers with settings of their own")
    if preset:
        one.tflite()
        w = {**w, "dense": {**w["dense"], "kernel_symmetric": True}, "ada_round_net": None, "param_equalizer": None}
        contains(c, one.dict(), w, "preset")
    # what is dumped can be read again
    again = c.mod(CFG).QuantizerCfg(**one.dict())
    contains(c, again.dict(), w, "read again")
    for v, k in ((one, "one"), (again, "again")):
        if w["ada_round_net"]:
            got = v.ada_round_net.build()
            M = {"annealer": (AN, "RoundingAnnealer"), "base": (AN, "RoundingAnnealer"), "qubo": ("itcl_quantizer.equalizers.adaround.qubo", "QUBOAnnealer")}[w["ada_round_net"]["optimizer"]]
            c.check(isinstance(got, getattr(c.mod(M[0]), M[1])), "the configured optimiser")
    # other configurations keep their defaults
    two = c.mod(CFG).QuantizerCfg()
    contains(c, two.dict(), DEFAULT, "a new configuration")
    x = c.int("x", 0, 9)
    one.dense.lut_cfg.reduced_depth = x
    one.specific_layers["other"] = 1
    contains(c, c.mod(CFG).QuantizerCfg().dict(), DEFAULT, "a new configuration after changes to another one")
    contains(c, two.dict(), DEFAULT, "a configuration after changes to another one")
    c.check(eq(one.dict()["dense"]["lut_cfg"]["reduced_depth"], x), "settings can be changed")


def h_schedule(c):
    """every number reaches the optimiser"""
    t0, t1 = c.real("t0", 0.25, 4, -4), c.real("t1", 8, 1000, -4)
    up, st, mr = c.int("updates", 0, 1000), c.int("steps", 0, 10000), c.int("retries", 0, 1000)
    cfg = c.mod(CFG).QuantizerCfg(ada_round_net={"optimizer": "annealer", "t_min": t0, "t_max": t1, "updates": up, "steps": st, "max_retries": mr})
    a = cfg.ada_round_net.build()
    c.check(And(eq(a.Tmin, t0), eq(a.Tmax, t1), eq(a.updates, up), eq(a.steps, st)), "the annealer runs with the configured schedule")
    b = cfg.ada_round_net.build()
    c.check(a is not b, "every layer gets an optimiser of its own")
    base = c.mod(CFG).QuantizerCfg(ada_round_net={"optimizer": "base", "max_retries": mr}).ada_round_net.build()
    c.check(eq(base.steps, 0), "local search does no annealing")


def h_invalid(c, o):
    c.check(c.expect_raises(lambda: c.mod(CFG).QuantizerCfg(**o), (ValueError, TypeError)), "wrong settings are rejected")


def cases(tier):
    T = tier != "quick"
    out = []

    def add(name, h, w=2, **k):
        out.append(case(name, h, weight=w, opts=B, **k))
    L = lambda name, a="linear", m=2, bias=True: (name, m, a, bias)
    P = {"dense": {"kernel_dtype": "int4", "bias_add_dtype": "int4", "activation_dtype": "uint8", "bias_dtype": "int16", "kernel_symmetric": True}, "quantize": {"dtype": "uint8"}}
    SP = {"dense": {"kernel_dtype": "int4"}, "specific_layers": {"b": {"kernel_symmetric": True, "bias_add_dtype": "int4", "activation_dtype": "int4"}, "zz": {"kernel_dtype": "int2"}}}
    add("default configuration", h_follow, spec=[L("a"), L("b", "tanh", 1)], o=None)
    for how in ("object", "json", "yml", "keywords"):
        add(f"data types from {how}", h_follow, w=4, spec=[L("a", "tanh"), L("b", "relu", 1, False)], o=P, how=how)
        add(f"single layers from {how}", h_follow, w=4, spec=[L("a", "linear"), L("b", "sigmoid", 2), L("c", "linear", 1)] if how == "object" else [L("a", "relu"), L("b", "tanh", 1)], o=SP, how=how)
    add("single layer first", h_follow, spec=[L("b", "tanh", 2), L("a", "relu6", 1)], o=SP)
    add("preset", h_follow, spec=[L("a"), L("b", "tanh", 1)], o={"dense": {"kernel_dtype": "int4"}, "ada_round_net": {"optimizer": "base"}, "param_equalizer": {}}, preset=True)
    add("input and dropout layers", h_follow, spec=[("InputLayer", "in"), ("Dropout", "d0"), L("a", "relu"), ("Dropout", "d1"), L("b", "linear", 1), ("Dropout", "d2")], o={})
    add("one input, one row", h_follow, spec=[L("a", "relu6", 2)], o={}, n=1, rows=1)
    add("softmax", h_follow, spec=[L("a", "sigmoid", 1), L("b", "softmax", 2)], o={"quantize": {"dtype": "int4"}})
    if T:
        add("three layers", h_follow, w=8, spec=[L("a", "tanh"), L("b", "relu"), L("c", "sigmoid")], o=SP, rows=3)
        add("three layers from yml", h_follow, w=8, spec=[L("a", "relu"), L("b", "linear"), L("c", "tanh")], o={**P, **{"specific_layers": {"c": {}, "a": {"kernel_dtype": "int2"}}}}, how="yml", rows=3)
    out.append(case("large network", sparse(h_follow, r"^calibrated"), weight=4, opts=B, spec=[L("d10", "relu", 5), L("d9", "tanh", 7), ("Dropout", "d0"), L("d8", "linear", 3), L("d11", "sigmoid", 4), L("d2", "relu6", 2),
                    L("d1", "linear", 6), L("d20", "tanh", 1)], o={"specific_layers": {"d1": {"kernel_dtype": "int4"}, "d2": {"activation_dtype": "uint8"}}}, rows=9))
    for kind in ("Conv2D", "Flatten", "Activation", "BatchNormalization", "GRU"):
        add(f"unsupported {kind}", h_reject, kind=kind, at={"Flatten": 0, "Activation": 2}.get(kind, 1))
    A, PE = {"ada_round_net": {"optimizer": "base", "max_retries": 0}}, {"param_equalizer": {"optimizer": "base", "max_retries": 0}}
    R = lambda o, r: {k: {**v, "max_retries": r} for k, v in o.items()}
    one, two = [L("a")], [L("a", "linear"), L("b", "linear", 1)]
    add("no tuning configured", h_tune, spec=two, tune={})
    add("no loss", h_no_loss, spec=two, tune={**A, **PE})
    add("tuned parameters", h_tune, w=5, spec=one, tune=PE)
    add("tuned rounding", h_tune, w=5, spec=[L("a", "linear", 1)], tune=A)
    add("retries of the parameters", h_tune, w=5, spec=one, tune=R(PE, 3), hi=0)
    add("retries of the rounding", h_tune, w=5, spec=[L("a", "linear", 1)], tune=R(A, 2), hi=0)
    add("retries of both", h_tune, w=6, spec=[L("a", "linear", 1)], tune={**PE, **R(A, 4)}, hi=0)
    add("more retries of the parameters", h_tune, w=6, spec=[L("a", "linear", 1)], tune={**R(PE, 6), **A}, hi=0)
    for how in ("json", "yml", "object", "keywords"):
        add(f"settings from {how}", h_config, how=how, o=FULL)
    add("settings of the preset", h_config, how="json", o=FULL, preset=True)
    add("defaults", h_config, how="json", o={})
    for k in ("base", "qubo", "annealer"):
        add(f"rounding {k}", h_config, how="yml", o={"ada_round_net": {"optimizer": k}, "param_equalizer": {"max_retries": 5}})
    add("some settings", h_config, how="json", o={"dense": {"kernel_symmetric": True}, "specific_layers": {"x": {"kernel_dtype": "int4"}}})
    add("schedules", h_schedule)
    for k, o in (("optimiser", {"ada_round_net": {"optimizer": "other"}}), ("equaliser", {"param_equalizer": {"optimizer": "annealer"}}), ("retries", {"param_equalizer": {"max_retries": "many"}}), ("kernel", {"dense": {"kernel_dtype": {"a": 1}}})):
        add(f"wrong {k}", h_invalid, o=o)
    if T:
        add("tuned parameters of two layers", h_tune, w=8, spec=two, tune=PE)
        add("tuned parameters and rounding", h_tune, w=8, spec=[L("a", "linear", 1)], tune={**PE, **A})
        add("tuned rounding of two layers", h_tune, w=8, spec=[L("a", "linear", 1), L("b", "linear", 1)], tune=A)
    return out
