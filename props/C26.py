"""QUBO rounding writes each sample bit to its weight."""
import itertools
import os
import tempfile
from .common import *
from .keras_model import *
from .C25 import energy, equal, rows, assignments

QU = "itcl_quantizer.equalizers.adaround.qubo"
AD = "itcl_quantizer.equalizers.adaround.adaround"
BOUNDS = ("dense layers with 1-3 inputs and 1-3 neurons, with and without a bias, with linear, rectified and table activations, data sets of 1, 2 and 4 fixed rows with zeros and negative entries (up to 8 inputs, 11 neurons, 40 rows with a few symbolic weights); all weights and biases in -4..4, all sampler answers; "
          "the optimiser on its own and through AdaRound and the layer's rounding")
ASSUMPTIONS = ["values and codes over the real numbers, rounding errors of the float arithmetic left out"]
B = {"exact": True, "max_paths": 4000, "check_timeout": 20000}
DATA = {
    1: [[0.75, -0.5, 1.25]],
    2: [[0.5, 0.0, -0.375], [-1.0, 0.0, 0.25]],
    4: [[0.5, 0.0, -0.375], [-1.0, 0.0, 0.25], [1.5, 0.25, 0.0], [1.5, -0.25, 2.0]],
}


def calibrated(c, scales):
    """calibration with given scales (decided on its own)"""
    cal = Calibration(c, scales)
    D = cal.D
    D._real_init = getattr(D, "_real_init", D.__init__)
    n = [0]

    def init(self, a, *more, **k):
        self._sorted_a = a

    def quantize(self, q=None, force_zp=None, force_s=None, symmetric=False):
        n[0] += 1
        return scales[(n[0] - 1) % len(scales)], 1 if force_zp is None else force_zp
    D.__init__, D.quantize = init, quantize
    D.get_min, D.get_max = (lambda self: -64.0), (lambda self: 64.0)


class Setting:
    def __init__(self, c, n, m, N, act, bias):
        self.c, self.n, self.m, self.N = c, n, m, N
        self.X = np.array(rows(N, n, DATA))
        self.W = reals(c, "w", (n, m), -4, 4, -6)
        self.b = reals(c, "b", (m,), -4, 4, -6) if bias else None
        self.SX = 0.25
        calibrated(c, [0.125, 0.5, 0.0625, 1.0])
        prev, node = source(c, c.const(self.X), self.SX, c.int("zp", -128, 127))
        self.layer = c.mod(KD).KerasDense(dense(c, "layer", self.W, self.b, act))
        self.res = self.layer.quantize(prev)
        k, b = self.res.operators[0].inputs[1:]
        self.SW = k.scale
        c.check(eq(b.scale, self.SX * self.SW), "scales of the layer")

    def errors(self, l):
        """N times (mean squared error of rounding neuron l by xs, b, minus that of rounding it down)"""
        SX, SW = Fr(self.SX), Fr(self.SW)
        SB = SX * SW
        W = [exl(self.W)[i * self.m + l] for i in range(self.n)]
        b0 = exl(self.b)[l] if self.b is not None else Fr(0)
        low = []
        for row in self.X:
            I = [rint(Fr(v) / SX) for v in row]
            y = sum(w * Fr(v) for w, v in zip(W, row)) + b0
            low.append((y - SX * SW * sum(floor(w / SW) * i for w, i in zip(W, I)) - SB * floor(b0 / SB), I))

        def gap(xs, b):
            t = 0
            for r, I in low:
                up = SX * SW * sum(x * i for x, i in zip(xs, I)) + SB * b
                t = t + up * (up - 2 * r)
            return t
        return gap


def scratch(f):
    """the optimiser writes its matrices into the working directory"""
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            return f()
        finally:
            os.chdir(old)


def problems(c, S):
    """per neuron, the answers to problems whose energy is this neuron's error"""
    asked = [e[1] for e in c.events if e[0] == "sample"]
    assign = assignments(S.n + 1)
    out = []
    for l in range(S.m):
        names = [l * S.n + i + 1 for i in range(S.n)] + [S.n * S.m + l + 1]
        gap, good = S.errors(l), []
        for bqm, bits in asked:
            if set(bits) != set(names):
                continue
            J = dict(bqm.quadratic)
            J.update({(v, v): x for v, x in bqm.linear.items()})
            fits = And(*[equal(energy(J, dict(zip(names, a))) * S.N, gap(a[:-1], a[-1]), S.N) for a in assign])
            good.append(([bits[v] for v in names], fits))
        c.check(len(good) > 0, f"a problem for every neuron")
        out.append(good)
    return out


def judge(c, S, kernel, bias):
    c.check(shape(kernel) == (S.m, S.n) and shape(bias) == (S.m,), "policies of the layer's shapes", f"{shape(kernel)} {shape(bias)}")
    K, b = exl(kernel), exl(bias)
    for l, good in enumerate(problems(c, S)):
        row = K[l * S.n:(l + 1) * S.n] + [b[l]]
        c.check(Or(*[And(fits, *[eq(x, y) for x, y in zip(row, bits)]) for bits, fits in good]), f"the policies of a neuron are the bits sampled for its own reconstruction error", str(l))
        for i, x in enumerate(row):
            c.possible(eq(x, 1), f"bit {i} of neuron {l} can be set")


def h_optimize(c, **a):
    S = Setting(c, **a)
    k, b = S.res.operators[0].inputs[1:]
    o = c.mod(QU).QUBOAnnealer()
    o.set_cost_fn(lambda n: 0.0)
    o.set_layer(S.layer)
    o.set_input_data(c.const(S.X))
    o.set_quant_results(S.res)
    o.set_initial_neigh([k.rounding_policy, b.rounding_policy])
    got, _ = scratch(o.optimize)
    c.check(len(got) >= 2, "a kernel and a bias policy")
    judge(c, S, got[0], got[1])


def h_round(c, **a):
    S = Setting(c, **a)
    k, b = S.res.operators[0].inputs[1:]
    scratch(lambda: S.layer.adaround(c.mod(QU).QUBOAnnealer, S.res, lambda: 0.0))
    judge(c, S, k.rounding_policy, b.rounding_policy)
    for t, x, s in ((k, [exl(S.W)[i * S.m + l] for l in range(S.m) for i in range(S.n)], Fr(S.SW)), (b, exl(S.b), Fr(S.SX * S.SW))):
        lo, hi = irange(str(t.quant.dtype_str()))
        c.eq_list(exl(t.quantized), [clamp(floor(v / s) + p, lo, hi) for v, p in zip(x, exl(t.rounding_policy))], "integers of the layer")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for n, m, N in ((1, 1, 1), (2, 1, 2), (1, 2, 2), (2, 2, 4), (3, 2, 2), (2, 3, 1)) + (((3, 3, 4), (1, 4, 4)) if deep else ()):
        out.append(case(f"optimiser, {n} inputs, {m} neurons, {N} rows", h_optimize, weight=2 ** n * m, opts=B, n=n, m=m, N=N, act="linear", bias=True))
    for act in ("tanh", "relu", "relu6", "sigmoid"):
        out.append(case(f"optimiser, {act}", h_optimize, weight=4, opts=B, n=2, m=2, N=2, act=act, bias=True))
    out.append(case("optimiser, no bias", h_optimize, weight=4, opts=B, n=2, m=2, N=2, act="linear", bias=False))
    for n, m, N in ((8, 2, 3), (2, 11, 3), (2, 2, 40)):
        out.append(case(f"large optimiser, {n} inputs, {m} neurons, {N} rows", sparse(h_optimize, rf"^(w0|w{n * m - 1}|b{m - 1}|zp)$|^(?![wb]\d)"), weight=8, opts=B, n=n, m=m, N=N, act="linear", bias=True))
    for act in ("linear", "tanh"):
        out.append(case(f"rounding, {act}", h_round, weight=4, opts=B, n=2, m=2, N=2, act=act, bias=True))
    return out
