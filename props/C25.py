"""The QUBO energy is the layer's reconstruction error."""
import itertools
from .common import *
from .keras_model import reals

QC = "itcl_quantizer.equalizers.adaround.qubocalculation"
CI = "itcl_quantizer.equalizers.adaround.Calculationsint"
BOUNDS = ("layers with 1-4 inputs and 1-3 neurons (6 inputs or 4 neurons thorough), data sets of 1, 2 and 4 rows (8 thorough), and layers of up to 12 inputs, 11 neurons and 40 rows with a few symbolic weights, biases and outputs, on the assignments that determine a quadratic form; all weights, biases and outputs in -8..8 on data sets of fixed rows with zeros, repeated and negative entries, all inputs as well "
          "for layers of one row and up to 3 inputs or two rows (2 rows of 2 inputs thorough); all assignments; scales of fixed powers of two, the bias scale their product; both builders")
ASSUMPTIONS = ["values over the real numbers, rounding errors of the float arithmetic left out"]
B = {"exact": True, "max_paths": 4000, "check_timeout": 20000}

DATA = {
    1: [[0.75, -0.5, 0.0, 1.25, 2.0, -1.0]],
    2: [[0.5, 0.0, -0.375, 1.0, 0.25, 1.0], [-1.0, 0.0, 0.25, 0.5, -0.25, 0.75]],
    4: [[0.5, 0.0, -0.375, 1.0, 0.0, 1.0], [-1.0, 0.0, 0.25, 0.5, 0.0, -1.0], [1.5, 0.25, 0.0, -0.5, 2.0, 0.0], [1.5, -0.25, 2.0, 0.0, 1.0, 1.0]],
    8: [[0.5 * ((3 * i + 5 * j) % 7 - 3) for j in range(6)] for i in range(8)],
}


def rows(N, n, data=DATA):
    """N fixed rows of n values, some zero, negative and repeated"""
    if N in data and n <= len(data[N][0]):
        return [r[:n] for r in data[N]]
    return [[0.125 * ((7 * i * i + 5 * j + 3 * i * j) % 17 - 8) if (i + j) % 5 else 0.0 for j in range(n)] for i in range(N)]


def equal(a, b, N):
    """the mean over N rows is exact for powers of two"""
    return eq(a, b) if pow2(N) else near(a, b, Fr(1, 10 ** 7))


def assignments(k):
    """all of them for few variables, else those that determine a quadratic form: at most two bits set"""
    if k <= 7:
        return list(itertools.product((0, 1), repeat=k))
    return [tuple(int(i in s) for i in range(k)) for r in range(3) for s in itertools.combinations(range(k), r)] + [(1,) * k]


class Layer:
    def __init__(self, c, n, m, N, symbolic, SX, SW):
        self.c, self.n, self.m, self.N, self.SX, self.SW, self.SB = c, n, m, N, SX, SW, SX * SW
        self.X = reals(c, "x", (N, n), -2, 2, -6) if symbolic else np.array(rows(N, n))
        self.W = reals(c, "w", (m, n), -8, 8, -6)
        self.b = reals(c, "b", (m,), -8, 8, -6)
        self.Y = reals(c, "y", (N, m), -8, 8, -6)

    def problem(self, how, l, state):
        """neuron l's quadratic form by the functions or by the class, from scratch or reusing neuron 0's coefficients"""
        n, m, N, SX, SW, SB = self.n, self.m, self.N, self.SX, self.SW, self.SB
        if how.startswith("functions"):
            M = self.c.mod(QC)
            Z = lambda *s: self.c.mkarr([0.0] * prod(s), s, np.float64)
            I = M.Input_Round_Calculation(self.X, SX)
            d = M.dterm_Calculation(self.b, self.W, I, self.Y, SW, SX, SB)
            d1 = M.Bterm1_Calculation_Subespacio({}, Z(N, n), I, d, l, n, N, SW, SX)
            if "reuse" in how and l > 0:
                d2 = M.Bterm_Calculation_Vuelta(state["b2"], {}, n, l)
                d4 = M.Bterm_Calculation_Vuelta4({}, state["b4"], n, m, l)
            else:
                d2, state["b2"] = M.Bterm2_Calculation_Subespacio({}, Z(N, n * n), I, l, n, N, SW, SX)
                d4, state["b4"] = M.Bterm4_Calculation_Subespacio({}, Z(N, n), I, l, n, m, SB, SX, SW, N)
            d3 = M.Bterm3_Calculation_Subespacio({}, Z(N, 1), d, l, n, m, SB, SX, SW, N)
            self.parts = d1, d2, d3, d4
            return M.Unir_Diccionarios(d1, d2, d3, d4, {})
        A = state.setdefault("A", None) or self.c.mod(CI).ADAInt(self.X, self.W, self.b, self.Y, SX, SW, SB)
        state["A"] = A
        d1 = A.bterm1_calculation_subespacio({}, l)
        if "reuse" in how and l > 0:
            d2 = A.bterm2_calculation_repeticion(state["b2"], {}, l)
            d4 = A.bterm4_calculation_repeticion({}, state["b4"], l)
        else:
            d2, state["b2"] = A.bterm2_calculation_subespacio({}, l)
            d4, state["b4"] = A.bterm4_calculation_subespacio({}, l)
        d3 = A.bterm3_calculation_subespacio({}, l)
        self.parts = d1, d2, d3, d4
        return A.unir_diccionarios(d1, d2, d3, d4, {})

    def fill(self, how, M, state):
        if how.startswith("functions"):
            self.c.mod(QC).Matrix_Calculation(M, *self.parts, self.m, self.n)
        else:
            state["A"].matrix_calculation(M, *self.parts)

    def bits(self, l):
        return [l * self.n + i + 1 for i in range(self.n)], self.n * self.m + l + 1

    def gap(self, l, xs, b):
        """mean squared error of the rounding xs, b minus that of rounding everything down, N times"""
        I = [[rint(v / Fr(self.SX)) for v in exl(self.X)[s * self.n:(s + 1) * self.n]] for s in range(self.N)]
        fW = [floor(v / Fr(self.SW)) for v in exl(self.W)[l * self.n:(l + 1) * self.n]]
        fb = floor(exl(self.b)[l] / Fr(self.SB))
        Y = exl(self.Y)
        p, total = Fr(self.SW) * Fr(self.SX), 0
        for s in range(self.N):
            low = Y[s * self.m + l] - p * sum(f * i for f, i in zip(fW, I[s])) - Fr(self.SB) * fb
            up = p * sum(x * i for x, i in zip(xs, I[s])) + Fr(self.SB) * b
            total = total + up * (up - 2 * low)
        return total


def energy(J, a):
    """of the binary quadratic model"""
    e = 0
    for (u, v), q in J.items():
        if a[u] and a[v]:
            e = e + ex(q)
    return e


def judge(c, L, l, J):
    ks, kb = L.bits(l)
    names = ks + [kb]
    c.check(set(v for k in J for v in k) <= set(names), "a neuron's problem uses its own variables", str(sorted(J)))
    seen = []
    for u, v in J:
        for x in (u, v):
            if x not in seen:
                seen.append(x)
    c.check(seen == names, "kernel bits in input order, then the bias bit", str(seen))
    for bits in assignments(len(names)):
        a = dict(zip(names, bits))
        c.check(equal(energy(J, a) * L.N, L.gap(l, bits[:-1], bits[-1]), L.N), "energy is the reconstruction error up to a constant", str(bits))


def h_matrix(c, how, n, m, N):
    """the dense matrix holds the problems of all neurons"""
    L = Layer(c, n, m, N, False, 0.25, 0.5)
    state, k = {}, n * m + m
    M = c.mkarr([0.0] * (k * k), (k, k), np.float64)
    want = {}
    for l in range(m):
        for (u, v), q in L.problem(how, l, state).items():
            u, v = sorted((u, v))
            want[u, v] = want.get((u, v), 0) + ex(q)
        from .C26 import scratch
        scratch(lambda: L.fill(how, M, state))
    e = exl(M)
    c.check(shape(M) == (k, k), "size of the matrix")
    for u in range(1, k + 1):
        for v in range(u, k + 1):
            got = e[(u - 1) * k + v - 1] + (e[(v - 1) * k + u - 1] if u != v else 0)
            c.check(eq(got, want.get((u, v), 0)), "entry of the matrix", f"{u}, {v}")


def h_energy(c, how, n, m, N, symbolic, SX, SW):
    L = Layer(c, n, m, N, symbolic, SX, SW)
    state = {}
    for l in range(m):
        judge(c, L, l, L.problem(how, l, state))


def cases(tier):
    deep = tier == "thorough"
    out = []
    for how in ("functions", "functions reuse", "class", "class reuse"):
        for n, m, N, SX, SW in ((1, 1, 1, 0.25, 0.5), (2, 1, 2, 0.125, 0.25), (2, 2, 4, 0.25, 0.0625), (3, 2, 2, 0.125, 0.5), (4, 1, 4, 0.125, 0.25), (2, 3, 2, 0.25, 0.25)) + (((6, 1, 4, 0.125, 0.25), (3, 4, 8, 0.5, 0.125), (5, 2, 8, 0.25, 0.25)) if deep else ()):
            if "reuse" in how and m == 1:
                continue
            out.append(case(f"{how}, {n} inputs, {m} neurons, {N} rows", h_energy, weight=2 ** n, opts=B, how=how, n=n, m=m, N=N, symbolic=False, SX=SX, SW=SW))
        for n, m, N in ((1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 1), (1, 1, 2), (3, 1, 1)) + (((2, 1, 2), (2, 2, 2), (1, 2, 4)) if deep else ()):
            if "reuse" in how and m == 1:
                continue
            out.append(case(f"{how}, any inputs, {n} inputs, {m} neurons, {N} rows", h_energy, weight=2 ** n, opts=B, how=how, n=n, m=m, N=N, symbolic=True, SX=0.5, SW=0.25))
    for how in ("functions", "functions reuse", "class", "class reuse"):
        for n, m, N in ((9, 2, 3), (2, 11, 3), (2, 2, 40), (12, 3, 5)):
            out.append(case(f"large, {how}, {n} inputs, {m} neurons, {N} rows", sparse(h_energy, rf"^(w0|w{n * m - 1}|b{m - 1}|y0|y{N * m - 1})$"), weight=8, opts=B, how=how, n=n, m=m, N=N,
                            symbolic=False, SX=0.125, SW=0.25))
        for n, m in ((2, 1), (2, 2)) + (((3, 3),) if deep else ()):
            out.append(case(f"matrix, {how}, {n} inputs, {m} neurons", h_matrix, weight=4, opts=B, how=how, n=n, m=m, N=2))
    return out
