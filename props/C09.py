"""Quantised dense layer equals its real-valued definition."""
from .common import *

FC = "itcl_inference_engine.layers.tflite.fullyconnected"
E31 = Fr(1, 2 ** 31)
BOUNDS = ("layers of up to 3 inputs x 3 outputs (4 x 4 thorough), one-dimensional inputs and batches of up to 3 rows; layers of up to 300 inputs, 150 outputs and batches of 70 rows with the first and last input, weight and bias symbolic; every int8 weight, input, zero point and every int32 bias "
          "(all symbolic at once, for each of nine listed scale triples); sums of 1100 largest products; output dtypes int8, uint8, int16, int32")
SCALES = [(0.5, 0.25, 8.0), (0.1, 0.02, 0.3), (1 / 3, 0.0047, 0.11), (0.02, 0.01, 1.0), (0.9999, 0.5, 0.5), (3.0, 0.7, 0.4), (0.001, 0.0001, 10.0), (0.004, 0.003, 2.0)]
WS = [[127, -128, 3, -7], [-1, 0, 1, 64], [-100, 99, 101, -126], [5, 6, -7, 8]]
XSV = [-128, 127, 0, 77]


def tensor(t, dt="int8"):
    return {"tensor": t, "dtype": dt, "shape": [], "name": None}


def mk(c, via, s, wz, w, b, iz, oz, od, wdt="int64"):
    F = c.mod(FC).FullyConnected
    m, n = len(w), len(w[0])
    if via == "build":
        W = c.mkarr([e for r in w for e in r], (m, n), wdt)
        return F.build(s[0], iz, s[1], wz, W, s[0] * s[1], 0, c.mkarr(b, (m,), "int32"), s[2], oz, output_dtype=od)
    if via == "list":
        return F.build(s[0], iz, s[1], wz, w, s[0] * s[1], 0, b, s[2], oz, output_dtype=od)
    node = lambda t, sc, z: {"tensor": t, "scale": sc, "zero_point": z, "LUT": None}
    return F.from_model({"op_type": "FULLY_CONNECTED", "name": "d", "attributes": None, "description": None,
                         "inputs": [node(None, s[0], iz), node(tensor(w), s[1], wz), node(tensor(b, "int32"), s[0] * s[1], 0)],
                         "outputs": [node(tensor(None, od), s[2], oz)]})


def accs(w, wz, b, iz, x):
    return [ex(b[j]) + sum((ex(w[j][i]) - ex(wz)) * (ex(x[i]) - ex(iz)) for i in range(len(x))) for j in range(len(w))]


def judge(c, got, acc, s, oz, od):
    M = Fr(s[0]) * Fr(s[1]) / Fr(s[2])
    lo, hi = irange(od)
    if s[0] * s[1] / s[2] < 1e-6:
        M = Fr(0)
    for y, a in zip(got, acc):
        v = ex(oz) + a * M
        tol = Fr(1, 2) + ab(a) * M * E31
        if M == 1:
            c.check(eq(y, clamp(v, lo, hi)), "exact for the unit multiplier")
        elif pow2(M):
            c.check(eq(y, clamp(floor(v + Fr(1, 2)), lo, hi)), "nearest for power-of-two multipliers")
        else:
            c.check(And(ge(y, mn(hi, v - tol)), le(y, mx(lo, v + tol))), "nearest within the encoding error")
        c.check(And(ge(y, lo), le(y, hi)), "in the output dtype")


def sym_inputs(c, n, m, rows, sw, sx, sb, od="int8", narrow=None):
    w = [[c.int(f"w{j}_{i}", -128, 127) if sw else WS[j][i] for i in range(n)] for j in range(m)]
    b = [c.int(f"b{j}", *(narrow or (-2 ** 31, 2 ** 31 - 1))) if sb else 1000 * j - 1500 for j in range(m)]
    xs = [[c.int(f"x{r}_{i}", -128, 127) if sx else XSV[(i + r) % 4] for i in range(n)] for r in range(rows or 1)]
    return w, b, xs


def h_layer(c, via, n, m, rows, s, sw, sx, sb, od, symzp=True, wdt="int64", xdt="int8"):
    w, b, xs = sym_inputs(c, n, m, rows, sw, sx, sb, od)
    wz = c.int("wz", -128, 127) if symzp else 0
    iz = c.int("iz", -128, 127) if symzp else -3
    lo, hi = irange(od)
    oz = c.int("oz", max(lo, -2 ** 15), min(hi, 2 ** 15 - 1))
    layer = mk(c, via, s, wz, w, b, iz, oz, od, wdt)
    X = c.mkarr([e for r in xs for e in r], (rows, n) if rows else (n,), xdt)
    before = list(exl(X))
    y = layer.infer(X)
    c.same_shape(y, (rows, m) if rows else (m,))
    got = exl(y)
    c.observe("y", y)
    acc = [a for x in xs for a in accs(w, wz, b, iz, x)]
    judge(c, got, acc, s, oz, od)
    c.check(And(*[eq(p, q) for p, q in zip(exl(X), before)]), "input left alone")


def h_rows(c, n, m, rows, s):
    w, b, xs = sym_inputs(c, n, m, rows, False, True, True)
    iz, oz = c.int("iz", -128, 127), c.int("oz", -128, 127)
    layer = mk(c, "model", s, 0, w, b, iz, oz, "int8")
    y = exl(layer.infer(c.mkarr([e for r in xs for e in r], (rows, n), "int8")))
    for r in range(rows):
        z = exl(layer.infer(c.mkarr(xs[r], (n,), "int8")))
        z2 = exl(layer.infer(c.mkarr(xs[r], (1, n), "int8")))
        c.check(And(*[And(eq(p, q), eq(p, q2)) for p, q, q2 in zip(y[r * m:(r + 1) * m], z, z2)]), "a row of a batch is the row alone")


def h_long(c, n, s):
    """many inputs: all at the extremes except one symbolic input, symbolic bias"""
    w = [[127 if i % 2 else -128 for i in range(n)]]
    x = [-128 if i % 2 else 127 for i in range(n - 1)] + [c.int("x", -128, 127)]
    b = [c.int("b", -2 ** 31, 2 ** 31 - 1)]
    wz, iz = c.choice("wz", [0, -128, 127]), c.choice("iz", [0, -128, 127])
    layer = mk(c, "model", s, wz, w, b, iz, 0, "int32")
    y = exl(layer.infer(c.mkarr(x, (n,), "int8")))
    judge(c, y, accs(w, wz, b, iz, x), s, 0, "int32")


def h_sums(c, n, rows, s, od):
    """sums beyond 2^26 and, with the bias, near 2^31: every product at its largest but one"""
    x0, x1 = c.int("x0", -128, 127), c.int("x1", -128, 127)
    b = [c.int("b", -2 ** 31, 2 ** 31 - 1)]
    w = [[-128] * n]
    xs = [[127] * (n - 1) + [x0]] + [[127] * (n - 1) + [x1]] * ((rows or 1) - 1)
    layer = mk(c, "model", s, 127, w, b, -128, 0, od)
    got = exl(layer.infer(c.mkarr([e for r in xs for e in r], (rows, n) if rows else (n,), "int8")))
    judge(c, got, [a for x in xs for a in accs(w, 127, b, -128, x)], s, 0, od)


def h_ndim(c):
    layer = mk(c, "model", SCALES[0], 0, [[1, 2]], [0], 0, 0, "int8")
    c.check(c.expect_raises(lambda: layer.infer(c.mkarr([1, 2], (1, 1, 2), "int8")), AssertionError), "three-dimensional input is rejected")


def cases(tier):
    th = tier == "thorough"
    out = []
    unit = (0.5, 0.5, 0.25)
    for via in ("build", "list", "model"):
        for n, m, rows in ((1, 1, None), (2, 2, None), (3, 2, None), (2, 3, 2), (1, 2, 3)) + (((4, 3, None), (3, 3, 2), (4, 4, 1)) if th else ()):
            for od in ("int8", "int32") if (n, m) == (2, 2) else ("int8",):
                out.append(case(f"{via} unit multiplier {n}x{m} rows={rows} {od}", h_layer, weight=4, via=via, n=n, m=m, rows=rows, s=unit, sw=True, sx=True, sb=True, od=od))
    out.append(case("int8 weight array", h_layer, weight=4, via="build", n=2, m=1, rows=None, s=unit, sw=True, sx=True, sb=True, od="int8", wdt="int8"))
    out.append(case("int32 weight array, int64 input", h_layer, weight=4, via="build", n=2, m=1, rows=2, s=unit, sw=True, sx=True, sb=True, od="int16", wdt="int32", xdt="int64"))
    for s in SCALES:
        for od in ("int8", "uint8", "int16", "int32"):
            out.append(case(f"multiplier {s} bias {od}", h_layer, weight=2, via="model", n=1, m=1, rows=None, s=s, sw=False, sx=False, sb=True, od=od, symzp=False))
        out.append(case(f"multiplier {s} everything symbolic", h_layer, weight=5, via="model", n=2, m=2, rows=None, s=s, sw=True, sx=True, sb=True, od="int8"))
        if th:
            out.append(case(f"multiplier {s} everything symbolic 4x4", h_layer, weight=9, via="model", n=4, m=4, rows=2, s=s, sw=True, sx=True, sb=True, od="int8"))
            out.append(case(f"multiplier {s} everything symbolic int16", h_layer, weight=9, via="build", n=5, m=2, rows=None, s=s, sw=True, sx=True, sb=True, od="int16"))
        out.append(case(f"multiplier {s} weights", h_layer, weight=3, via="model", n=2, m=2, rows=None, s=s, sw=True, sx=False, sb=True, od="int8", symzp=False))
        out.append(case(f"multiplier {s} inputs", h_layer, weight=3, via="model", n=3, m=2, rows=None, s=s, sw=False, sx=True, sb=True, od="int8", symzp=False))
        out.append(case(f"multiplier {s} batch", h_layer, weight=3, via="build", n=2, m=2, rows=2, s=s, sw=False, sx=True, sb=True, od="int8", symzp=False))
    for s in (SCALES[:2] if not th else SCALES):
        out.append(case(f"batch rows {s}", h_rows, weight=3, n=2, m=2, rows=3, s=s))
        out.append(case(f"long row {s}", h_long, weight=3, n=64 if not th else 512, s=s))
    for s in SCALES[:2] + [unit]:
        for n, m, rows in ((300, 2, None), (3, 150, None), (2, 3, 70), (40, 33, 9)):
            out.append(case(f"large {n}x{m} rows={rows} {s}", sparse(h_layer, rf"^(x{(rows or 1) - 1}_{n - 1}|x0_0|w{m - 1}_{n - 1}|b{m - 1})$"), weight=4, via="model", n=n, m=m, rows=rows, s=s,
                            sw=True, sx=True, sb=True, od="int8"))
    for rows in (None, 2):
        for s, od in ((unit, "int32"), ((0.5, 2.0 ** -21, 0.5), "int8"), (SCALES[0], "int32")):
            out.append(case(f"large sums rows={rows} {s}", h_sums, weight=4, n=1100, rows=rows, s=s, od=od))
    out.append(case("three-dimensional input", h_ndim))
    return out
