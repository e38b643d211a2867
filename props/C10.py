"""ONNX linear operators are correctly rounded and saturated."""
from .common import *

ADD = "itcl_inference_engine.layers.onnx.q_linear_add"
MM = "itcl_inference_engine.layers.onnx.q_linear_mmul"
TOL = Fr(1, 10 ** 6)
BOUNDS = ("matrix products of up to 3 inputs x 3 outputs (4 x 4 thorough), additions of up to 4 elements, one-dimensional inputs and batches of up to 3 rows; products of up to 300 inputs, 150 outputs and 70 rows, additions of 350 elements with a few symbolic ones; sums of 1061 products near ties; "
          "every uint8 input, weight, bias and zero point at once (weights and biases also int8 / int32), for each listed scale triple; real arithmetic, with a tolerance of "
          "1e-6 of a step around ties for scales that are not powers of two")
SCALES = [(0.5, 0.25, 1.0), (0.5, 0.5, 0.25), (0.0625, 0.125, 2.0), (0.1, 0.02, 0.3), (1 / 3, 0.0047, 0.11), (0.02, 0.01, 1.0), (0.9, 0.7, 0.4), (1.0, 0.03, 0.003)]


def rng(dt):
    return irange(dt)


def tdef(t, shp, dt):
    return {"tensor": t, "shape": list(shp), "dtype": dt, "name": "w"}


def node(t, s, z):
    return {"tensor": t, "scale": s, "zero_point": z, "LUT": None}


def rounded(c, y, v, oz, exact):
    """round half to even of v, plus oz, in uint8"""
    if exact:
        c.check(eq(y, clamp(rint(v) + ex(oz), 0, 255)), "round half to even, then the zero point, saturated")
    else:
        t = v + ex(oz)
        h = Fr(1, 2) + TOL
        c.check(And(ge(y, 0), le(y, 255), ge(y, mn(255, t - h)), le(y, mx(0, t + h))), "nearest, then the zero point, saturated")


def h_mm(c, via, n, m, rows, s, wdt="uint8", idt="uint8", concw=False):
    lo, hi = rng(wdt)
    w = [[c.int(f"w{j}_{i}", lo, hi) if not concw else (j * 91 + i * 57 + 3) % 256 for i in range(n)] for j in range(m)]
    iz, wz, oz = c.int("iz", 0, 255), c.int("wz", *(rng(wdt) if wdt != "int32" else (-128, 127))), c.int("oz", 0, 255)
    x = c.iarr("x", (rows, n) if rows else (n,), *rng(idt), idt)
    M = c.mod(MM).QLinearMatMul
    if via == "model":
        op = M.from_model({"op_type": "QLinearMatMul", "name": "m", "attributes": None, "description": None, "outputs": [node(None, 9.0, 99)],
                           "inputs": [node(None, s[0], iz), node(tdef(w, (m, n), wdt), s[1], wz), node(None, s[2], oz)]})
    else:
        op = M(s[0], iz, c.mkarr([e for r in w for e in r], (m, n), wdt) if via == "array" else w, s[1], wz, s[2], oz)
    before = exl(x)
    y = op.infer(x)
    c.same_shape(y, (rows, m) if rows else (m,))
    c.check(str(y.dtype) == "uint8", "dtype")
    c.observe("y", y)
    got, xs = exl(y), before
    Mf = Fr(s[0]) * Fr(s[1]) / Fr(s[2])
    k = 0
    for r in range(rows or 1):
        for j in range(m):
            acc = sum((ex(w[j][i]) - ex(wz)) * (ex(xs[r * n + i]) - ex(iz)) for i in range(n))
            rounded(c, got[k], acc * Mf, oz, all(map(pow2, s)))
            k += 1
    c.check(And(*[eq(p, q) for p, q in zip(exl(x), before)]), "input left alone")


def h_rows(c, n, m, rows, s):
    w = [[c.int(f"w{j}_{i}", 0, 255) for i in range(n)] for j in range(m)]
    iz, wz, oz = (c.int(k, 0, 255) for k in ("iz", "wz", "oz"))
    op = c.mod(MM).QLinearMatMul(s[0], iz, w, s[1], wz, s[2], oz)
    x = c.iarr("x", (rows, n), 0, 255, "uint8")
    y = exl(op.infer(x))
    xs = exl(x)
    for r in range(rows):
        z = exl(op.infer(c.mkarr(xs[r * n:(r + 1) * n], (n,), "uint8")))
        c.check(And(*[eq(p, q) for p, q in zip(y[r * m:(r + 1) * m], z)]), "a row of a batch is the row alone")


def h_add(c, via, shp, bshp, s, bdt="uint8", idt="uint8", big=2 ** 20):
    iz, bz, oz = c.int("iz", 0, 255), c.int("bz", *(rng(bdt) if bdt != "int32" else (-128, 127))), c.int("oz", 0, 255)
    blo, bhi = rng(bdt)
    if bdt == "int32":
        blo, bhi = -big, big
    nb, n = prod(bshp), prod(shp)
    bs = [c.int(f"b{i}", blo, bhi) for i in range(nb)]
    A = c.mod(ADD).QLinearAdd
    if via == "model":
        nest = bs if len(bshp) == 1 else [bs[i * bshp[1]:(i + 1) * bshp[1]] for i in range(bshp[0])]
        op = A.from_model({"op_type": "QLinearAdd", "name": "a", "attributes": None, "description": None, "outputs": [node(None, 9.0, 99)],
                           "inputs": [node(None, s[0], iz), node(tdef(nest, bshp, bdt), s[1], bz), node(None, s[2], oz)]})
    else:
        op = A(s[0], iz, c.mkarr(bs, bshp, bdt), s[1], bz, s[2], oz)
    x = c.iarr("x", shp, *rng(idt), idt)
    xs = exl(x)
    y = op.infer(x)
    out = np.broadcast_shapes(tuple(shp), tuple(bshp))
    c.same_shape(y, out)
    c.check(str(y.dtype) == "uint8", "dtype")
    c.observe("y", y)
    xi, bi = np.broadcast_to(np.arange(n).reshape(shp), out).reshape(-1), np.broadcast_to(np.arange(nb).reshape(bshp), out).reshape(-1)
    for k, y_ in enumerate(exl(y)):
        v = ((ex(xs[xi[k]]) - ex(iz)) * Fr(s[0]) + (ex(bs[bi[k]]) - ex(bz)) * Fr(s[1])) / Fr(s[2])
        rounded(c, y_, v, oz, all(map(pow2, s)))
    c.check(And(*[eq(p, q) for p, q in zip(exl(x), xs)]), "input left alone")
    y2 = op.infer(x)
    c.check(And(*[eq(p, q) for p, q in zip(exl(y2), exl(y))]), "repeatable")


def h_sums(c, n, rows):
    """products that add up to more than 2^25, exact at ties"""
    w, oz = c.int("w", 0, 255), c.int("oz", 0, 255)
    xs = [[255] * (n - 1) + [c.int(f"x{r}", 0, 255)] for r in range(rows or 1)]
    op = c.mod(MM).QLinearMatMul(0.25, 0, [[255] * (n - 1) + [w]], 0.5, 0, 2.0 ** 16, oz)
    y = exl(op.infer(c.mkarr([e for r in xs for e in r], (rows, n) if rows else (n,), "uint8")))
    for y_, x in zip(y, xs):
        rounded(c, y_, Fr((n - 1) * 65025 , 2 ** 19) + ex(w) * ex(x[-1]) / 2 ** 19, oz, True)


def h_reject(c, what):
    A, M = c.mod(ADD).QLinearAdd, c.mod(MM).QLinearMatMul
    C = A if "add" in what else M
    t = None if "missing" in what else tdef([[1, 2], [3, 4]], (4, 1), "uint8")
    op = {"op_type": "x", "name": "a", "attributes": None, "description": None, "outputs": [], "inputs": [node(None, 0.5, 0), node(t, 0.5, 0), node(None, 0.5, 0)]}
    c.check(c.expect_raises(lambda: C.from_model(op), (ValueError, AssertionError)), "malformed tensors are rejected")


def cases(tier):
    th = tier == "thorough"
    out = []
    for s in SCALES:
        for n, m, rows in ((2, 2, None), (1, 3, 2)) + (((3, 3, 2), (4, 4, None), (6, 2, 1)) if th else ()):
            out.append(case(f"matmul {s} {n}x{m} rows={rows}", h_mm, weight=5, via="model", n=n, m=m, rows=rows, s=s))
        out.append(case(f"matmul {s} array", h_mm, weight=3, via="array", n=3, m=2, rows=None, s=s))
        for shp, bshp in (((2,), (2,)), ((2, 2), (2,))) + ((((3, 4), (4,)), ((2, 2), (2, 2))) if th else ()):
            out.append(case(f"add {s} {shp} {bshp}", h_add, weight=3, via="model", shp=shp, bshp=bshp, s=s))
    for s in (SCALES[1], SCALES[3]):
        for wdt in ("int8", "int32"):
            if wdt == "int8":
                out.append(case(f"matmul {s} weights {wdt}", h_mm, weight=3, via="model", n=2, m=2, rows=None, s=s, wdt=wdt))
            out.append(case(f"add {s} bias {wdt}", h_add, weight=3, via="model", shp=(2,), bshp=(2,), s=s, bdt=wdt))
        out.append(case(f"matmul {s} int64 codes", h_mm, weight=3, via="list", n=2, m=2, rows=2, s=s, idt="int16"))
        out.append(case(f"add {s} array", h_add, weight=3, via="array", shp=(1, 2), bshp=(2,), s=s))
        out.append(case(f"add {s} broadcast", h_add, weight=3, via="array", shp=(2,), bshp=(2, 2), s=s))
        out.append(case(f"rows {s}", h_rows, weight=3, n=2, m=2, rows=3, s=s))
        out.append(case(f"matmul {s} 16 inputs", h_mm, weight=3, via="model", n=16, m=1, rows=None, s=s, concw=True))
    for s in (SCALES[0], SCALES[3]):
        for n, m, rows in ((300, 2, None), (3, 150, None), (2, 3, 70), (40, 33, 9)):
            last = (f"{rows - 1}," if rows else "") + str(n - 1)
            out.append(case(f"large matmul {s} {n}x{m} rows={rows}", sparse(h_mm, rf"^(x\[({last}|0|0,0)\]|w{m - 1}_{n - 1})$"), weight=4, via="model", n=n, m=m, rows=rows, s=s))
        for shp in ((150,), (70, 5)):
            last = ",".join(str(k - 1) for k in shp)
            out.append(case(f"large add {s} {shp}", sparse(h_add, rf"^(x\[({last}|0|0,0)\]|b{shp[-1] - 1}|b0)$"), weight=3, via="model", shp=shp, bshp=shp[-1:], s=s))
    for s in ((0.25, 2.0 ** -24, 0.25), (0.1, 1e-7, 0.1)):
        out.append(case(f"add {s} large bias", h_add, via="model", shp=(2,), bshp=(2,), s=s, bdt="int32", big=2 ** 30))
    for rows in (None, 2):
        out.append(case(f"large sums rows={rows}", h_sums, n=1061, rows=rows))
    for w in ("add missing", "add shape", "mm missing", "mm shape"):
        out.append(case("rejects " + w, h_reject, what=w))
    return out
