"""ONNX softmax yields a probability vector per row."""
from .common import *

S = "itcl_inference_engine.layers.onnx.softmax"
O = "itcl_inference_engine.layers.onnx.build_operator"
BOUNDS = ("rows of up to 3 values (4 thorough), batches of up to 3 rows, rows of 12 and batches of 40 rows with one symbolic value, inputs in [-1000, 1000] (float64, multiples of 2^-20) and the float32 values an uint8 tensor "
          "dequantises to; exp is a strictly increasing real function refined at the points the solver visits; sums of rows within 1e-9 of one")
EPS = Fr(1, 10 ** 9)
EPS32 = Fr(1, 10 ** 5)


def build(c, via):
    if via == "init":
        return c.mod(S).Softmax()
    op = {"op_type": "Softmax", "name": "s", "description": None, "attributes": None, "inputs": [], "outputs": []}
    return c.mod(O).build_operator(op) if via == "builder" else c.mod(S).Softmax.from_model(op)


def inputs(c, kind, shp):
    if kind == "f64":
        return c.rarr("x", shp, -1000.0, 1000.0, -20)
    if kind == "small":
        return c.rarr("x", shp, -4.0, 4.0, -12)
    # what DequantizeLinear hands over
    q = c.iarr("q", shp, 0, 255, "uint8")
    return (q.astype(np.int32) - np.int32(128)).astype(np.float32) * np.float32(0.0625)


def h_prob(c, via, kind, shp):
    l = build(c, via)
    x = inputs(c, kind, shp)
    before = exl(x)
    y = l.infer(x)
    c.same_shape(y, shp)
    c.observe("y", y)
    n = shp[-1]
    ys = exl(y)
    e = EPS32 if kind == "code" else EPS
    for r in range(prod(shp) // n):
        row, xs = ys[r * n:(r + 1) * n], before[r * n:(r + 1) * n]
        c.check(And(*[ge(v, 0) for v in row]), "non-negative")
        c.check(And(*[le(v, 1 + e) for v in row]), "at most one")
        c.check(near(sum(row), 1, e), "sums to one")
        for i in range(n):
            for j in range(n):
                if i != j:
                    c.check(Implies(le(xs[i], xs[j]), le(row[i], row[j] + e)), "ordered like the inputs")
        for i in range(n):
            # the largest input has at least the mean probability
            c.check(Implies(And(*[ge(xs[i], v) for v in xs]), ge(row[i] + e, Fr(1, n))), "the largest input gets the most")
    c.check(And(*[eq(a, b) for a, b in zip(exl(x), before)]), "input left alone")


def h_ratio(c, kind, shp):
    """probabilities are in the ratio of the exponentials"""
    x = inputs(c, kind, shp)
    y, xs = exl(build(c, "builder").infer(x)), exl(x)
    n = shp[-1]
    e = EPS32 if kind == "code" else EPS
    for r in range(prod(shp) // n):
        row, v = y[r * n:(r + 1) * n], xs[r * n:(r + 1) * n]
        for i in range(n):
            m = mx(*v)
            c.check(Implies(eq(v[i], m), And(*[near(row[j], row[i] * fn("exp", v[j] - m), e) for j in range(n)])), "ratio of exponentials")


def h_rows(c, kind, shp):
    x = inputs(c, kind, shp)
    l = build(c, "model")
    y = exl(l.infer(x))
    n = shp[-1]
    flat = x.reshape(-1)
    for r in range(prod(shp) // n):
        one = exl(l.infer(flat[r * n:(r + 1) * n]))
        c.check(And(*[eq(a, b) for a, b in zip(one, y[r * n:(r + 1) * n])]), "a row of a batch is the row alone")


def h_shift(c, kind, shp):
    x = inputs(c, kind, shp)
    l = build(c, "model")
    k = c.real("k", -8.0, 8.0, -8)
    y, w = exl(l.infer(x)), exl(l.infer(x + k))
    c.check(And(*[near(a, b, EPS) for a, b in zip(y, w)]), "invariant to a constant")


FORK = {"fork_max": True}


def cases(tier):
    th = tier == "thorough"
    out = []
    for kind in ("f64", "small", "code"):
        for via in ("init", "builder", "model"):
            out.append(case(f"softmax {kind} {via} pair", h_prob, opts=FORK, weight=2, via=via, kind=kind, shp=(2,)))
        for shp in ((1,), (3,), (2, 2), (3, 1)) + (((4,), (2, 3), (1, 2, 2)) if th else ()):
            out.append(case(f"softmax {kind} {shp}", h_prob, opts=FORK, weight=4, via="builder", kind=kind, shp=shp))
        for shp in ((2,), (2, 2)) + (((3,),) if th else ()):
            out.append(case(f"ratio {kind} {shp}", h_ratio, opts=FORK, weight=3, kind=kind, shp=shp))
        for shp in ((2, 2), (3, 2), (2, 1, 2)):
            out.append(case(f"rows {kind} {shp}", h_rows, opts=FORK, weight=2, kind=kind, shp=shp))
    for shp in ((1, 12), (40, 3)):
        last = ",".join(str(k - 1) for k in shp)
        out.append(case(f"large rows {shp}", sparse(h_rows, rf"^x\[{last}\]$"), opts=FORK, weight=2, kind="small", shp=shp))
    for shp in ((2,), (2, 2)):
        out.append(case(f"shift {shp}", h_shift, opts=FORK, weight=2, kind="small", shp=shp))
    return out
