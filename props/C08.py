"""Fixed-point multipliers approximate the real multiplier."""
from .common import *

FLO = "itcl_inference_engine.util.floating"
FC = "itcl_inference_engine.layers.tflite.fullyconnected"
E31 = Fr(1, 2 ** 31)
X = 2 ** 31
BOUNDS = ("multipliers: every multiplier in [2^-31, 2^20] on a grid of 2^-52 of the top of its range (symbolic), zero, tiny ones down to 1e-30, "
          "and a list of concrete ones; accumulators: every 32-bit integer for concrete multipliers, corner accumulators for symbolic multipliers")
MULTS = [0.0, 1e-30, 3e-11, 2.0 ** -33, 2.0 ** -32, 1e-7, 9.99e-7, 1e-6, 1.1e-6, 2.0 ** -19, 0.0003, 0.00390625, 0.0047, 0.1, 1 / 3, 0.25, 0.4999999999999, 0.5, 0.5000000000001,
         0.75, 0.9999999998, 1 - 2.0 ** -33, 1.0, 1.0000001, 1.5, 2.0, 3.7, 7.999999999999, 255.5, 1000.1, 2.0 ** 20]
XS = [-X, X - 1, -1, 1, 0, 12345, -54321, 2 ** 30 + 1, -127 * 127 * 16]


def params(c, which, m, split=None):
    if which == "float":
        a = c.mod(FLO).FloatingIntegerApprox(m)
        return a, a._q, a._shift, a._round
    p = c.mod(FC).FullyConnectedQuantizedMultiplier(*split) if split else c.mod(FC).FullyConnectedQuantizedMultiplier(m, 1.0, 1.0)
    return p, p.quantized_multiplier, p.shift, p.round


def times(c, which, obj, x, arr):
    """x * multiplier through the public interface"""
    if which == "float":
        return obj * (c.mkarr([x], (1,), "int64") if arr else x)
    l = c.mod(FC).FullyConnected(0, np.array([[1]]), np.array([0]), obj, 0, output_dtype="int64")
    return l.infer(c.mkarr([x], (1,), "int64") if arr else c.mkarr([x], (1, 1), "int64"))


def encoding(c, m, q, s, r):
    s = int(s)
    c.check(s >= 1, "positive shift")
    c.check(And(ge(q, 0), lt(q, 2 ** 31)), "multiplier in 31 bits")
    c.check(eq(r, 2 ** (s - 1)), "rounding term is one half")
    d = ex(q) - ex(m) * 2 ** s
    return d


def small(which, m):
    return m < (1e-6 if which == "dense" else 2.0 ** -32)


def h_encode(c, which, lo, hi, g, split=None):
    m = c.real("m", lo, hi, g)
    if split:
        a, b = split
        o, q, s, r = params(c, which, None, (m * a, b, a * b))
    else:
        o, q, s, r = params(c, which, m)
    c.observe("q", [q, s, r])
    s = conc(c, s)
    d = encoding(c, m, q, s, r)
    if which == "dense":
        tiny = lt(m, Fr(1e-6))
        c.check(Implies(tiny, eq(q, 0)), "below 1e-6 counts as zero")
        c.check(Or(tiny, le(ab(d), ex(m) * Fr(2) ** (s - 31))), "encoding error 2^-31 relative")
    else:
        c.check(le(ab(d), ex(m) * Fr(2) ** (s - 31)), "encoding error 2^-31 relative")


def conc(c, s):
    return int(s) if not hasattr(s, "z") else int(c.concretize(s))


def h_value(c, which, k, arr):
    """concrete multiplier, every accumulator"""
    m = MULTS[k]
    x = c.int("x", -X, X - 1)
    o, q, s, r = params(c, which, m)
    encoding(c, m, q, s, r)
    y = times(c, which, o, x, arr)
    y = exl(y)[0] if shape(y) != () else ex(y)
    c.observe("y", y)
    fm = Fr(0) if small(which, m) else Fr(m)
    err = ab(ex(y) - ex(x) * fm)
    c.check(le(err, Fr(1, 2) + ab(x) * Fr(m) * E31 + (Fr(1, 2) if which == "float" and small(which, m) else 0)), "product within one half plus the encoding error")


def h_corner(c, which, x, lo, hi, g):
    """symbolic multiplier, one accumulator"""
    m = c.real("m", lo, hi, g)
    o, q, s, r = params(c, which, m)
    y = times(c, which, o, x, True)
    y = exl(y)[0]
    c.observe("y", y)
    err = ab(ex(y) - x * ex(m))
    b = Fr(1, 2) + abs(x) * ex(m) * E31
    if which == "dense":
        c.check(ite(lt(m, Fr(1e-6)), eq(y, 0), le(err, b)), "product within one half plus the encoding error")
    else:
        c.check(le(err, b), "product within one half plus the encoding error")


def h_batch(c, k, n):
    """the array product is the scalar product element by element"""
    o = params(c, "float", MULTS[k])[0]
    xs = [c.int(f"x{i}", -X, X - 1) for i in range(n)]
    r = o * c.mkarr(xs, (n // 2, 2), "int64")
    c.same_shape(r, (n // 2, 2))
    for x, y in zip(xs, exl(r)):
        c.check(le(ab(ex(y) - ex(x) * Fr(MULTS[k])), Fr(1, 2) + ab(x) * Fr(MULTS[k]) * E31), "array product")


def h_float(c):
    m = c.real("m", 0, 4, -20)
    a = c.mod(FLO).FloatingIntegerApprox(m, integer_only=False)
    c.check(eq(a * 3, ex(m) * 3), "floating mode multiplies exactly")


def cases(tier):
    th = tier == "thorough"
    out = []
    rng = [(2.0 ** -31, 2.0 ** -20, -72), (2.0 ** -20, 2.0 ** -10, -62), (2.0 ** -10, 0.5, -53), (0.5, 64.0, -46), (64.0, 2.0 ** 20, -32)]
    for w in ("float", "dense"):
        for lo, hi, g in rng:
            out.append(case(f"{w} encoding {lo:g}..{hi:g}", h_encode, weight=5, which=w, lo=lo, hi=hi, g=g))
        for k in range(len(MULTS)):
            if w == "dense" and MULTS[k] < 0:
                continue
            for a in (True, False):
                out.append(case(f"{w} multiplier {MULTS[k]!r} array={a}", h_value, which=w, k=k, arr=a))
        for x in XS:
            for lo, hi, g in (rng if th else rng[1:4]):
                out.append(case(f"{w} accumulator {x} multiplier {lo:g}..{hi:g}", h_corner, weight=5, which=w, x=x, lo=lo, hi=hi, g=g))
    for sp in ((2.0, 0.25), (0.0625, 4.0), (0.5, 0.5)):
        out.append(case(f"dense split scales {sp}", h_encode, weight=5, which="dense", lo=2.0 ** -20, hi=2.0, g=-40, split=sp))
    for k in (12, 13, 20, 26):
        out.append(case(f"array product {MULTS[k]!r}", h_batch, k=k, n=4))
    out.append(case("floating mode", h_float))
    return out
