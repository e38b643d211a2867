"""Keras layers as plain containers for the harnesses."""
from .common import *
from sx import stubs

DIST = "itcl_quantizer.quantizer.distributions.distribution"
KD = "itcl_quantizer.tensor_extractor.keras.layers.keras_dense"
AL = "itcl_quantizer.tensor_extractor.abstract_layer"
TE = "itcl_quantizer.tensor_extractor.tensor"


def histogram_bins(c, n):
    """calibration histograms of n bins instead of the default number of bins"""
    f = c.mod(DIST).Distribution.__init__
    d = list(f.__defaults__ or ())
    f.__defaults__ = tuple(n if isinstance(v, int) and not isinstance(v, bool) and v > 8 else v for v in d)


def act(name, f):
    def g(x, *a, **k):
        return f(x)
    g.__name__ = g.__qualname__ = name
    return g


ACTS = {
    "linear": lambda x: x,
    "softmax": lambda x: x,
    "relu": lambda x: np.maximum(x, 0),
    "relu6": lambda x: np.minimum(np.maximum(x, 0), 6),
    # the table functions get a polynomial stand-in: tables themselves are decided elsewhere
    "tanh": lambda x: x * 0.5,
    "sigmoid": lambda x: 1.0 - x * 0.25,
}


def dense(c, name, W, B=None, activation="linear", fns=ACTS):
    base = stubs._keras_layers().Dense

    class Dense(base):
        def __init__(self):
            self.name, self.units = name, W.shape[1]
            self.weights = [W] if B is None else [W, B]
            self.use_bias = B is not None
            self.activation = act(activation, fns[activation])
            self.sets = []

        def set_weights(self, ws):
            self.weights = list(ws)

        def __call__(self, x):
            y = np.dot(x, self.weights[0])
            if len(self.weights) > 1:
                y = y + self.weights[1]
            return y if self.activation is None else self.activation(y)
    Dense.__name__ = "Dense"
    return Dense()


def reals(c, name, shp, lo, hi, g):
    return c.mkarr([c.real(f"{name}{i}", lo, hi, g) for i in range(prod(shp))], shp, np.float64)


def source(c, data, s, zp, dtype="int8"):
    """what the previous layer hands over: its float data and its output node"""
    node = c.mod(TE).NodeTensorBase(s, zp, "previous", Q(c, dtype)).with_tensor(data).exclude_batch_dimension().exclude_tensor()
    return c.mod(AL).QuantizationResult(data, None, node, None), node


def mat(a):
    """rows of exact numbers"""
    sh = shape(a)
    e = exl(a)
    return [e[i * sh[1]:(i + 1) * sh[1]] for i in range(sh[0])]


def affine(x, W, B):
    X, M = mat(x), mat(W)
    b = exl(B) if B is not None else [0] * len(M[0])
    return [[sum(r[i] * M[i][j] for i in range(len(M))) + b[j] for j in range(len(M[0]))] for r in X]


def same_value(a, b):
    """the very same symbolic value, or equal numbers"""
    return a is b or (not hasattr(a, "z") and not hasattr(b, "z") and a == b)


class Calibration:
    """The contract of Distribution.quantize (decided on its own): some positive scale and some zero point of the dtype, zero
    points as forced; every call is recorded with the range it was asked for."""

    def __init__(self, c, scales):
        self.calls = []
        D = c.mod(DIST).Distribution
        self.D, self.real = D, getattr(D, "_real_quantize", D.quantize)
        D._real_quantize = self.real
        cal = self

        def quantize(self, q=None, force_zp=None, force_s=None, symmetric=False):
            q = q or Q(c, "int8")
            k = len(cal.calls)
            s = scales[k % len(scales)] if force_s is None else force_s
            zp = force_zp if force_zp is not None else c.int(f"calibrated{k}", int(q.min_value()), int(q.max_value()))
            cal.calls.append({"q": q, "force_zp": force_zp, "symmetric": symmetric, "min": self.get_min(), "max": self.get_max(), "s": s, "zp": zp})
            return s, zp
        D.quantize = quantize

    def covers(self, c, s, zp, xs, label):
        """the parameters stem from a calibration whose range covers xs"""
        ok = [And(*[And(le(k["min"], x), ge(k["max"], x)) for x in xs]) for k in self.calls if k["s"] is s or k["s"] == s]
        c.check(Or(*ok) if ok else False, label)


def real_calibration(c):
    D = c.mod(DIST).Distribution
    if hasattr(D, "_real_quantize"):
        D.quantize = D._real_quantize
