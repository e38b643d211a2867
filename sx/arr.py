"""Symbolic numpy arrays and the numpy functions the code uses.

SArr holds an object ndarray of raw elements (Python numbers or SV) and the numpy
dtype the real array would have.  Result dtypes are obtained by calling the real
numpy function on small stand-ins of the same dtypes.  Anything purely structural
(reshape, stack, transpose ...) is done by the real numpy on the object arrays; when
every element is concrete the real numpy function runs on the native array.
"""
import builtins
import math
import operator
from fractions import Fraction
import numpy as np
import z3
from . import sym
from .sym import SV, Unsupported, elem_op, compare, ite, cast, dom_kind

F64 = np.dtype("float64")
BOOL = np.dtype(bool)
I64 = np.dtype("int64")

HANDLERS = {}


def handles(*fs):
    def deco(h):
        for f in fs:
            if f is not None:
                HANDLERS[f] = h
        return h
    return deco


def raw(x):
    """element as stored inside an SArr."""
    if isinstance(x, SV):
        return x
    if isinstance(x, np.generic):
        return x.item()
    return x


def has_sym(x, depth=0):
    if isinstance(x, SV):
        return True
    if isinstance(x, SArr):
        return x.symbolic
    if isinstance(x, (list, tuple)):
        return any(has_sym(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return any(has_sym(y, depth + 1) for y in x.values()) or any(isinstance(k, SV) for k in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(isinstance(y, (SV, SArr)) for y in x.flat)
    return False


def has_arr(x):
    if isinstance(x, SArr):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_arr(y) for y in x)
    if isinstance(x, dict):
        return any(has_arr(y) for y in x.values())
    return False


def unwrap(x):
    """SArr -> native ndarray (all concrete), recursively."""
    if isinstance(x, SArr):
        return x.native()
    if isinstance(x, list):
        return [unwrap(y) for y in x]
    if isinstance(x, tuple):
        return tuple(unwrap(y) for y in x)
    if isinstance(x, dict):
        return {k: unwrap(v) for k, v in x.items()}
    return x


def wrap(x):
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "iufb":
            return SArr(x.astype(object), x.dtype)
        if x.dtype == object:
            return SArr(x, x.dtype)
        return x
    if type(x) is tuple:
        return tuple(wrap(y) for y in x)
    if type(x) is list:
        return [wrap(y) for y in x]
    return x


def oarr(shape, items):
    v = np.empty(shape, dtype=object)
    f = v.reshape(-1) if v.ndim else v
    if v.ndim == 0:
        v[()] = items[0]
        return v
    for i, x in enumerate(items):
        f[i] = x
    return v


_F1 = {}


def fmap(fn, *vs):
    if not any_nd(vs):
        return oarr((), [fn(*vs)])
    r = np.frompyfunc(fn, len(vs), 1)(*[v if isinstance(v, np.ndarray) else oarr((), [v]) for v in vs])
    if not isinstance(r, np.ndarray):
        r = oarr((), [r])
    elif r.dtype != object:
        r = r.astype(object)
    return r


def any_nd(vs):
    for v in vs:
        if isinstance(v, np.ndarray):
            return True
    return False


def is_arr(x):
    return isinstance(x, (SArr, np.ndarray))


def is_scalar(x):
    return isinstance(x, SV) or sym.is_num(x)


# --------------------------------------------------------------------------
# stand-ins for dtype computations
# --------------------------------------------------------------------------
THRESH = (0, 128, 256, 32768, 65536, 2 ** 31, 2 ** 32, 2 ** 63)


def scalar_rep(x):
    """Representatives of a symbolic scalar for numpy's value based casting."""
    if x.k == "b":
        return np.bool_(True) if x.dt is not None else True
    if x.k == "r":
        return 1.0
    if x.k == "f":
        return x.dt.type(1) if x.dt is not None else 1.0
    return None


def split_value(x, others):
    """A concrete stand-in of an integer scalar x; forks on value classes when they matter."""
    r = scalar_rep(x)
    if r is not None:
        return r
    mk = (lambda v: x.dt.type(v)) if x.dt is not None else (lambda v: v)

    lo = int(x.lo) if x.lo is not None else None
    hi = int(x.hi) if x.hi is not None else None
    if lo is None or hi is None:
        # unbounded python int; ask for its class
        if sym.truth(compare("ge", x, 0)):
            lo = 0
        else:
            hi = -1
        if lo is None:
            lo = -2 ** 31 if sym.truth(compare("ge", x, -2 ** 31)) else -2 ** 62
        if hi is None:
            hi = 2 ** 31 - 1 if sym.truth(compare("lt", x, 2 ** 31)) else 2 ** 62
    if x.dt is not None:
        info = np.iinfo(x.dt)
        lo, hi = builtins.max(lo, int(info.min)), builtins.min(hi, int(info.max))
    try:
        cands = [v for t in THRESH for v in (t, t - 1, -t, -t - 1) if lo <= v <= hi]
        cands = sorted(set(cands + [lo, hi]))
        dts = [others(mk(v)) for v in cands]
    except Exception as e:
        raise Unsupported(f"dtype class: {e}")
    if all(d == dts[0] for d in dts):
        return mk(cands[0])
    # binary search over the classes by forking
    while True:
        i = next(i for i in range(1, len(dts)) if dts[i] != dts[0]) if any(d != dts[0] for d in dts) else None
        if i is None:
            return mk(cands[0])
        if sym.truth(compare("lt", x, cands[i])):
            return mk(cands[0])
        cands, dts = cands[i:], dts[i:]


_dtc = {}


def rep_of(x):
    if isinstance(x, SArr):
        if x.v.ndim == 0:
            e = x.v[()]
            return e.with_dt(x.dt) if isinstance(e, SV) else x.dt.type(e)
        return np.ones((1,) * x.v.ndim, x.dt)
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return x[()]
        return np.ones((1,) * x.ndim, x.dtype)
    return x


def out_dtype(f, *args):
    """dtype of f(*args) for arrays / scalars."""
    reps = [rep_of(a) for a in args]
    for i, r in enumerate(reps):
        if isinstance(r, Fraction):
            return np.dtype(object)
        if isinstance(r, SV):
            if r.k == "r":
                return "exact"
            def others(v, i=i):
                rr = [v if j == i else (q if not isinstance(q, SV) else (scalar_rep(q) if scalar_rep(q) is not None else (q.dt.type(1) if q.dt is not None else 1)))
                      for j, q in enumerate(reps)]
                with np.errstate(all="ignore"):
                    return np.asarray(f(*rr)).dtype
            reps[i] = split_value(r, others)
    key = (f, tuple((type(r), r.dtype, r.ndim) if isinstance(r, np.ndarray) else (type(r), r) for r in reps))
    try:
        if key in _dtc:
            return _dtc[key]
    except TypeError:
        key = None
    with np.errstate(all="ignore"):
        try:
            d = np.asarray(f(*reps)).dtype
        except ZeroDivisionError:
            d = F64
    if key is not None:
        _dtc[key] = d
    return d


_NPOP = {
    "add": np.add, "sub": np.subtract, "mul": np.multiply, "truediv": np.true_divide,
    "floordiv": np.floor_divide, "mod": np.remainder, "pow": np.power, "lshift": np.left_shift,
    "rshift": np.right_shift, "and": np.bitwise_and, "or": np.bitwise_or, "xor": np.bitwise_xor,
    "lt": np.less, "le": np.less_equal, "gt": np.greater, "ge": np.greater_equal,
    "eq": np.equal, "ne": np.not_equal,
}
_CMP = {"lt", "le", "gt", "ge", "eq", "ne"}


def vals(x):
    """object ndarray (or raw scalar) of the elements."""
    if isinstance(x, SArr):
        return x.v
    if isinstance(x, np.ndarray):
        return x.astype(object)
    if isinstance(x, (list, tuple)):
        return array(x).v
    return raw(x)


def conc_el(op, dom, a, b):
    t = dom.type
    if op in _CMP:
        return bool(sym._PYOPS[op](a, b))
    with np.errstate(all="ignore"):
        return _NPOP[op](t(_c(a, dom)), t(_c(b, dom))).item()


def _c(v, dom):
    if dom.kind in "iu" and isinstance(v, int):
        return sym.concrete(v, dom)
    return v


def binop(op, a, b, dt=None):
    if isinstance(a, (list, tuple)):
        a = array(a)
    if isinstance(b, (list, tuple)):
        b = array(b)
    for x in (a, b):
        if not (is_arr(x) or is_scalar(x)):
            if op == "eq":
                return False
            if op == "ne":
                return True
            return NotImplemented
    f = _NPOP[op]
    if not has_sym(a) and not has_sym(b):
        if isinstance(a, Fraction) or isinstance(b, Fraction):
            return SArr(f(vals(a), vals(b)), np.dtype(object))
        with np.errstate(all="ignore"):
            r = f(unwrap(a), unwrap(b))
        return wrap(r if dt is None else np.asarray(r).astype(dt)[()])
    if (isinstance(a, SArr) and a.dt == object) or (isinstance(b, SArr) and b.dt == object):
        va, vb = vals(a), vals(b)
        r = fmap(lambda x, y: sym._PYOPS[op](x, y), va, vb)
        return mk(r, np.dtype(object) if op not in _CMP else BOOL)
    if op in _CMP:
        r = fmap(lambda x, y: _cmp(op, x, y), vals(a), vals(b))
        return mk(r, BOOL)
    dom = out_dtype(f, a, b)
    if dt is not None:
        dom = dt
    if dom == "exact" or dom == object:
        r = fmap(lambda x, y: raw(sym.scalar_op(op, x, y)) if (isinstance(x, SV) or isinstance(y, SV)) else elem_op(op, "exact", x, y), vals(a), vals(b))
        return mk(r, np.dtype(object))
    if op == "truediv" and dom.kind != "f":
        dom = F64

    def el(x, y):
        if isinstance(x, SV) or isinstance(y, SV):
            return raw(elem_op(op, dom, x, y))
        return conc_el(op, dom, x, y)
    return mk(fmap(el, vals(a), vals(b)), dom)


def _cmp(op, x, y):
    r = compare(op, x, y)
    return r if isinstance(r, SV) else bool(r)


def mk(v, dt):
    """wrap; 0-d results become scalars like numpy's."""
    if v.ndim == 0:
        return scalar(v[()], dt)
    return SArr(v, dt)


def scalar(e, dt):
    if dt == object:
        return e
    if isinstance(e, SV):
        return e.with_dt(dt)
    with np.errstate(all="ignore"):
        return dt.type(e)


class Flat:
    """ndarray.flat"""

    def __init__(self, a):
        self.a, self.i = a, 0

    def __len__(self):
        return self.a.size

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= self.a.size:
            raise StopIteration
        self.i += 1
        return self.a.flatten()[self.i - 1]

    def __getitem__(self, ix):
        return getitem(self.a.flatten(), ix)

    def __setitem__(self, ix, val):
        f = self.a.flatten()
        setitem(f, ix, val)
        self.a.v[...] = f.v.reshape(self.a.v.shape)


class SArr:
    __slots__ = ("v", "dt")
    __array_priority__ = 1e9
    __hash__ = None

    def __init__(self, v, dt):
        self.v = v
        self.dt = np.dtype(dt)

    @staticmethod
    def of(x):
        if isinstance(x, SArr):
            return x
        if isinstance(x, np.ndarray):
            return wrap(x)
        if isinstance(x, SV):
            return SArr(oarr((), [x]), x.dt if x.dt is not None else {"i": I64, "f": F64, "b": BOOL, "r": np.dtype(object)}[x.k])
        return array(x)

    # --- info --------------------------------------------------------------
    @property
    def symbolic(self):
        if self.dt == object:
            return any(has_sym(e) for e in self.v.flat)
        for e in self.v.flat:
            if isinstance(e, SV):
                return True
        return False

    def native(self):
        if self.dt == object:
            return self.v
        return self.v.astype(self.dt)

    dtype = property(lambda s: s.dt)
    shape = property(lambda s: s.v.shape)
    ndim = property(lambda s: s.v.ndim)
    size = property(lambda s: s.v.size)
    itemsize = property(lambda s: s.dt.itemsize)
    nbytes = property(lambda s: s.dt.itemsize * s.v.size)
    T = property(lambda s: SArr(s.v.T, s.dt))
    real = property(lambda s: s)
    flat = property(lambda s: Flat(s))
    base = property(lambda s: None)

    @shape.setter
    def shape(self, sh):
        self.v = self.v.reshape(sh)

    def __len__(self):
        return len(self.v)

    def __repr__(self):
        return f"<sym array {self.v.shape} {self.dt}>"

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def __deepcopy__(self, memo):
        return SArr(self.v.copy(), self.dt)

    __copy__ = lambda self: SArr(self.v.copy(), self.dt)

    def __bool__(self):
        if self.v.size == 1:
            return sym.truth(self.v.reshape(-1)[0])
        if self.v.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def _one(self):
        if self.v.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return self.v.reshape(-1)[0]

    def __int__(self):
        return int(self._one())

    def __float__(self):
        return float(self._one())

    def __index__(self):
        if self.v.ndim != 0:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return operator.index(self._one())

    def __iter__(self):
        if self.v.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self.v)):
            yield self[i]

    def __contains__(self, x):
        return builtins.any(bool(c) for c in (binop("eq", self, x)).flatten())

    def __array__(self, *a, **k):
        raise Unsupported("symbolic array converted by code outside the encoding")

    # --- numpy protocols ----------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        return call_np(func, args, kw)

    # --- indexing -----------------------------------------------------------
    def __getitem__(self, idx):
        return getitem(self, idx)

    def __setitem__(self, idx, val):
        setitem(self, idx, val)

    # --- methods ------------------------------------------------------------
    def astype(self, dt, order=None, casting=None, subok=None, copy=True):
        return np_astype(self, dt)

    def copy(self, order=None):
        return SArr(self.v.copy(), self.dt)

    def view(self, *a):
        if not a or a[0] is np.ndarray:
            return SArr(self.v, self.dt)
        raise Unsupported("view with dtype")

    def reshape(self, *sh, order="C"):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list, SArr)):
            sh = tuple(sh[0])
        return SArr(self.v.reshape(tuple(operator.index(s) for s in sh), order=order), self.dt)

    def ravel(self, order="C"):
        return SArr(self.v.reshape(-1) if order == "C" else self.v.ravel(order), self.dt)

    def flatten(self, order="C"):
        return SArr(self.v.flatten(order), self.dt)

    def transpose(self, *ax):
        return SArr(self.v.transpose(*ax), self.dt)

    def swapaxes(self, a, b):
        return SArr(self.v.swapaxes(a, b), self.dt)

    def squeeze(self, axis=None):
        return SArr(self.v.squeeze(axis), self.dt)

    def diagonal(self, *a, **k):
        return SArr(self.v.diagonal(*a, **k).copy(), self.dt)

    def repeat(self, n, axis=None):
        return SArr(self.v.repeat(n, axis), self.dt)

    def take(self, idx, axis=None, **k):
        if axis is None:
            return getitem(self.ravel(), idx)
        return getitem(self, (slice(None),) * (axis % self.ndim) + (idx,))

    def fill(self, x):
        setitem(self, Ellipsis, x)

    def tolist(self):
        def rec(v):
            if v.ndim == 0:
                return plain(v[()], self.dt)
            return [rec(x) if isinstance(x, np.ndarray) else plain(x, self.dt) for x in (v[i] if v.ndim > 1 else v[i] for i in range(len(v)))]
        return rec(self.v)

    def item(self, *a):
        if a:
            return plain(self.v.item(*a), self.dt)
        if self.v.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return plain(self.v.reshape(-1)[0], self.dt)

    def clip(self, min=None, max=None, out=None, **k):
        return np_clip(self, min, max, out=out)

    def round(self, decimals=0, out=None):
        return np_round(self, decimals)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np_sum(self, axis=axis, dtype=dtype, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False):
        return np_prod(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return np_mean(self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return np_min(self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return np_max(self, axis=axis, keepdims=keepdims)

    def argmin(self, axis=None, out=None, **k):
        return np_argmin(self, axis=axis)

    def argmax(self, axis=None, out=None, **k):
        return np_argmax(self, axis=axis)

    def all(self, axis=None, out=None, keepdims=False):
        return np_all(self, axis=axis, keepdims=keepdims)

    def any(self, axis=None, out=None, keepdims=False):
        return np_any(self, axis=axis, keepdims=keepdims)

    def std(self, axis=None, **k):
        return np_std(self, axis=axis, ddof=k.get("ddof", 0))

    def var(self, axis=None, **k):
        return np_var(self, axis=axis, ddof=k.get("ddof", 0))

    def cumsum(self, axis=None, **k):
        return np_cumsum(self, axis=axis)

    def dot(self, b, out=None):
        return np_dot(self, b)

    def sort(self, axis=-1, **k):
        self.v[...] = np_sort(self, axis=axis).v

    def argsort(self, axis=-1, **k):
        return np_argsort(self, axis=axis)

    def searchsorted(self, v, side="left", sorter=None):
        return np_searchsorted(self, v, side)

    def nonzero(self):
        return np_nonzero(self)

    def tobytes(self, *a):
        if self.symbolic:
            raise Unsupported("tobytes of a symbolic array")
        return self.native().tobytes(*a)

    def setflags(self, *a, **k):
        pass

    def __neg__(self):
        return HANDLERS[np.negative](self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return HANDLERS[np.absolute](self)

    def __invert__(self):
        return HANDLERS[np.invert](self)

    def __matmul__(self, o):
        return np_matmul(self, o)

    def __rmatmul__(self, o):
        return np_matmul(o, self)

    def __divmod__(self, o):
        return binop("floordiv", self, o), binop("mod", self, o)


def _install():
    def b(op, nm):
        setattr(SArr, f"__{nm}__", lambda s, o: binop(op, s, o))
        if op not in _CMP:
            setattr(SArr, f"__r{nm}__", lambda s, o: binop(op, o, s))

            def inplace(s, o):
                r = binop(op, s, o)
                if r is NotImplemented:
                    return r
                rdt = r.dt if isinstance(r, SArr) else (r.dtype if hasattr(r, "dtype") else s.dt)
                if s.dt != object and not np.can_cast(rdt, s.dt, "same_kind"):
                    raise np.core._exceptions._UFuncOutputCastingError(_NPOP[op], "same_kind", rdt, s.dt, 0)
                if isinstance(r, SArr) and r.v.shape != s.v.shape:
                    raise ValueError(f"non-broadcastable output operand with shape {s.v.shape} doesn't match the broadcast shape {r.v.shape}")
                setitem(s, Ellipsis, r)
                return s
            setattr(SArr, f"__i{nm}__", inplace)
    for op in _NPOP:
        b(op, {"and": "and", "or": "or", "xor": "xor"}.get(op, op))
    SArr.__imatmul__ = lambda s, o: np_matmul(s, o)


_install()


def plain(e, dt):
    """Python scalar of an element."""
    if isinstance(e, SV):
        return e.with_dt(None)
    return e


# --------------------------------------------------------------------------
# indexing
# --------------------------------------------------------------------------
def norm_index(idx):
    """-> (index usable by numpy on object arrays or None, symbolic position info)"""
    if isinstance(idx, SArr):
        if idx.symbolic:
            return None
        if idx.dt == object:
            return idx.v
        return idx.native()
    if isinstance(idx, SV):
        return None
    if isinstance(idx, list):
        if has_sym(idx):
            return None
        return unwrap(idx)
    return idx


def conc_index(i):
    if isinstance(i, slice):
        f = lambda t: None if t is None else operator.index(t)
        return slice(f(i.start), f(i.stop), f(i.step))
    if isinstance(i, SArr):
        if i.dt == BOOL:
            return np.array([sym.truth(e) for e in i.v.flat], dtype=bool).reshape(i.v.shape)
        if i.dt == object:
            return fmap(lambda e: sym.concretize(e), i.v).astype(np.int64)
        if i.dt.kind not in "iu":
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        return fmap(lambda e: int(sym.concretize(e)), i.v).astype(np.int64) if i.symbolic else i.native()
    if isinstance(i, SV):
        if i.k == "b":
            return np.bool_(sym.truth(i))
        return operator.index(i)
    if isinstance(i, (list, tuple)) and has_arr_or_sym(i):
        return conc_index(array(i))
    return i


def has_arr_or_sym(x):
    return has_arr(x) or has_sym(x)


def safe_idx(i, n):
    """normalise a symbolic index; IndexError on the out-of-range path."""
    if i.lo is None or i.lo < -n or i.hi is None or i.hi >= n:
        if sym.truth(compare("ge", i, n)) or sym.truth(compare("lt", i, -n)):
            raise IndexError(f"index is out of bounds for axis 0 with size {n}")
        i = SV(i.z, "i", max(Fraction(-n), i.lo) if i.lo is not None else Fraction(-n),
               min(Fraction(n - 1), i.hi) if i.hi is not None else Fraction(n - 1), i.g, i.dt)
    if i.lo >= 0:
        return i
    if i.hi < 0 or sym.truth(compare("lt", i, 0)):
        j = SV(i.z + n, "i", i.lo + n, builtins.min(i.hi, Fraction(-1)) + n, 0, i.dt)
        return j
    return SV(i.z, "i", Fraction(0), i.hi, i.g, i.dt)


def select(i, items):
    """items[i]; i symbolic integer."""
    i = safe_idx(i, len(items))
    return sym.table(i, items)


def getitem(a, idx):
    if not isinstance(a, SArr):
        a = SArr.of(a)
    if isinstance(idx, SV) and idx.k == "i" and a.v.ndim >= 1 and a.dt != object:
        if a.v.ndim == 1:
            return scalar(raw(select(idx, list(a.v))), a.dt)
        i = safe_idx(idx, len(a.v))
        return SArr(fmap_cols(i, a.v), a.dt)
    if isinstance(idx, (SArr, list)) and has_sym(idx) and a.v.ndim == 1 and a.dt != object:
        ix = array(idx)
        if ix.dt.kind in "iu":
            items = list(a.v)
            return mk(fmap(lambda e: raw(select(sym.lift(e), items)) if isinstance(e, SV) else items[e], ix.v), a.dt)
    if isinstance(idx, tuple):
        if builtins.any(isinstance(i, SV) and i.k == "i" for i in idx) and a.dt != object:
            # handle symbolic scalar coordinates by moving them one at a time
            k = next(j for j, i in enumerate(idx) if isinstance(i, SV) and i.k == "i")
            if all_basic(idx) and len(idx) <= a.v.ndim and Ellipsis not in [i for i in idx if i is Ellipsis] and None not in [i for i in idx if i is None]:
                n = a.v.shape[k]
                i = safe_idx(idx[k], n)
                parts = [getitem(a, idx[:k] + (j,) + idx[k + 1:]) for j in range(n)]
                if not builtins.any(isinstance(p, SArr) for p in parts):
                    return scalar(raw(sym.table(i, [raw(p) for p in parts])), a.dt)
                st = np.stack([p.v for p in parts])
                return SArr(fmap_cols(i, st), a.dt)
        idx = tuple(conc_index(i) for i in idx)
    else:
        idx = conc_index(idx)
    r = a.v[idx]
    if isinstance(r, np.ndarray) and not (a.dt == object and r.ndim == 0):
        return SArr(r, a.dt) if not (r.ndim == 0 and idx is not Ellipsis and not (isinstance(idx, tuple) and Ellipsis in [i for i in idx if i is Ellipsis])) else scalar(r[()], a.dt)
    if a.dt == object:
        return r
    return scalar(r, a.dt)


def all_basic(idx):
    return builtins.all(isinstance(i, (int, np.integer, slice, SV)) for i in idx)


def fmap_cols(i, v):
    flat = v.reshape(len(v), -1)
    out = [sym.table(i, list(flat[:, c])) for c in range(flat.shape[1])]
    return oarr(v.shape[1:], [raw(x) for x in out])


def setitem(a, idx, val):
    if isinstance(val, (list, tuple)):
        val = array(val)
    if isinstance(idx, SV) and idx.k == "i" and a.v.ndim == 1 and is_scalar(val):
        i = safe_idx(idx, len(a.v))
        for j in range(len(a.v)):
            a.v[j] = raw(ite(compare("eq", i, j), coerce(val, a.dt), a.v[j], a.dt if a.dt != object else None))
        return
    if isinstance(idx, SArr) and idx.dt == BOOL and idx.symbolic and idx.v.shape == a.v.shape and (is_scalar(val) or val.v.ndim == 0):
        x = val if is_scalar(val) else val.v[()]
        a.v[...] = fmap(lambda m, e: raw(ite(m, coerce(x, a.dt), e, a.dt)), idx.v, a.v)
        return
    if isinstance(idx, tuple):
        idx = tuple(conc_index(i) for i in idx)
    else:
        idx = conc_index(idx)
    if is_arr(val):
        val = SArr.of(val)
        x = val.v if val.dt == a.dt else fmap(lambda e: coerce(e, a.dt), val.v)
        if val.v.ndim == 0 and not isinstance(x, np.ndarray):
            x = oarr((), [x])
        a.v[idx] = x if x.ndim else x[()]
    else:
        a.v[idx] = coerce(val, a.dt)


def coerce(x, dt):
    if dt == object:
        return x
    if isinstance(x, SV):
        return raw(cast(x, dt))
    if is_arr(x):
        x = SArr.of(x)._one()
        return coerce(x, dt)
    if dt.kind in "iu":
        if isinstance(x, (float, np.floating)):
            with np.errstate(all="ignore"):
                return np.array(x).astype(dt).item()
        if isinstance(x, (int, np.integer)):
            return sym.concrete(int(x), dt)
    if dt.kind == "f":
        return dt.type(x).item()
    return dt.type(x).item()


# --------------------------------------------------------------------------
# construction and dtype conversion
# --------------------------------------------------------------------------
def nested(x):
    """-> (shape, flat raw elements, rep nest leaves)"""
    if isinstance(x, SArr):
        return x.v.shape, list(x.v.reshape(-1)), ("arr", x.dt, x.v.ndim, x.v.size)
    if isinstance(x, np.ndarray):
        return x.shape, list(x.astype(object).reshape(-1)), ("arr", x.dtype, x.ndim, x.size)
    if isinstance(x, (list, tuple, range)) or (hasattr(x, "__len__") and hasattr(x, "__getitem__") and not isinstance(x, (str, bytes, SV, dict, np.generic))):
        subs = [nested(y) for y in x]
        if not subs:
            return (0,), [], None
        shapes = {s[0] for s in subs}
        if len(shapes) > 1:
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        flat = []
        for s in subs:
            flat += s[1]
        reps = []
        for s in subs:
            if s[2] is None:
                continue
            reps += s[2] if isinstance(s[2], list) else [s[2]]
        return (len(subs),) + subs[0][0], flat, reps
    return (), [raw(x)], [x]


def leaf_dtype(reps):
    ds = []
    for r in reps if isinstance(reps, list) else [reps]:
        if isinstance(r, tuple) and len(r) == 4 and r[0] == "arr":
            ds.append(r[1])
        elif isinstance(r, SV):
            if r.dt is not None:
                ds.append(r.dt)
            else:
                ds.append({"i": I64, "f": F64, "b": BOOL, "r": np.dtype(object)}[r.k])
        elif isinstance(r, Fraction):
            ds.append(np.dtype(object))
        else:
            ds.append(np.asarray(r).dtype)
    ds = list(dict.fromkeys(ds))
    if not ds:
        return F64
    d = ds[0]
    for e in ds[1:]:
        d = np.promote_types(d, e)
    return d


@handles(np.array)
def array(x, dtype=None, copy=True, order="K", subok=False, ndmin=0, like=None):
    if isinstance(x, SArr):
        r = np_astype(x, dtype) if dtype is not None else x.copy()
    elif not has_sym(x) and not has_arr(x):
        if isinstance(x, Fraction) or isinstance(x, (list, tuple)) and _has_frac(x):
            return SArr(np.array(x, dtype=object), np.dtype(object))
        r = np.array(x, dtype=dtype)
        if r.dtype == object and r.ndim == 0:
            r = SArr.of_iter(x) if hasattr(x, "__next__") else SArr(r, r.dtype)
        else:
            r = wrap(r)
    else:
        sh, flat, reps = nested(x)
        d = leaf_dtype(reps if reps is not None else [])
        if not flat:
            d = F64
        same = builtins.all((isinstance(q, tuple) and len(q) == 4 and q[0] == "arr" and q[1] == d) for q in (reps if isinstance(reps, list) else [reps])) if flat else True
        v = oarr(sh, flat)
        if not same and d != object:
            v = fmap(lambda e: coerce(e, d), v) if v.size else v
        r = SArr(v, d)
        if dtype is not None:
            r = np_astype(r, dtype)
    if isinstance(r, SArr) and ndmin > r.v.ndim:
        r = SArr(r.v.reshape((1,) * (ndmin - r.v.ndim) + r.v.shape), r.dt)
    return r


def _has_frac(x):
    return builtins.any(_has_frac(y) if isinstance(y, (list, tuple)) else isinstance(y, Fraction) for y in x)


def _as(x, dtype=None, *a, **k):
    if isinstance(x, SArr) and (dtype is None or np.dtype(dtype) == x.dt):
        return x
    return array(x, dtype)


for _f in ("asarray", "asanyarray", "ascontiguousarray", "asfarray", "require", "asfortranarray"):
    if hasattr(np, _f):
        HANDLERS[getattr(np, _f)] = _as
if hasattr(np, "asarray_chkfinite"):
    HANDLERS[np.asarray_chkfinite] = _as


def np_astype(a, dt):
    if isinstance(dt, str) or isinstance(dt, type) or not isinstance(dt, np.dtype):
        dt = np.dtype(dt)
    if isinstance(a, SV):
        return cast(a, dt)
    if dt == a.dt:
        return a.copy()
    if dt == object:
        return SArr(a.v.copy(), dt)
    if dt.kind not in "iufb":
        raise Unsupported(f"astype {dt}")
    if not a.symbolic:
        with np.errstate(all="ignore"):
            n = a.native()
            if a.dt == object:
                n = fmap(lambda e: float(e) if isinstance(e, Fraction) else e, a.v)
            return wrap(n.astype(dt))
    return SArr(fmap(lambda e: coerce(e, dt), a.v), dt)


# --------------------------------------------------------------------------
# elementwise functions
# --------------------------------------------------------------------------
def un(f, g, keep=None):
    """unary elementwise: f numpy function, g(elem, dom) on symbolic elements."""
    def h(x, *a, out=None, where=True, dtype=None, **k):
        if where is not True:
            raise Unsupported("where=")
        if isinstance(x, (list, tuple)):
            x = array(x)
        if not has_sym(x):
            with np.errstate(all="ignore"):
                if isinstance(x, Fraction):
                    return g(x, "exact")
                r = wrap(f(unwrap(x), *a))
        elif isinstance(x, SV) and x.k == "r" or isinstance(x, SArr) and x.dt == object:
            r = g(x, "exact") if isinstance(x, SV) else SArr(fmap(lambda e: g(e, "exact"), x.v), x.dt)
        else:
            dom = out_dtype(f, x)
            if isinstance(x, SV):
                r = scalar(raw(g(x, dom)), dom)
            else:
                # elements not symbolic: evaluate natively
                def el(e):
                    if isinstance(e, SV):
                        return raw(g(e.with_dt(x.dt), dom))
                    with np.errstate(all="ignore"):
                        return f(x.dt.type(e)).item()
                r = mk(fmap(el, x.v), dom)
        if dtype is not None:
            r = np_astype(SArr.of(r), dtype)
        return put(out, r)
    HANDLERS[f] = h
    return h


def put(out, r):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    setitem(out, Ellipsis, r)
    return out


def _fl(fn):
    def g(e, dom):
        if dom_kind(dom) == "f" and e.k != "f":
            e = sym.cast(e, dom)
        return fn(e)
    return g


np_floor = un(np.floor, _fl(sym.floor))
np_ceil = un(np.ceil, _fl(sym.ceil))
un(np.trunc, _fl(sym.trunc))
if hasattr(np, "fix"):
    un(np.fix, _fl(sym.trunc))
un(np.rint, _fl(sym.rint))
un(np.absolute, lambda e, d: sym.absolute(e))
un(np.fabs, lambda e, d: sym.absolute(sym.cast(e, d)))
un(np.negative, lambda e, d: sym.neg(e))
un(np.positive, lambda e, d: e)
un(np.square, lambda e, d: elem_op("mul", d, e, e))
un(np.sign, lambda e, d: ite(compare("gt", e, 0), 1, ite(compare("lt", e, 0), -1, 0), d))
un(np.logical_not, lambda e, d: sym.SV(z3.Not(_b(e).z), "b", Fraction(0), Fraction(1), 0, None))
un(np.invert, lambda e, d: ~e if e.k == "b" else elem_op("sub", d, sym.neg(e), 1))
un(np.isnan, lambda e, d: False)
un(np.isinf, lambda e, d: False)
un(np.isfinite, lambda e, d: True)
un(np.signbit, lambda e, d: compare("lt", e, 0))
un(np.reciprocal, lambda e, d: elem_op("truediv", d, 1, e))
un(np.deg2rad, lambda e, d: elem_op("mul", d, e, math.pi / 180))


def _b(e):
    if isinstance(e, SV):
        if e.k == "b":
            return e
        e = compare("ne", e, 0)
        if isinstance(e, SV):
            return e
    return sym.lift(bool(e))


def _mono(name):
    def g(e, dom):
        if dom == "exact":
            raise Unsupported("function of an exact value")
        y = sym.fun(name, e, F64 if dom.itemsize < 8 else dom)
        if isinstance(y, SV) and dom.itemsize < 8:
            y = sym.cast(y, dom)
        return y
    return g


for _n in ("tanh", "exp", "log", "log10", "log2", "sqrt", "expm1", "log1p", "arctan"):
    un(getattr(np, _n), _mono(_n))


@handles(np.nan_to_num)
def np_nan_to_num(x, *a, **k):
    return SArr.of(x).copy() if is_arr(x) else x


@handles(np.round, np.around, getattr(np, "round_", None))
def np_round(x, decimals=0, out=None):
    if not has_sym(x):
        return put(out, wrap(np.round(unwrap(x), decimals)))
    if decimals == 0:
        dt = x.dt
        if isinstance(x, SV):
            if x.k == "i":
                return x
            if x.dt is None:
                return HANDLERS[np.rint](x.with_dt(F64) if x.k == "f" else x)
            return HANDLERS[np.rint](x)
        if dt.kind in "iu":
            return put(out, x.copy())
        return put(out, HANDLERS[np.rint](x))
    m = 10.0 ** decimals
    return put(out, binop("truediv", HANDLERS[np.rint](binop("mul", x, m)), m))


@handles(np.clip)
def np_clip(x, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    a_min = min if a_min is None and min is not None else a_min
    a_max = max if a_max is None and max is not None else a_max
    if isinstance(x, (list, tuple)):
        x = array(x)
    if not has_sym(x) and not has_sym(a_min) and not has_sym(a_max):
        return put(out, wrap(np.clip(unwrap(x), unwrap(a_min), unwrap(a_max))))
    if a_min is None and a_max is None:
        raise ValueError("One of max or min must be given")
    if isinstance(x, SV) and x.k == "r" or isinstance(x, SArr) and x.dt == object:
        dom = "exact"
    else:
        args = [x] + [b for b in (a_min, a_max) if b is not None]
        f = np.clip if len(args) == 3 else (np.maximum if a_min is not None else np.minimum)
        dom = out_dtype(f, *args)

    def el(e, lo, hi):
        if lo is not None:
            e = sym.maximum(e, lo, dom)
        if hi is not None:
            e = sym.minimum(e, hi, dom)
        return raw(sym.cast(e, dom))
    r = fmap(el, vals(x), vals(a_min) if a_min is not None else None, vals(a_max) if a_max is not None else None)
    return put(out, mk(r, dom if dom != "exact" else np.dtype(object)))


def bi(f, op):
    def h(a, b, *rest, out=None, where=True, dtype=None, **k):
        if where is not True:
            raise Unsupported("where=")
        return put(out, binop(op, a, b, np.dtype(dtype) if dtype is not None else None))
    HANDLERS[f] = h


for _op, _f in _NPOP.items():
    bi(_f, _op)
HANDLERS[np.divmod] = lambda a, b: (binop("floordiv", a, b), binop("mod", a, b))


def bi2(f, g):
    def h(a, b, out=None, **k):
        if isinstance(a, (list, tuple)):
            a = array(a)
        if isinstance(b, (list, tuple)):
            b = array(b)
        if not has_sym(a) and not has_sym(b):
            return put(out, wrap(f(unwrap(a), unwrap(b))))
        dom = out_dtype(f, a, b)
        if dom == object:
            dom = "exact"
        return put(out, mk(fmap(lambda x, y: raw(g(x, y, dom)), vals(a), vals(b)), dom if dom != "exact" else np.dtype(object)))
    HANDLERS[f] = h
    return h


np_minimum = bi2(np.minimum, lambda a, b, d: sym.cast(sym.minimum(a, b, d), d))
np_maximum = bi2(np.maximum, lambda a, b, d: sym.cast(sym.maximum(a, b, d), d))
bi2(np.fmin, lambda a, b, d: sym.cast(sym.minimum(a, b, d), d))
bi2(np.fmax, lambda a, b, d: sym.cast(sym.maximum(a, b, d), d))
bi2(np.logical_and, lambda a, b, d: SV(z3.And(_b(a).z, _b(b).z), "b", Fraction(0), Fraction(1), 0))
bi2(np.logical_or, lambda a, b, d: SV(z3.Or(_b(a).z, _b(b).z), "b", Fraction(0), Fraction(1), 0))
bi2(np.logical_xor, lambda a, b, d: SV(z3.Xor(_b(a).z, _b(b).z), "b", Fraction(0), Fraction(1), 0))
bi2(np.float_power, lambda a, b, d: elem_op("pow", d, a, b))


def _ldexp(a, b, d):
    return elem_op("mul", d, a, 2.0 ** int(sym.concretize(b)))


bi2(np.ldexp, _ldexp)


@handles(np.where)
def np_where(c, a=None, b=None):
    if a is None and b is None:
        return np_nonzero(array(c))
    if not has_sym(c) and not has_sym(a) and not has_sym(b):
        return wrap(np.where(unwrap(c), unwrap(a), unwrap(b)))
    a = array(a) if isinstance(a, (list, tuple)) else a
    b = array(b) if isinstance(b, (list, tuple)) else b
    dom = out_dtype(lambda x, y: np.where(True, x, y), a, b)
    if dom == "exact":
        dom = np.dtype(object)
    r = fmap(lambda m, x, y: raw(ite(m, x, y, dom if dom != object else None)), vals(c if not isinstance(c, (list, tuple)) else array(c)), vals(a), vals(b))
    return SArr(r, dom)


@handles(np.heaviside)
def np_heaviside(x, h):
    return np_where(binop("gt", x, 0), 1.0, np_where(binop("eq", x, 0), h, 0.0))


# --------------------------------------------------------------------------
# reductions
# --------------------------------------------------------------------------
def reduce_axis(a, axis, keepdims, fn, dt, empty=None):
    """fn(list of raw elements) -> raw element."""
    v = a.v
    if axis is None:
        axes = tuple(range(v.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = tuple(x % v.ndim for x in axis)
    else:
        axis = operator.index(axis)
        if not -v.ndim <= axis < max(v.ndim, 1):
            raise np.AxisError(axis, v.ndim)
        axes = (axis % v.ndim,) if v.ndim else ()
    keep = [i for i in range(v.ndim) if i not in axes]
    t = v.transpose(keep + list(axes)) if v.ndim else v
    sh = tuple(v.shape[i] for i in keep)
    n = int(np.prod([v.shape[i] for i in axes], dtype=int)) if axes else 1
    flat = t.reshape((int(np.prod(sh, dtype=int)), n)) if v.size or True else t
    out = [fn(list(flat[i])) for i in range(flat.shape[0])]
    r = oarr(sh, out)
    if keepdims:
        r = r.reshape(tuple(1 if i in axes else v.shape[i] for i in range(v.ndim)))
    return mk(r, dt)


def float_sum(es, dom, mult=1):
    """sum of raw float elements with one rounding error."""
    if not any_sv(es):
        return float(np.sum(np.array([float(e) for e in es], dtype=dom)))
    sv = [e for e in es if isinstance(e, SV)]
    if len(es) <= 2:
        acc = es[0]
        for e in es[1:]:
            acc = elem_op("add", dom, acc, e) if isinstance(acc, SV) or isinstance(e, SV) else conc_el("add", dom, acc, e)
        return raw(acc)
    for e in es:
        if sym.is_special(e):
            acc = es[0]
            for x in es[1:]:
                acc = elem_op("add", dom, acc, x) if isinstance(acc, SV) or isinstance(x, SV) else conc_el("add", dom, acc, x)
            return raw(acc)
    L = [sym.lift(e) for e in es]
    L = [sym.to_prec(x, dom) for x in L]
    return exact_sum_round(L, dom, len(L))


def any_sv(es):
    for e in es:
        if isinstance(e, SV):
            return True
    return False


def exact_sum_round(L, dom, nops):
    """round(sum L) with an error bound for nops rounded operations over terms of bounded size."""
    z = z3.Sum([x.zr for x in L]) if len(L) > 1 else L[0].zr
    lo = hi = Fraction(0)
    g = 10 ** 6
    B = Fraction(0)
    for x in L:
        lo = None if lo is None or x.lo is None else lo + x.lo
        hi = None if hi is None or x.hi is None else hi + x.hi
        B = None if B is None or x.lo is None or x.hi is None else B + builtins.max(abs(x.lo), abs(x.hi))
        g = sym.gmin(g, x.g)
    if dom == "exact":
        return sym.settle(SV(z, "r", lo, hi, g), "exact")
    prec = sym.prec_of(dom)
    if B is not None and g is not None and B <= Fraction(2) ** (prec + builtins.min(g, 10 ** 4)):
        return raw(sym.settle(SV(z, "f", lo, hi, g), dom))
    if sym.cur().ex.exact:
        return SV(z, "f", lo, hi, g, dom)
    if B is None:
        acc = sym.settle(L[0], dom)
        for x in L[1:]:
            acc = elem_op("add", dom, acc, sym.settle(x, dom))
        return raw(acc)
    st = sym.cur()
    key = ("fsum", tuple(sorted(x.z.get_id() for x in L)), prec)
    if key in st.cache:
        return st.cache[key][0]
    e = st.fresh_real("e")
    st.errs.append(e)
    b = sym.tidy_up(B * sym.U[prec] * (nops + 1) + sym.TINY)
    st.define(z3.And(e <= sym.zreal(b), e >= sym.zreal(-b)))
    st.ebound[e.get_id()] = b
    nn = builtins.all(x.lo >= 0 for x in L)
    nlo, nhi = lo - b, hi + b
    if nn:
        nlo = builtins.max(nlo, Fraction(0))
        st.define(z + e >= 0)
        # monotone summation: at least every single term (up to rounding) is not needed
    r = SV(z + e, "f", nlo, nhi, None, dom)
    st.cache[key] = (r, L)
    return r


def int_sum(es, dom):
    if not any_sv(es):
        return sym.concrete(builtins.sum(int(e) for e in es), dom).item() if not isinstance(dom, str) else builtins.sum(es)
    L = [sym.lift(e) for e in es]
    z = z3.Sum([x.zi for x in L]) if len(L) > 1 else L[0].zi
    lo = hi = Fraction(0)
    g = 10 ** 6
    for x in L:
        lo = None if lo is None or x.lo is None else lo + x.lo
        hi = None if hi is None or x.hi is None else hi + x.hi
        g = sym.gmin(g, x.g)
    return raw(sym.wrap_int(SV(z, "i", lo, hi, g), dom))


@handles(np.sum, np.add.reduce)
def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True, **k):
    if hasattr(a, "__next__"):
        a = list(a)
    a = SArr.of(a)
    if not a.symbolic and a.dt != object:
        return put(out, wrap(np.sum(a.native(), axis=axis, dtype=dtype, keepdims=keepdims)))
    if a.dt == object:
        def ob(es):
            acc = 0
            for e in es:
                acc = acc + e
            return acc
        return reduce_axis(a, axis, keepdims, ob, object)
    dom = np.dtype(dtype) if dtype is not None else np.sum(np.ones(1, a.dt)).dtype
    if dom.kind == "f":
        fn = lambda es: float_sum([coerce(e, dom) for e in es], dom) if es else 0.0
    else:
        fn = lambda es: int_sum([coerce(e, dom) for e in es], dom) if es else 0
    return put(out, reduce_axis(a, axis, keepdims, fn, dom))


HANDLERS[np.nansum] = np_sum


@handles(np.prod)
def np_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = SArr.of(a)
    if not a.symbolic:
        return wrap(np.prod(a.native(), axis=axis, dtype=dtype, keepdims=keepdims))
    dom = np.dtype(dtype) if dtype is not None else np.prod(np.ones(1, a.dt)).dtype

    def fn(es):
        acc = coerce(es[0], dom)
        for e in es[1:]:
            acc = raw(elem_op("mul", dom, acc, e)) if any_sv([acc, e]) else conc_el("mul", dom, acc, e)
        return acc
    return reduce_axis(a, axis, keepdims, fn, dom)


@handles(np.mean, np.average, np.nanmean)
def np_mean(a, axis=None, dtype=None, out=None, keepdims=False, weights=None, **k):
    if weights is not None:
        raise Unsupported("weighted average")
    a = SArr.of(a)
    if not a.symbolic and a.dt != object:
        return wrap(np.mean(a.native(), axis=axis, dtype=dtype, keepdims=keepdims))
    s = np_sum(a, axis=axis, dtype=F64 if a.dt.kind in "iub" else None, keepdims=keepdims)
    n = a.size // builtins.max(1, (SArr.of(s).size if is_arr(s) else 1))
    if a.dt == object:
        return binop("truediv", s, Fraction(n)) if is_arr(s) else s / Fraction(n)
    return binop("truediv", s, n, None if a.dt.kind != "f" else a.dt) if is_arr(s) else sym.scalar_op("truediv", s, a.dt.type(n) if a.dt.kind == "f" else np.float64(n)) if isinstance(s, SV) else s / n


@handles(np.var)
def np_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = SArr.of(a)
    if not a.symbolic:
        return wrap(np.var(a.native(), axis=axis, ddof=ddof, keepdims=keepdims))
    m = np_mean(a, axis=axis, keepdims=True) if axis is not None else np_mean(a)
    d = binop("sub", a, m)
    s = np_sum(binop("mul", d, d), axis=axis, keepdims=keepdims)
    n = a.size // builtins.max(1, (SArr.of(s).size if is_arr(s) else 1)) - ddof
    return binop("truediv", s, n) if is_arr(s) else s / n


@handles(np.std)
def np_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = SArr.of(a)
    if not a.symbolic:
        return wrap(np.std(a.native(), axis=axis, ddof=ddof, keepdims=keepdims))
    return HANDLERS[np.sqrt](np_var(a, axis=axis, ddof=ddof, keepdims=keepdims))


def _mm(f, pick):
    def h(a, axis=None, out=None, keepdims=False, initial=None, **k):
        a = SArr.of(a)
        if not a.symbolic and a.dt != object:
            kw = {} if initial is None or not sym.is_num(initial) else {"initial": initial}
            return wrap(f(a.native(), axis=axis, keepdims=keepdims, **kw))
        if a.size == 0:
            raise ValueError("zero-size array to reduction operation which has no identity")
        d = a.dt if a.dt != object else "exact"

        def fn(es):
            acc = es[0]
            if sym.cur().ex.fork_max and initial is None:
                # one path per position of the extremum
                for e in es[1:]:
                    c = sym.compare("ge" if pick is sym.maximum else "le", acc, e)
                    acc = acc if (sym.truth(c) if isinstance(c, sym.SV) else c) else e
                return acc
            for e in es[1:]:
                acc = raw(pick(acc, e, d))
            if initial is not None:
                acc = raw(pick(acc, initial, d))
            return acc
        return put(out, reduce_axis(a, axis, keepdims, fn, a.dt))
    return h


np_min = _mm(np.min, sym.minimum)
np_max = _mm(np.max, sym.maximum)
for _f in ("min", "amin", "nanmin"):
    HANDLERS[getattr(np, _f)] = np_min
for _f in ("max", "amax", "nanmax"):
    HANDLERS[getattr(np, _f)] = np_max
HANDLERS[np.minimum.reduce] = np_min
HANDLERS[np.maximum.reduce] = np_max


@handles(np.ptp)
def np_ptp(a, axis=None, **k):
    return np_max(a, axis=axis) - np_min(a, axis=axis)


def _argm(f, op):
    def h(a, axis=None, out=None, **k):
        a = SArr.of(a)
        if not a.symbolic:
            return wrap(f(a.native(), axis=axis))

        def fn(es):
            best, bi_ = es[0], 0
            for i, e in enumerate(es[1:], 1):
                c = compare(op, e, best)
                bi_ = raw(ite(c, i, bi_, I64))
                best = raw(ite(c, e, best, a.dt if a.dt != object else None))
            return bi_
        return reduce_axis(a, axis, False, fn, I64)
    return h


np_argmin = _argm(np.argmin, "lt")
np_argmax = _argm(np.argmax, "gt")
HANDLERS[np.argmin] = np_argmin
HANDLERS[np.argmax] = np_argmax


def _quant(f, zf):
    def h(a, axis=None, out=None, keepdims=False, **k):
        if hasattr(a, "__next__"):
            a = list(a)
        a = SArr.of(a)
        if not a.symbolic:
            return wrap(f(a.native(), axis=axis, keepdims=keepdims))
        return reduce_axis(a, axis, keepdims, lambda es: SV(zf([_b(e).z for e in es]), "b", Fraction(0), Fraction(1), 0), BOOL)
    return h


np_all = _quant(np.all, lambda zs: z3.And(*zs))
np_any = _quant(np.any, lambda zs: z3.Or(*zs))
HANDLERS[np.all] = np_all
HANDLERS[np.any] = np_any
HANDLERS[np.logical_and.reduce] = np_all
HANDLERS[np.logical_or.reduce] = np_any


@handles(np.count_nonzero)
def np_count_nonzero(a, axis=None, **k):
    return np_sum(np_astype(binop("ne", SArr.of(a), 0), I64), axis=axis)


@handles(np.cumsum, np.add.accumulate)
def np_cumsum(a, axis=None, dtype=None, out=None):
    a = SArr.of(a)
    if not a.symbolic:
        return wrap(np.cumsum(a.native(), axis=axis, dtype=dtype))
    if axis is None:
        a, axis = a.ravel(), 0
    dom = np.cumsum(np.ones(1, a.dt)).dtype
    v = np.moveaxis(a.v, axis, 0)
    out = []
    acc = None
    for row in v:
        row = SArr.of(SArr(row, a.dt)) if isinstance(row, np.ndarray) else scalar(row, a.dt)
        acc = row if acc is None else binop("add", acc, row, dom) if is_arr(row) else acc + row
        out.append(acc)
    r = array(out)
    return SArr(np.moveaxis(r.v, 0, axis), dom)


@handles(np.diff)
def np_diff(a, n=1, axis=-1, **k):
    a = SArr.of(a)
    if not a.symbolic:
        return wrap(np.diff(a.native(), n=n, axis=axis))
    for _ in range(n):
        v = np.moveaxis(a.v, axis, -1)
        r = binop("sub", SArr(v[..., 1:], a.dt), SArr(v[..., :-1], a.dt))
        a = SArr(np.moveaxis(r.v, -1, axis), r.dt)
    return a


# --------------------------------------------------------------------------
# products
# --------------------------------------------------------------------------
def dot1(xs, ys, dom):
    """inner product of raw element lists in dom."""
    if not xs:
        return 0.0 if dom != "exact" and dom.kind == "f" else 0
    if not any_sv(xs) and not any_sv(ys):
        if dom == "exact":
            return builtins.sum(sym.frac(x) * sym.frac(y) for x, y in zip(xs, ys))
        if dom.kind == "f":
            return float(np.dot(np.array(xs, dtype=dom), np.array(ys, dtype=dom)))
        return sym.concrete(builtins.sum(int(x) * int(y) for x, y in zip(xs, ys)), dom).item()
    if dom == "exact" or dom.kind == "f":
        terms = []
        for x, y in zip(xs, ys):
            if dom != "exact":
                x, y = coerce(x, dom), coerce(y, dom)
            t = elem_op("mul", "exact", x, y)
            terms.append(sym.lift(t))
        terms = [t for t in terms if not (t.lo is not None and t.lo == t.hi == 0)]
        if not terms:
            return 0.0 if dom != "exact" else Fraction(0)
        for t in terms:
            if t.g is None or True:
                pass
        return exact_sum_round(terms, dom, len(terms) + 1)
    terms = [raw(elem_op("mul", "pyint", _pi(x), _pi(y))) for x, y in zip(xs, ys)]
    return int_sum(terms, dom)


def _pi(x):
    return x if isinstance(x, SV) else int(x)


@handles(np.matmul)
def np_matmul(a, b, out=None, **k):
    a, b = SArr.of(a), SArr.of(b)
    if not a.symbolic and not b.symbolic and a.dt != object and b.dt != object:
        return wrap(np.matmul(a.native(), b.native()))
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    dom = "exact" if object in (a.dt, b.dt) else np.matmul(np.ones((1, 1), a.dt), np.ones((1, 1), b.dt)).dtype
    A = a.v[None, :] if a.ndim == 1 else a.v
    B = b.v[:, None] if b.ndim == 1 else b.v
    if A.shape[-1] != B.shape[-2]:
        raise ValueError(f"matmul: Input operand 1 has a mismatch in its core dimension 0 (size {B.shape[-2]} is different from {A.shape[-1]})")
    bs = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = np.broadcast_to(A, bs + A.shape[-2:])
    B = np.broadcast_to(B, bs + B.shape[-2:])
    R = np.empty(bs + (A.shape[-2], B.shape[-1]), dtype=object)
    for ix in np.ndindex(bs):
        for i in range(A.shape[-2]):
            for j in range(B.shape[-1]):
                R[ix + (i, j)] = dot1(list(A[ix][i]), list(B[ix][:, j]), dom)
    if a.ndim == 1:
        R = R[..., 0, :]
    if b.ndim == 1:
        R = R[..., 0]
    if not isinstance(R, np.ndarray):
        R = oarr((), [R])
    return put(out, mk(R, dom if dom != "exact" else np.dtype(object)))


@handles(np.dot)
def np_dot(a, b, out=None):
    a, b = SArr.of(a), SArr.of(b)
    if not a.symbolic and not b.symbolic and a.dt != object and b.dt != object:
        return wrap(np.dot(a.native(), b.native()))
    if a.ndim == 0 or b.ndim == 0:
        return binop("mul", a, b)
    if a.ndim <= 2 and b.ndim <= 2 or b.ndim == 1:
        return np_matmul(a, b)
    return np_tensordot(a, b, axes=([a.ndim - 1], [b.ndim - 2]))


@handles(np.vdot, np.inner)
def np_inner(a, b):
    a, b = SArr.of(a), SArr.of(b)
    if a.ndim == 1 and b.ndim == 1:
        return np_matmul(a, b)
    if a.ndim == 0 or b.ndim == 0:
        return binop("mul", a, b)
    return np_tensordot(a, b, axes=([a.ndim - 1], [b.ndim - 1]))


@handles(np.outer)
def np_outer(a, b, out=None):
    a, b = SArr.of(a), SArr.of(b)
    return binop("mul", a.reshape(-1, 1), b.reshape(1, -1))


HANDLERS[np.multiply.outer] = lambda a, b: binop("mul", SArr.of(a).reshape(SArr.of(a).shape + (1,) * SArr.of(b).ndim), b)


@handles(np.tensordot)
def np_tensordot(a, b, axes=2):
    a, b = SArr.of(a), SArr.of(b)
    if isinstance(axes, int):
        ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax, bx = axes
        ax = [ax] if isinstance(ax, int) else list(ax)
        bx = [bx] if isinstance(bx, int) else list(bx)
    ax, bx = [x % a.ndim for x in ax], [x % b.ndim for x in bx]
    fa = [i for i in range(a.ndim) if i not in ax]
    fb = [i for i in range(b.ndim) if i not in bx]
    A = a.v.transpose(fa + ax).reshape(int(np.prod([a.shape[i] for i in fa], dtype=int)), -1)
    B = b.v.transpose(bx + fb).reshape(-1, int(np.prod([b.shape[i] for i in fb], dtype=int)))
    r = np_matmul(SArr(A, a.dt), SArr(B, b.dt))
    return r.reshape(tuple(a.shape[i] for i in fa) + tuple(b.shape[i] for i in fb)) if (fa or fb) else getitem(r, (0, 0))


@handles(np.einsum)
def np_einsum(spec, *ops, **k):
    if not isinstance(spec, str):
        raise Unsupported("einsum operands form")
    ops = [SArr.of(o) for o in ops]
    if not builtins.any(o.symbolic for o in ops):
        return wrap(np.einsum(spec, *[o.native() for o in ops]))
    spec = spec.replace(" ", "")
    if "." in spec:
        raise Unsupported("einsum ellipsis")
    ins, _, outs = spec.partition("->")
    ins = ins.split(",")
    if "->" not in spec:
        al = "".join(ins)
        outs = "".join(sorted(c for c in set(al) if al.count(c) == 1))
    dim = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            dim[c] = builtins.max(dim.get(c, 1), n)
    red = [c for c in dim if c not in outs]
    dom = np.result_type(*[o.dt for o in ops]) if builtins.all(o.dt != object for o in ops) else "exact"
    R = np.empty(tuple(dim[c] for c in outs), dtype=object)
    for oi in np.ndindex(*R.shape):
        env = dict(zip(outs, oi))
        cols = [[] for _ in ops]
        for ri in np.ndindex(*[dim[c] for c in red]):
            env.update(zip(red, ri))
            for q, (s, o) in enumerate(zip(ins, ops)):
                cols[q].append(o.v[tuple(env[c] if o.v.shape[p] > 1 else 0 for p, c in enumerate(s))])
        if len(ops) == 1:
            R[oi] = raw(float_sum(cols[0], dom) if dom != "exact" and dom.kind == "f" else int_sum(cols[0], dom))
        else:
            left = cols[0]
            for c in cols[1:-1]:
                left = [raw(elem_op("mul", dom, x, y)) if any_sv([x, y]) else conc_el("mul", dom, x, y) for x, y in zip(left, c)]
            R[oi] = dot1(left, cols[-1], dom)
    return mk(R, dom if dom != "exact" else np.dtype(object))


@handles(np.linalg.norm)
def np_norm(x, ord=None, axis=None, keepdims=False):
    x = SArr.of(x)
    if not x.symbolic:
        return wrap(np.linalg.norm(x.native(), ord=ord, axis=axis, keepdims=keepdims))
    if ord in (None, 2, "fro") and (ord != 2 or x.ndim == 1 or axis is not None):
        return HANDLERS[np.sqrt](np_sum(binop("mul", x, x) if x.dt.kind == "f" else binop("mul", np_astype(x, F64), np_astype(x, F64)), axis=axis, keepdims=keepdims))
    if ord == 1 and (x.ndim == 1 or axis is not None):
        return np_sum(HANDLERS[np.absolute](x), axis=axis, keepdims=keepdims)
    if ord == np.inf and (x.ndim == 1 or axis is not None):
        return np_max(HANDLERS[np.absolute](x), axis=axis, keepdims=keepdims)
    raise Unsupported("norm")


@handles(np.trace)
def np_trace(a, **k):
    return np_sum(SArr.of(a).diagonal())


@handles(np.kron)
def np_kron(a, b):
    raise Unsupported("kron")


# --------------------------------------------------------------------------
# structural functions: run by numpy on the object arrays
# --------------------------------------------------------------------------
def tov(x):
    if isinstance(x, SArr):
        return x.v
    if isinstance(x, np.ndarray):
        return x.astype(object)
    return x


def dts(x, acc):
    if isinstance(x, SArr):
        acc.append(x.dt)
    elif isinstance(x, np.ndarray):
        acc.append(x.dtype)
    elif isinstance(x, SV):
        acc.append(SArr.of(x).dt)
    elif sym.is_num(x) and not isinstance(x, Fraction):
        acc.append(np.asarray(x).dtype)
    elif isinstance(x, (list, tuple)):
        for y in x:
            dts(y, acc)
    return acc


def structural(f, multi=False):
    def h(a, *args, **kw):
        if kw.get("out") is None:
            kw.pop("out", None)
        if hasattr(a, "__next__"):
            a = list(a)
        if not has_arr_or_sym(a):
            return wrap(f(a, *unwrap(list(args)), **unwrap(kw)))
        if multi:
            seq = [SArr.of(x) for x in a] if not isinstance(a, SArr) else [SArr(x, a.dt) if isinstance(x, np.ndarray) else SArr.of(scalar(x, a.dt)) for x in a.v]
            d = np.result_type(*[x.dt for x in seq])
            vs = [x.v if x.dt == d or d == object else np_astype(x, d).v for x in seq]
            r = f(vs, *args, **kw)
        else:
            a = SArr.of(a)
            d = a.dt
            r = f(a.v, *[conc_index(x) if isinstance(x, (SArr, SV)) else x for x in args], **{k: conc_index(x) if isinstance(x, (SArr, SV)) else x for k, x in kw.items()})
        return rewrap(r, d)
    HANDLERS[f] = h
    return h


def rewrap(r, d):
    if isinstance(r, np.ndarray):
        return SArr(r, d)
    if isinstance(r, (list, tuple)):
        return type(r)(rewrap(x, d) for x in r) if type(r) in (list, tuple) else [rewrap(x, d) for x in r]
    return scalar(r, d) if d != object else r


for _n in ("reshape", "ravel", "transpose", "swapaxes", "moveaxis", "rollaxis", "squeeze", "expand_dims",
           "split", "array_split", "hsplit", "vsplit", "repeat", "tile", "flip", "fliplr", "flipud", "roll",
           "rot90", "broadcast_to", "diagonal", "atleast_1d", "atleast_2d", "atleast_3d", "delete",
           "resize", "tril", "triu", "copy", "diag", "diagflat"):
    structural(getattr(np, _n))
for _n in ("concatenate", "stack", "vstack", "hstack", "dstack", "column_stack", "row_stack", "block"):
    if hasattr(np, _n):
        structural(getattr(np, _n), multi=True)


@handles(np.append)
def np_append(a, b, axis=None):
    a, b = SArr.of(a), SArr.of(b)
    if axis is None:
        a, b = a.ravel(), b.ravel()
        axis = 0
    return HANDLERS[np.concatenate]([a, b], axis=axis)


@handles(np.pad)
def np_pad(a, pad_width, mode="constant", **kw):
    a = SArr.of(a)
    if mode == "constant":
        kw.setdefault("constant_values", 0)
    r = np.pad(a.v, pad_width, mode=mode, **kw)
    return SArr(r, a.dt)


@handles(np.insert)
def np_insert(a, i, v, axis=None):
    a = SArr.of(a)
    return SArr(np.insert(a.v, conc_index(i), tov(v), axis), a.dt)


@handles(np.take)
def np_take(a, idx, axis=None, **k):
    return SArr.of(a).take(idx, axis)


@handles(np.take_along_axis)
def np_taa(a, idx, axis):
    a, idx = SArr.of(a), SArr.of(idx)
    if axis is None:
        a, axis = a.ravel(), 0
    if not idx.symbolic:
        return SArr(np.take_along_axis(a.v, idx.native(), axis), a.dt)
    A, I = np.moveaxis(a.v, axis, -1), np.moveaxis(idx.v, axis, -1)
    R = np.empty(I.shape, dtype=object)
    for ix in np.ndindex(I.shape):
        e = I[ix]
        R[ix] = raw(select(e, list(A[ix[:-1]]))) if isinstance(e, SV) else A[ix[:-1]][e]
    return SArr(np.moveaxis(R, -1, axis), a.dt)


def _filled(fill):
    def h(shape, dtype=float, order="C", **k):
        dt = np.dtype(dtype if dtype is not None else float)
        return full(shape, fill, dt)
    return h


def _shape(s):
    if isinstance(s, SArr):
        return tuple(int(x) for x in s)
    if isinstance(s, (tuple, list)):
        return tuple(operator.index(x) for x in s)
    return (operator.index(s),)


@handles(np.full)
def full(shape, fill, dtype=None, order="C", **k):
    if dtype is None:
        dtype = SArr.of(fill).dt if not isinstance(fill, SArr) else fill.dt
    dt = np.dtype(dtype)
    v = np.empty(_shape(shape), dtype=object)
    if is_arr(fill) or isinstance(fill, (list, tuple)):
        v[...] = np_astype(SArr.of(fill), dt).v
    else:
        e = coerce(fill, dt)
        for i in np.ndindex(v.shape):
            v[i] = e
    return SArr(v, dt)


HANDLERS[np.zeros] = _filled(0)
HANDLERS[np.empty] = _filled(0)
HANDLERS[np.ones] = _filled(1)


def _like(fill):
    def h(a, dtype=None, order="K", subok=True, shape=None, **k):
        a = SArr.of(a)
        return full(a.shape if shape is None else shape, fill, np.dtype(dtype) if dtype is not None else a.dt)
    return h


HANDLERS[np.zeros_like] = _like(0)
HANDLERS[np.empty_like] = _like(0)
HANDLERS[np.ones_like] = _like(1)


@handles(np.full_like)
def full_like(a, fill, dtype=None, **k):
    a = SArr.of(a)
    return full(a.shape, fill, np.dtype(dtype) if dtype is not None else a.dt)


@handles(np.arange)
def np_arange(*a, **k):
    k.pop("like", None)
    args = [operator.index(x) if isinstance(x, SV) and x.k == "i" else x for x in a]
    if has_sym(args):
        raise Unsupported("arange of a symbolic real")
    return wrap(np.arange(*unwrap(args), **k))


@handles(np.linspace)
def np_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = operator.index(num)
    if not has_sym(start) and not has_sym(stop):
        return wrap(np.linspace(unwrap(start), unwrap(stop), num, endpoint, retstep, dtype))
    div = num - 1 if endpoint else num
    step = (sym.cast(sym.lift(stop), F64) - start) / div if div > 0 else None
    out = []
    for i in range(num):
        if endpoint and i == num - 1 and num > 1:
            out.append(cast(stop, F64))
        elif i == 0:
            out.append(cast(start, F64))
        else:
            out.append(cast(step * np.float64(i) + start, F64))
    r = array(out, dtype=F64)
    if dtype is not None:
        r = np_astype(r, dtype)
    return (r, step) if retstep else r


@handles(np.fill_diagonal)
def np_fill_diagonal(a, val, wrap=False):
    n = builtins.min(a.shape)
    if is_arr(val) or isinstance(val, (list, tuple)):
        val = SArr.of(val).ravel()
    for i in range(n):
        setitem(a, (i,) * a.ndim, val[i % len(val)] if isinstance(val, SArr) else val)


@handles(np.copyto)
def np_copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        setitem(dst, Ellipsis, src)
    else:
        setitem(dst, Ellipsis, np_where(where, src, dst))


@handles(np.apply_along_axis)
def np_apply_along_axis(f, axis, a, *args, **kw):
    a = SArr.of(a)
    v = np.moveaxis(a.v, axis, -1)
    outs = []
    for ix in np.ndindex(v.shape[:-1]):
        outs.append(f(SArr(v[ix], a.dt), *args, **kw))
    r = array(outs)
    r = r.reshape(v.shape[:-1] + r.shape[1:])
    if r.ndim == a.ndim:
        return SArr(np.moveaxis(r.v, -1, axis), r.dt)
    return r


# --------------------------------------------------------------------------
# sorting, searching, counting
# --------------------------------------------------------------------------
def sort_list(es, dt):
    es = list(es)
    if not any_sv(es):
        return sorted(es)
    d = dt if dt != object else None
    n = len(es)
    if sym.cur().ex.fork_max:
        # one path per order
        for i in range(1, n):
            for j in range(i, 0, -1):
                if sym.truth(compare("le", es[j - 1], es[j])):
                    break
                es[j - 1], es[j] = es[j], es[j - 1]
        return es
    # odd-even transposition for tiny lists, insertion of symbolic elements otherwise
    for i in range(1, n):
        for j in range(i, 0, -1):
            a, b = es[j - 1], es[j]
            if not isinstance(a, SV) and not isinstance(b, SV):
                if a <= b:
                    continue
                es[j - 1], es[j] = b, a
            else:
                es[j - 1], es[j] = raw(sym.minimum(a, b, d)), raw(sym.maximum(a, b, d))
    return es


@handles(np.sort)
def np_sort(a, axis=-1, kind=None, order=None, **k):
    a = SArr.of(a)
    if not a.symbolic:
        return wrap(np.sort(a.native(), axis=axis))
    if axis is None:
        a, axis = a.ravel(), 0
    v = np.moveaxis(a.v, axis, -1).copy()
    for ix in np.ndindex(v.shape[:-1]):
        s = sort_list(v[ix], a.dt)
        for j, e in enumerate(s):
            v[ix + (j,)] = e
    return SArr(np.moveaxis(v, -1, axis), a.dt)


@handles(np.argsort)
def np_argsort(a, axis=-1, kind=None, order=None, **k):
    a = SArr.of(a)
    if not a.symbolic:
        return wrap(np.argsort(a.native(), axis=axis, kind="stable"))
    if a.ndim != 1:
        raise Unsupported("argsort")
    es = list(a.v)
    idx = sorted(range(len(es)), key=_Key(es))
    return wrap(np.array(idx, dtype=np.int64))


class _Key:
    def __init__(self, es):
        self.es = es

    def __call__(self, i):
        return _K(self.es[i])


class _K:
    def __init__(self, e):
        self.e = e

    def __lt__(self, o):
        return sym.truth(compare("lt", self.e, o.e))


@handles(np.searchsorted)
def np_searchsorted(a, v, side="left", sorter=None):
    a = SArr.of(a)
    if not a.symbolic and not has_sym(v):
        return wrap(np.searchsorted(a.native(), unwrap(v), side=side))
    op = "lt" if side == "left" else "le"

    def el(x):
        return int_sum([_b(compare(op, e, x)) if isinstance(compare(op, e, x), SV) else int(bool(compare(op, e, x))) for e in a.v], I64)
    if is_scalar(v):
        return scalar(el(raw(v)), I64)
    return mk(fmap(el, SArr.of(v).v), I64)


@handles(np.digitize)
def np_digitize(x, bins, right=False):
    return np_searchsorted(bins, x, side="left" if right else "right")


@handles(np.nonzero, np.flatnonzero)
def np_nonzero(a):
    a = SArr.of(a)
    m = conc_index(SArr(fmap(lambda e: _b(e) if isinstance(e, SV) else bool(e), a.v), BOOL)) if a.symbolic else a.native()
    return wrap(np.nonzero(m))


HANDLERS[np.flatnonzero] = lambda a: np_nonzero(SArr.of(a).ravel())[0]
HANDLERS[np.argwhere] = lambda a: wrap(np.argwhere(conc_index(SArr(fmap(lambda e: _b(e), SArr.of(a).v), BOOL))))


@handles(np.unique)
def np_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = SArr.of(a)
    if not a.symbolic:
        return wrap(np.unique(a.native(), return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, axis=axis))
    if axis is not None:
        return _unique_rows(a, return_index, return_inverse, return_counts, axis)
    es = sort_list(a.v.reshape(-1), a.dt)
    out, cnt = [], []
    for e in es:
        if out and sym.truth(compare("eq", out[-1], e)):
            cnt[-1] += 1
        else:
            out.append(e)
            cnt.append(1)
    r = SArr(oarr((len(out),), out), a.dt)
    flat = list(a.v.reshape(-1))

    def same(x, y):
        return x is y or bool(sym.truth(compare("eq", x, y)))
    res = [r]
    if return_index:
        res.append(wrap(np.array([next(i for i, e in enumerate(flat) if same(e, o)) for o in out], dtype=np.int64)))
    if return_inverse:
        res.append(wrap(np.array([next(i for i, o in enumerate(out) if same(e, o)) for e in flat], dtype=np.int64)))
    if return_counts:
        res.append(wrap(np.array(cnt, dtype=np.int64)))
    return res[0] if len(res) == 1 else tuple(res)


def _unique_rows(a, return_index, return_inverse, return_counts, axis):
    import functools
    v = np.moveaxis(a.v, axis, 0)
    rows = [list(v[i].reshape(-1)) for i in builtins.range(v.shape[0])]

    def cmp(i, j):
        for x, y in zip(rows[i], rows[j]):
            if x is y:
                continue
            if sym.truth(compare("lt", x, y)):
                return -1
            if not sym.truth(compare("eq", x, y)):
                return 1
        return 0
    order = sorted(builtins.range(len(rows)), key=functools.cmp_to_key(cmp))
    first, cnt, inv = [], [], [0] * len(rows)
    for i in order:
        if first and cmp(first[-1], i) == 0:
            cnt[-1] += 1
        else:
            first.append(i)
            cnt.append(1)
        inv[i] = len(first) - 1
    keep = np.empty((len(first),) + v.shape[1:], dtype=object)
    for k, i in enumerate(first):
        keep[k] = v[i]
    res = [SArr(np.moveaxis(keep, 0, axis), a.dt)]
    if return_index:
        res.append(wrap(np.array(first, dtype=np.int64)))
    if return_inverse:
        res.append(wrap(np.array(inv, dtype=np.int64)))
    if return_counts:
        res.append(wrap(np.array(cnt, dtype=np.int64)))
    return res[0] if len(res) == 1 else tuple(res)


@handles(np.histogram)
def np_histogram(a, bins=10, range=None, density=None, weights=None):
    a = SArr.of(a)
    if weights is not None or density:
        raise Unsupported("histogram options")
    if not a.symbolic and not has_sym(bins) and not has_sym(range):
        return wrap(np.histogram(a.native(), bins=unwrap(bins), range=range))
    if isinstance(bins, str):
        raise Unsupported("histogram bins")
    if is_arr(bins) or isinstance(bins, (list, tuple)):
        edges = SArr.of(bins)
    else:
        n = operator.index(bins)
        if range is None:
            if a.size == 0:
                lo, hi = 0.0, 1.0
            else:
                lo, hi = np_min(a), np_max(a)
        else:
            lo, hi = range
        if sym.truth(compare("eq", lo, hi)):
            lo, hi = sym.cast(lo, F64) - 0.5, sym.cast(hi, F64) + 0.5
        edges = np_linspace(lo, hi, n + 1)
    ev = list(edges.v)
    counts = []
    xs = list(a.v.reshape(-1))
    for j in builtins.range(len(ev) - 1):
        last = j == len(ev) - 2
        tot = []
        for x in xs:
            c = sym.scalar_op("and", _b(compare("ge", x, ev[j])), _b(compare("le" if last else "lt", x, ev[j + 1])))
            tot.append(c if isinstance(c, SV) else int(c))
        counts.append(int_sum(tot, I64) if tot else 0)
    return SArr(oarr((len(counts),), counts), I64), edges


@handles(np.percentile, np.quantile, np.nanpercentile)
def np_percentile(a, q, axis=None, **k):
    a = SArr.of(a)
    if not a.symbolic:
        return wrap(np.percentile(a.native(), unwrap(q), axis=axis))
    return _perc(a, q, axis, 100)


HANDLERS[np.quantile] = lambda a, q, axis=None, **k: wrap(np.quantile(SArr.of(a).native(), unwrap(q), axis=axis)) if not has_sym(SArr.of(a)) else _perc(SArr.of(a), q, axis, 1)


def _perc(a, q, axis, full_):
    if axis is not None or not is_scalar(q):
        if axis is None and (is_arr(q) or isinstance(q, (list, tuple))):
            return array([_perc(a, x, axis, full_) for x in SArr.of(q)])
        raise Unsupported("percentile axis")
    es = sort_list(a.v.reshape(-1), a.dt)
    q = float(q) / full_
    if not 0 <= q <= 1:
        raise ValueError("Percentiles must be in the range [0, 100]")
    pos = q * (len(es) - 1)
    i = int(math.floor(pos))
    t = pos - i
    if t == 0 or i + 1 >= len(es):
        return scalar(raw(cast(es[i], F64)), F64)
    x, y = cast(es[i], F64), cast(es[i + 1], F64)
    return scalar(raw(elem_op("add", F64, x, elem_op("mul", F64, elem_op("sub", F64, y, x), t))), F64)


@handles(np.median)
def np_median(a, axis=None, **k):
    a = SArr.of(a)
    if not a.symbolic:
        return wrap(np.median(a.native(), axis=axis))
    return _perc(a, 0.5, axis, 1)


@handles(np.array_equal)
def np_array_equal(a, b, **k):
    a, b = SArr.of(a), SArr.of(b)
    if a.shape != b.shape:
        return False
    r = np_all(binop("eq", a, b))
    return r if not isinstance(r, SV) else r.with_dt(None)


@handles(np.isclose)
def np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not has_sym(a) and not has_sym(b):
        return wrap(np.isclose(unwrap(a), unwrap(b), rtol, atol))
    d = HANDLERS[np.absolute](a - b)
    lim = rtol * HANDLERS[np.absolute](b) + atol
    return binop("le", d, lim) if is_arr(d) or is_arr(lim) else compare("le", d, lim)


@handles(np.allclose)
def np_allclose(a, b, **k):
    return np_all(np_isclose(SArr.of(a), SArr.of(b), **k))


HANDLERS[np.shape] = lambda a: SArr.of(a).shape
HANDLERS[np.ndim] = lambda a: SArr.of(a).ndim
HANDLERS[np.size] = lambda a, axis=None: SArr.of(a).size if axis is None else SArr.of(a).shape[axis]
HANDLERS[np.isscalar] = lambda a: True if isinstance(a, SV) else np.isscalar(a)
HANDLERS[np.iscomplexobj] = lambda a: False
HANDLERS[np.savetxt] = lambda *a, **k: sym.cur().event("savetxt", a, k)
HANDLERS[np.save] = lambda *a, **k: sym.cur().event("save", a, k)
HANDLERS[np.ndenumerate] = lambda a: (((ix, scalar(SArr.of(a).v[ix], SArr.of(a).dt))) for ix in np.ndindex(SArr.of(a).shape))
HANDLERS[np.result_type] = lambda *a: np.result_type(*[rep_of(x) if not isinstance(x, SV) else sym._rep(x) for x in a])
HANDLERS[np.min_scalar_type] = lambda a: (_ for _ in ()).throw(Unsupported("min_scalar_type"))
HANDLERS[np.isin] = lambda a, t, **k: mk(fmap(lambda e: SV(z3.Or(*[_b(compare("eq", e, x)).z for x in SArr.of(t).v.flat]), "b", Fraction(0), Fraction(1), 0), SArr.of(a).v), BOOL) if has_sym(a) or has_sym(t) else wrap(np.isin(unwrap(a), unwrap(t), **k))
HANDLERS[np.bincount] = lambda a, weights=None, minlength=0: wrap(np.bincount(conc_index(SArr.of(a)), minlength=minlength)) if weights is None else (_ for _ in ()).throw(Unsupported("bincount weights"))
HANDLERS[np.cross] = lambda *a, **k: (_ for _ in ()).throw(Unsupported("cross"))


@handles(np.select)
def np_select(conds, choices, default=0):
    r = default
    for c, x in reversed(list(zip(conds, choices))):
        r = np_where(c, x, r)
    return r


@handles(np.frexp)
def np_frexp(x):
    from .loader import sym_frexp
    if has_sym(x):
        x = SArr.of(x) if is_arr(x) else x
        if isinstance(x, SArr):
            if x.v.ndim:
                raise Unsupported("frexp of a symbolic array")
            x = scalar(x._one(), x.dt)
        return sym_frexp(x)
    return wrap(np.frexp(unwrap(x)))


class Vectorize:
    """np.vectorize"""

    def __init__(self, pyfunc=None, otypes=None, doc=None, excluded=None, cache=False, signature=None):
        if signature is not None or excluded:
            raise Unsupported("vectorize options")
        self.pyfunc = pyfunc
        self.otypes = otypes
        self.__doc__ = doc

    def __call__(self, *args, **kw):
        if kw:
            raise Unsupported("vectorize keywords")
        from .loader import sx_call
        arrs = [SArr.of(a) for a in args]
        sh = np.broadcast_shapes(*[a.shape for a in arrs])
        vs = [np.broadcast_to(a.v, sh) for a in arrs]
        n = int(np.prod(sh, dtype=int))
        if n == 0:
            if self.otypes is None:
                raise ValueError("cannot call `vectorize` on size 0 inputs unless `otypes` is set")
        out = []
        # numpy evaluates the first element once more to find the output type
        for ix in np.ndindex(sh):
            out.append(sx_call(self.pyfunc, *[scalar(v[ix], a.dt) for v, a in zip(vs, arrs)]))
        if out and isinstance(out[0], tuple):
            raise Unsupported("vectorize with several outputs")
        if self.otypes is not None:
            dt = np.dtype(self.otypes[0] if not isinstance(self.otypes, str) else self.otypes)
        else:
            dt = leaf_dtype([out[0]])
        if dt == object or dt.kind not in "iufb":
            return SArr(oarr(sh, out), object)
        r = SArr(oarr(sh, [coerce(x, dt) for x in out]), dt)
        return r if sh != () else r


HANDLERS[np.vectorize] = Vectorize


class FromPyFunc:
    def __init__(self, f, nin, nout):
        self.f, self.nin, self.nout = f, nin, nout
        if nout != 1:
            raise Unsupported("frompyfunc")

    def __call__(self, *args):
        from .loader import sx_call
        arrs = [SArr.of(a) for a in args]
        sh = np.broadcast_shapes(*[a.shape for a in arrs])
        vs = [np.broadcast_to(a.v, sh) for a in arrs]
        out = [sx_call(self.f, *[plain(v[ix], None) for v in vs]) for ix in np.ndindex(sh)]
        r = SArr(oarr(sh, out), object)
        return r if sh else out[0]


HANDLERS[np.frompyfunc] = FromPyFunc


# --------------------------------------------------------------------------
# dispatch
# --------------------------------------------------------------------------
def ufunc_dispatch(ufunc, method, inputs, kw):
    f = ufunc if method == "__call__" else getattr(ufunc, method)
    return call_np(f, inputs, kw)


PASS = {np.iinfo, np.finfo, np.dtype, np.errstate, np.seterr, np.ndindex, np.can_cast, np.promote_types,
        np.broadcast_shapes, np.issubdtype, np.load, np.printoptions, np.set_printoptions, np.get_printoptions}


def call_np(f, args, kw):
    """call of a numpy function."""
    if f in PASS:
        return f(*args, **kw)
    h = HANDLERS.get(f)
    if h is None:
        fs = getattr(f, "__self__", None)
        if isinstance(fs, np.ufunc):
            # bound ufunc methods are new objects each time
            for hf, hh in HANDLERS.items():
                if getattr(hf, "__self__", None) is fs and getattr(hf, "__name__", "") == f.__name__:
                    h = hh
                    break
    if h is not None:
        if h in _NATIVE_OK and not has_arr_or_sym(list(args)) and not has_arr_or_sym(kw):
            return wrap(f(*args, **kw))
        return h(*args, **kw)
    if has_sym(list(args)) or has_sym(kw):
        raise Unsupported(f"numpy function {getattr(f, '__name__', f)}")
    return wrap(f(*unwrap(list(args)), **unwrap(kw)))


_NATIVE_OK = set()


def sigmoid(x):
    """logistic function, elementwise; float dtype kept"""
    a = SArr.of(x)
    dom = a.dt if a.dt.kind == "f" else F64
    g = _mono("sigmoid")
    r = mk(fmap(lambda e: raw(g(e.with_dt(a.dt), dom)) if isinstance(e, SV) else float(dom.type(sym._sig(float(e)))), a.v), dom)
    return r if isinstance(x, SArr) or a.ndim else scalar(raw(r) if not isinstance(r, SArr) else r.v[()], dom)


@handles(np.frombuffer)
def h_frombuffer(buf, dtype=float, count=-1, offset=0, **k):
    """a symbolic array of bytes read as bytes"""
    dt = np.dtype(dtype)
    if not isinstance(buf, SArr) or dt not in (np.dtype("uint8"), np.dtype("int8")):
        raise Unsupported("np.frombuffer of this data")
    v = SArr(buf.v.reshape(-1)[offset:], buf.dt)
    return np_astype(v if count < 0 else SArr(v.v[:count], v.dt), dt)


@handles(np.unravel_index)
def np_unravel_index(idx, shape, order="C"):
    return wrap(np.unravel_index(conc_index(idx) if has_arr_or_sym(idx) else idx, unwrap(shape), order=order))


@handles(np.ravel_multi_index)
def np_ravel_multi_index(idx, dims, mode="raise", order="C"):
    return wrap(np.ravel_multi_index(tuple(conc_index(i) if has_arr_or_sym(i) else i for i in idx), unwrap(dims), mode=mode, order=order))


@handles(np.broadcast_arrays)
def np_broadcast_arrays(*arrs, **k):
    arrs = [SArr.of(a) for a in arrs]
    sh = np.broadcast_shapes(*[a.shape for a in arrs])
    return [SArr(np.broadcast_to(a.v, sh), a.dt) for a in arrs]


structural(np.lib.stride_tricks.sliding_window_view)


@handles(np.cumprod)
def np_cumprod(a, axis=None, dtype=None, out=None):
    a = SArr.of(a)
    if not a.symbolic:
        return wrap(np.cumprod(a.native(), axis=axis, dtype=dtype))
    if axis is None:
        a, axis = a.ravel(), 0
    dom = np.cumprod(np.ones(1, a.dt)).dtype
    rows, acc = [], None
    for row in np.moveaxis(a.v, axis, 0):
        row = SArr(row, a.dt) if isinstance(row, np.ndarray) else scalar(row, a.dt)
        acc = row if acc is None else binop("mul", acc, row)
        rows.append(acc)
    return SArr(np.moveaxis(array(rows).v, 0, axis), dom)


@handles(np.put)
def np_put(a, ind, v, mode="raise"):
    a = SArr.of(a)
    ind = np.asarray(conc_index(ind) if has_arr_or_sym(ind) else ind).ravel()
    v = SArr.of(v).ravel()
    for k, i in enumerate(ind):
        a[np.unravel_index(int(i), a.shape)] = scalar(v.v[k % v.size], v.dt)


def _ufunc_at(op):
    def at(a, ix, b=None):
        ix = ix if isinstance(ix, tuple) else (ix,)
        ix = tuple(np.asarray(conc_index(i) if has_arr_or_sym(i) else i) for i in ix)
        sh = np.broadcast_shapes(*[i.shape for i in ix])
        ix = [np.broadcast_to(i, sh) for i in ix]
        b = SArr.of(b)
        for p in np.ndindex(sh):
            at_ = tuple(int(i[p]) for i in ix)
            rest = a.v[at_].shape if isinstance(a.v[at_], np.ndarray) else ()
            bb = SArr(np.broadcast_to(b.v, sh + rest)[p], b.dt) if rest else scalar(np.broadcast_to(b.v, sh)[p], b.dt)
            a[at_] = binop(op, a[at_], bb)
    return at


HANDLERS[np.add.at] = _ufunc_at("add")
HANDLERS[np.subtract.at] = _ufunc_at("sub")
HANDLERS[np.multiply.at] = _ufunc_at("mul")


@handles(np.convolve)
def np_convolve(a, v, mode="full"):
    a, v = SArr.of(a), SArr.of(v)
    if not a.symbolic and not v.symbolic:
        return wrap(np.convolve(a.native(), v.native(), mode))
    if v.size > a.size:
        a, v = v, a
    n, m = a.size, v.size
    dom = np.convolve(np.ones(1, a.dt), np.ones(1, v.dt)).dtype
    full_ = []
    for i in range(n + m - 1):
        acc = None
        for j in range(m):
            if 0 <= i - j < n:
                t = elem_op("mul", dom, a.v[i - j], v.v[j])
                acc = t if acc is None else elem_op("add", dom, acc, t)
        full_.append(raw(acc) if isinstance(acc, SV) else acc)
    lo, ln = {"full": (0, n + m - 1), "same": ((m - 1) // 2, n), "valid": (m - 1, n - m + 1)}[mode]
    return SArr(oarr((ln,), full_[lo:lo + ln]), dom)


@handles(np.correlate)
def np_correlate(a, v, mode="valid"):
    return np_convolve(a, SArr(SArr.of(v).v[::-1], SArr.of(v).dt), mode)
