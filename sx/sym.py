"""Symbolic scalars, the path state, and path forking.

SV is a symbolic number or boolean:
  k  'b' bool, 'i' integer, 'f' binary float, 'r' exact rational (specifications only)
  z  z3 expression (Bool, Int or Real sort)
  lo, hi  sound bounds (Fraction) or None when unbounded
  g  the value is known to be a multiple of 2**g (None: unknown)
  dt numpy dtype (None: a plain Python number)

Integers: exact, wrapped modulo 2**n by the numpy result dtype unless the bounds
exclude overflow.  Floats: a real, plus, whenever the operation is not provably
exact (grid/bound tracking), a fresh rounding error bounded by half an ulp at
the bound of the result.  Every real execution is therefore an instance of the
encoding.
"""
import math
from fractions import Fraction
import numpy as np
import z3

U = {53: Fraction(1, 2 ** 53), 24: Fraction(1, 2 ** 24), 11: Fraction(1, 2 ** 11)}
TINY = Fraction(1, 2 ** 1070)


class Unsupported(BaseException):
    """The encoding does not cover what the code just did (never swallowed by the code under test)."""

    def __init__(self, *a):
        super().__init__(*a)
        if S is not None and S.poison is None:
            S.poison = self


class PathEnd(BaseException):
    """The current path is infeasible or the budget is spent."""

    def __init__(self, *a):
        super().__init__(*a)
        if S is not None and S.poison is None:
            S.poison = self


class BudgetExceeded(PathEnd):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.branches = 0
        self.forks = 0
        self.paths = 0
        self.checks = 0
        self.discharged = 0
        self.trivial = 0
        self.unknown = 0
        self.refinements = 0
        self.witnesses = 0
        self.witness_mismatch = 0
        self.functions = set()


_POW2 = {}
S = None  # current path state (set by explore)


def cur():
    if S is None:
        raise Unsupported("symbolic value used outside an exploration")
    return S


def prec_of(dt):
    if dt is None:
        return 53
    return {2: 11, 4: 24}.get(dt.itemsize, 53)


def is_num(x):
    return isinstance(x, (int, float, Fraction, np.generic, bool))


def frac(x):
    """Exact rational of a concrete finite number."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, np.floating):
        x = float(x)
    return Fraction(x)


def zreal(fr):
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}") if fr.denominator != 1 else z3.RealVal(str(fr.numerator))


def zint(n):
    return z3.IntVal(str(int(n)))


_INTOF = {}


def int_of(z, depth=0):
    """an integer term equal to the integral-valued real term z; None when not syntactically so"""
    if z.is_int():
        return z
    k = z.get_id()
    hit = _INTOF.get(k)
    if hit is not None:
        return hit[1]
    r = None
    kd = z.decl().kind()
    if z3.is_rational_value(z):
        r = z3.IntVal(str(z.numerator_as_long())) if z.denominator_as_long() == 1 else None
    elif kd == z3.Z3_OP_TO_REAL:
        r = z.arg(0)
    elif depth < 40 and kd == z3.Z3_OP_ITE:
        a = int_of(z.arg(1), depth + 1)
        b = int_of(z.arg(2), depth + 1) if a is not None else None
        if b is not None:
            r = z3.If(z.arg(0), a, b)
    elif depth < 40 and kd in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        ch = []
        for c in z.children():
            t = int_of(c, depth + 1)
            if t is None:
                break
            ch.append(t)
        else:
            r = ch[0]
            if kd == z3.Z3_OP_UMINUS:
                r = -r
            for t in ch[1:]:
                r = r + t if kd == z3.Z3_OP_ADD else r * t if kd == z3.Z3_OP_MUL else r - t
    _INTOF[k] = (z, r)
    return r


def to_int(z):
    r = int_of(z)
    return z3.ToInt(z) if r is None else r


def grid_of(fr):
    """largest g such that fr is a multiple of 2**g (None when not dyadic; big for 0)."""
    fr = Fraction(fr)
    if fr == 0:
        return 10 ** 6
    d = fr.denominator
    if d & (d - 1):
        return None
    if d > 1:
        return -(d.bit_length() - 1)
    n = abs(fr.numerator)
    return (n & -n).bit_length() - 1


def gmin(a, b):
    return None if a is None or b is None else min(a, b)


def kind_of(x):
    if isinstance(x, SV):
        return x.k
    if isinstance(x, (bool, np.bool_)):
        return "b"
    if isinstance(x, (int, np.integer)):
        return "i"
    if isinstance(x, Fraction):
        return "r"
    return "f"


def is_special(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


class SV:
    __slots__ = ("z", "k", "lo", "hi", "g", "dt")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        from . import arr
        return arr.call_np(func, args, kw)

    def __array__(self, *a, **k):
        raise Unsupported("symbolic scalar converted to an array by code outside the encoding")

    def __init__(self, z, k, lo=None, hi=None, g=None, dt=None):
        self.z, self.k, self.lo, self.hi, self.g, self.dt = z, k, lo, hi, g, dt

    # --- views -----------------------------------------------------------
    @property
    def zi(self):
        if self.k == "b":
            return z3.If(self.z, zint(1), zint(0))
        return self.z

    @property
    def zr(self):
        z = self.zi
        return z3.ToReal(z) if z.is_int() else z

    def with_dt(self, dt, k=None):
        return SV(self.z, k or self.k, self.lo, self.hi, self.g, dt)

    # --- python protocol ---------------------------------------------------
    def __repr__(self):
        return f"<sym {self.k}>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<sym>"

    def __bool__(self):
        return truth(self)

    def __index__(self):
        if self.k not in ("i", "b"):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(concretize(self))

    def __int__(self):
        return int(concretize(trunc(self)))

    def __float__(self):
        v = concretize(self)
        return float(v)

    def __hash__(self):
        return hash(concretize(self))

    def __round__(self, n=None):
        return py_round(self, n)

    def __floor__(self):
        return cast(floor(self), "pyint")

    def __ceil__(self):
        return cast(ceil(self), "pyint")

    def __trunc__(self):
        return cast(trunc(self), "pyint")

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absolute(self)

    def __invert__(self):
        if self.k == "b":
            return SV(z3.Not(self.z), "b", Fraction(0), Fraction(1), 0, self.dt)
        return scalar_op("sub", scalar_op("neg", self), 1)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # numpy scalar look-alikes
    @property
    def dtype(self):
        if self.dt is None:
            raise AttributeError(f"'{ {'i': 'int', 'f': 'float', 'b': 'bool'}.get(self.k) }' object has no attribute 'dtype'")
        return self.dt

    @property
    def shape(self):
        self.dtype
        return ()

    @property
    def ndim(self):
        self.dtype
        return 0

    @property
    def size(self):
        self.dtype
        return 1

    @property
    def real(self):
        return self

    @property
    def T(self):
        self.dtype
        return self

    def astype(self, dt, *a, **k):
        self.dtype
        return cast(self, np.dtype(dt))

    def item(self, *a):
        self.dtype
        return self.with_dt(None)

    def tolist(self):
        return self.item()

    def clip(self, min=None, max=None, **k):
        from . import arr
        return arr.np_clip(self, min, max)

    def round(self, decimals=0):
        from . import arr
        return arr.np_round(self, decimals)

    def is_integer(self):
        return compare("eq", self, floor(self))

    def reshape(self, *a):
        from . import arr
        return arr.SArr.of(self).reshape(*a)

    def flatten(self):
        from . import arr
        return arr.SArr.of(self).reshape(-1)

    def sum(self, *a, **k):
        return self

    def bit_length(self):
        return int(concretize(self)).bit_length()


def _install_ops():
    def b(name, op, refl=False):
        def f(self, other):
            return scalar_op(op, other, self) if refl else scalar_op(op, self, other)
        setattr(SV, name, f)
    for op, nm in [("add", "add"), ("sub", "sub"), ("mul", "mul"), ("truediv", "truediv"),
                   ("floordiv", "floordiv"), ("mod", "mod"), ("pow", "pow"), ("lshift", "lshift"),
                   ("rshift", "rshift"), ("and", "and"), ("or", "or"), ("xor", "xor")]:
        b(f"__{nm}__", op)
        b(f"__r{nm}__", op, True)
    for op in ("lt", "le", "gt", "ge", "eq", "ne"):
        b(f"__{op}__", op)


# --------------------------------------------------------------------------
# lifting and dtypes
# --------------------------------------------------------------------------
def lift(x):
    if isinstance(x, SV):
        return x
    if isinstance(x, (bool, np.bool_)):
        return SV(z3.BoolVal(bool(x)), "b", frac(x), frac(x), 0, x.dtype if isinstance(x, np.bool_) else None)
    dt = x.dtype if isinstance(x, np.generic) else None
    if isinstance(x, (int, np.integer)):
        f = Fraction(int(x))
        return SV(zint(x), "i", f, f, grid_of(f) if f else 10 ** 6, dt)
    if isinstance(x, Fraction):
        return SV(zreal(x), "r", x, x, grid_of(x), None)
    if isinstance(x, (float, np.floating)):
        if not math.isfinite(x):
            raise Unsupported(f"arithmetic of a symbolic value with {x}")
        f = frac(x)
        return SV(zreal(f), "f", f, f, grid_of(f), dt)
    raise Unsupported(f"cannot lift {type(x)}")


_dt_cache = {}


def _rep(x):
    """A concrete stand-in with the same dtype behaviour."""
    if isinstance(x, SV):
        if x.k == "b":
            return np.bool_(True) if x.dt is not None else True
        if x.dt is not None:
            return x.dt.type(1)
        if x.k == "i":
            # value based casting: use the widest value
            for v in (x.hi, x.lo):
                if v is not None and abs(v) > 2 ** 31:
                    return 2 ** 40 if abs(v) < 2 ** 63 else 2 ** 70
            return 1
        return 1.0
    return x


_PYOPS = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
    "truediv": lambda a, b: a / b, "floordiv": lambda a, b: a // b, "mod": lambda a, b: a % b,
    "pow": lambda a, b: a ** b, "lshift": lambda a, b: a << b, "rshift": lambda a, b: a >> b,
    "and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b,
    "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b,
    "ge": lambda a, b: a >= b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b,
    "neg": lambda a: -a,
}


def dom_of_value(v):
    if isinstance(v, np.generic):
        return v.dtype
    if isinstance(v, bool):
        return "pybool"
    if isinstance(v, int):
        return "pyint"
    if isinstance(v, float):
        return "pyfloat"
    if isinstance(v, Fraction):
        return "exact"
    if isinstance(v, np.ndarray):
        return v.dtype
    raise Unsupported(f"domain of {type(v)}")


def scalar_dom(op, *args):
    if any(kind_of(a) == "r" for a in args):
        return "exact"
    reps = []
    for a in args:
        r = _rep(a)
        if isinstance(a, SV):
            reps.append(r)
        else:
            # avoid division by zero, negative shifts in the stand-in evaluation
            if op in ("truediv", "floordiv", "mod") and a is args[-1] and not isinstance(a, SV) and a == 0:
                r = type(a)(1)
            reps.append(r)
    if op == "pow" and not any(isinstance(r, (float, np.floating)) for r in reps):
        if isinstance(reps[1], (int, np.integer)) and not isinstance(args[1], SV) and args[1] < 0:
            return "pyfloat"
    with np.errstate(all="ignore"):
        v = _PYOPS[op](*reps)
    return dom_of_value(v)


def dom_kind(dom):
    if dom in ("pyint",):
        return "i"
    if dom == "pyfloat":
        return "f"
    if dom == "exact":
        return "r"
    if dom == "pybool":
        return "b"
    return {"i": "i", "u": "i", "f": "f", "b": "b"}.get(dom.kind) or _bad(dom)


def _bad(dom):
    raise Unsupported(f"dtype {dom}")


def dom_dt(dom):
    return None if isinstance(dom, str) else dom


def concrete(v, dom):
    """A concrete python/numpy scalar of the domain."""
    k = dom_kind(dom)
    if isinstance(dom, str):
        if k == "i":
            return int(v)
        if k == "f":
            return float(v)
        if k == "b":
            return bool(v)
        return frac(v)
    if k == "i":
        v = int(v)
        n = dom.itemsize * 8
        v &= (1 << n) - 1
        if dom.kind == "i" and v >> (n - 1):
            v -= 1 << n
        return dom.type(v)
    if k == "f":
        return dom.type(float(v))
    return dom.type(bool(v))


def settle(sv, dom):
    """Fold an SV whose bounds pin it; set its dtype."""
    k = dom_kind(dom)
    if isinstance(sv, SV):
        if sv.k != "b" and sv.lo is not None and sv.lo == sv.hi:
            f = sv.lo
            if k == "r" or f.denominator == 1 and k == "i":
                return concrete(f, dom)
            if k == "f":
                try:
                    if Fraction(float(f)) == f:
                        return concrete(float(f), dom)
                except OverflowError:
                    pass
        return SV(sv.z, k if not (k == "b") else sv.k, sv.lo, sv.hi, sv.g, dom_dt(dom))
    return concrete(sv, dom)


def wrap_int(sv, dom):
    """numpy modular wrap of an exact integer."""
    if isinstance(dom, str):
        return settle(sv, dom)
    info = np.iinfo(dom)
    lo, hi = Fraction(int(info.min)), Fraction(int(info.max))
    if sv.lo is not None and sv.hi is not None and sv.lo >= lo and sv.hi <= hi:
        return settle(sv, dom)
    m = int(info.max) - int(info.min) + 1
    z = (sv.zi - zint(info.min)) % zint(m) + zint(info.min)
    return SV(z, "i", lo, hi, 0, dom)


def round_float(z, lo, hi, g, prec, dom, key=None):
    st = cur()
    B = None if lo is None or hi is None else max(abs(lo), abs(hi))
    if g is not None and B is not None and (g >= 0 or True):
        if B <= Fraction(2) ** (prec + g if g < 10 ** 5 else 2000):
            return settle(SV(z, "f", lo, hi, g), dom)
    if st.ex.exact:
        return SV(z, "f", lo, hi, g, dom_dt(dom))
    ck = ("fl", key) if key is not None else None
    if ck is not None and ck in st.cache:
        return st.cache[ck][0]
    e = st.fresh_real("e")
    st.errs.append(e)
    if B is not None:
        b = B * U[prec] + TINY
        # tidy the bound (outwards) to keep numerals small
        b = tidy_up(b)
        st.define(z3.And(e <= zreal(b), e >= zreal(-b)))
        st.ebound[e.get_id()] = b
        st.zb[e.decl().name()] = (-b, b)
        if B > 2 ** 20 and (lo >= 0 and lo * 2 ** 20 < B or hi <= 0 and hi * -2 ** 20 < B) and st.apps:
            # a wide range of one sign: the relative bound is linear as well
            w = (z if lo >= 0 else -z) * zreal(tidy_up(U[prec])) + zreal(tidy_up(TINY))
            st.define(z3.And(e <= w, -e <= w))
        nlo, nhi = lo - b, hi + b
    else:
        u = zreal(U[prec])
        ab = z3.If(z >= 0, z, -z)
        st.define(z3.And(e <= u * ab + zreal(TINY), e >= -(u * ab) - zreal(TINY)))
        nlo = None if lo is None else (lo * (1 + U[prec]) if lo < 0 else Fraction(0) if lo == 0 else lo * (1 - U[prec]))
        nhi = None if hi is None else (hi * (1 + U[prec]) if hi > 0 else Fraction(0) if hi == 0 else hi * (1 - U[prec]))
    zz = z + e
    if lo is not None and lo >= 0:
        nlo = max(Fraction(0), nlo) if nlo is not None else Fraction(0)
        st.define(zz >= 0)
    if hi is not None and hi <= 0:
        nhi = min(Fraction(0), nhi) if nhi is not None else Fraction(0)
        st.define(zz <= 0)
    r = SV(zz, "f", nlo, nhi, None, dom_dt(dom))
    if ck is not None:
        st.cache[ck] = (r, key)
    return r


def tidy_up(b):
    """smallest-ish dyadic >= b with a short numerator"""
    if b == 0:
        return b
    e = b.numerator.bit_length() - b.denominator.bit_length() - 8
    q = Fraction(2) ** e
    return (b / q).__ceil__() * q


def eid(x):
    return x.z.get_id() if isinstance(x, SV) else ("c", x)


# --------------------------------------------------------------------------
# arithmetic
# --------------------------------------------------------------------------
def _iv_add(a, b):
    return (None if a.lo is None or b.lo is None else a.lo + b.lo,
            None if a.hi is None or b.hi is None else a.hi + b.hi)


def _iv_sub(a, b):
    return (None if a.lo is None or b.hi is None else a.lo - b.hi,
            None if a.hi is None or b.lo is None else a.hi - b.lo)


def _iv_mul(a, b):
    if None in (a.lo, a.hi, b.lo, b.hi):
        # sign information only
        def nn(x):
            return x.lo is not None and x.lo >= 0
        if nn(a) and nn(b):
            return (a.lo * b.lo, None)
        return (None, None)
    c = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
    return min(c), max(c)


def scalar_op(op, a, b=None):
    """Python-level operation on scalars (at least one SV)."""
    from . import arr
    if isinstance(a, (arr.SArr, np.ndarray, list)) or isinstance(b, (arr.SArr, np.ndarray, list)):
        if isinstance(a, list) and op == "mul" or isinstance(b, list) and op == "mul":
            if isinstance(a, SV) and a.dt is None:
                return int(a.__index__()) * b
            if isinstance(b, SV) and b.dt is None:
                return a * int(b.__index__())
        if (isinstance(a, list) or isinstance(b, list)) and op in ("eq", "ne") and \
                not (isinstance(a, SV) and a.dt is not None or isinstance(b, SV) and b.dt is not None):
            return op == "ne"
        return arr.binop(op, a, b)
    if op == "neg":
        return neg(a)
    if not (isinstance(a, SV) or is_num(a)) or not (isinstance(b, SV) or is_num(b)):
        if op == "eq":
            return False
        if op == "ne":
            return True
        return NotImplemented
    if op in ("lt", "le", "gt", "ge", "eq", "ne"):
        return compare(op, a, b)
    return elem_op(op, scalar_dom(op, a, b), a, b)


def elem_op(op, dom, a, b):
    """a op b evaluated in the result domain."""
    if not isinstance(a, SV) and not isinstance(b, SV):
        if dom == "exact":
            return _PYOPS[op](frac(a), frac(b))
        with np.errstate(all="ignore"):
            r = _PYOPS[op](a, b)
        return concrete(r, dom) if not (isinstance(r, float) and not math.isfinite(r)) else r
    k = dom_kind(dom)
    for x, y, first in ((a, b, True), (b, a, False)):
        if is_special(x):
            return _special(op, a, b, dom)
    A, B = lift(a), lift(b)
    if k == "b":
        A = A if A.k == "b" else SV(A.z != 0, "b", Fraction(0), Fraction(1), 0)
        B = B if B.k == "b" else SV(B.z != 0, "b", Fraction(0), Fraction(1), 0)
        f = {"and": z3.And, "or": z3.Or, "xor": z3.Xor, "mul": z3.And, "add": z3.Or}.get(op)
        if f is None:
            raise Unsupported(f"bool {op}")
        return SV(f(A.z, B.z), "b", Fraction(0), Fraction(1), 0, dom_dt(dom))
    if k == "i":
        return int_op(op, dom, A, B)
    prec = 0 if k == "r" else prec_of(dom_dt(dom))
    if k == "f":
        # operands are first converted to the result precision
        A, B = to_prec(A, dom), to_prec(B, dom)
    if op == "add":
        return _fin(A.zr + B.zr, _iv_add(A, B), gmin(A.g, B.g), prec, dom, ("add", *sorted((A.z.get_id(), B.z.get_id()))), (A, B))
    if op == "sub":
        if A.z.eq(B.z):
            return concrete(0, dom)
        return _fin(A.zr - B.zr, _iv_sub(A, B), gmin(A.g, B.g), prec, dom, ("sub", A.z.get_id(), B.z.get_id()), (A, B))
    if op == "mul":
        for x in (A, B):
            if x.lo is not None and x.lo == x.hi == 0:
                return concrete(0, dom)
        iv = _iv_mul(A, B)
        if A.z.eq(B.z):
            iv = (max(Fraction(0), iv[0]) if iv[0] is not None else Fraction(0), iv[1])
        g = None if A.g is None or B.g is None else min(A.g + B.g, 10 ** 6)
        return _fin(A.zr * B.zr, iv, g, prec, dom, ("mul", *sorted((A.z.get_id(), B.z.get_id()))), (A, B))
    if op == "truediv":
        return div_op(dom, A, B, prec)
    if op == "pow":
        if B.lo is not None and B.lo == B.hi:
            n = B.lo
            if n.denominator == 1 and 0 <= n <= 4:
                n = int(n)
                if n == 0:
                    return concrete(1, dom)
                r = settle(A, dom)
                acc = r
                for _ in range(n - 1):
                    acc = elem_op("mul", dom, acc, r)
                return acc
            if n == Fraction(1, 2):
                return fun("sqrt", A, dom)
        raise Unsupported("power")
    if op == "floordiv":
        return settle_float(floor(div_op(dom, A, B, prec)), dom)
    if op == "mod":
        if B.lo is not None and B.lo == B.hi and B.lo > 0:
            q = floor(div_op("exact", A, B, 0))
            r = A.zr - q.zr * zreal(B.lo)
            return _fin(r, (Fraction(0), B.lo), gmin(A.g, B.g), prec, dom, None, (A, B))
        raise Unsupported("float modulo")
    raise Unsupported(f"float {op}")


def settle_float(sv, dom):
    return settle(sv, dom)


def _special(op, a, b, dom):
    """one operand is inf/nan (concrete)."""
    s = a if is_special(a) else b
    o = b if is_special(a) else a
    if math.isnan(s):
        return concrete_f(float("nan"), dom)
    if op == "add":
        return concrete_f(s, dom)
    if op == "sub":
        return concrete_f(s if is_special(a) else -s, dom)
    if op == "truediv" and s is b:
        return concrete_f(0.0, dom)
    if op in ("mul", "truediv"):
        if is_num(o):
            with np.errstate(all="ignore"):
                return concrete_f(float(_PYOPS[op](np.float64(a), np.float64(b))), dom)
        if truth(compare("gt", o, 0)):
            return concrete_f(s, dom)
        if truth(compare("lt", o, 0)):
            return concrete_f(-s, dom)
        return concrete_f(float("nan"), dom)
    raise Unsupported(f"{op} with inf/nan")


def concrete_f(v, dom):
    return v if isinstance(dom, str) else dom.type(v)


def to_prec(A, dom):
    if A.k == "f" and (A.dt is None or prec_of(A.dt) <= prec_of(dom_dt(dom))):
        return A
    if A.k == "b":
        A = SV(A.zi, "i", Fraction(0), Fraction(1), 0)
    r = round_float(A.zr if A.k != "i" else A.z, A.lo, A.hi, A.g if A.g is not None else (0 if A.k == "i" else None),
                    prec_of(dom_dt(dom)), dom, ("cv", prec_of(dom_dt(dom)), A.z.get_id(), A.z))
    return lift(r)


def _fin(z, iv, g, prec, dom, key, keep):
    lo, hi = iv
    if prec == 0:
        return settle(SV(z, "r", lo, hi, g), dom)
    if key is not None:
        key = key + (prec,)
    # keep operand references alive so ids stay unique
    cur().keep.extend(x.z for x in keep)
    return round_float(z, lo, hi, g, prec, dom, key)


def div_op(dom, A, B, prec):
    st = cur()
    if B.lo is not None and B.lo == B.hi:
        d = B.lo
        if d == 0:
            return div_zero(dom, A)
        iv = _iv_mul(A, SV(None, "r", 1 / d, 1 / d))
        gd = grid_of(d)
        pow2 = gd is not None and abs(d) == Fraction(2) ** gd
        g = None if A.g is None or not pow2 else A.g - gd if A.g < 10 ** 5 else A.g
        if A.lo is not None and A.lo == A.hi == 0:
            return concrete(0, dom)
        return _fin(A.zr * zreal(1 / d), iv, g, prec, dom, ("div", A.z.get_id(), B.z.get_id()), (A, B))
    if not ((B.lo is not None and B.lo > 0) or (B.hi is not None and B.hi < 0)):
        if truth(SV(B.zr == 0, "b")):
            return div_zero(dom, A)
    if A.lo is not None and A.lo == A.hi == 0:
        return concrete(0, dom)
    if A.lo is not None and A.lo == A.hi and B.lo is not None and B.lo > 0 and B.hi is not None and st.apps:
        # a constant over a value that comes from tanh, exp, ...: the reciprocal is one more monotone function
        r = fun("nrecip", SV(B.zr, "r", B.lo, B.hi, B.g), "exact")
        iv = _iv_mul(SV(None, "r", -A.lo, -A.lo), SV(None, "r", r.lo, r.hi))
        return _fin(r.zr * zreal(-A.lo), iv, None, prec, dom, ("div", A.z.get_id(), B.z.get_id()), (A, B))
    ck = ("quot", A.z.get_id(), B.z.get_id())
    if ck in st.cache:
        q, iv = st.cache[ck][0]
    elif None not in (A.lo, A.hi, B.lo, B.hi) and (B.lo > 0 or B.hi < 0):
        # a/b = a*r, r*b = 1, one r per divisor
        rk = ("recip", B.z.get_id())
        st.heavy = True
        if rk not in st.cache:
            if B.lo > 0 and st.apps:
                r = -fun("nrecip", SV(B.zr, "r", B.lo, B.hi, B.g), "exact").zr
            else:
                r = st.fresh_real("r")
                st.define(z3.And(r >= zreal(1 / B.hi), r <= zreal(1 / B.lo)))
                st.zb[r.decl().name()] = (1 / B.hi, 1 / B.lo)
            st.define(r * B.zr == 1)
            st.cache[rk] = ((r, []), B)
        r, used = st.cache[rk][0]
        q = A.zr * r
        c = [x / y for x in (A.lo, A.hi) for y in (B.lo, B.hi)]
        iv = (min(c), max(c))
        st.define(z3.And(q >= zreal(iv[0]), q <= zreal(iv[1])))
        for o in used[-6:]:
            up, dn = (o * r <= q, q <= o * r)
            if B.hi < 0:
                up, dn = dn, up
            st.define(z3.And(z3.Implies(o <= A.zr, up), z3.Implies(A.zr <= o, dn)))
        used.append(A.zr)
        st.cache[ck] = ((q, iv), A, B)
    else:
        q = st.fresh_real("q")
        st.define(q * B.zr == A.zr)
        nn = lambda v: v.lo is not None and v.lo >= 0
        iv = (Fraction(0) if nn(A) and nn(B) else None, None)
        if nn(A) and nn(B):
            st.define(q >= 0)
        st.cache[ck] = ((q, iv), A, B)
    return _fin(q, iv, None, prec, dom, ("div", A.z.get_id(), B.z.get_id()), (A, B))


def div_zero(dom, A):
    if dom == "exact" or isinstance(dom, str):
        raise ZeroDivisionError("float division by zero")
    if truth(SV(A.zr > 0, "b")):
        return dom.type(math.inf)
    if truth(SV(A.zr < 0, "b")):
        return dom.type(-math.inf)
    return dom.type(math.nan)


def int_op(op, dom, A, B):
    def toi(x):
        return SV(x.zi, "i", x.lo, x.hi, x.g if x.k != "b" else 0) if x.k == "b" else x
    A, B = toi(A), toi(B)
    if op in ("add", "sub", "mul"):
        if op == "add":
            z, iv, g = A.z + B.z, _iv_add(A, B), gmin(A.g, B.g)
        elif op == "sub":
            if A.z.eq(B.z):
                return concrete(0, dom)
            z, iv, g = A.z - B.z, _iv_sub(A, B), gmin(A.g, B.g)
        else:
            for x in (A, B):
                if x.lo is not None and x.lo == x.hi == 0:
                    return concrete(0, dom)
            z, iv = A.z * B.z, _iv_mul(A, B)
            if A.z.eq(B.z):
                iv = (max(Fraction(0), iv[0]) if iv[0] is not None else Fraction(0), iv[1])
            g = None if A.g is None or B.g is None else min(A.g + B.g, 10 ** 6)
        return wrap_int(SV(z, "i", iv[0], iv[1], g), dom)
    const = B.lo is not None and B.lo == B.hi
    if op in ("floordiv", "mod"):
        if not const:
            d = concretize(SV(B.z, "i", B.lo, B.hi, B.g))
        else:
            d = int(B.lo)
        if d == 0:
            if isinstance(dom, str):
                raise ZeroDivisionError("integer division or modulo by zero")
            return dom.type(0)
        a, dd = (A.z, d) if d > 0 else (-A.z, -d)
        alo, ahi = (A.lo, A.hi) if d > 0 else (None if A.hi is None else -A.hi, None if A.lo is None else -A.lo)
        if op == "floordiv":
            return wrap_int(SV(a / zint(dd), "i", None if alo is None else Fraction(alo // dd),
                               None if ahi is None else Fraction(ahi // dd), 0), dom)
        if alo is not None and ahi is not None and alo >= 0 and ahi < dd and d > 0:
            return wrap_int(A, dom)
        r = a % zint(dd)
        if d > 0:
            return wrap_int(SV(r, "i", Fraction(0), Fraction(dd - 1), 0), dom)
        return wrap_int(SV(-r, "i", Fraction(1 - dd), Fraction(0), 0), dom)
    if op in ("lshift", "rshift"):
        s = int(B.lo) if const else int(concretize(SV(B.z, "i", B.lo, B.hi, B.g)))
        if s < 0:
            if isinstance(dom, str):
                raise ValueError("negative shift count")
            raise Unsupported("negative numpy shift")
        if not isinstance(dom, str) and s >= dom.itemsize * 8:
            if op == "lshift":
                return concrete(0, dom)
            s = dom.itemsize * 8 - 1
        m = 1 << s
        if op == "lshift":
            return int_op("mul", dom, A, lift(m))
        return int_op("floordiv", dom, A, lift(m))
    if op == "pow":
        if const and 0 <= B.lo <= 6:
            n = int(B.lo)
            if n == 0:
                return concrete(1, dom)
            acc = settle(A, dom)
            base = acc
            for _ in range(n - 1):
                acc = elem_op("mul", dom, acc, base)
            return acc
        if A.lo is not None and A.lo == A.hi == 2 and dom == "pyint" and B.lo is not None and B.hi is not None and -2 <= B.lo and 6 <= B.hi <= 1000:
            st = cur()
            if B.lo < 0 and not truth(compare("ge", B, 0)):
                raise Unsupported("negative power")
            key = ("pow2", B.z.get_id())
            key += (B.lo, B.hi)
            if key not in _POW2:
                i = SV(B.z, "i", max(Fraction(0), B.lo), B.hi, 0)
                _POW2[key] = (table(i, [1 << k for k in range(int(B.hi) + 1)]), B.z)
            return _POW2[key][0]
        if A.lo is not None and A.lo == A.hi:
            r = int(A.lo) ** int(concretize(SV(B.z, "i", B.lo, B.hi, B.g)))
            return concrete(r, "pyfloat" if isinstance(r, float) and dom == "pyint" else dom)
        raise Unsupported("integer power")
    if op in ("and", "or", "xor"):
        for x, y in ((A, B), (B, A)):
            if y.lo is not None and y.lo == y.hi:
                c = int(y.lo)
                if op == "and" and c >= 0 and (c & (c + 1)) == 0:
                    return int_op("mod", dom, x, lift(c + 1))
                if op == "xor" and c == 0 or op == "or" and c == 0:
                    return wrap_int(x, dom)
                if op == "xor" and c == -1:
                    return int_op("sub", dom, lift(-1), x)
                if x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi <= 1 and c >= 0:
                    f = {"xor": lambda v: v ^ c, "or": lambda v: v | c, "and": lambda v: v & c}[op]
                    v0, v1 = f(0), f(1)
                    return wrap_int(SV(z3.If(x.z == 0, zint(v0), zint(v1)), "i", Fraction(min(v0, v1)), Fraction(max(v0, v1)), 0), dom)
        if all(x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi <= 1 for x in (A, B)):
            a, b = A.z == 1, B.z == 1
            f = {"and": z3.And(a, b), "or": z3.Or(a, b), "xor": z3.Xor(a, b)}[op]
            return wrap_int(SV(z3.If(f, zint(1), zint(0)), "i", Fraction(0), Fraction(1), 0), dom)
        if None not in (A.lo, A.hi, B.lo, B.hi) and max(abs(A.lo), abs(A.hi), abs(B.lo), abs(B.hi)) < 2 ** 31:
            n = 34
            a, b = z3.Int2BV(A.z, n), z3.Int2BV(B.z, n)
            r = {"and": a & b, "or": a | b, "xor": a ^ b}[op]
            m = max(abs(A.lo), abs(A.hi), abs(B.lo), abs(B.hi))
            b2 = Fraction(1 << int(m).bit_length())
            lo = Fraction(0) if A.lo >= 0 and B.lo >= 0 else -b2
            return wrap_int(SV(z3.BV2Int(r, True), "i", lo, b2, 0), dom)
        raise Unsupported(f"bitwise {op}")
    if op == "truediv":
        return elem_op("truediv", "pyfloat" if isinstance(dom, str) else np.dtype("float64"), A, B)
    raise Unsupported(f"int {op}")


def neg(a):
    if a.k == "b":
        a = SV(a.zi, "i", Fraction(0), Fraction(1), 0, None)
    dom = a.dt if a.dt is not None else {"i": "pyint", "f": "pyfloat", "r": "exact"}[a.k]
    r = SV(-a.z, a.k, None if a.hi is None else -a.hi, None if a.lo is None else -a.lo, a.g, a.dt)
    if a.k == "i":
        return wrap_int(r, dom)
    return settle(r, dom)


def absolute(a):
    if not isinstance(a, SV):
        return abs(a)
    if a.k == "b":
        return a
    if a.lo is not None and a.lo >= 0:
        return a
    n = neg(a)
    if a.hi is not None and a.hi <= 0:
        return n
    hi = None if a.lo is None or a.hi is None else max(-a.lo, a.hi)
    return SV(z3.If(a.z >= 0, a.z, lift(n).z), a.k, Fraction(0), hi, a.g, a.dt)


def compare(op, a, b):
    """-> python bool or SV('b'); numpy bool dtype if either side is numpy-typed."""
    if not isinstance(a, SV) and not isinstance(b, SV):
        if isinstance(a, Fraction) or isinstance(b, Fraction):
            return bool(_PYOPS[op](frac(a), frac(b)))
        return _PYOPS[op](a, b)
    for x, other_first in ((a, False), (b, True)):
        if is_special(x):
            rep = 0.0
            l, r = (rep, x) if other_first else (x, rep)
            return bool(_PYOPS[op](float(l), float(r)))
    A, B = lift(a), lift(b)
    npt = np.dtype(bool) if (A.dt is not None or B.dt is not None) else None
    if A.k == "b" and B.k == "b" and op in ("eq", "ne"):
        z = A.z == B.z
        if op == "ne":
            z = z3.Not(z)
        return SV(z, "b", Fraction(0), Fraction(1), 0, npt)
    if A.z.eq(B.z) and A.k != "b":
        return op in ("le", "ge", "eq")
    lo = None if A.lo is None or B.hi is None else A.lo - B.hi   # min of A-B
    hi = None if A.hi is None or B.lo is None else A.hi - B.lo
    dec = None
    if op in ("lt", "ge"):
        if hi is not None and hi < 0:
            dec = op == "lt"
        elif lo is not None and lo >= 0:
            dec = op == "ge"
    elif op in ("le", "gt"):
        if hi is not None and hi <= 0:
            dec = op == "le"
        elif lo is not None and lo > 0:
            dec = op == "gt"
    else:
        if (hi is not None and hi < 0) or (lo is not None and lo > 0):
            dec = op == "ne"
    if dec is not None:
        return np.bool_(dec) if npt is not None else dec
    x, y = A.zi, B.zi
    if x.is_int() != y.is_int():
        # integer against a rational constant: compare within integers
        x, y = A.zr, B.zr
    z = {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}[op]
    return SV(z, "b", Fraction(0), Fraction(1), 0, npt)


def ite(c, a, b, dom=None):
    """If-then-else on scalars; dom: result domain."""
    if not isinstance(c, SV):
        r = a if c else b
        return cast(r, dom) if dom is not None else r
    if c.k != "b":
        c = lift(compare("ne", c, 0))
        if not isinstance(c, SV):
            return ite(bool(c), a, b, dom)
    if dom is None:
        dom = join_dom(a, b)
    if not isinstance(a, SV) and not isinstance(b, SV):
        if is_special(a) or is_special(b):
            return a if truth(c) else b
        if a == b:
            return cast(a, dom)
    elif is_special(a) or is_special(b):
        return cast(a if truth(c) else b, dom)
    k = dom_kind(dom)
    A, B = lift(cast(a, dom)), lift(cast(b, dom))
    if k == "b":
        return SV(z3.If(c.z, A.z, B.z), "b", Fraction(0), Fraction(1), 0, dom_dt(dom))
    if A.z.eq(B.z):
        return settle(A, dom)
    za, zb = A.z, B.z
    if za.is_int() != zb.is_int():
        za, zb = _both_int(A, B)
    lo = None if A.lo is None or B.lo is None else min(A.lo, B.lo)
    hi = None if A.hi is None or B.hi is None else max(A.hi, B.hi)
    return settle(SV(z3.If(c.z, za, zb), k, lo, hi, gmin(A.g, B.g)), dom)


def _both_int(A, B):
    """Int and Real operands: stay in Int when the real one is an integral constant."""
    out = []
    for X in (A, B):
        if not X.z.is_int():
            if X.lo is not None and X.lo == X.hi and X.lo.denominator == 1:
                out.append(zint(X.lo))
                continue
            return A.zr, B.zr
        out.append(X.z)
    return out


def join_dom(a, b):
    if kind_of(a) == "r" or kind_of(b) == "r":
        return "exact"
    if kind_of(a) == "b" and kind_of(b) == "b":
        return "pybool"
    r1, r2 = _rep(a), _rep(b)
    if isinstance(r1, np.generic) or isinstance(r2, np.generic):
        return np.result_type(r1, r2)
    if isinstance(r1, float) or isinstance(r2, float):
        return "pyfloat"
    return "pyint"


def minimum(a, b, dom=None):
    c = compare("le", a, b)
    r = ite(c, a, b, dom)
    return _narrow(r, a, b, min)


def maximum(a, b, dom=None):
    c = compare("ge", a, b)
    r = ite(c, a, b, dom)
    return _narrow(r, a, b, max)


def _narrow(r, a, b, f):
    if not isinstance(r, SV) or is_special(a) or is_special(b):
        return r
    A, B = lift(a), lift(b)
    if f is min:
        hi = [x for x in (A.hi, B.hi) if x is not None]
        r = SV(r.z, r.k, r.lo, min(hi) if hi else None, r.g, r.dt)
        if A.lo is None or B.lo is None:
            r.lo = None
    else:
        lo = [x for x in (A.lo, B.lo) if x is not None]
        r = SV(r.z, r.k, max(lo) if lo else None, r.hi, r.g, r.dt)
        if A.hi is None or B.hi is None:
            r.hi = None
    if r.lo is not None and r.lo == r.hi:
        return settle(r, r.dt if r.dt is not None else {"i": "pyint", "f": "pyfloat", "r": "exact", "b": "pybool"}[r.k])
    return r


# --------------------------------------------------------------------------
# rounding and casts
# --------------------------------------------------------------------------
def _linear(z):
    """({atom id: (atom, coefficient)}, constant) of a real or integer term"""
    out = {}
    const = Fraction(0)
    stack = [(z, Fraction(1))]
    while stack:
        t, c = stack.pop()
        if z3.is_rational_value(t):
            const += c * t.as_fraction()
            continue
        if z3.is_int_value(t):
            const += c * t.as_long()
            continue
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            stack.extend((x, c) for x in t.children())
        elif k == z3.Z3_OP_SUB:
            ch = t.children()
            stack.append((ch[0], c))
            stack.extend((x, -c) for x in ch[1:])
        elif k == z3.Z3_OP_UMINUS:
            stack.append((t.arg(0), -c))
        elif k == z3.Z3_OP_TO_REAL:
            stack.append((t.arg(0), c))
        elif k == z3.Z3_OP_MUL and t.num_args() == 2 and (_numval(t.arg(0)) is not None or _numval(t.arg(1)) is not None):
            f = _numval(t.arg(0))
            stack.append((t.arg(1), c * f) if f is not None else (t.arg(0), c * _numval(t.arg(1))))
        elif k == z3.Z3_OP_DIV and _numval(t.arg(1)) not in (None, 0):
            stack.append((t.arg(0), c / _numval(t.arg(1))))
        else:
            i = t.get_id()
            p = out.get(i)
            out[i] = (t, c + (p[1] if p else 0))
    return {i: v for i, v in out.items() if v[1] != 0}, const


def _numval(t):
    if z3.is_rational_value(t):
        return t.as_fraction()
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    return None


def _floor_z(st, z):
    """integer term equal to floor(z): integer parts are moved out, and floors of the
    same term plus different constants share one definition"""
    atoms, const = _linear(z)
    ip, rest = [], []
    for t, c in atoms.values():
        if t.is_int():
            k = math.floor(c)
            if k:
                ip.append(t if k == 1 else t * z3.IntVal(k))
            c -= k
            if c:
                rest.append((z3.ToReal(t), c, t))
        else:
            rest.append((t, c, t))
    k = math.floor(const)
    const -= k
    if k:
        ip.append(z3.IntVal(k))
    rest.sort(key=lambda r: r[2].get_id())
    if not rest:
        n = None
    else:
        main = [r for r in rest if r[2].get_id() not in st.ebound]
        err = {r[2].get_id(): r for r in rest if r[2].get_id() in st.ebound}
        key = ("floorbase",) + tuple((r[2].get_id(), r[1]) for r in main)
        base = st.cache.get(key)
        terms = [t if c == 1 else zreal(c) * t for t, c, _ in rest]
        r = z3.Sum(*terms) if len(terms) > 1 else terms[0]
        y = r + zreal(const) if const else r
        n = None
        if base is not None:
            # relative to an existing floor of the same term: n0 + floor(f + d), f in [0, 1)
            n0, c0, y0, err0, _ = base
            dl = dh = const - c0
            diff = []
            for i in set(err) | set(err0):
                c = (err[i][1] if i in err else 0) - (err0[i][1] if i in err0 else 0)
                if c:
                    w = abs(c) * st.ebound[i]
                    dl -= w
                    dh += w
                    t = (err.get(i) or err0[i])[0]
                    diff.append(t if c == 1 else zreal(c) * t)
            k0, k1 = math.floor(dl), math.ceil(dh + 1) - 1
            if k1 - k0 <= 4:
                f = y0 - z3.ToReal(n0)
                if const != c0:
                    f = f + zreal(const - c0)
                if diff:
                    f = f + (z3.Sum(*diff) if len(diff) > 1 else diff[0])
                n = n0
                steps = [z3.If(f >= zreal(Fraction(k)), z3.IntVal(1), z3.IntVal(0)) for k in range(k0 + 1, k1 + 1)]
                if k0:
                    steps.append(z3.IntVal(k0))
                if steps:
                    n = z3.Sum(n0, *steps)
        if n is None:
            n = st.fresh_int("n")
            st.define(z3.And(z3.ToReal(n) <= y, y < z3.ToReal(n) + 1))
            if base is None:
                st.cache[key] = (n, const, y, err, [x[2] for x in rest])
    if n is not None:
        ip.append(n)
    if not ip:
        return z3.IntVal(0)
    return z3.Sum(*ip) if len(ip) > 1 else ip[0]


def floor(a):
    """floor, keeping kind and dtype."""
    if not isinstance(a, SV):
        if isinstance(a, Fraction):
            return Fraction(math.floor(a))
        return np.floor(a)
    if a.k in ("i", "b") or (a.z.is_int()) or (a.g is not None and a.g >= 0):
        return a if a.k != "b" else SV(a.zi, "i", Fraction(0), Fraction(1), 0, a.dt)
    st = cur()
    ck = ("floor", a.z.get_id())
    if ck in st.cache:
        n = st.cache[ck][0]
    else:
        n = _floor_z(st, a.z)
        st.cache[ck] = (n, a.z)
    lo = None if a.lo is None else Fraction(math.floor(a.lo))
    hi = None if a.hi is None else Fraction(math.floor(a.hi))
    return SV(n, a.k, lo, hi, 0, a.dt)


def ceil(a):
    if not isinstance(a, SV):
        if isinstance(a, Fraction):
            return Fraction(math.ceil(a))
        return np.ceil(a)
    n = neg(a)
    f = floor(n)
    return neg(f) if isinstance(f, SV) else -f


def trunc(a):
    if not isinstance(a, SV):
        if isinstance(a, Fraction):
            return Fraction(math.trunc(a))
        return np.trunc(a)
    if a.k in ("i", "b") or a.z.is_int() or (a.g is not None and a.g >= 0):
        return floor(a)
    if a.lo is not None and a.lo >= 0:
        return floor(a)
    if a.hi is not None and a.hi <= 0:
        return ceil(a)
    f, c = floor(a), ceil(a)
    r = _ite_same(SV(a.z >= 0, "b"), f, c, a)
    st = cur()
    if st is not None and st.ex.cut and isinstance(r, SV):
        ck = ("trunc", a.z.get_id())
        if ck not in st.cache:
            t = st.cut(r)
            v = lift(t).zr
            st.define(z3.And(v - a.zr < 1, a.zr - v < 1, z3.Implies(a.zr >= 0, v <= a.zr), z3.Implies(a.zr <= 0, v >= a.zr)))
            st.cache[ck] = (t, a.z)
        r = st.cache[ck][0]
        return SV(r.z, a.k, r.lo, r.hi, 0, a.dt)
    return r


def _ite_same(c, x, y, a):
    X, Y = lift(x), lift(y)
    lo = None if X.lo is None or Y.lo is None else min(X.lo, Y.lo)
    hi = None if X.hi is None or Y.hi is None else max(X.hi, Y.hi)
    zx, zy = X.z, Y.z
    if zx.is_int() != zy.is_int():
        zx, zy = _both_int(X, Y)
    return SV(z3.If(c.z, zx, zy), a.k, lo, hi, gmin(X.g, Y.g), a.dt)


def rint(a):
    """round half to even (kind kept)."""
    if not isinstance(a, SV):
        if isinstance(a, Fraction):
            return Fraction(round(a))
        return np.rint(a)
    if a.k in ("i", "b") or a.z.is_int() or (a.g is not None and a.g >= 0):
        return floor(a)
    half = Fraction(1, 2)
    s = SV(a.zr + zreal(half), a.k, None if a.lo is None else a.lo + half, None if a.hi is None else a.hi + half,
           gmin(a.g, -1), a.dt)
    n = floor(s)
    if not isinstance(n, SV):
        n = lift(n)
    zi = to_int(n.z)
    tie = z3.And(z3.ToReal(zi) == s.zr, zi % 2 == 1)
    lo = None if a.lo is None else Fraction(math.floor(a.lo + half) - 1)
    lo = None if a.lo is None else max(lo, Fraction(math.floor(a.lo)))
    hi = None if a.hi is None else Fraction(math.floor(a.hi + half))
    return SV(z3.If(tie, zi - 1, zi), a.k, lo, hi, 0, a.dt)


def py_round(a, n=None):
    if n is None or (isinstance(n, int) and n == 0 and a.k == "i"):
        return cast(rint(a), "pyint" if a.dt is None or a.k == "f" else a.dt)
    if a.k == "i":
        return a
    raise Unsupported("round with digits")


def cast(x, dom):
    """astype / type constructor."""
    k = dom_kind(dom)
    if not isinstance(x, SV):
        if is_special(x):
            if k in ("f", "r"):
                return concrete_f(x, dom) if k == "f" else x
            with np.errstate(all="ignore"):
                if isinstance(dom, str):
                    return int(x)
                return np.array(x).astype(dom)[()]
        if k == "i" and isinstance(x, (float, np.floating, Fraction)):
            if not isinstance(dom, str):
                with np.errstate(all="ignore"):
                    return np.array(float(x)).astype(dom)[()]
            return int(x)
        return concrete(x, dom)
    if k == "r":
        if x.k == "b":
            return SV(x.zi, "r", Fraction(0), Fraction(1), 0)
        return SV(x.z, "r", x.lo, x.hi, x.g if x.g is not None else (0 if x.k == "i" else None))
    if k == "b":
        if x.k == "b":
            return SV(x.z, "b", x.lo, x.hi, 0, dom_dt(dom))
        c = compare("ne", x, 0)
        return SV(c.z, "b", Fraction(0), Fraction(1), 0, dom_dt(dom)) if isinstance(c, SV) else concrete(c, dom)
    if k == "i":
        if x.k == "b":
            return SV(x.zi, "i", Fraction(0), Fraction(1), 0, dom_dt(dom))
        if x.k == "i":
            return wrap_int(x, dom)
        t = trunc(x)
        if not isinstance(t, SV):
            return cast(t, dom)
        t = SV(to_int(t.z), "i", t.lo, t.hi, t.g)
        if not isinstance(dom, str):
            info = np.iinfo(dom)
            if t.lo is None or t.hi is None or t.lo < int(info.min) or t.hi > int(info.max):
                lim = 2 ** 31 if dom.itemsize < 4 else None
                if lim is None or t.lo is None or t.hi is None or t.lo < -lim or t.hi >= lim:
                    # out-of-range float->int conversion is platform defined
                    inr = z3.And(t.z >= zint(info.min if lim is None else -lim), t.z <= zint(info.max if lim is None else lim - 1))
                    if not truth(SV(inr, "b")):
                        raise Unsupported("float to integer conversion out of range")
                    mn, mx = (int(info.min), int(info.max)) if lim is None else (-lim, lim - 1)
                    t = SV(t.z, "i", Fraction(mn) if t.lo is None else max(t.lo, Fraction(mn)),
                           Fraction(mx) if t.hi is None else min(t.hi, Fraction(mx)), t.g)
        return wrap_int(t, dom)
    # float
    if x.k == "f" and prec_of(x.dt) <= prec_of(dom_dt(dom)):
        return SV(x.z, "f", x.lo, x.hi, x.g, dom_dt(dom))
    y = to_prec(x if x.k != "f" else SV(x.z, "r", x.lo, x.hi, x.g), dom)
    return settle(y, dom)


# --------------------------------------------------------------------------
# monotone real functions (refined lazily)
# --------------------------------------------------------------------------
def _sig(x):
    if x >= 0:
        return 1 / (1 + math.exp(-x))
    e = math.exp(x)
    return e / (1 + e)


FUNS = {
    "tanh": (math.tanh, Fraction(-1), Fraction(1)),
    "exp": (math.exp, Fraction(0), None),
    "sigmoid": (_sig, Fraction(0), Fraction(1)),
    "log": (math.log, None, None),
    "log10": (math.log10, None, None),
    "log2": (math.log2, None, None),
    "sqrt": (math.sqrt, Fraction(0), None),
    "expm1": (math.expm1, Fraction(-1), None),
    "log1p": (math.log1p, None, None),
    "arctan": (math.atan, Fraction(-2), Fraction(2)),
    "erf": (math.erf, Fraction(-1), Fraction(1)),
    "nrecip": (lambda x: -1.0 / x, None, Fraction(0)),      # of a positive number
}
RELTOL = Fraction(1, 2 ** 49)


def fval(name, x):
    try:
        return Fraction(FUNS[name][0](float(x)))
    except OverflowError:
        return None


def fup(v):
    return v + abs(v) * RELTOL + TINY


def fdn(v):
    return v - abs(v) * RELTOL - TINY


def fun(name, a, dom):
    """y = f(a), f strictly increasing."""
    if not isinstance(a, SV):
        with np.errstate(all="ignore"):
            f = getattr(np, name, None)
            v = float(f(float(a))) if f is not None else FUNS[name][0](float(a))
        return concrete_f(v, dom)
    st = cur()
    if name == "exp" and a.hi is not None and a.hi > 0:
        # exp of something provably not positive (x - max(x)) cannot overflow
        if st.entails(lift(cast(a, "exact")).zr <= 0):
            a = SV(a.z, a.k, a.lo, Fraction(0), a.g, a.dt)
        elif a.hi > 709 and not truth(compare("le", a, 709)):
            if isinstance(dom, str):
                raise OverflowError("math range error")
            return dom.type(math.inf)
        elif a.hi > 709:
            a = SV(a.z, a.k, a.lo, Fraction(709), a.g, a.dt)
    A = lift(cast(a, "exact"))
    if name in ("log", "log10", "log2", "sqrt"):
        if not (a.lo is not None and (a.lo > 0 or (name == "sqrt" and a.lo >= 0))):
            if truth(SV(A.zr < 0, "b")):
                if isinstance(dom, str):
                    raise ValueError("math domain error")
                return dom.type(math.nan)
            if name != "sqrt" and truth(SV(A.zr == 0, "b")):
                if isinstance(dom, str):
                    raise ValueError("math domain error")
                return dom.type(-math.inf)
    ca = z3.simplify(A.zr, som=True, som_blowup=1000)
    ck = ("fun", name, tuple(sorted(t.get_id() for t in ca.children())) if z3.is_add(ca) else ca.get_id())
    if ck in st.cache:
        y, lo, hi = st.cache[ck][0]
    else:
        y = st.fresh_real(name)
        lo, hi = FUNS[name][1], FUNS[name][2]
        low0 = a.lo
        if name in ("log", "log10", "log2") and (low0 is None or low0 <= 0):
            low0 = None
        if name == "sqrt" and low0 is not None and low0 < 0:
            low0 = None
        if low0 is not None:
            v = fval(name, float_dn(low0))
            if v is not None:
                lo = fdn(v) if lo is None else max(lo, fdn(v))
        if a.hi is not None and not (name in ("log", "log10", "log2") and a.hi <= 0):
            v = fval(name, float_up(a.hi))
            if v is not None:
                hi = fup(v) if hi is None else min(hi, fup(v))
            elif isinstance(dom, str):
                raise Unsupported(f"{name} may overflow")
            else:
                raise Unsupported(f"{name} may overflow")
        if lo is not None:
            st.define(y >= zreal(lo))
        if hi is not None:
            st.define(y <= zreal(hi))
        if lo is not None and hi is not None:
            st.zb[y.decl().name()] = (lo, hi)
        if name == "log10" and lo is not None and hi is not None:
            # the decades are exact
            for k in range(math.floor(lo), math.ceil(hi) + 1):
                b = Fraction(float(f"1e{k}"))
                st.define(z3.And(z3.Implies(A.zr >= zreal(b), y >= zreal(Fraction(k))), z3.Implies(A.zr <= zreal(b * (1 - Fraction(1, 2 ** 46))), y < zreal(Fraction(k)))))
        if name in AT0:
            st.define(z3.And(z3.Implies(A.zr <= 0, y <= zreal(Fraction(AT0[name]))), z3.Implies(A.zr >= 0, y >= zreal(Fraction(AT0[name])))))
        for other in [o for o in st.apps if o[0] == name][-8:]:
            for q in pair_lemma(name, other[1], other[2], A.zr, y, hi):
                st.define(q)
        if name == "nrecip":
            for other in [o for o in st.apps if o[0] == name][-8:]:
                k = zreal(1 / (a.lo * st.lows[other[2].get_id()]))
                d = zreal(NEARBY)
                st.define(z3.And(z3.Implies(z3.And(other[1] <= A.zr, A.zr <= (1 + d) * other[1]), y - other[2] <= -d * y),
                                 z3.Implies(z3.And(A.zr <= other[1], other[1] <= (1 + d) * A.zr), other[2] - y <= -d * other[2])))
                st.define(z3.And(z3.Implies(other[1] <= A.zr, y - other[2] <= k * (A.zr - other[1])),
                                 z3.Implies(A.zr <= other[1], other[2] - y <= k * (other[1] - A.zr))))
            st.lows[y.get_id()] = a.lo
        st.apps.append((name, A.zr, y))
        st.heavy = True
        st.cache[ck] = ((y, lo, hi), ca)
        for b in st.breakpoints.get(name, ()):
            st.define(lemma(name, b, A.zr, y))
    return SV(y, "f", lo, hi, None, dom_dt(dom))


AT0 = {"tanh": 0, "exp": 1, "sigmoid": Fraction(1, 2), "arctan": 0, "erf": 0, "expm1": 0, "log1p": 0}
LIPSCHITZ = {"tanh": Fraction(1), "sigmoid": Fraction(1, 4), "arctan": Fraction(1), "erf": Fraction(9, 8)}
NEARBY = Fraction(1, 2 ** 30)


def pair_lemma(name, a, y, b, w, hi):
    """two values of one strictly increasing function"""
    yield z3.And(z3.Implies(a <= b, y <= w), z3.Implies(b <= a, w <= y))
    L = LIPSCHITZ.get(name)
    if L is not None:
        yield z3.And(z3.Implies(a <= b, w - y <= zreal(L) * (b - a)), z3.Implies(b <= a, y - w <= zreal(L) * (a - b)))
    elif name == "exp":
        d = zreal(NEARBY)
        yield z3.Implies(z3.And(a - b <= d, b - a <= d), z3.And(w - y <= 2 * d * y, y - w <= 2 * d * w))


def float_dn(fr):
    f = float(fr)
    return f if Fraction(f) <= fr else math.nextafter(f, -math.inf)


def float_up(fr):
    f = float(fr)
    return f if Fraction(f) >= fr else math.nextafter(f, math.inf)


def lemma(name, b, az, y):
    v = fval(name, b)
    bz = zreal(Fraction(b))
    return z3.And(z3.Implies(az <= bz, y <= zreal(fup(v))), z3.Implies(az >= bz, y >= zreal(fdn(v))))


# --------------------------------------------------------------------------
# forking
# --------------------------------------------------------------------------
def truth(x):
    if not isinstance(x, SV):
        return bool(x)
    if x.k != "b":
        x = compare("ne", x, 0)
        if not isinstance(x, SV):
            return bool(x)
    return cur().branch(x.z)


def concretize(x):
    """Enumerate the feasible values of x by forking."""
    if not isinstance(x, SV):
        return x
    return cur().concretize(x)


def table(idx, items, n=None):
    """items[idx] for a symbolic in-range index 0..n-1: a balanced decision tree."""
    n = len(items) if n is None else n
    lo = 0 if idx.lo is None else max(0, int(idx.lo))
    hi = n - 1 if idx.hi is None else min(n - 1, int(idx.hi))
    st = cur()
    if st is not None and st.ex.cut and hi - lo >= 8 and all(isinstance(items[i], (int, np.integer)) for i in range(lo, hi + 1)):
        ck = ("table", idx.z.get_id(), tuple(map(int, items[lo:hi + 1])))
        if ck not in st.cache:
            t = _tree(idx, items, lo, hi)
            st.cache[ck] = (st.cut(t) if isinstance(t, SV) else t, idx.z)
        return st.cache[ck][0]
    return _tree(idx, items, lo, hi)


def _tree(idx, items, lo, hi):
    first = items[lo]
    if not isinstance(first, SV) and all((not isinstance(items[i], SV)) and type(items[i]) is type(first) and items[i] == first for i in range(lo + 1, hi + 1)):
        return first
    if lo == hi:
        return first
    mid = (lo + hi) // 2
    l = _tree(idx, items, lo, mid)
    r = _tree(idx, items, mid + 1, hi)
    c = compare("le", idx, mid)
    return ite(c, l, r)


_install_ops()
