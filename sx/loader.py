"""Loads the repository's modules from /repo's current source.

Symbolic mode: every call, subscript load and function entry of the source is
routed through sx_call / sx_getitem / sx_enter, so numpy functions, builtins and
indexing work on symbolic values.  Nothing else of the source is changed.
Concrete mode: the unmodified source with the real numpy (used to replay).
"""
import ast
import builtins
import copy as _copy
import functools
import importlib
import itertools
import json
import math
import os
import random
import re as _re
import sys
import types
import typing
from fractions import Fraction
import numpy as np
from . import sym, arr, stubs, symstr
from .symstr import SymStr
from .sym import SV, Unsupported
from .arr import SArr

REPO = os.environ.get("SX_REPO", "/repo")
ROOTS = {
    "main": ["core", "inference_engine", "quantizer"],
    "onnx": ["model_converters/onnx2json", "core", "inference_engine"],
    "keras": ["model_converters/keras2json", "core", "inference_engine"],
    "demo": ["demo/demo_lib", "core", "inference_engine"],
    "tflite": ["model_converters/tflite2json", "core", "inference_engine"],
}


class Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.stack = []

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                conv = {-1: None, 115: "s", 114: "r", 97: "a"}[v.conversion]
                parts.append(ast.Tuple(elts=[v.value, ast.Constant(value=conv), v.format_spec or ast.Constant(value="")], ctx=ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(ast.Call(func=ast.Name(id="__sx_fstr__", ctx=ast.Load()), args=parts, keywords=[]), node)

    def visit_FormattedValue(self, node):
        node.value = self.visit(node.value)
        if node.format_spec is not None:
            node.format_spec = self.visit(node.format_spec)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            new = ast.Call(func=ast.Name(id="__sx_in__", ctx=ast.Load()), args=[node.left, node.comparators[0]], keywords=[])
            if isinstance(node.ops[0], ast.NotIn):
                new = ast.UnaryOp(op=ast.Not(), operand=new)
            return ast.copy_location(new, node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in ("super", "locals", "globals", "vars", "eval", "exec", "__sx_call__"):
            return node
        new = ast.Call(func=ast.Name(id="__sx_call__", ctx=ast.Load()), args=[f] + node.args, keywords=node.keywords)
        return ast.copy_location(new, node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            new = ast.Call(func=ast.Name(id="__sx_getitem__", ctx=ast.Load()), args=[node.value, _index(node.slice)], keywords=[])
            return ast.copy_location(new, node)
        return node

    def visit_AnnAssign(self, node):
        # annotations are left alone
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def _fn(self, node):
        self.stack.append(node.name)
        qual = ".".join(self.stack)
        args = node.args
        for d in (args.defaults, args.kw_defaults):
            for i, x in enumerate(d):
                if x is not None:
                    d[i] = self.visit(x)
        node.decorator_list = [d if _plain_deco(d) else self.visit(d) for d in node.decorator_list]
        node.body = [self.visit(s) for s in node.body]
        enter = ast.Expr(value=ast.Call(func=ast.Name(id="__sx_enter__", ctx=ast.Load()), args=[ast.Constant(value=qual)], keywords=[]))
        i = 0
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(getattr(node.body[0], "value", None), ast.Constant) and isinstance(node.body[0].value.value, str):
            i = 1
        node.body.insert(i, ast.copy_location(enter, node))
        self.stack.pop()
        return node

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        self.stack.pop()
        return node

    def visit_Delete(self, node):
        return node


def _plain_deco(d):
    return isinstance(d, (ast.Name, ast.Attribute)) or True


def _index(s):
    if isinstance(s, ast.Slice):
        none = lambda: ast.Constant(value=None)
        return ast.Call(func=ast.Name(id="__sx_slice__", ctx=ast.Load()), args=[s.lower or none(), s.upper or none(), s.step or none()], keywords=[])
    if isinstance(s, ast.Tuple):
        return ast.Tuple(elts=[_index(e) if isinstance(e, ast.Slice) else e for e in s.elts], ctx=ast.Load())
    return s


# --------------------------------------------------------------------------
# calls
# --------------------------------------------------------------------------
_NPTYPES = {np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64,
            np.float16, np.float32, np.float64, np.bool_, np.longlong, np.ulonglong, np.intc}


def is_np_func(f):
    if isinstance(f, np.ufunc):
        return True
    m = getattr(f, "__module__", None)
    if isinstance(m, str) and (m == "numpy" or m.startswith("numpy.")) and not isinstance(f, type):
        return True
    s = getattr(f, "__self__", None)
    return isinstance(s, np.ufunc)


def symbolic_args(args, kw):
    return arr.has_arr_or_sym(list(args)) or (kw and arr.has_arr_or_sym(kw))


def sx_call(f, *args, **kw):
    try:
        h = CALLS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*args, **kw)
    if f in _NPT_LIST if isinstance(f, type) else False:
        return np_type(f, *args, **kw)
    if isinstance(f, (types.FunctionType, types.MethodType)):
        if is_np_func(f):
            return arr.call_np(f, args, kw)
        return f(*args, **kw)
    if isinstance(f, type):
        if f is np.ndarray:
            return arr.full(kw.get("shape", args[0] if args else None), 0, kw.get("dtype", args[1] if len(args) > 1 else float))
        if f in arr.HANDLERS:
            return arr.HANDLERS[f](*args, **kw)
        return f(*args, **kw)
    if isinstance(f, types.BuiltinFunctionType) or isinstance(f, np.ufunc) or is_np_func(f):
        if is_np_func(f) or (f in arr.HANDLERS if _hashable(f) else False):
            return arr.call_np(f, args, kw)
        s = getattr(f, "__self__", None)
        if isinstance(s, np.ndarray) and not isinstance(s, np.generic) and s.dtype.kind in "iufb":
            return getattr(SArr.of(s), f.__name__)(*args, **kw)
        if isinstance(s, _re.Pattern) and any(isinstance(a, SymStr) for a in args):
            return symstr.rx(f.__name__, s, args, kw)
        if isinstance(s, dict) and f.__name__ in ("get", "pop") and args and isinstance(args[0], SymStr):
            for k in s:
                if sym.truth(args[0] == k):
                    return f(k)
            return args[1] if len(args) > 1 else None if f.__name__ == "get" else f(object())
        if isinstance(s, str) and not isinstance(s, SymStr) and any(isinstance(a, SymStr) for a in args):
            if f.__name__ == "format" and s.count("{}") == len(args) and s.count("{") == len(args) and not kw:
                p = s.split("{}")
                return symstr.fstring(*[x for i, a in enumerate(args) for x in (p[i], (a, None, ""))], p[-1])
            if f.__name__ in ("startswith", "endswith", "find", "index", "split", "replace", "removeprefix", "removesuffix"):
                return getattr(SymStr(symstr.chars_of(s)), f.__name__)(*args, **kw)
            raise Unsupported(f"str.{f.__name__} with a symbolic argument")
        if isinstance(s, str) and f.__name__ == "join" and args:
            items = list(args[0])
            if not any(isinstance(a, SymStr) for a in items):
                return f(items)
            out = ""
            for i, a in enumerate(items):
                out = out + (s if i else "") + a
            return out
        if isinstance(s, np.generic) and symbolic_args(args, kw):
            return getattr(SArr.of(np.asarray(s)), f.__name__)(*args, **kw)
        return f(*args, **kw)
    return f(*args, **kw)


_NPT_LIST = _NPTYPES


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False


def np_type(t, x=0, *a, **k):
    dt = np.dtype(t)
    if isinstance(x, SV):
        return arr.scalar(arr.raw(sym.cast(x, dt)), dt)
    if arr.is_arr(x) or isinstance(x, (list, tuple)):
        x = SArr.of(x) if arr.is_arr(x) else arr.array(x)
        r = arr.np_astype(x, dt)
        return arr.mk(r.v, dt)
    return t(x, *a, **k)


def _int(x=0, *a, **k):
    if isinstance(x, SymStr):
        return symstr.to_int(x, *a, **k)
    if isinstance(x, SV):
        return sym.cast(x, "pyint")
    if isinstance(x, SArr):
        return _int(arr.scalar(x._one(), x.dt))
    return int(x, *a, **k)


def _float(x=0.0):
    if isinstance(x, SV):
        return sym.cast(x, "pyfloat")
    if isinstance(x, SArr):
        return _float(arr.scalar(x._one(), x.dt))
    return float(x)


def _bool(x=False):
    return bool(x)


def _abs(x):
    return abs(x)


def _round(x, n=None):
    if isinstance(x, SV):
        return sym.py_round(x, n)
    return round(x, n) if n is not None else round(x)


def _minmax(real, pick):
    def h(*args, key=None, **kw):
        if key is not None or not args:
            return real(*args, key=key, **kw)
        xs = list(args[0]) if len(args) == 1 else list(args)
        if not xs and "default" in kw:
            return kw["default"]
        if not any(isinstance(x, SV) for x in xs):
            return real(xs)
        if not all(isinstance(x, SV) or sym.is_num(x) for x in xs):
            return real(xs)
        acc = xs[0]
        for x in xs[1:]:
            acc = pick(acc, x)
        return acc
    return h


def _pymin(a, b):
    # Python returns the first minimal element with its own type
    c = sym.compare("lt", b, a)
    return _pick(c, b, a)


def _pymax(a, b):
    c = sym.compare("gt", b, a)
    return _pick(c, b, a)


def _pick(c, x, y):
    if not isinstance(c, SV):
        return x if c else y
    tx = sym.dom_of_value(sym._rep(x)) if not isinstance(x, Fraction) else "exact"
    ty = sym.dom_of_value(sym._rep(y)) if not isinstance(y, Fraction) else "exact"
    if isinstance(x, SV) and x.k == "r" or isinstance(y, SV) and y.k == "r":
        tx = ty = "exact"
    if tx != ty:
        return x if sym.truth(c) else y
    r = sym.ite(c, x, y, tx)
    return r


def _narrowed(pick, mode):
    def p(a, b):
        r = pick(a, b)
        if isinstance(r, SV) and sym.is_num(a) + sym.is_num(b) < 2:
            return sym._narrow(r, a, b, mode)
        return r
    return p


def _sum(xs, start=0):
    if isinstance(xs, SArr):
        xs = list(xs)
    acc = start
    for x in xs:
        acc = acc + x
    return acc


def _isinstance(x, t):
    if isinstance(t, tuple):
        return any(_isinstance(x, u) for u in t)
    if isinstance(t, types.UnionType) or typing.get_origin(t) is typing.Union:
        return any(_isinstance(x, u) for u in typing.get_args(t))
    if isinstance(x, SArr):
        return t in (np.ndarray, object) or (isinstance(t, type) and issubclass(SArr, t))
    if isinstance(x, SV):
        import numbers
        if x.dt is not None:
            return isinstance(t, type) and issubclass(x.dt.type, t)
        py = {"i": int, "f": float, "b": bool, "r": Fraction}[x.k]
        return isinstance(t, type) and issubclass(py, t)
    return isinstance(x, t)


def _type(x, *a):
    if a:
        return type(x, *a)
    if isinstance(x, SArr):
        return np.ndarray
    if isinstance(x, SV):
        return x.dt.type if x.dt is not None else {"i": int, "f": float, "b": bool, "r": Fraction}[x.k]
    return type(x)


def _map(f, *its):
    return map(lambda *a: sx_call(f, *a), *its)


def _filter(f, it):
    return filter((lambda x: sx_call(f, x)) if f is not None else None, it)


def _reduce(f, it, *init):
    return functools.reduce(lambda a, b: sx_call(f, a, b), it, *init)


def _sorted(xs, key=None, reverse=False):
    if key is None and isinstance(xs, SArr) and xs.ndim == 1:
        r = [arr.scalar(e, xs.dt) for e in arr.sort_list(xs.v, xs.dt)]
        return r[::-1] if reverse else r
    xs = list(xs)
    if key is None and any(isinstance(x, SV) for x in xs) and all(isinstance(x, SV) or sym.is_num(x) for x in xs):
        doms = {sym.dom_of_value(sym._rep(x)) for x in xs}
        if len(doms) == 1:
            d = doms.pop()
            dt = d if isinstance(d, np.dtype) else {"pyint": np.dtype(object), "pyfloat": np.dtype(object)}.get(d)
            r = arr.sort_list(xs, np.dtype(object) if dt is None else dt)
            return r[::-1] if reverse else r
    return sorted(xs, key=(lambda x: sx_call(key, x)) if key else None, reverse=reverse)


def _anyall(zf, real):
    import z3

    def h(xs):
        if isinstance(xs, SArr) and xs.ndim == 1 and xs.symbolic:
            return SV(zf([arr._b(e).z for e in xs.v]), "b", Fraction(0), Fraction(1), 0)
        return real(bool(x) for x in xs)
    return h


def _math1(name, real):
    def h(x):
        if isinstance(x, (SV, SArr)):
            if isinstance(x, SArr):
                x = arr.scalar(x._one(), x.dt)
            if isinstance(x, SV):
                if x.dt is not None:
                    x = x.with_dt(None)
                if x.k != "f":
                    x = sym.cast(x, "pyfloat")
                return sym.fun(name, x, "pyfloat")
        return real(x)
    return h


def _mfloor(x):
    return sym.cast(sym.floor(x), "pyint") if isinstance(x, SV) else math.floor(x)


def _mceil(x):
    return sym.cast(sym.ceil(x), "pyint") if isinstance(x, SV) else math.ceil(x)


def _mtrunc(x):
    return sym.cast(sym.trunc(x), "pyint") if isinstance(x, SV) else math.trunc(x)


def _frexp(x):
    if isinstance(x, SV):
        return sym_frexp(x)
    return math.frexp(x)


def sym_frexp(x):
    """(m, e): forks on the exponent, exact."""
    if x.lo is None or x.hi is None:
        raise Unsupported("frexp of an unbounded value")
    x = sym.cast(x.with_dt(None), "pyfloat") if x.k != "f" else x.with_dt(None)
    if sym.truth(sym.compare("eq", x, 0)):
        return 0.0, 0
    neg_ = sym.truth(sym.compare("lt", x, 0))
    a = -x if neg_ else x
    hi = math.frexp(sym.float_up(a.hi))[1]
    lo = math.frexp(float(a.lo))[1] if a.lo > 0 else -40
    # binary search for the exponent e: 2**(e-1) <= a < 2**e
    while lo < hi:
        mid = (lo + hi) // 2
        if sym.truth(sym.compare("lt", a, Fraction(2) ** mid)):
            hi = mid
        else:
            lo = mid + 1
    e = hi
    import z3
    if a.lo <= 0 and e == -40 and not sym.truth(sym.compare("ge", a, Fraction(2) ** -41)):
        raise Unsupported("frexp of a tiny value")
    m = SV(x.z * sym.zreal(Fraction(2) ** -e), "f", Fraction(-1) if neg_ else Fraction(1, 2), Fraction(-1, 2) if neg_ else Fraction(1),
           None if x.g is None else x.g - e, None)
    return m, e


def _ldexp(x, n):
    if isinstance(x, SV) or isinstance(n, SV):
        return x * (2.0 ** int(sym.concretize(n)))
    return math.ldexp(x, n)


def _isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    if isinstance(a, SV) or isinstance(b, SV):
        d = abs(a - b)
        return (d <= rel_tol * abs(a)) | (d <= rel_tol * abs(b)) | (d <= abs_tol)
    return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def _fsum(xs):
    return arr.np_sum(arr.array(list(xs), dtype=np.float64))


_TREES = {}
_ids = itertools.count()


class SxJson(str):
    """JSON text with symbolic leaves, kept structurally."""
    __slots__ = ("tree",)


def _jsonify(x, default=None):
    if isinstance(x, dict):
        return {(k if isinstance(k, str) else json.loads(json.dumps({k: 0})) and list(json.loads(json.dumps({k: 0})))[0]): _jsonify(v, default) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonify(v, default) for v in x]
    if isinstance(x, SV):
        if x.dt is not None and x.k != "f":
            raise TypeError(f"Object of type {x.dt.name} is not JSON serializable")
        return x.with_dt(None)
    if isinstance(x, SArr):
        if default is not None:
            return _jsonify(default(x), default)
        raise TypeError("Object of type ndarray is not JSON serializable")
    return json.loads(json.dumps(x, default=default))


def _dumps(x, *a, **k):
    if not arr.has_arr_or_sym(x):
        return json.dumps(x, *a, **k)
    if len(_TREES) > 64:
        del _TREES[next(iter(_TREES))]
    t = f'"<json #{next(_ids)}>"'
    s = SxJson(t)
    s.tree = _TREES[t] = _jsonify(x, k.get("default"))
    return s


def _loads(s, *a, **k):
    if isinstance(s, SxJson):
        return _copy.deepcopy(s.tree)
    if isinstance(s, str) and s in _TREES:      # read back from a file
        return _copy.deepcopy(_TREES[s])
    return json.loads(s, *a, **k)


def _dump(x, f, *a, **k):
    f.write(_dumps(x, *a, **k))


def _load(f, *a, **k):
    return _loads(f.read(), *a, **k)


def _len(x):
    return len(x)


def _range(*a):
    return range(*[x.__index__() if isinstance(x, (SV, SArr)) else x for x in a])


def _divmod(a, b):
    return a // b, a % b


def _pow(a, b, *m):
    return a ** b if not m else pow(a, b, *m)


def _str(*a, **k):
    if len(a) == 1 and not k:
        if isinstance(a[0], SymStr):
            return a[0]
        f = getattr(type(a[0]), "__str__", None)
        if isinstance(f, types.FunctionType) and not isinstance(a[0], (SV, SArr)):
            r = f(a[0])             # may be a symbolic string
            if isinstance(r, str):
                return r
    return str(*a, **k)


def sx_in(a, b):
    if isinstance(a, SymStr) and isinstance(b, (dict, set, frozenset, type({}.keys()))):
        return any(sym.truth(a == k) if isinstance(k, str) else False for k in b)
    if isinstance(a, SymStr) and isinstance(b, str) and not isinstance(b, SymStr):
        return SymStr(symstr.chars_of(b)).__contains__(a)
    if isinstance(b, SymStr):
        return b.__contains__(a)
    return a in b


def _list(*a):
    return list(*a)


def _dict_get(d, k):
    return d


CALLS = {
    int: _int, float: _float, round: _round, abs: _abs,
    str: _str,
    min: _minmax(min, _narrowed(_pymin, min)),
    max: _minmax(max, _narrowed(_pymax, max)),
    sum: _sum, isinstance: _isinstance, type: _type, map: _map, filter: _filter,
    functools.reduce: _reduce, sorted: _sorted, range: _range, divmod: _divmod, pow: _pow,
    math.floor: _mfloor, math.ceil: _mceil, math.trunc: _mtrunc, math.frexp: _frexp, math.ldexp: _ldexp,
    math.fabs: lambda x: sym.cast(abs(x), "pyfloat") if isinstance(x, SV) else math.fabs(x),
    math.isclose: _isclose, math.fsum: _fsum,
    math.isnan: lambda x: False if isinstance(x, SV) else math.isnan(x),
    math.isinf: lambda x: False if isinstance(x, SV) else math.isinf(x),
    math.isfinite: lambda x: True if isinstance(x, SV) else math.isfinite(x),
    math.pow: lambda a, b: sym.cast(a ** b, "pyfloat") if isinstance(a, SV) or isinstance(b, SV) else math.pow(a, b),
    math.prod: lambda xs, start=1: functools.reduce(lambda a, b: a * b, xs, start),
    json.dumps: _dumps, json.loads: _loads, json.dump: _dump, json.load: _load,
}
import z3 as _z3
CALLS[any] = _anyall(lambda zs: _z3.Or(*zs), any)
CALLS[all] = _anyall(lambda zs: _z3.And(*zs), all)
for _n in ("tanh", "exp", "log", "log2", "log10", "sqrt", "expm1", "log1p", "atan", "erf"):
    CALLS[getattr(math, _n)] = _math1({"atan": "arctan"}.get(_n, _n), getattr(math, _n))


for _f, _n in symstr.RX.items():
    CALLS[_f] = symstr.re_call(_n, _f)


def sx_getitem(o, i):
    if isinstance(o, SArr):
        return arr.getitem(o, i)
    if isinstance(o, (list, tuple)):
        if isinstance(i, SArr):
            i = arr.scalar(i._one(), i.dt)
        if isinstance(i, SV):
            if i.k == "b":
                i = sym.cast(i, "pyint")
            if i.k != "i":
                raise TypeError("list indices must be integers or slices")
            i = arr.safe_idx(i, len(o))
            lo, hi = int(i.lo), int(i.hi)
            items = list(o)
            if all(isinstance(x, SV) or sym.is_num(x) for x in items[lo:hi + 1]):
                return sym.table(i, items)
            return o[int(sym.concretize(i))]
        if isinstance(i, slice):
            return o[arr.conc_index(i)]
        return o[i]
    if isinstance(o, np.ndarray) and o.dtype.kind in "iufb":
        return arr.getitem(o, i)
    if isinstance(o, dict) and isinstance(i, SymStr):
        for k in o:
            if isinstance(k, str) and sym.truth(i == k):
                return o[k]
        raise KeyError(i)
    if isinstance(o, dict) and isinstance(i, SV):
        return o[sym.concretize(i)]
    if isinstance(o, SV):
        if o.dt is not None and all(k is None or k is Ellipsis for k in (i if isinstance(i, tuple) else (i,))):
            return o if i == () else arr.getitem(arr._as(o), i)
        raise TypeError("'numpy.float64' object is not subscriptable") if o.dt is None else IndexError("invalid index to scalar variable.")
    return o[i]


# --------------------------------------------------------------------------
# modules
# --------------------------------------------------------------------------
class Loader:
    def __init__(self, rootset="main", symbolic=True):
        self.symbolic = symbolic
        self.roots = [os.path.join(REPO, r) for r in ROOTS[rootset]]
        self.mods = {}
        self.entered = set()
        self.draws = None

    def find(self, name):
        rel = name.replace(".", "/")
        for r in self.roots:
            p = os.path.join(r, rel)
            if os.path.isfile(p + ".py"):
                return p + ".py", False
            if os.path.isdir(p):
                q = os.path.join(p, "__init__.py")
                return (q if os.path.isfile(q) else None), True
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        st = stubs.get(name, self)
        if st is not None:
            self.mods[name] = st
            return st
        f = self.find(name)
        if f is None:
            return None
        if "." in name:
            self.load(name.rpartition(".")[0])
            if name in self.mods:       # the package imports it
                return self.mods[name]
        path, pkg = f
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = []
        self.mods[name] = m
        sys.modules[name] = m
        if path is not None:
            self.exec_file(m, path, name)
        if "." in name:
            setattr(self.load(name.rpartition(".")[0]), name.rpartition(".")[2], m)
        return m

    def load_path(self, path, name):
        """a file that is not importable by name (e.g. 2json.py)"""
        m = types.ModuleType(name)
        m.__file__ = path
        self.mods[name] = m
        sys.modules[name] = m
        self.exec_file(m, path, name)
        return m

    def exec_file(self, m, path, name):
        src = open(path, encoding="utf-8").read()
        tree = ast.parse(src, path)
        g = m.__dict__
        b = dict(builtins.__dict__)
        b["__import__"] = self.imp
        g["__builtins__"] = b
        if self.symbolic:
            tree = ast.fix_missing_locations(Rewrite().visit(tree))
            g["__sx_call__"] = sx_call
            g["__sx_getitem__"] = sx_getitem
            g["__sx_slice__"] = slice
            g["__sx_fstr__"] = symstr.fstring
            g["__sx_in__"] = sx_in
            rel = os.path.relpath(path, REPO)
            ent = self.entered

            def enter(q):
                ent.add(f"{rel}:{q}")
            g["__sx_enter__"] = enter
        code = compile(tree, path, "exec", dont_inherit=True)
        try:
            exec(code, g)
        except BaseException:
            self.mods.pop(name, None)
            sys.modules.pop(name, None)
            raise

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or ""
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = f"{pkg}.{name}" if name else pkg
        m = self.load(name)
        if m is None:
            top = name.partition(".")[0]
            if top in self.mods or self.find(top):
                raise ModuleNotFoundError(f"No module named {name!r}", name=name)
            return builtins.__import__(name, globals, locals, fromlist, 0)
        if fromlist:
            for n in fromlist:
                if n != "*" and not hasattr(m, n) and hasattr(m, "__path__"):
                    self.load(f"{name}.{n}")
            return m
        return self.load(name.partition(".")[0])


_loaders = {}


def get(rootset, symbolic):
    k = (rootset, symbolic)
    if k not in _loaders:
        _loaders[k] = Loader(rootset, symbolic)
    return _loaders[k]
