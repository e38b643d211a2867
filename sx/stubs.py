"""Stand-ins for third-party packages that are not installed here.

They carry no logic of the repository.  Samplers, annealers and random sources return
symbolic (unconstrained) results in symbolic mode and the recorded values in a replay.
"""
import copy
import math
import os
import sys
import types
import numpy as np


class Anything:
    """An object whose attributes and calls are again opaque objects."""

    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return Anything()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Anything()

    def __iter__(self):
        return iter(())


class AnyModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        t = type(n, (Anything,), {})
        setattr(self, n, t)
        return t


def anymod(name, **attrs):
    m = AnyModule(name)
    m.__path__ = []
    for k, v in attrs.items():
        setattr(m, k, v)
    return m


# --------------------------------------------------------------------------
# random
# --------------------------------------------------------------------------
def _ctx():
    from . import explore
    c = explore.CTX
    if c is None:
        raise RuntimeError("random source used outside a run")
    return c


GRID = -12


def _random_module(loader):
    from .loader import sx_getitem
    m = types.ModuleType("random")
    m.random = lambda: _ctx().draw_real(0, 1 - 2.0 ** GRID, GRID)

    def randint(a, b):
        import operator
        return _ctx().draw_int(operator.index(a), operator.index(b))
    m.randint = randint

    def randrange(start, stop=None, step=1):
        import operator
        lo, hi = (0, start) if stop is None else (start, stop)
        lo, hi = operator.index(lo), operator.index(hi)
        if hi <= lo:
            raise ValueError(f"empty range for randrange() ({lo}, {hi}, {hi - lo})")
        if step != 1:
            return lo + step * _ctx().draw_int(0, (hi - lo + step - 1) // step - 1)
        return _ctx().draw_int(lo, hi - 1)
    m.randrange = randrange

    def choice(xs):
        if not len(xs):
            raise IndexError("Cannot choose from an empty sequence")
        return sx_getitem(xs, _ctx().draw_int(0, len(xs) - 1))
    m.choice = choice
    m.uniform = lambda a, b: a + (b - a) * m.random()
    m.seed = lambda *a, **k: None

    def shuffle(x):
        for i in reversed(range(1, len(x))):
            j = int(_ctx().draw_int(0, i))
            x[i], x[j] = x[j], x[i]
    m.shuffle = shuffle

    def sample(xs, k):
        pool = list(xs)
        shuffle(pool)
        return pool[:k]
    m.sample = sample
    m.getrandbits = lambda k: _ctx().draw_int(0, 2 ** k - 1)
    return m


# --------------------------------------------------------------------------
# simanneal
# --------------------------------------------------------------------------
def _simanneal(loader):
    m = types.ModuleType("simanneal")

    class Annealer:
        """simanneal's loop with a bounded number of steps; whether a worsening move is
        accepted is unconstrained (it depends on a random draw and the temperature)."""
        Tmax = 25000.0
        Tmin = 2.5
        steps = 50000
        updates = 100
        copy_strategy = "deepcopy"
        user_exit = False
        save_state_on_exit = False
        best_state = None
        best_energy = None
        start = None

        def __init__(self, initial_state=None, load_state=None):
            if initial_state is None:
                raise ValueError("No valid values supplied for neither initial_state nor load_state")
            self.state = self.copy_state(initial_state)

        def copy_state(self, state):
            if self.copy_strategy == "deepcopy":
                return copy.deepcopy(state)
            if self.copy_strategy == "slice":
                return state[:]
            if self.copy_strategy == "method":
                return state.copy()
            raise RuntimeError("No implementation found for the self.copy_strategy")

        def update(self, *a, **k):
            pass

        default_update = update

        def set_user_exit(self, *a):
            self.user_exit = True

        def set_schedule(self, schedule):
            self.Tmax, self.Tmin, self.steps, self.updates = (schedule["tmax"], schedule["tmin"], int(schedule["steps"]), int(schedule["updates"]))

        def auto(self, *a, **k):
            return {"tmax": self.Tmax, "tmin": self.Tmin, "steps": self.steps, "updates": self.updates}

        def anneal(self):
            c = _ctx()
            E = self.energy()
            prev, prevE = self.copy_state(self.state), E
            self.best_state, self.best_energy = self.copy_state(self.state), E
            for _ in range(min(c.anneal_steps, self.steps)):
                dE = self.move()
                if dE is None:
                    E = self.energy()
                    dE = E - prevE
                else:
                    E += dE
                accept = True
                if dE > 0:
                    accept = bool(c.draw_bool())
                if not accept:
                    self.state, E = self.copy_state(prev), prevE
                else:
                    prev, prevE = self.copy_state(self.state), E
                    if E < self.best_energy:
                        self.best_state, self.best_energy = self.copy_state(self.state), E
            self.state = self.copy_state(self.best_state)
            return self.best_state, self.best_energy
    m.Annealer = Annealer
    return m


# --------------------------------------------------------------------------
# dimod and samplers
# --------------------------------------------------------------------------
def _dimod(loader):
    m = anymod("dimod")
    m.BINARY = "BINARY"
    m.SPIN = "SPIN"

    class Vartype:
        BINARY = "BINARY"
        SPIN = "SPIN"
    m.Vartype = Vartype

    class BinaryQuadraticModel:
        def __init__(self, *args, vartype=None, offset=0.0):
            args = list(args)
            if args and isinstance(args[-1], str):
                vartype = args.pop()
            linear = args[0] if args else {}
            quadratic = args[1] if len(args) > 1 else {}
            if len(args) > 2:
                offset = args[2]
            self.vartype = vartype
            self.offset = offset
            self.linear = {}
            self.quadratic = {}
            for v, b in dict(linear).items():
                self.add_linear(v, b)
            for (u, v), b in dict(quadratic).items():
                self.add_quadratic(u, v, b)

        def add_variable(self, v, b=0.0):
            self.linear.setdefault(v, 0.0)
            self.linear[v] = self.linear[v] + b

        add_linear = add_variable

        def add_quadratic(self, u, v, b):
            if u == v:
                # x*x == x for binary variables; a constant for spins
                if self.vartype == "SPIN":
                    self.add_variable(u)
                    self.offset = self.offset + b
                else:
                    self.add_variable(u, b)
                return
            self.add_variable(u)
            self.add_variable(v)
            k = (u, v) if (u, v) in self.quadratic or (v, u) not in self.quadratic else (v, u)
            self.quadratic[k] = self.quadratic.get(k, 0.0) + b

        add_interaction = add_quadratic

        @property
        def variables(self):
            return list(self.linear)

        def energy(self, sample):
            e = self.offset
            for v, b in self.linear.items():
                e = e + b * sample[v]
            for (u, v), b in self.quadratic.items():
                e = e + b * sample[u] * sample[v]
            return e

        @classmethod
        def from_qubo(cls, Q, offset=0.0):
            return cls({}, Q, offset, "BINARY")
    m.BinaryQuadraticModel = m.BQM = BinaryQuadraticModel

    class ExactSolver(Anything):
        # its answer is only printed by the code; the model gives an arbitrary sample
        def sample(self, bqm, **k):
            return SampleSet(bqm, record=False)
        parameters = {}
    m.ExactSolver = ExactSolver
    return m


class _Datum:
    def __init__(self, sample, energy):
        self.sample, self.energy, self.num_occurrences = sample, energy, 1


class SampleSet:
    def __init__(self, bqm, record=True):
        c = _ctx()
        self.variables = bqm.variables
        if record:
            bits = [c.draw_int(0, 1) for _ in self.variables]
            c.event("sample", bqm, dict(zip(self.variables, bits)))
        else:
            bits = [0 for _ in self.variables]
        self.bits = bits

        class R:
            pass
        self.record = R()
        self.record.sample = c.mkarr([bits], (1, len(bits)), np.int8)
        self.record.energy = [0.0]
        self.first = _Datum(dict(zip(self.variables, bits)), 0.0)
        self.vartype = bqm.vartype

    def samples(self, *a, **k):
        return iter([self.first.sample])

    def data(self, *a, **k):
        return iter([self.first])

    def __iter__(self):
        return self.samples()

    def lowest(self, *a, **k):
        return self

    aggregate = lowest

    def __str__(self):
        return "<sampleset>"


class Sampler(Anything):
    def sample(self, bqm, *a, **k):
        return SampleSet(bqm)

    def sample_qubo(self, Q, *a, **k):
        import dimod
        return SampleSet(dimod.BinaryQuadraticModel.from_qubo(Q))


def _neal(loader):
    return anymod("neal", SimulatedAnnealingSampler=Sampler)


def _greedy(loader):
    return anymod("greedy", SteepestDescentSolver=Sampler, SteepestDescentSampler=Sampler)


def _dwave(name):
    return anymod(name, DWaveSampler=Sampler, EmbeddingComposite=Sampler, LeapHybridSampler=Sampler, SimulatedAnnealingSampler=Sampler)


# --------------------------------------------------------------------------
# keras / tensorflow: plain containers
# --------------------------------------------------------------------------
class KerasTensorShape:
    def __init__(self, shape):
        self.shape = shape


def _layer(name):
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def get_weights(self):
        return [np_copy(w) for w in self.weights]

    def np_copy(w):
        return w.copy() if hasattr(w, "copy") else w

    def get_config(self):
        return dict(getattr(self, "config", {}))
    return type(name, (), {"__init__": __init__, "get_weights": get_weights, "get_config": get_config})


_KL = {}


def _keras_layers():
    if not _KL:
        for n in ("Layer", "Dense", "LSTM", "InputLayer", "Dropout", "Flatten", "Reshape", "Conv2D", "MaxPool2D", "MaxPooling2D",
                  "Activation", "ReLU", "Softmax", "BatchNormalization", "GRU", "Lambda", "Embedding", "Bidirectional"):
            _KL[n] = _layer(n)
    m = types.ModuleType("tensorflow.keras.layers")
    for n, c in _KL.items():
        setattr(m, n, c)
    m.Input = lambda *a, **k: Anything()
    return m


def _sigmoid(x):
    from . import sym, arr
    if sym.S is not None and arr.has_arr_or_sym(x):
        return arr.sigmoid(x)
    x = np.asarray(x, dtype=float) if not isinstance(x, np.ndarray) else x
    with np.errstate(over="ignore"):
        return np.where(x >= 0, 1 / (1 + np.exp(-np.abs(x))), np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x)))).astype(np.result_type(x, np.float32))


def _tf(loader):
    m = anymod("tensorflow")
    m.math = types.SimpleNamespace(sigmoid=_sigmoid, tanh=_np_fun(np.tanh), exp=_np_fun(np.exp))
    m.sigmoid, m.tanh = _sigmoid, _np_fun(np.tanh)
    m.nn = types.SimpleNamespace(sigmoid=_sigmoid, tanh=_np_fun(np.tanh))
    k = anymod("tensorflow.keras")
    k.layers = _keras_layers()
    k.activations = _activations()
    m.keras = k

    class Model:
        def __init__(self, layers=(), **kw):
            self.layers = list(layers)
            self.__dict__.update(kw)
    k.Model = Model
    k.models = types.SimpleNamespace(Model=Model, Sequential=Model, load_model=_load_model)
    k.Sequential = Model
    m.Tensor = type("Tensor", (), {})
    m.float32 = np.float32
    m.lite = _ctx_free_tfl()
    return m


def _load_model(path, *a, **k):
    return _ctx().files[str(path)]


def _np_fun(f):
    def h(x):
        from . import sym, arr
        if sym.S is not None and arr.has_arr_or_sym(x):
            return arr.call_np(f, (x,), {})
        return f(x)
    return h


def _relu(x, *a, **k):
    from . import sym, arr
    if sym.S is not None and arr.has_arr_or_sym(x):
        return arr.call_np(np.maximum, (x, 0), {})
    return np.maximum(x, 0)


def _named(n, f):
    def g(x, *a, **k):
        return f(x)
    g.__name__ = n
    g.__qualname__ = n
    return g


def _activations():
    m = types.ModuleType("tensorflow.keras.activations")
    m.sigmoid = _named("sigmoid", _sigmoid)
    m.tanh = _named("tanh", _np_fun(np.tanh))
    m.relu = _named("relu", _relu)
    m.linear = _named("linear", lambda x: x)
    m.softmax = _named("softmax", lambda x: x)
    m.relu6 = _named("relu6", _relu)
    return m


def _tensorflow(name, loader):
    tf = loader.mods.get("tensorflow") or loader.load("tensorflow")
    if name == "tensorflow.keras":
        return tf.keras
    if name == "tensorflow.keras.layers":
        return tf.keras.layers
    if name == "tensorflow.keras.activations":
        return tf.keras.activations
    if name == "tensorflow.keras.models":
        m = anymod(name, load_model=_load_model, Model=tf.keras.Model, Sequential=tf.keras.Model)
        return m
    if name == "tensorflow.lite":
        return _ctx_free_tfl()
    return anymod(name)


def _ctx_free_tfl():
    class Interpreter:
        def __init__(self, model_path=None, **k):
            self.m = _ctx().files[str(model_path)]

        def allocate_tensors(self):
            pass

        def get_tensor(self, i):
            return self.m.get_tensor(i)

        def get_tensor_details(self):
            return self.m.tensor_details
    return anymod("tensorflow.lite", Interpreter=Interpreter)


def _pydantic(loader):
    """models of pydantic 2 as far as plain data classes need them: defaults are copied, mappings become models, fields of the
    wrong kind are rejected, the first member of a union that accepts the value is taken, unknown fields are ignored"""
    import typing
    m = anymod("pydantic")
    none = object()

    class ValidationError(ValueError):
        pass

    class Factory:
        def __init__(self, f):
            self.f = f

    def default(d):
        return d.f() if isinstance(d, Factory) else copy.deepcopy(d)

    def symbolic(v):
        return hasattr(v, "z")

    def coerce(t, v, where):
        if t is None or t is type(None):
            if v is None:
                return None
            raise ValidationError(f"{where}: None expected")
        o = typing.get_origin(t)
        if o is typing.Union or o is types.UnionType:
            opts = typing.get_args(t)
            for x in opts:
                if isinstance(x, type) and type(v) is x:
                    return v
            for x in opts:
                try:
                    return coerce(x, v, where)
                except ValidationError:
                    pass
            raise ValidationError(f"{where}: no member of the union accepts {v!r}")
        if o is typing.Literal:
            if any(type(x) is type(v) and x == v for x in typing.get_args(t)):
                return v
            raise ValidationError(f"{where}: {v!r} is not one of {typing.get_args(t)}")
        if o is dict:
            if not isinstance(v, dict):
                raise ValidationError(f"{where}: mapping expected")
            kt, vt = typing.get_args(t)
            return {coerce(kt, k, where): coerce(vt, x, f"{where}.{k}") for k, x in v.items()}
        if o in (list, tuple, set) or t in (list, tuple, set):
            if not isinstance(v, (list, tuple, set)):
                raise ValidationError(f"{where}: sequence expected")
            at = [x for x in typing.get_args(t) if x is not Ellipsis]
            return (o or t)(coerce(at[0], x, where) if at else x for x in v)
        if isinstance(t, type) and issubclass(t, BaseModel):
            if isinstance(v, t):
                return v
            if isinstance(v, dict):
                return t(**v)
            raise ValidationError(f"{where}: {t.__name__} expected")
        if symbolic(v):
            return v
        if t is str:
            if isinstance(v, str):
                return v
            raise ValidationError(f"{where}: string expected")
        if t in (int, float, bool):
            if isinstance(v, str):
                try:
                    v = {"true": True, "false": False}[v.lower()] if t is bool else t(v)
                except (ValueError, KeyError):
                    raise ValidationError(f"{where}: {t.__name__} expected")
            if v is None or not isinstance(v, (int, float, np.integer, np.floating, np.bool_)):
                raise ValidationError(f"{where}: {t.__name__} expected")
            if t is int and int(v) != v or t is bool and v not in (0, 1):
                raise ValidationError(f"{where}: {t.__name__} expected")
            return t(v)
        return v

    class BaseModel:
        __slots__ = ("_sx_set",)

        def __init_subclass__(cls, **k):
            super().__init_subclass__()
            g = [f.__globals__ for f in cls.__dict__.values() if hasattr(f, "__globals__")]
            g += [f.__func__.__globals__ for f in cls.__dict__.values() if isinstance(f, (classmethod, staticmethod)) and hasattr(f.__func__, "__globals__")]
            f = sys._getframe(1)
            while f is not None and f.f_globals.get("__name__") != cls.__module__:
                f = f.f_back
            cls._sx_globals = f.f_globals if f is not None else g[0] if g else {}

        @classmethod
        def _sx_fields(cls):
            out = {}
            for k in reversed(cls.__mro__):
                if not hasattr(k, "_sx_globals") or "__annotations__" not in k.__dict__:
                    continue
                for n, a in k.__dict__["__annotations__"].items():
                    if n.startswith("_") or "ClassVar" in str(a):
                        continue
                    t = a
                    if isinstance(a, str):
                        try:
                            t = eval(a, dict(k._sx_globals, int=int, float=float, str=str, bool=bool, dict=dict, list=list, tuple=tuple, set=set))
                        except Exception:
                            t = none
                    out[n] = (t, k.__dict__.get(n, none))
            return out

        def __init__(self, **kw):
            fields = type(self)._sx_fields()
            for n, (t, d) in fields.items():
                if n in kw:
                    v = kw[n] if t is none else coerce(t, kw[n], f"{type(self).__name__}.{n}")
                elif d is none:
                    raise ValidationError(f"{type(self).__name__}.{n}: missing")
                else:
                    v = default(d)
                object.__setattr__(self, n, v)
            if getattr(getattr(type(self), "Config", None), "extra", None) == "forbid" and set(kw) - set(fields):
                raise ValidationError(f"{type(self).__name__}: unknown fields {sorted(set(kw) - set(fields))}")
            self._sx_set = [n for n in fields if n in kw]

        @classmethod
        def parse_obj(cls, o):
            return cls(**o)

        model_validate = parse_obj

        def dict(self, exclude_none=False, exclude_unset=False, **k):
            def plain(v):
                if isinstance(v, BaseModel):
                    return v.dict(exclude_none, exclude_unset)
                if isinstance(v, dict):
                    return {a: plain(b) for a, b in v.items()}
                return [plain(x) for x in v] if isinstance(v, (list, tuple)) else v
            return {n: plain(getattr(self, n)) for n in type(self)._sx_fields()
                    if not (exclude_none and getattr(self, n) is None) and not (exclude_unset and n not in self._sx_set)}

        model_dump = dict

        def copy(self, update=None, deep=False, **k):
            o = copy.copy(self) if not deep else copy.deepcopy(self)
            for n, v in (update or {}).items():
                setattr(o, n, v)
            return o

        model_copy = copy

        def __eq__(self, other):
            return type(self) is type(other) and self.dict() == other.dict()

        __hash__ = object.__hash__

    def Field(default=none, default_factory=None, **k):
        return Factory(default_factory) if default_factory else default
    m.BaseModel, m.Field, m.ValidationError = BaseModel, Field, ValidationError
    m.validator = lambda *a, **k: (lambda f: f)
    m.root_validator = m.field_validator = m.model_validator = m.validator
    m.ConfigDict = lambda **k: k
    return m


# --------------------------------------------------------------------------
# tflite flatbuffer schema: enumerations with the schema's numbers
# --------------------------------------------------------------------------
_BUILTIN = dict(ADD=0, AVERAGE_POOL_2D=1, CONCATENATION=2, CONV_2D=3, DEPTHWISE_CONV_2D=4, DEPTH_TO_SPACE=5, DEQUANTIZE=6,
                EMBEDDING_LOOKUP=7, FLOOR=8, FULLY_CONNECTED=9, HASHTABLE_LOOKUP=10, L2_NORMALIZATION=11, L2_POOL_2D=12,
                LOCAL_RESPONSE_NORMALIZATION=13, LOGISTIC=14, LSH_PROJECTION=15, LSTM=16, MAX_POOL_2D=17, MUL=18, RELU=19,
                RELU_N1_TO_1=20, RELU6=21, RESHAPE=22, RESIZE_BILINEAR=23, RNN=24, SOFTMAX=25, SPACE_TO_DEPTH=26, SVDF=27,
                TANH=28, CONCAT_EMBEDDINGS=29, SKIP_GRAM=30, CALL=31, CUSTOM=32, QUANTIZE=114)
_TYPES = dict(FLOAT32=0, FLOAT16=1, INT32=2, UINT8=3, INT64=4, STRING=5, BOOL=6, INT16=7, COMPLEX64=8, INT8=9, FLOAT64=10)


def _tflite(loader):
    m = anymod("tflite")
    m.BuiltinOperator = type("BuiltinOperator", (), _BUILTIN)
    m.TensorType = type("TensorType", (), _TYPES)

    class Model:
        @staticmethod
        def GetRootAsModel(buf, off):
            return _ctx().files["tflite"]

        GetRootAs = GetRootAsModel
    m.Model = Model
    m.Operator = type("Operator", (), {})
    m.Tensor = type("Tensor", (), {})
    return m


def _onnx(loader):
    m = anymod("onnx")
    m.load = lambda p, *a, **k: _ctx().files[str(p)]
    return m


def _yaml(loader):
    """nested mappings of plain scalars"""
    def scalar(t):
        t = t.strip()
        if t in ("", "~", "null"):
            return None
        if t in ("{}", "[]"):
            return {} if t == "{}" else []
        if t.lower() in ("true", "false"):
            return t.lower() == "true"
        if t[0] in "\"'" and t[-1] == t[0]:
            return t[1:-1]
        for f in (int, float):
            try:
                return f(t)
            except ValueError:
                pass
        return t

    def load(f, *a, **k):
        text = f if isinstance(f, str) else f.read()
        root, stack = {}, []
        for line in text.splitlines():
            line = line.split(" #")[0].rstrip()
            if not line.strip() or line.strip().startswith("#") or line.strip() == "---":
                continue
            ind = len(line) - len(line.lstrip())
            key, _, val = line.strip().partition(":")
            while stack and stack[-1][0] >= ind:
                stack.pop()
            at = stack[-1][1] if stack else root
            if val.strip():
                at[key] = scalar(val)
            else:
                at[key] = {}
                stack.append((ind, at[key]))
        return root
    return anymod("yaml", load=load, safe_load=load, full_load=load, FullLoader=None, SafeLoader=None)


_FIXED = {
    "yaml": _yaml, "simanneal": _simanneal, "dimod": _dimod, "neal": _neal, "greedy": _greedy,
    "tensorflow": _tf, "pydantic": _pydantic, "tflite": _tflite, "onnx": _onnx, "random": _random_module,
}
_ANY = ("pandas", "seaborn", "matplotlib", "keras", "qiskit", "qiskit_optimization", "qiskit_algorithms", "qiskit_aer",
        "qiskit_ibm_runtime", "flatbuffers", "pytest", "setuptools", "netron", "onnxruntime", "yaml", "tqdm", "rich", "mosquitto", "paho")


def get(name, loader):
    top = name.partition(".")[0]
    if name in _FIXED:
        return _FIXED[name](loader)
    if top == "tensorflow":
        return _tensorflow(name, loader)
    if top == "dwave":
        return _dwave(name)
    if name == "keras.models":
        return anymod(name, load_model=_load_model)
    if top in _ANY:
        if loader.find(top) is not None:
            return None
        m = anymod(name)
        if name == "qiskit.visualization":
            # qiskit's package exports what its modules import
            m.__all__ = ["os", "sys"]
            m.os, m.sys = os, sys
        return m
    return None
