"""Path exploration: runs a harness over the instrumented code, forking at every
undetermined branch, and asks the solver about every assertion."""
import copy
import math
import random
import time
import traceback
import zlib
from fractions import Fraction
import numpy as np
import z3
from . import sym, arr
from .sym import SV, Unsupported, PathEnd, BudgetExceeded, Stats
from .arr import SArr

CTX = None
SEED = 1
HUNT_S = 20     # seconds of further questions after an undecided assertion, per case


class CheckFailed(Exception):
    def __init__(self, label, msg=""):
        super().__init__(f"{label}: {msg}" if msg else label)
        self.label = label
        self.msg = msg


class AssumeFailed(BaseException):
    pass


class Skip(BaseException):
    """the harness decided this case does not apply (e.g. optional API absent)"""


# --------------------------------------------------------------------------
# specification arithmetic usable in both modes
# --------------------------------------------------------------------------
def _sym(*xs):
    return any(isinstance(x, (SV, SArr)) for x in xs)


def ex(x):
    """exact value of a number (Fraction or exact SV)"""
    if isinstance(x, SArr):
        x = x._one()
    if isinstance(x, np.ndarray):
        x = x.reshape(-1)[0] if x.size == 1 else _bad_size(x)
    if isinstance(x, SV):
        return sym.cast(x, "exact")
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (float, np.floating)) and not math.isfinite(x):
        raise CheckFailed("finite", f"non-finite value {x}")
    if not sym.is_num(x):
        raise CheckFailed("number", f"not a number: {type(x).__name__}")
    return sym.frac(x)


def _bad_size(x):
    raise CheckFailed("shape", f"expected a single number, got shape {x.shape}")


def exl(x):
    """flat list of exact values"""
    if isinstance(x, SArr):
        return [ex(e) for e in x.v.reshape(-1)]
    if isinstance(x, np.ndarray):
        return [ex(e) for e in x.reshape(-1)]
    if isinstance(x, (list, tuple)):
        r = []
        for e in x:
            r.extend(exl(e))
        return r
    return [ex(x)]


def shape(x):
    if isinstance(x, (SArr, np.ndarray, np.generic)):
        return tuple(x.shape)
    if isinstance(x, SV):
        return ()
    if isinstance(x, (list, tuple)):
        return (len(x),) + (shape(x[0]) if len(x) else ())
    return ()


def floor(x):
    x = ex(x)
    return sym.floor(x)


def ceil(x):
    return sym.ceil(ex(x))


def trunc(x):
    return sym.trunc(ex(x))


def rint(x):
    """nearest, ties to even"""
    return sym.rint(ex(x))


def fn(name, x):
    """the real function (tanh, exp, sigmoid, ...) of an exact number"""
    x = ex(x)
    if isinstance(x, SV):
        return sym.cast(sym.fun(name, x, "pyfloat"), "exact")
    if name == "nrecip":
        return -1 / x
    return Fraction(sym.FUNS[name][0](float(x)))


def ite(c, a, b):
    if isinstance(c, SV):
        return sym.ite(c, ex(a), ex(b), "exact")
    return ex(a) if c else ex(b)


def mn(*xs):
    r = ex(xs[0])
    for x in xs[1:]:
        r = sym.minimum(r, ex(x), "exact") if _sym(r, x) else min(r, ex(x))
    return r


def mx(*xs):
    r = ex(xs[0])
    for x in xs[1:]:
        r = sym.maximum(r, ex(x), "exact") if _sym(r, x) else max(r, ex(x))
    return r


def clamp(x, lo, hi):
    return mn(mx(x, lo), hi)


def ab(x):
    x = ex(x)
    return sym.absolute(x) if isinstance(x, SV) else abs(x)


def _z(c):
    if isinstance(c, SV):
        if c.k != "b":
            c = sym.compare("ne", c, 0)
            return _z(c)
        return c.z
    if isinstance(c, SArr):
        return _z(c._one())
    return z3.BoolVal(bool(c))


def _bv(z):
    return SV(z, "b", Fraction(0), Fraction(1), 0)


def And(*cs):
    if not any(isinstance(c, (SV, SArr)) for c in cs):
        return all(bool(c) for c in cs)
    return _bv(z3.And(*[_z(c) for c in cs]))


def Or(*cs):
    if not any(isinstance(c, (SV, SArr)) for c in cs):
        return any(bool(c) for c in cs)
    return _bv(z3.Or(*[_z(c) for c in cs]))


def Not(c):
    return _bv(z3.Not(_z(c))) if isinstance(c, (SV, SArr)) else not c


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if not _sym(a, b):
        return bool(a) == bool(b)
    return _bv(_z(a) == _z(b))


def eq(a, b):
    return sym.compare("eq", ex(a), ex(b)) if _sym(a, b) else ex(a) == ex(b)


def le(a, b):
    return sym.compare("le", ex(a), ex(b)) if _sym(a, b) else ex(a) <= ex(b)


def lt(a, b):
    return sym.compare("lt", ex(a), ex(b)) if _sym(a, b) else ex(a) < ex(b)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def near(a, b, tol):
    return le(ab(ex(a) - ex(b)), tol)


# --------------------------------------------------------------------------
# contexts
# --------------------------------------------------------------------------
class Base:
    anneal_steps = 2

    def __init__(self, case):
        self.case = case
        self.events = []
        self.observed = []
        self.ndraw = 0
        self.files = {}
        self.reached = {}

    def mod(self, name, rootset="main"):
        from . import loader
        ld = loader.get(rootset, self.symbolic)
        m = ld.load(name)
        if m is None:
            raise ModuleNotFoundError(name)
        return m

    def path_mod(self, rel, name, rootset):
        """a file of the repository not importable by name"""
        import os
        from . import loader
        ld = loader.get(rootset, self.symbolic)
        if name in ld.mods:
            return ld.mods[name]
        return ld.load_path(os.path.join(loader.REPO, rel), name)

    # ---- inputs ------------------------------------------------------------
    only = None     # pattern of the inputs that are symbolic; the others are arbitrary but fixed values of their range

    def _fixed(self, name, lo, hi):
        if self.only is None or self.only.search(name):
            return None
        n = zlib.crc32(name.encode()) * 2654435761 >> 7
        return int(lo) + n % (int(hi) - int(lo) + 1)

    def _name(self, name):
        if name in self.names:
            raise AssertionError(f"duplicate input {name}")
        self.names.add(name)

    def int(self, name, lo, hi):
        return self._int(name, lo, hi)

    def real(self, name, lo, hi, g=-10):
        """a Python float, a multiple of 2**g in [lo, hi]"""
        s = Fraction(2) ** g
        n0, n1 = math.ceil(Fraction(lo) / s), math.floor(Fraction(hi) / s)
        n = self._int(name, n0, n1)
        if isinstance(n, SV):
            self.real_input(n.z, name, n0, n1)
            return SV(z3.ToReal(n.z) * sym.zreal(s), "f", n0 * s, n1 * s, g)
        return float(n * s)

    def bool(self, name):
        n = self._int(name, 0, 1)
        return _bv(n.z == 1) if isinstance(n, SV) else bool(n)

    def string(self, name, n, lo=0, hi=127):
        """any ASCII string of length n"""
        ch = [self._int(f"{name}.{i}", lo, hi) for i in range(n)]
        if self.symbolic:
            from . import symstr
            return symstr.make(ch)
        return "".join(map(chr, ch))

    def np_int(self, name, lo, hi, dtype):
        n = self._int(name, lo, hi)
        dt = np.dtype(dtype)
        return n.with_dt(dt) if isinstance(n, SV) else dt.type(n)

    def np_real(self, name, lo, hi, g=-10, dtype=np.float64):
        x = self.real(name, lo, hi, g)
        dt = np.dtype(dtype)
        return x.with_dt(dt) if isinstance(x, SV) else dt.type(x)

    def choice(self, name, options):
        """one of the options; every option is explored"""
        i = self._int(name, 0, len(options) - 1)
        if isinstance(i, SV):
            i = int(sym.concretize(i))
        return options[i]

    def iarr(self, name, shape, lo, hi, dtype=np.int64):
        return self._fill(name, shape, np.dtype(dtype), lambda nm: self._int(nm, lo, hi))

    def rarr(self, name, shape, lo, hi, g=-10, dtype=np.float64):
        return self._fill(name, shape, np.dtype(dtype), lambda nm: self.real(nm, lo, hi, g))

    def _fill(self, name, shape, dt, mk):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        items = []
        for ix in np.ndindex(shape):
            items.append(mk(name + "[" + ",".join(map(str, ix)) + "]"))
        return self.mkarr(items, shape, dt)

    def mkarr(self, items, shape, dt):
        """array from scalars; native in concrete mode"""
        dt = np.dtype(dt)
        flat = []

        def rec(x):
            if isinstance(x, (list, tuple)):
                for y in x:
                    rec(y)
            else:
                flat.append(x)
        rec(items)
        if self.symbolic:
            vals = []
            for x in flat:
                if isinstance(x, SV):
                    k = sym.dom_kind(dt)
                    x = SV(x.z, k, x.lo, x.hi, x.g) if x.k in ("i", "f") and k in ("i", "f") else x
                    vals.append(x)
                else:
                    vals.append(dt.type(x).item())
            return SArr(arr.oarr(tuple(shape), vals), dt)
        return np.array(flat, dtype=dt).reshape(shape)

    def const(self, x, dtype=None):
        """constant array: instrumented form in symbolic mode"""
        a = np.array(x, dtype=dtype)
        return arr.wrap(a) if self.symbolic else a

    # ---- nondeterminism of the environment -------------------------------------
    def _draw(self):
        self.ndraw += 1
        return f"draw{self.ndraw}"

    def draw_int(self, lo, hi):
        return self.int(self._draw(), lo, hi)

    def draw_real(self, lo, hi, g):
        return self.real(self._draw(), lo, hi, g)

    def draw_bool(self):
        return self.bool(self._draw())

    def event(self, name, *args):
        self.events.append((name, args))

    def dumps(self, x):
        from . import loader
        return loader._dumps(x)

    def loads(self, s):
        from . import loader
        return loader._loads(s)

    def expect_raises(self, f, types):
        try:
            f()
        except types:
            return True
        return False

    def eq_list(self, got, want, label, tol=0):
        g, w = exl(got), exl(want)
        self.check(len(g) == len(w), label + " length", f"{len(g)} != {len(w)}")
        for i, (a, b) in enumerate(zip(g, w)):
            self.check(eq(a, b) if tol == 0 else near(a, b, tol), label)

    def same_shape(self, got, want, label="shape"):
        self.check(shape(got) == tuple(want), label, f"{shape(got)} != {tuple(want)}")


class Concrete(Base):
    symbolic = False

    def __init__(self, case, vals):
        super().__init__(case)
        self.vals = vals
        self.names = set()
        self.tables = {}

    def possible(self, cond, label):
        pass

    def _int(self, name, lo, hi):
        self._name(name)
        n = self._fixed(name, lo, hi)
        if n is not None:
            return n
        if name in self.vals:
            return int(self.vals[name])
        return max(lo, min(hi, 0))

    def check(self, cond, label, msg=""):
        self.reached[label] = self.reached.get(label, 0) + 1
        if isinstance(cond, np.ndarray):
            cond = cond.all()
        if not cond:
            raise CheckFailed(label, msg)

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def observe(self, name, x):
        self.observed.append((name, x))

    def opaque(self, name, lo=-4, hi=4, g=-10):
        """an arbitrary function float -> float (a finite table in a replay)"""
        tab = self.tables.setdefault(name, {})
        order = []

        def f(x):
            def one(v):
                v = float(v)
                if v not in tab:
                    tab[v] = self.real(f"{name}#{len(tab)}", lo, hi, g)
                return tab[v]
            if isinstance(x, np.ndarray) and x.ndim:
                return np.array([one(v) for v in x.reshape(-1)]).reshape(x.shape)
            return one(x)
        return f


class Path(Base):
    symbolic = True

    def __init__(self, case, prefix, ex_):
        super().__init__(case)
        self.ex = ex_
        self.prefix = prefix
        self.taken = []
        self.cache = {}
        self.keep = []
        self.errs = []
        self.ebound = {}
        self.apps = []
        self.lows = {}
        self.breakpoints = ex_.breakpoints
        self.poison = None
        self.names = set()
        self.inputs = {}
        self.n = 0
        self.solver = z3.Solver()
        self.solver.set("random_seed", SEED)
        self.cons = []
        self.facts = []
        self.defs = {}
        self.cuts = {}
        self.heavy = False
        self.model = self.covered = self.last_covered = None
        self.tables = {}
        self.rsubs = []
        self.relaxed = {}
        self.zb = {}

    # ---- solver plumbing -------------------------------------------------------
    def fresh_real(self, p):
        self.n += 1
        return z3.Real(f"{p}!{self.n}")

    def fresh_int(self, p):
        self.n += 1
        return z3.Int(f"{p}!{self.n}")

    def define(self, z):
        """a constraint every choice of the inputs satisfies: what an introduced variable stands for"""
        vs = zvars(z)
        own = max((int(v.rpartition("!")[2]) for v in vs if "!" in v), default=None)
        if own is None:
            return self.add(z)
        self.defs.setdefault(own, []).append(z)
        self.cons.append(z)
        self.solver.add(z)
        if self.model is not None and (self.covered is None or vs <= self.covered):
            try:
                if not z3.is_true(self.model.eval(z, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def cut(self, sv):
        """a name for a bounded integral term; what it stands for is left out of the first attempts to refute"""
        z = sym.to_int(sv.z) if not sv.z.is_int() else sv.z
        y = self.fresh_int("c")
        self.zb[y.decl().name()] = (sv.lo, sv.hi)
        self.define(z3.And(y >= int(sv.lo), y <= int(sv.hi)))
        self.cuts.setdefault(self.n, []).append(y == z)
        self.heavy = True
        return SV(y, sv.k, sv.lo, sv.hi, sv.g, sv.dt)

    def slice(self, extra, about=None):
        """the path conditions, `extra`, and the definitions of the variables they mention"""
        out = self.facts + list(extra)
        V, todo = set(), set()

        def note(z):
            for v in zvars(z):
                if v not in V:
                    V.add(v)
                    if "!" in v:
                        todo.add(int(v.rpartition("!")[2]))
        for z in out:
            note(z)
        for z in () if about is None else about if isinstance(about, list) else (about,):
            note(z)
        done = set()
        while todo:
            i = todo.pop()
            if i in done:
                continue
            done.add(i)
            for z in (*self.defs.get(i, ()), *self.cuts.get(i, ())):
                out.append(z)
                note(z)
        return (None, None) if len(done) == len(self.defs) else (out, V)

    def add(self, z):
        self.cons.append(z)
        self.facts.append(z)
        self.solver.add(z)
        if self.model is not None and self.covered is not None and not zvars(z) <= self.covered:
            self.model = None
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(z, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def solve(self, extra=(), timeout=None, about=None):
        """-> ('sat', model) | ('unsat', None) | ('unknown', None)"""
        self.last_covered = None
        if self.heavy:
            sl, V = self.slice(extra, about)
            if self.cuts:
                if sl is None:
                    sl = self.cons + [z for zs in self.cuts.values() for z in zs] + list(extra)
                r, m = self.ex.solve_fresh(sl, timeout or self.ex.branch_timeout)
                self.last_covered = V if r == "sat" else None
                return r, m
            if sl is not None:
                r, m = self.ex.solve_fresh(sl, min(timeout or self.ex.branch_timeout, 3000))
                if r != "unknown":
                    self.last_covered = V
                    return r, m
        return self.ex.solve(self.solver, self.cons, list(extra), timeout)

    def cone(self, extra):
        """the constraints about the variables of `extra` only; None when that is all of them"""
        V = set()
        for z in extra:
            V |= zvars(z)
        todo = [(z, zvars(z)) for z in self.cons]
        out, more = [], True
        while more:
            more, rest = False, []
            for z, vs in todo:
                if vs <= V:
                    out.append(z)
                elif any("!" in v and v in V for v in vs):
                    V |= vs
                    out.append(z)
                    more = True
                else:
                    rest.append((z, vs))
            todo = rest
        return out if todo else None

    def realify(self, zs):
        """the linear real relaxation: integers as reals, floors and remainders by their bounds"""
        memo, extra, n = {}, [], [0]
        I, R = z3.IntSort(), z3.RealSort()

        def fresh():
            n[0] += 1
            return z3.Real(f"lp!{n[0]}")

        def walk(t):
            k = t.get_id()
            if k in memo:
                return memo[k][1]
            kd = t.decl().kind()
            if t.num_args() == 0:
                if t.sort() == I:
                    r = z3.ToReal(t) if False else (z3.RealVal(str(t.as_long())) if z3.is_int_value(t) else z3.Real(t.decl().name() + "~i"))
                else:
                    r = t
            else:
                ch = [walk(a) for a in t.children()]
                if kd == z3.Z3_OP_TO_REAL:
                    r = ch[0]
                elif kd == z3.Z3_OP_TO_INT:
                    r = fresh()
                    extra.extend([r <= ch[0], r > ch[0] - 1])
                elif kd == z3.Z3_OP_IS_INT:
                    n[0] += 1
                    r = z3.Bool(f"lp!{n[0]}")
                elif kd in (z3.Z3_OP_MOD, z3.Z3_OP_REM):
                    r = fresh()
                    if z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
                        extra.extend([r >= 0, r <= t.arg(1).as_long() - 1])
                elif kd == z3.Z3_OP_IDIV:
                    r = fresh()
                    if z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
                        m = t.arg(1).as_long()
                        extra.extend([r * m <= ch[0], ch[0] <= r * m + m - 1])
                elif kd == z3.Z3_OP_ITE:
                    r = z3.If(*ch)
                elif kd == z3.Z3_OP_EQ:
                    r = ch[0] == ch[1]
                elif kd == z3.Z3_OP_DISTINCT:
                    r = z3.Distinct(*ch)
                elif kd == z3.Z3_OP_ADD:
                    r = z3.Sum(*ch)
                elif kd == z3.Z3_OP_MUL:
                    r = z3.Product(*ch)
                elif kd == z3.Z3_OP_SUB:
                    r = ch[0]
                    for a in ch[1:]:
                        r = r - a
                elif kd == z3.Z3_OP_UMINUS:
                    r = -ch[0]
                elif kd == z3.Z3_OP_LE:
                    r = ch[0] <= ch[1]
                elif kd == z3.Z3_OP_GE:
                    r = ch[0] >= ch[1]
                elif kd == z3.Z3_OP_LT:
                    r = ch[0] + 1 <= ch[1] if t.arg(0).is_int() else ch[0] < ch[1]
                elif kd == z3.Z3_OP_GT:
                    r = ch[0] >= ch[1] + 1 if t.arg(0).is_int() else ch[0] > ch[1]
                elif kd == z3.Z3_OP_NOT and t.arg(0).num_args() == 2 and t.arg(0).arg(0).sort() == I and t.arg(0).decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE):
                    a, b = walk(t.arg(0).arg(0)), walk(t.arg(0).arg(1))
                    r = a >= b + 1 if t.arg(0).decl().kind() == z3.Z3_OP_LE else a + 1 <= b
                elif kd in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR):
                    r = t.decl()(*ch)
                elif kd == z3.Z3_OP_DIV:
                    r = ch[0] / ch[1]
                else:
                    raise KeyError(kd)
            memo[k] = (t, r)
            return r
        try:
            return [walk(z) for z in zs] + extra
        except KeyError:
            return None

    def purify(self, zs):
        """products of variables as opaque bounded atoms (a weaker set of constraints); None when linear"""
        memo, atoms, extra, keep = {}, {}, [], []

        def flat(t, num, vs):
            if z3.is_int_value(t) or z3.is_rational_value(t):
                num.append(t)
            elif t.decl().kind() == z3.Z3_OP_MUL:
                for a in t.children():
                    flat(a, num, vs)
            elif t.decl().kind() == z3.Z3_OP_TO_REAL and t.arg(0).decl().kind() == z3.Z3_OP_MUL:
                flat(t.arg(0), num, vs)
            elif t.decl().kind() == z3.Z3_OP_POWER and z3.is_int_value(t.arg(1)) and 0 < t.arg(1).as_long() < 8:
                for _ in range(t.arg(1).as_long()):
                    flat(t.arg(0), num, vs)
            else:
                vs.append(t)

        def bounds(t):
            if t.decl().kind() == z3.Z3_OP_TO_REAL:
                t = t.arg(0)
            return self.zb.get(t.decl().name()) if z3.is_const(t) else None

        def atom(vs, real):
            key = tuple(sorted(v.arg(0).get_id() if v.decl().kind() == z3.Z3_OP_TO_REAL else v.get_id() for v in vs))
            allint = all(v.is_int() or v.decl().kind() == z3.Z3_OP_TO_REAL for v in vs)
            if key not in atoms:
                y = z3.Int(f"mono!{len(atoms)}") if allint else z3.Real(f"mono!{len(atoms)}")
                atoms[key] = y
                keep.extend(vs)
                bs = [bounds(v) for v in vs]
                if all(b is not None for b in bs):
                    lo, hi = bs[0]
                    for b in bs[1:]:
                        c = [lo * b[0], lo * b[1], hi * b[0], hi * b[1]]
                        lo, hi = min(c), max(c)
                    if len(set(key)) == 1 and len(key) == 2:
                        lo = max(lo, 0)
                    w = sym.zint if allint else sym.zreal
                    if allint:
                        lo, hi = math.ceil(lo), math.floor(hi)
                    extra.append(z3.And(y >= w(lo), y <= w(hi)))
            y = atoms[key]
            return z3.ToReal(y) if real and y.is_int() else y

        def walk(t):
            k = t.get_id()
            if k in memo:
                return memo[k]
            if t.num_args() == 0:
                r = t
            else:
                kind = t.decl().kind()
                r = None
                if kind in (z3.Z3_OP_MUL, z3.Z3_OP_POWER):
                    num, vs = [], []
                    flat(t, num, vs)
                    if len(vs) > 1:
                        vs = [walk(v) for v in vs]
                        r = atom(vs, t.is_real())
                        for n in num:
                            r = n * r
                if r is None:
                    ch = t.children()
                    nw = [walk(a) for a in ch]
                    r = t if all(a is b for a, b in zip(ch, nw)) else t.decl()(*nw)
            memo[k] = r
            keep.append(t)
            return r
        if not any(nonlinear(z) for z in zs):
            return None
        try:
            out = [walk(z3.simplify(z, som=True, som_blowup=1000, mul_to_power=False)) for z in zs]
        except z3.Z3Exception:
            return None
        return out + extra

    def relax(self, z):
        k = z.get_id()
        r = self.relaxed.get(k)
        if r is None:
            r = (z, z3.substitute(z, *self.rsubs))
            self.relaxed[k] = r
        return r[1]

    def solve_neg(self, neg, timeout):
        """refutation: a subset of the constraints is tried first (unsat of a subset is unsat)"""
        self.last_covered = None
        r, m = self.ex.solve(self.solver, self.cons, [neg], min(timeout, 300), retry=False)
        if r == "unsat" or r == "sat" and not self.cuts:
            return r, m
        if r == "sat":
            r2, m2 = self.solve([neg], min(timeout, 5000))
            if r2 != "unknown":
                return r2, m2
        sub = self.cone([neg])
        lin = self.purify((sub if sub is not None else self.cons) + [neg])
        lp = self.realify(lin if lin is not None else (sub if sub is not None else self.cons) + [neg])
        if lp is not None:
            r, m = self.ex.solve_fresh(lp, min(timeout, 3000))
            if r == "unsat":
                return r, None
        if lin is not None:
            r, m = self.ex.solve_fresh(lin, min(timeout, 5000))
            if r == "unsat":
                return r, None
        if self.rsubs:
            # real inputs ranging over all reals instead of a grid: a stronger claim
            rs = [self.relax(z) for z in (sub if sub is not None else self.cons)]
            r, m = self.ex.solve_fresh(rs + [self.relax(neg)], min(timeout, 4000))
            if r == "unsat":
                return r, None
        if sub is not None:
            r, m = self.ex.solve_fresh(sub + [neg], timeout)
            if r == "unsat":
                return r, None
        return self.solve([neg], timeout)

    def entails(self, z):
        """z follows from the path (no fork); unknown counts as no"""
        k = ("ent", z.get_id())
        if k not in self.cache:
            r, _ = self.ex.solve(self.solver, self.cons, [z3.Not(z)], 1000, retry=False)
            self.cache[k] = (r == "unsat", z)
        return self.cache[k][0]

    def get_model(self):
        if self.model is None:
            r, m = self.solve()
            if r == "unsat":
                raise PathEnd("infeasible")
            self.model, self.covered = m, self.last_covered
        return self.model

    # ---- forking ---------------------------------------------------------------
    def branch(self, z):
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        i = len(self.taken)
        st = self.ex.stats
        if i < len(self.prefix):
            d = self.prefix[i]
            if not isinstance(d, bool):
                raise AssertionError("nondeterministic re-execution")
            self.taken.append(d)
            self.add(z if d else z3.Not(z))
            return d
        self.ex.tick()
        st.branches += 1
        key = ("br", z.get_id())
        if key in self.cache:
            d = self.cache[key][0]
            self.taken.append(d)
            return d
        m = self.get_model()
        d = None
        if m is not None and (self.covered is None or zvars(z) <= self.covered):
            v = m.eval(z, model_completion=True)
            d = True if z3.is_true(v) else False if z3.is_false(v) else None
        if d is None:
            r, m2 = self.solve([z])
            d = r != "unsat"
            if m2 is not None:
                self.model, self.covered = m2, self.last_covered
        other = z3.Not(z) if d else z
        r, _ = self.solve([other])
        self.cache[key] = (d, z)
        if r != "unsat":
            st.forks += 1
            self.ex.push(self.taken + [not d])
        self.taken.append(d)
        if r != "unsat":
            self.add(z if d else z3.Not(z))
        return d

    def concretize(self, sv):
        if sv.lo is not None and sv.lo == sv.hi:
            return int(sv.lo) if sv.k == "i" else bool(sv.lo) if sv.k == "b" else float(sv.lo)
        if sv.k == "b":
            return self.branch(sv.z)
        if sv.k == "r":
            raise Unsupported("exact value used concretely")
        z = sv.z
        if sv.k == "f" and not z.is_int() and sv.g is None:
            raise Unsupported("real value used concretely")
        st = self.ex.stats
        tried = 0
        while True:
            i = len(self.taken)
            if i < len(self.prefix):
                op, v = self.prefix[i]
                self.taken.append((op, v))
                self.add(z == v if op == "=" else z != v)
                if op == "=":
                    return self._val(v, sv)
                continue
            self.ex.tick()
            tried += 1
            m = self.get_model()
            if m is not None and self.covered is not None and not zvars(z) <= self.covered:
                r, m = self.solve((), about=z)
                self.model, self.covered = m, self.last_covered
            if m is None:
                raise Unsupported("no model for a concretisation")
            v = m.eval(z, model_completion=True)
            f = as_frac(v)
            if f is None:
                raise Unsupported("irrational concretisation")
            v = sym.zint(f) if z.is_int() else sym.zreal(f)
            r, _ = self.solve([z != v])
            if r != "unsat":
                st.forks += 1
                self.ex.push(self.taken + [("!=", v)])
            st.branches += 1
            self.taken.append(("=", v))
            self.add(z == v)
            return self._val(v, sv)

    def _val(self, v, sv):
        f = as_frac(v)
        if sv.k == "i":
            return int(f)
        x = float(f)
        return x

    # ---- inputs -----------------------------------------------------------------
    def _int(self, name, lo, hi):
        self._name(name)
        n = self._fixed(name, lo, hi)
        if n is not None:
            return n
        z = z3.Int(name)
        self.inputs[name] = z
        self.add(z3.And(z >= int(lo), z <= int(hi)))
        self.zb[name] = (Fraction(lo), Fraction(hi))
        return SV(z, "i", Fraction(lo), Fraction(hi), 0)

    def real_input(self, z, name, n0, n1):
        if n1 - n0 < 64:
            return
        y = z3.Real(name + "~r")
        self.rsubs.append((z3.ToReal(z), y))
        self.rsubs.append((z, z3.ToInt(y)))     # bounds are rewritten below
        rng = z3.And(z >= int(n0), z <= int(n1))
        self.relaxed[rng.get_id()] = (rng, z3.And(y >= int(n0), y <= int(n1)))

    def opaque(self, name, lo=-4, hi=4, g=-10):
        tab = self.tables.setdefault(name, [])

        def one(x, dom):
            cx = x if isinstance(x, SV) else float(x)
            kx = ("s", sym.cast(cx, "exact").z.get_id()) if isinstance(cx, SV) else ("c", cx)
            for k, a, y in tab:
                if k == kx:
                    return y
            for k, a, y in tab:
                c = sym.compare("eq", ex(cx), ex(a))
                if sym.truth(c):
                    return y
            y = self.real(f"{name}#{len(tab)}", lo, hi, g)
            tab.append((kx, cx, y))
            return y

        def f(x):
            if isinstance(x, SArr):
                return SArr(arr.oarr(x.shape, [one(e, None) for e in x.v.reshape(-1)]), np.float64)
            if isinstance(x, np.ndarray) and x.ndim:
                return SArr(arr.oarr(x.shape, [one(e, None) for e in x.reshape(-1)]), np.float64)
            return one(x, None)
        return f

    # ---- assertions ---------------------------------------------------------------
    def check(self, cond, label, msg=""):
        ex_ = self.ex
        ex_.stats.checks += 1
        ex_.labels[label] = ex_.labels.get(label, 0) + 1
        if isinstance(cond, SArr):
            for e in cond.v.reshape(-1):
                self.check(e if not isinstance(e, SV) else e.with_dt(None), label, msg)
            return
        if not isinstance(cond, SV):
            if bool(cond):
                ex_.stats.trivial += 1
                return
            ex_.candidate(self, None, label, msg)
            raise PathEnd("assertion fails on this path")
        z = z3.simplify(_z(cond))
        if z3.is_true(z):
            ex_.stats.trivial += 1
            return
        neg = z3.Not(z)
        z2 = _poly(z)
        if z2 is not None and z3.is_true(z2):
            ex_.stats.discharged += 1
            return
        r, m = self.solve_neg(neg, ex_.check_timeout)
        if r == "unsat":
            ex_.stats.discharged += 1
            return
        if r == "unknown":
            if ex_.hunt(self, neg, label, msg) == "violation":
                raise PathEnd("assertion fails on this path")
            ex_.stats.unknown += 1
            ex_.note("unknown", label)
            return
        ok = ex_.candidate(self, neg, label, msg, m)
        if ok == "unsat":
            ex_.stats.discharged += 1
            return
        # continue on the part of the path where the assertion holds
        self.add(z)
        self.model = None
        r, m = self.solve()
        if r == "unsat":
            raise PathEnd("assertion fails on the whole path")
        self.model, self.covered = m, self.last_covered

    def assume(self, cond):
        if not isinstance(cond, SV):
            if not bool(cond):
                raise PathEnd("assumption")
            return
        self.add(_z(cond))
        if self.model is None:
            self.get_model()

    def possible(self, cond, label):
        """some execution of the case has to reach cond"""
        ex_ = self.ex
        ex_.stats.checks += 1
        ex_.labels[label] = ex_.labels.get(label, 0) + 1
        if ex_.reach.setdefault(label, False):
            return
        if not isinstance(cond, SV):
            if bool(cond):
                ex_.reach[label] = True
            return
        r, m = self.solve([_z(cond)], ex_.check_timeout)
        if r == "sat":
            ex_.reach[label] = True
        elif r != "unsat":
            ex_.reach[label] = None

    def observe(self, name, x):
        self.observed.append((name, x))


_VARS = {}


_NONLIN = {}


def nonlinear(z):
    """does the term multiply two variables"""
    k = z.get_id()
    r = _NONLIN.get(k)
    if r is not None:
        return r[1]
    seen, stack, out = set(), [z], False
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if t.num_args() and t.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_POWER, z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            n = sum(1 for a in t.children() if zvars(a))
            if n > 1 or (t.decl().kind() == z3.Z3_OP_POWER and n):
                out = True
                break
        stack.extend(t.children())
    _NONLIN[k] = (z, out)
    return out


def zvars(z):
    """names of the uninterpreted constants of a term"""
    k = z.get_id()
    r = _VARS.get(k)
    if r is not None:
        return r[1]
    out, seen, stack = set(), set(), [z]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        hit = _VARS.get(i)
        if hit is not None:
            out |= hit[1]
            continue
        if z3.is_const(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
        else:
            stack.extend(t.children())
    out = frozenset(out)
    _VARS[k] = (z, out)
    return out


def _poly(z):
    """normalise polynomial (in)equalities"""
    try:
        return z3.simplify(z, som=True, som_blowup=1000, arith_lhs=True)
    except z3.Z3Exception:
        return None


def as_frac(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        a = v.approx(40)
        return a.as_fraction()
    return None


class Explorer:
    def __init__(self, harness, case, max_paths=4000, time_s=120, check_timeout=20000, branch_timeout=5000,
                 witnesses=6, max_violations=1, refine=60, fork_max=False, cut=False, exact=False):
        self.harness = harness
        self.case = case
        self.max_paths = max_paths
        self.deadline = time.time() + time_s
        self.check_timeout = check_timeout
        self.branch_timeout = branch_timeout
        self.witnesses = witnesses
        self.max_violations = max_violations
        self.refine = refine
        self.fork_max = fork_max
        self.cut = cut
        self.exact = exact
        self.stats = Stats()
        self.labels = {}
        self.work = [[]]
        self.breakpoints = {}
        self.violations = []
        self.notes = {}
        self.reach = {}
        self.samples = []
        self.exhausted = True
        self.cand_seen = {}
        self.hunted = {}
        self.hunt_s = 0.0

    # ---- bookkeeping ------------------------------------------------------------
    def push(self, prefix):
        self.work.append(prefix)

    def tick(self):
        if time.time() > self.deadline:
            self.exhausted = False
            raise BudgetExceeded("time")

    def note(self, kind, what):
        d = self.notes.setdefault(kind, {})
        what = str(what)[:300]
        d[what] = d.get(what, 0) + 1

    def solve(self, solver, cons, extra, timeout=None, retry=True):
        st = self.stats
        t0 = time.time()
        st.queries += 1
        timeout = timeout or self.branch_timeout
        solver.set("timeout", min(int(timeout), max(200, int((self.deadline - t0) * 1000))))
        solver.push()
        try:
            if extra:
                solver.add(*extra)
            r = solver.check()
            m = solver.model() if r == z3.sat else None
        except z3.Z3Exception:
            r, m = z3.unknown, None
        finally:
            solver.pop()
        if r == z3.unknown and retry:
            s2 = z3.SolverFor("QF_NIRA") if False else z3.Then("simplify", "propagate-values", "solve-eqs", "smt").solver()
            s2.set("timeout", min(int(timeout), max(200, int((self.deadline - time.time()) * 1000))))
            s2.add(*cons)
            s2.add(*extra)
            try:
                r = s2.check()
                m = s2.model() if r == z3.sat else None
            except z3.Z3Exception:
                r, m = z3.unknown, None
        st.solver_s += time.time() - t0
        return str(r), m

    def solve_fresh(self, cons, timeout):
        st = self.stats
        t0 = time.time()
        st.queries += 1
        s = z3.Solver()
        s.set("random_seed", SEED)
        s.set("timeout", min(int(timeout), max(200, int((self.deadline - t0) * 1000))))
        s.add(*cons)
        try:
            r = s.check()
            m = s.model() if r == z3.sat else None
        except z3.Z3Exception:
            r, m = z3.unknown, None
        st.solver_s += time.time() - t0
        if DUMP and time.time() - t0 > 2:
            self.ndump = getattr(self, "ndump", 0) + 1
            open(f"{DUMP}/{self.ndump}_{r}.smt2", "w").write(s.to_smt2())
        return str(r), m

    # ---- candidates ----------------------------------------------------------------
    def values(self, path, m):
        out = {}
        for n, z in path.inputs.items():
            f = as_frac(m.eval(z, model_completion=True))
            out[n] = int(f)
        return out

    def refine_model(self, path, extra, m, first=None):
        """models consistent with the transcendental functions; yields models"""
        solver = path.solver
        for _ in range(self.refine):
            if m is None:
                return None, "unknown"
            bad = []
            for name, az, y in path.apps:
                if path.last_covered is not None and y.decl().name() not in path.last_covered:
                    continue
                a = as_frac(m.eval(az, model_completion=True))
                v = as_frac(m.eval(y, model_completion=True))
                if a is None or v is None:
                    continue
                fl, fh = sym.float_dn(a), sym.float_up(a)
                try:
                    lo, hi = sym.fval(name, fl), sym.fval(name, fh)
                except ValueError:
                    continue
                if lo is not None and v < sym.fdn(lo) or hi is not None and v > sym.fup(hi):
                    bad.append((name, float(a), az, y))
            if not bad:
                return m, "sat"
            for name, b, az, y in bad:
                bp = self.breakpoints.setdefault(name, [])
                if b not in bp and len(bp) < 400:
                    bp.append(b)
                path.define(sym.lemma(name, b, az, y))
                for o in path.apps:
                    if o[0] == name and o[1] is not az:
                        path.define(sym.lemma(name, b, o[1], o[2]))
            self.stats.refinements += 1
            if time.time() > self.deadline:
                return None, "unknown"
            if len(extra) == 1:
                r, m = path.solve_neg(extra[0], self.check_timeout)
            else:
                r, m = path.solve(extra, self.check_timeout)
            if r == "unsat":
                return None, "unsat"
            if r == "unknown":
                return None, "unknown"
        return None, "unknown"

    def hunt(self, path, neg, label, msg):
        """the solver gave up on an assertion: ask again with some of the inputs fixed (only ever finds violations)"""
        seen = self.hunted.get(label, 0)
        if seen >= 2 or self.hunt_s > HUNT_S:
            return None
        self.hunted[label] = seen + 1
        cone = path.cone([neg])
        names = set()
        for z in (cone if cone is not None else path.cons) + [neg]:
            names |= zvars(z)
        names = sorted(n for n in path.inputs if n in names)
        if len(names) < 2:
            return None
        rnd = random.Random(f"{SEED}{self.case}{label}")
        for k in range(10):
            t0 = time.time()
            if self.hunt_s > HUNT_S or t0 > self.deadline:
                break
            fix = []
            part = rnd.sample(names, max(1, min(len(names) - 1, int(len(names) * (0.5, 0.75, 0.9, 0.34)[k % 4] + 0.5))))
            for n in part:
                z = path.inputs[n]
                lo, hi = (int(b) for b in path.zb[n])
                v = None
                if k % 2 == 0 and path.model is not None:
                    v = as_frac(path.model.eval(z, model_completion=True))
                if v is None:
                    v = rnd.choice((lo, hi, rnd.randint(lo, hi), rnd.randint(lo, hi)))
                fix.append(z == int(v))
            r, m = self.solve_fresh(list(path.cons) + [neg] + fix, 1500)
            self.hunt_s += time.time() - t0
            if r == "sat":
                st = self.candidate(path, neg, label, msg, fix=fix)
                self.hunt_s += time.time() - t0
                if st == "violation":
                    return st
        return None

    def candidate(self, path, neg, label, msg, m=None, fix=()):
        """a model violates the assertion: replay it against the real code"""
        extra = ([neg] if neg is not None else []) + list(fix)
        if self.cand_seen.get(label, 0) > 12:
            self.note("unconfirmed", label)
            return "skip"
        tried = []
        status = "sat"
        zero = [e == 0 for e in path.errs]
        plans = [zero] if zero else []
        plans.append([])
        first = True
        for plan in plans:
            for attempt in range(3):
                r, mm = path.solve(extra + plan + tried, self.check_timeout)
                if r != "sat":
                    if r == "unsat" and not plan and not tried and not fix:
                        return "unsat"
                    break
                mm, st = self.refine_model(path, extra + plan + tried, mm)
                if mm is None:
                    if st == "unsat" and not plan and not tried and not fix:
                        return "unsat"
                    break
                vals = self.values(path, mm)
                res = self.replay(vals)
                if res[0] == "fail":
                    self.report(vals, res, label)
                    return "violation"
                # another model: differ in some input
                if path.inputs:
                    tried.append(z3.Or(*[z != vals[n] for n, z in path.inputs.items()]))
        # random objective: push the inputs apart
        self.cand_seen[label] = self.cand_seen.get(label, 0) + 1
        self.note("unconfirmed", label + (f" ({msg})" if msg else ""))
        return "unconfirmed"

    def replay(self, vals):
        return run_concrete(self.harness, self.case, vals)

    def report(self, vals, res, label):
        v = {"case": self.case, "values": vals, "label": res[1], "message": res[2], "solver_label": label}
        key = (res[1], str(res[2])[:80])
        if not any((w["label"], str(w["message"])[:80]) == key for w in self.violations):
            self.violations.append(v)
        else:
            self.cand_seen[label] = self.cand_seen.get(label, 0) + 1

    # ---- main loop -----------------------------------------------------------------
    def run(self):
        global CTX
        order = 0
        while self.work:
            if self.stats.paths >= self.max_paths or time.time() > self.deadline:
                self.exhausted = False
                break
            prefix = self.work.pop()
            p = Path(self.case, prefix, self)
            sym.S = p
            CTX = p
            self.stats.paths += 1
            outcome = "ok"
            err = None
            p.poison = None
            try:
                try:
                    self.harness(p, **self.case)
                finally:
                    poison = p.poison
                if poison is not None:
                    raise poison
            except Skip as e:
                outcome = "skip"
                self.note("skip", str(e))
            except BudgetExceeded:
                self.exhausted = False
                outcome = "budget"
            except PathEnd as e:
                outcome = "end"
            except Unsupported as e:
                outcome = "unsupported"
                tb = traceback.extract_tb(e.__traceback__)
                where = [f for f in tb if "/verif/" not in f.filename]
                self.note("unsupported", f"{e} @ {where[-1].filename.split('/')[-1]}:{where[-1].lineno}" if where else str(e))
                err = e
            except AssumeFailed:
                outcome = "end"
            except CheckFailed as e:
                outcome = "fail"
                err = e
            except (Exception, RecursionError) as e:
                outcome = "exception"
                err = e
            finally:
                sym.S = None
                CTX = None
            if outcome in ("ok", "unsupported", "fail", "exception"):
                sym.S = p
                try:
                    self.finish(p, outcome, err)
                except (PathEnd, Unsupported):
                    pass
                finally:
                    sym.S = None
            if len(self.violations) >= self.max_violations:
                self.exhausted = False
                break
        if self.exhausted and not self.violations and not any(k in self.notes for k in ("unsupported", "unconfirmed", "unknown")):
            for label, ok in self.reach.items():
                if ok is False:
                    self.violations.append({"case": self.case, "values": {}, "label": label, "message": "no execution reaches it", "solver_label": label, "reach": True})
        return self

    def finish(self, p, outcome, err):
        if outcome == "ok" and (self.stats.witnesses >= self.witnesses):
            return
        if outcome == "unsupported" and self.notes.get("unsupported", {}) and sum(self.notes["unsupported"].values()) > 12:
            return
        seen = []
        if not p.errs and not p.apps and p.heavy:
            for _, a in p.observed:
                try:
                    seen += [x.zr for x in exl(a) if isinstance(x, SV)]
                except CheckFailed:
                    pass
        r, m = p.solve([], self.check_timeout if not seen else min(self.check_timeout, 8000), about=seen)
        if r == "unknown" and seen:
            r, m = p.solve([], self.check_timeout)
            p.observed = []
        if r == "sat":
            mm, st = self.refine_model(p, [], m)
            if mm is None and st == "unsat":
                return
            if mm is not None:
                m = mm
        if r == "unsat":
            return
        if m is None:
            if outcome == "exception":
                self.note("unconfirmed", f"{type(err).__name__}: {err}")
            return
        vals = self.values(p, m)
        res = self.replay(vals)
        if res[0] == "fail":
            self.report(vals, res, f"path witness ({outcome})")
            return
        if outcome in ("exception", "fail"):
            tb = traceback.extract_tb(err.__traceback__)
            self.note("unconfirmed", f"{type(err).__name__}: {str(err)[:120]} @ {tb[-1].filename.split('/')[-1]}:{tb[-1].lineno}")
            if DEBUG:
                traceback.print_exception(type(err), err, err.__traceback__)
            return
        if outcome == "unsupported":
            return
        if res[0] == "ok":
            self.stats.witnesses += 1
            if len(self.samples) < 5:
                self.samples.append({k: v for k, v in list(vals.items())[:12]})
            if not p.errs and not p.apps:
                self.compare_observed(p, m, res[3])

    def compare_observed(self, p, m, conc):
        for (n1, a), (n2, b) in zip(p.observed, conc):
            try:
                la, lb = exl(a), exl(b)
            except CheckFailed:
                continue
            if len(la) != len(lb) or shape(a) != shape(b):
                self.note("mismatch", f"{n1}: shape {shape(a)} vs {shape(b)}")
                self.stats.witness_mismatch += 1
                continue
            da = getattr(a, "dtype", None) if not isinstance(a, SV) else a.dt
            db = getattr(b, "dtype", None)
            if da is not None and db is not None and da != db:
                self.note("mismatch", f"{n1}: dtype {da} vs {db}")
                self.stats.witness_mismatch += 1
            for x, y in zip(la, lb):
                if isinstance(x, SV):
                    x = as_frac(m.eval(x.zr, model_completion=True))
                if x != y:
                    self.note("mismatch", f"{n1}: {float(x)} vs {float(y)}")
                    self.stats.witness_mismatch += 1
                    break


DEBUG = False
DUMP = None     # directory for slow queries


def run_concrete(harness, case, vals):
    """-> ('ok', None, None, observed) | ('fail', label, message, _) | ('vacuous', ...)"""
    global CTX
    saved, savedS = CTX, sym.S
    c = Concrete(case, vals)
    CTX = c
    sym.S = None
    import io
    import contextlib
    try:
        with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                harness(c, **case)
        return ("ok", None, None, c.observed)
    except CheckFailed as e:
        return ("fail", e.label, e.msg, None)
    except (AssumeFailed, Skip):
        return ("vacuous", None, None, None)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/verif/" not in f.filename]
        if not where:
            # the harness itself failed
            return ("harness-error", f"{type(e).__name__}", str(e), None)
        w = where[-1]
        return ("fail", f"exception {type(e).__name__}", f"{str(e)[:200]} @ {w.filename.split('/')[-1]}:{w.lineno} in {w.name}", None)
    finally:
        CTX, sym.S = saved, savedS
