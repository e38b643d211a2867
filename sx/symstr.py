"""Symbolic strings of known length over ASCII: a str subclass whose characters may be
symbolic code points.  Regular expressions are decided by forking every character into
the classes the pattern distinguishes."""
import re
from fractions import Fraction
import z3
from . import sym
from .sym import SV, Unsupported

try:
    from re import _parser as sre_parse, _constants as sre_c
except ImportError:                                           # pragma: no cover
    import sre_parse
    import sre_constants as sre_c


def chars_of(s):
    return s.chars if isinstance(s, SymStr) else tuple(ord(c) for c in s)


def make(chars):
    if all(not isinstance(c, SV) for c in chars):
        return "".join(map(chr, chars))
    return SymStr(chars)


def _b(z):
    return SV(z, "b", Fraction(0), Fraction(1), 0)


def _zc(c):
    return c.z if isinstance(c, SV) else z3.IntVal(c)


def _eqz(a, b):
    if len(a) != len(b):
        return z3.BoolVal(False)
    return z3.And(*[_zc(x) == _zc(y) for x, y in zip(a, b)]) if a else z3.BoolVal(True)


def truth(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return sym.truth(_b(z))


def in_set(c, codes):
    """membership of a code in a set of codes"""
    codes = sorted(codes)
    if not isinstance(c, SV):
        return z3.BoolVal(c in codes)
    parts, i = [], 0
    while i < len(codes):
        j = i
        while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1:
            j += 1
        parts.append(c.z == codes[i] if i == j else z3.And(c.z >= codes[i], c.z <= codes[j]))
        i = j + 1
    return z3.Or(*parts) if parts else z3.BoolVal(False)


def classify(c, classes):
    """forks: the index of the class the character is in"""
    if not isinstance(c, SV):
        for i, k in enumerate(classes):
            if c in k:
                return i
        return None
    for i, k in enumerate(classes[:-1]):
        if truth(in_set(c, k)):
            return i
    return len(classes) - 1


def _shift(c, lo, hi, d):
    if not isinstance(c, SV):
        return c + d if lo <= c <= hi else c
    return SV(z3.If(z3.And(c.z >= lo, c.z <= hi), c.z + d, c.z), "i", Fraction(0), Fraction(127), 0)


DIGITS = frozenset(range(48, 58))
ALPHA = frozenset(range(65, 91)) | frozenset(range(97, 123))
SPACE = frozenset(ord(c) for c in " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f")


class SymStr(str):
    def __new__(cls, chars):
        s = str.__new__(cls, "?" * len(chars))
        s.chars = tuple(chars)
        return s

    # ---- comparisons -------------------------------------------------------
    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        z = z3.simplify(_eqz(self.chars, chars_of(o)))
        return True if z3.is_true(z) else False if z3.is_false(z) else _b(z)

    def __ne__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        z = z3.simplify(z3.Not(_eqz(self.chars, chars_of(o))))
        return True if z3.is_true(z) else False if z3.is_false(z) else _b(z)

    def __hash__(self):
        return hash(self.concrete())

    def concrete(self):
        return "".join(chr(int(sym.concretize(c)) if isinstance(c, SV) else c) for c in self.chars)

    def _cmp(self, o):
        raise Unsupported("ordering of symbolic strings")
    __lt__ = __le__ = __gt__ = __ge__ = _cmp

    # ---- structure ---------------------------------------------------------
    def __getitem__(self, i):
        if isinstance(i, slice):
            return make(self.chars[i])
        return make((self.chars[int(i)],))

    def __iter__(self):
        return iter([make((c,)) for c in self.chars])

    def __add__(self, o):
        return make(self.chars + chars_of(o)) if isinstance(o, str) else NotImplemented

    def __radd__(self, o):
        return make(chars_of(o) + self.chars) if isinstance(o, str) else NotImplemented

    def __mul__(self, n):
        return make(self.chars * n)

    def __contains__(self, sub):
        return self._find(sub) >= 0

    def _find(self, sub, start=0):
        sub = chars_of(sub)
        for i in range(start, len(self.chars) - len(sub) + 1):
            if truth(_eqz(self.chars[i:i + len(sub)], sub)):
                return i
        return -1

    def find(self, sub, start=0):
        return self._find(sub, start)

    def index(self, sub, start=0):
        r = self._find(sub, start)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def startswith(self, p, *a):
        if a:
            raise Unsupported("startswith with bounds")
        ps = p if isinstance(p, tuple) else (p,)
        return any(truth(_eqz(self.chars[:len(x)], chars_of(x))) for x in ps)

    def endswith(self, p, *a):
        if a:
            raise Unsupported("endswith with bounds")
        ps = p if isinstance(p, tuple) else (p,)
        return any(truth(_eqz(self.chars[len(self.chars) - len(x):], chars_of(x))) if len(x) <= len(self.chars) else False for x in ps)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("split on whitespace")
        out, i = [], 0
        while maxsplit != 0:
            j = self._find(sep, i)
            if j < 0:
                break
            out.append(make(self.chars[i:j]))
            i = j + len(sep)
            maxsplit -= 1
        out.append(make(self.chars[i:]))
        return out

    def partition(self, sep):
        j = self._find(sep)
        return (self[:j], sep, self[j + len(sep):]) if j >= 0 else (self, "", "")

    def replace(self, a, b, n=-1):
        if not a:
            raise Unsupported("replace of an empty string")
        p = self.split(a, n)
        out = p[0]
        for x in p[1:]:
            out = out + b + x
        return out

    def strip(self, cs=None):
        return _lstrip(_lstrip(self, cs)[::-1], cs)[::-1]

    def lstrip(self, cs=None):
        return _lstrip(self, cs)

    def rstrip(self, cs=None):
        return _lstrip(self[::-1], cs)[::-1]

    # ---- letters -----------------------------------------------------------
    def upper(self):
        return make([_shift(c, 97, 122, -32) for c in self.chars])

    def lower(self):
        return make([_shift(c, 65, 90, 32) for c in self.chars])

    casefold = lower

    def capitalize(self):
        return self[:1].upper() + self[1:].lower()

    def _all(self, codes):
        return bool(self.chars) and truth(z3.And(*[in_set(c, codes) for c in self.chars]))

    def isdigit(self):
        return self._all(DIGITS)

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all(ALPHA)

    def isalnum(self):
        return self._all(ALPHA | DIGITS)

    def isspace(self):
        return self._all(SPACE)

    def __str__(self):
        return self

    def __repr__(self):
        return f"<symbolic string of length {len(self.chars)}>"

    def __format__(self, spec):
        if spec:
            raise Unsupported("format of a symbolic string")
        return str.__str__(self)


for _n in ("title", "swapcase", "center", "ljust", "rjust", "zfill", "join", "encode", "translate", "expandtabs", "splitlines", "rsplit", "rpartition",
           "rfind", "rindex", "count", "isupper", "islower", "isidentifier", "istitle", "format", "format_map"):
    def _mk(n):
        def f(self, *a, **k):
            raise Unsupported(f"str.{n} of a symbolic string")
        return f
    setattr(SymStr, _n, _mk(_n))


def _lstrip(s, cs):
    codes = SPACE if cs is None else frozenset(map(ord, cs))
    i = 0
    ch = chars_of(s)
    while i < len(ch) and truth(in_set(ch[i], codes)):
        i += 1
    return make(ch[i:])


# --------------------------------------------------------------------------
# conversions
# --------------------------------------------------------------------------
def to_int(s, base=10):
    if base != 10:
        raise Unsupported("int() with a base")
    for c in s.chars:
        if classify(c, [DIGITS, frozenset(range(128)) - DIGITS]) != 0:
            return int(s.concrete())
    if not s.chars:
        return int("")
    z = z3.IntVal(0)
    for c in s.chars:
        z = z * 10 + (_zc(c) - 48)
    return SV(z3.simplify(z), "i", Fraction(0), Fraction(10 ** len(s.chars) - 1), 0)


def of_int(n):
    """decimal text of a symbolic integer; forks on sign and number of digits"""
    if n.lo is None or n.hi is None:
        raise Unsupported("text of an unbounded integer")
    if truth(n.z < 0):
        return "-" + of_int(SV(-n.z, "i", max(Fraction(1), -n.hi), -n.lo, 0))
    k = 1
    while 10 ** k <= n.hi and truth(n.z >= 10 ** k):
        k += 1
    return make([SV(n.z / z3.IntVal(10 ** i) % 10 + 48, "i", Fraction(48), Fraction(57), 0) for i in reversed(range(k))])


def fstring(*parts):
    vals = []
    has = False
    for p in parts:
        if isinstance(p, str):
            vals.append(p)
            continue
        v, conv, spec = p
        if conv == "s":
            v = v if isinstance(v, SymStr) else str(v)
        elif conv == "r":
            v = repr(v)
        elif conv == "a":
            v = ascii(v)
        if isinstance(v, SymStr) and not spec:
            has = True
        vals.append((v, spec))
    if not has:
        return "".join(p if isinstance(p, str) else format(*p) for p in vals)
    out = ""
    for p in vals:
        if isinstance(p, str):
            out = out + p
            continue
        v, spec = p
        if isinstance(v, SV) and v.k == "i" and not spec:
            v = of_int(v)
        elif not (isinstance(v, SymStr) and not spec):
            v = format(v, spec)
        out = out + v
    return out


# --------------------------------------------------------------------------
# regular expressions
# --------------------------------------------------------------------------
_CLS = {}


def _cat(rx):
    r = re.compile(rx, re.A)
    return lambda c: bool(r.fullmatch(chr(c)))


def _preds(parsed, out):
    for op, av in parsed:
        if op in (sre_c.LITERAL, sre_c.NOT_LITERAL):
            out.append(lambda c, a=av: c == a)
        elif op is sre_c.ANY:
            out.append(lambda c: c == 10)
        elif op is sre_c.IN:
            _preds([x for x in av if x[0] is not sre_c.NEGATE], out)
        elif op is sre_c.RANGE:
            out.append(lambda c, a=av: a[0] <= c <= a[1])
        elif op is sre_c.CATEGORY:
            n = str(av).lower()
            out.append(_cat(r"\d" if "digit" in n else r"\s" if "space" in n else r"\w"))
        elif op is sre_c.AT:
            out.append(_cat(r"\w"))
            out.append(lambda c: c == 10)
        elif op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT) or str(op) == "POSSESSIVE_REPEAT":
            _preds(av[2], out)
        elif op is sre_c.SUBPATTERN:
            _preds(av[3], out)
        elif op is sre_c.BRANCH:
            for b in av[1]:
                _preds(b, out)
        elif op in (sre_c.ASSERT, sre_c.ASSERT_NOT):
            _preds(av[1], out)
        elif str(op) == "ATOMIC_GROUP":
            _preds(av, out)
        else:
            raise Unsupported(f"regular expression operator {op}")


def classes(p):
    k = (p.pattern, p.flags)
    if k not in _CLS:
        preds = []
        _preds(sre_parse.parse(p.pattern, p.flags & ~re.U if p.flags & re.A else p.flags), preds)
        if p.flags & re.I:
            preds = preds + [lambda c, f=f: f(ord(chr(c).swapcase())) for f in preds]
        d = {}
        for c in range(128):
            d.setdefault(tuple(f(c) for f in preds), set()).add(c)
        _CLS[k] = [frozenset(v) for v in d.values()]
    return _CLS[k]


def represent(p, s):
    cl = classes(p)
    return "".join(chr(min(cl[classify(c, cl)])) if isinstance(c, SV) else chr(c) for c in s.chars)


class Match:
    def __init__(self, m, s):
        self.m, self.s = m, s
        self.re, self.string, self.pos, self.endpos, self.lastindex = m.re, s, m.pos, m.endpos, m.lastindex

    def _g(self, i):
        a, b = self.m.span(i)
        return None if a < 0 else make(self.s.chars[a:b])

    def group(self, *ix):
        if len(ix) <= 1:
            return self._g(ix[0] if ix else 0)
        return tuple(self._g(i) for i in ix)

    __getitem__ = _g

    def groups(self, default=None):
        r = [self._g(i + 1) for i in range(self.m.re.groups)]
        return tuple(default if x is None else x for x in r)

    def groupdict(self, default=None):
        return {k: (default if self._g(i) is None else self._g(i)) for k, i in self.m.re.groupindex.items()}

    def span(self, i=0):
        return self.m.span(i)

    def start(self, i=0):
        return self.m.start(i)

    def end(self, i=0):
        return self.m.end(i)


def rx(name, p, args, kw):
    """p.<name>(*args) where some text is symbolic"""
    if name in ("match", "search", "fullmatch"):
        m = getattr(p, name)(represent(p, args[0]), *args[1:])
        return Match(m, args[0]) if m else None
    if name in ("findall", "finditer"):
        ms = [Match(m, args[0]) for m in p.finditer(represent(p, args[0]))]
        if name == "finditer":
            return iter(ms)
        return [m.groups("") if p.groups > 1 else m.group(1) or "" if p.groups else m.group() for m in ms]
    if name in ("sub", "subn"):
        repl, s = args[0], args[1]
        count = args[2] if len(args) > 2 else kw.get("count", 0)
        if not callable(repl) and "\\" in repl:
            raise Unsupported("replacement with references")
        out, pos, n = "", 0, 0
        for m in p.finditer(represent(p, s)):
            if count and n >= count:
                break
            out = out + make(s.chars[pos:m.start()]) + (repl(Match(m, s)) if callable(repl) else repl)
            pos = m.end()
            n += 1
        out = out + make(s.chars[pos:])
        return (out, n) if name == "subn" else out
    if name == "split":
        out, pos = [], 0
        if p.groups:
            raise Unsupported("re.split with groups")
        for m in p.finditer(represent(p, args[0])):
            out.append(make(args[0].chars[pos:m.start()]))
            pos = m.end()
        out.append(make(args[0].chars[pos:]))
        return out
    raise Unsupported(f"re.{name}")


RX = {}
for _n in ("match", "search", "fullmatch", "findall", "finditer", "sub", "subn", "split"):
    RX[getattr(re, _n)] = _n


def re_call(name, real):
    def h(pattern, *args, **kw):
        text = args[1] if name in ("sub", "subn") and len(args) > 1 else args[0] if args else kw.get("string")
        if not isinstance(text, SymStr):
            return real(pattern, *args, **kw)
        flags = kw.pop("flags", 0)
        lim = 3 if name in ("sub", "subn", "split") else 1
        if name in ("match", "search", "fullmatch", "findall", "finditer") and len(args) > 1:
            flags, args = args[1], args[:1]
        p = re.compile(pattern, flags)
        return rx(name, p, args[:lim], kw)
    return h
