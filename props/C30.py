"""Range trimming and slicing keep exactly the selected data."""
import types
from .common import *

D = "itcl_quantizer.quantizer.distributions.distribution"
OPT = "itcl_quantizer.optimizers."
BOUNDS = ("data sets of 1-4 real values on the grid 2^-4 in [-16, 16], 1-4 bins (powers of two), every interval with bounds on the same grid (or open ended) that meets the observed range, "
          "with and without partial bins, slices of slices; fixed-percent optimiser for percentages 0, 10, 25 and 40; the minimiser of the scipy optimiser returns any interval inside its bounds; "
          "larger cases: half-open slices of 60 fixed values in 16 bins")
O = {"opts": {"fork_max": True, "max_paths": 6000}}
G, LIM = -4, 16.0


def points(c, n, ordered=True):
    xs = [c.real(f"x{i}", -LIM, LIM, G) for i in range(n)]
    if ordered:
        for a, b in zip(xs, xs[1:]):
            c.assume(le(a, b))
    return xs


def sort(xs):
    out = []
    for x in xs:
        k = 0
        while k < len(out) and bool(out[k] <= x):
            k += 1
        out.insert(k, x)
    return out


def edges_of(xs, bins):
    lo, hi = ex(xs[0]), ex(xs[-1])
    if bool(lo == hi):
        lo, hi = lo - Fr(1, 2), hi + Fr(1, 2)
    return [lo + (hi - lo) * Fr(i, bins) for i in range(bins + 1)]


def counts(xs, es, closed=True):
    """how many values each bin holds; the last one is closed"""
    out = []
    for j in range(len(es) - 1):
        last = closed and j == len(es) - 2
        out.append(sum(1 for x in xs if bool(es[j] <= x) and bool(x <= es[j + 1] if last else x < es[j + 1])))
    return out


def describes(c, d, xs, es, cs, what):
    c.check(len(d.get_bin_edges()) == len(es), what + ": number of edges", f"{len(d.get_bin_edges())} {len(es)}")
    c.check(And(*[eq(a, b) for a, b in zip(d.get_bin_edges(), es)]), what + ": edges")
    h = exl(d.get_histogram())
    c.check(len(h) == len(cs) and And(*[eq(a, b) for a, b in zip(h, cs)]), what + ": histogram")
    s = exl(d._sorted_a)
    c.check(len(s) == len(xs), what + ": number of values", f"{len(s)} {len(xs)}")
    c.check(And(*[eq(a, b) for a, b in zip(s, xs)]), what + ": values")
    c.check(len(d) == len(es) - 1, what + ": length")


def bins_ok(c, d, xs, es, cs, what):
    """get_bin hands out the values of the bin"""
    for j in range(len(cs)):
        b = d.get_bin(j)
        c.check(eq(b.items, cs[j]), what + ": items of a bin")
        mine = [x for x in xs if bool(es[j] <= x) and bool(x < es[j + 1] or (j == len(cs) - 1 and x <= es[j + 1]))]
        c.check(And(ge(b.min, es[j]), le(b.max, es[j + 1])), what + ": limits of a bin")
        c.check(And(*[And(le(b.min, x), ge(b.max, x)) for x in mine]), what + ": a bin covers its values")
        if len(mine) > 1:
            got = exl(b.items_in_bin)
            c.check(len(got) == len(mine) and And(*[eq(p, q) for p, q in zip(got, mine)]), what + ": values of a bin")
        n = d.get_bin(j - len(cs))
        c.check(And(eq(n.min, b.min), eq(n.max, b.max)), what + ": negative index")


def make(c, xs, bins, partial=True, shape=None):
    a = c.mkarr(xs, shape or (len(xs),), np.float64)
    C = c.mod(D).Distribution
    return C(a, bins=bins) if partial else C(a, bins=bins, include_partial_bins=False)


def h_init(c, n, bins, ordered=False, shape=None):
    xs = points(c, n, ordered)
    d = make(c, xs, bins, shape=shape)
    v = sort(xs)
    es = edges_of(v, bins)
    cs = counts(v, es)
    c.check(sum(cs) == n, "every value has a bin")
    describes(c, d, v, es, cs, "distribution")
    bins_ok(c, d, v, es, cs, "distribution")
    c.check(And(le(d.get_min(), v[0]), ge(d.get_max(), v[-1])), "observed range")


def expected(c, xs, es, a, b, partial, closed=True):
    """(values, edges, counts) of the slice a:b; None if no bin qualifies"""
    size = es[1] - es[0]
    if bool(b - a < size):
        return [x for x in xs if bool(a <= x) and bool(x <= b)], None, None
    m = len(es) - 1
    keep = []
    for j in range(m):
        last = j == m - 1
        if partial:
            ok = bool(a < es[j + 1] or (last and a <= es[j + 1])) and bool(es[j] <= b)
        else:
            ok = bool(es[j] >= a) and bool(es[j + 1] <= b)
        if ok:
            keep.append(j)
    if not keep:
        return None, None, None
    i, k = keep[0], keep[-1] + 1
    vs = [x for x in xs if bool(es[i] <= x) and bool(x < es[k] or (k == m and closed and x <= es[k]))]
    cs = counts(xs, es, closed)
    return vs, es[i:k + 1], cs[i:k]


def h_slice(c, n, bins, partial, start=True, stop=True, xs=None):
    xs = xs or points(c, n)
    es = edges_of(xs, bins)
    d = make(c, xs, bins, partial)
    a = c.real("a", -LIM - 2, LIM + 2, G) if start else None
    b = c.real("b", -LIM - 2, LIM + 2, G) if stop else None
    A, B = ex(a if start else d.get_min()), ex(b if stop else d.get_max())
    c.assume(And(le(A, B), le(A, es[-1]), ge(B, es[0])))
    if start and stop:
        s = d[a:b]
    else:
        s = d[a:] if start else d[:b]
    vs, ee, cs = expected(c, xs, es, A, B, partial)
    describes(c, d, xs, es, counts(xs, es), "the sliced distribution")
    if vs is None:
        # no whole bin inside: nothing is promised but that no data are made up
        c.check(len(exl(s._sorted_a)) <= n, "no values are made up")
        return
    if ee is None:
        got = exl(s._sorted_a)
        c.check(len(got) == len(vs) and And(*[eq(p, q) for p, q in zip(got, vs)]), "narrow slice: values")
        c.check(eq(sum(exl(s.get_histogram())), len(vs)), "narrow slice: histogram")
        if vs:
            c.check(And(le(s.get_min(), vs[0]), ge(s.get_max(), vs[-1])), "narrow slice: range")
        return
    describes(c, s, vs, ee, cs, "slice")
    bins_ok(c, s, vs, ee, cs, "slice")
    c.check(And(ge(s.get_min(), es[0]), le(s.get_max(), es[-1])), "a slice never extends the range")


def h_nested(c, n, bins):
    """slices of slices"""
    xs = points(c, n)
    c.assume(lt(xs[0], xs[-1]))
    es = edges_of(xs, bins)
    d = make(c, xs, bins)
    w = es[1] - es[0]
    i, j = c.choice("i", list(range(bins))), c.choice("j", list(range(bins)))
    c.assume(i <= j)
    s = d[float(0) + (xs[0] if i == 0 else es_val(c, xs, bins, i)):es_val(c, xs, bins, j, half=True)]
    vs, ee, cs = expected(c, xs, es, es[i], es[j] + w / 2, True)
    if vs is None or ee is None:
        return
    describes(c, s, vs, ee, cs, "slice")
    b = c.real("b", -LIM, LIM, G)
    c.assume(And(ge(b, ee[0]), le(b, ee[-1]), ge(ex(b) - ee[0], w)))
    t = s[ee_val(c, xs, bins, i):b]
    v2, e2, c2 = expected(c, vs, ee, ee[0], ex(b), True, closed=j == bins - 1)
    if v2 is not None and e2 is not None:
        describes(c, t, v2, e2, c2, "slice of a slice")


def es_val(c, xs, bins, i, half=False):
    lo, hi = xs[0], xs[-1]
    return lo + (hi - lo) * ((i + (0.5 if half else 0)) / bins)


ee_val = es_val


def h_opt(c, which, n, bins, p=None):
    xs = points(c, n)
    es = edges_of(xs, bins)
    d = make(c, xs, bins)
    if which == "minmax":
        t = c.mod(OPT + "minmax").MinMaxOptimizer().trim(d)
        describes(c, t, xs, es, counts(xs, es), "min-max")
        c.check(And(eq(t.get_min(), d.get_min()), eq(t.get_max(), d.get_max())), "min-max leaves the range alone")
        return
    t = c.mod(OPT + "fixed_percent").FixedPercentOptimizer(p).trim(d)

    def perc(q):
        pos = Fr(q) * (n - 1) / 100
        k = pos.numerator // pos.denominator
        if k >= n - 1:
            return ex(xs[n - 1])
        return ex(xs[k]) + (ex(xs[k + 1]) - ex(xs[k])) * (pos - k)
    lo, hi = perc(p), perc(100 - p)
    got = exl(t._sorted_a)
    tol = Fr(1, 10 ** 9)
    c.check(len(got) == n and And(*[near(g, clamp(x, lo, hi), tol) for g, x in zip(got, xs)]), "data are clipped to the percentiles")
    c.check(And(ge(got[0], xs[0] - tol), le(got[-1], xs[-1] + tol)), "the range never grows")
    c.check(And(*[eq(a, b) for a, b in zip(t.get_bin_edges(), es)]), "within the bins of the original")
    describes(c, d, xs, es, counts(xs, es), "the trimmed distribution")


def h_scipy(c, n, bins):
    """whatever interval inside its bounds the minimiser returns"""
    xs = points(c, n)
    c.assume(gt(ex(xs[-1]) - ex(xs[0]), 2))
    es = edges_of(xs, bins)
    d = make(c, xs, bins)
    m = c.mod(OPT + "scipy_optimizer")
    a, b = c.real("a", -LIM, LIM, G), c.real("b", -LIM, LIM, G)
    c.assume(And(ge(a, es[0]), le(b, es[-1]), le(a, b)))
    seen = []

    def minimize(f, x0, bounds=None, method=None, **k):
        seen.append((x0, bounds))
        return types.SimpleNamespace(x=(a, b))
    m.minimize = minimize
    t = m.ScipyOptimizer(Q(c, "int8"), lambda p, q: 0.0, "nelder-mead").trim(d)
    c.check(len(seen) == 1 and And(eq(seen[0][0][0], es[0]), eq(seen[0][0][1], es[-1]), *[And(eq(p, es[0]), eq(q, es[-1])) for p, q in seen[0][1]]), "the minimiser stays inside the observed range")
    vs, ee, cs = expected(c, xs, es, ex(a), ex(b), True)
    got = exl(t._sorted_a)
    c.check(len(got) == len(vs) and And(*[eq(p, q) for p, q in zip(got, vs)]), "trimmed values")
    if ee is not None:
        c.check(And(ge(t.get_min(), es[0]), le(t.get_max(), es[-1])), "the range never grows")


def cases(tier):
    th = tier == "thorough"
    out = []
    for n in (1, 2, 3) + ((4,) if th else ()):
        for bins in (1, 2, 4):
            if th or n < 3 or bins < 4:
                out.append(case(f"init {n} bins={bins}", h_init, n=n, bins=bins, weight=n, **O))
    out.append(case("init matrix", h_init, n=4, bins=2, ordered=True, shape=(2, 2), **O))
    for partial in (True, False):
        p = "partial" if partial else "whole"
        for n in (1, 2, 3) + ((4,) if th else ()):
            for bins in (1, 2, 4) + ((8,) if th else ()):
                if not th and (n == 3 and bins == 4 or n == 3 and bins == 2 and not partial):
                    continue
                for start, stop in ((True, True), (True, False), (False, True)):
                    if not partial and not th and n == 3:
                        continue
                    out.append(case(f"{p} bins={bins} {n} values {'a' if start else ''}:{'b' if stop else ''}", h_slice, n=n, bins=bins, partial=partial, start=start, stop=stop, weight=n * bins, **O))
        out.append(case(f"{p} slices of fixed data", h_slice, n=6, bins=4, partial=partial, xs=[-4.0, -3.5, -1.0, 0.0, 2.0, 4.0], weight=4, **O))
        out.append(case(f"{p} slices of data on the edges", h_slice, n=5, bins=4, partial=partial, xs=[0.0, 1.0, 2.0, 3.0, 4.0], weight=4, **O))
        XS = sorted(((37 * i) % 97 - 40) * 0.125 for i in range(60))
        for start in (True, False):
            out.append(case(f"large {p} slices of fixed data {'a' * start}:{'b' * (not start)}", h_slice, n=60, bins=16, partial=partial, xs=XS, start=start, stop=not start, weight=6, **O))
    out.append(case("nested 2 values", h_nested, n=2, bins=4, weight=8, **O))
    if th:
        out.append(case("nested 3 values", h_nested, n=3, bins=4, weight=8, **O))
    for n, bins in ((1, 2), (2, 1), (3, 2)):
        out.append(case(f"min-max {n} bins={bins}", h_opt, which="minmax", n=n, bins=bins, **O))
        for p in (0, 10, 25, 40):
            out.append(case(f"fixed percent {p} {n} bins={bins}", h_opt, which="fixed", n=n, bins=bins, p=p, weight=2, **O))
    for n, bins in ((2, 2), (3, 4)) if th else ((2, 2),):
        out.append(case(f"scipy {n} bins={bins}", h_scipy, n=n, bins=bins, weight=3, **O))
    return out
