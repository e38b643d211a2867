"""Reduced look-up tables are lossless."""
import json
from .common import *

LUTM = "itcl_quantization.quantization.lut"
BOUNDS = ("every table of up to 6 entries (8 thorough) with arbitrary 16-bit values, every depth 0..n+1, every min_reduce, both modes; every table of 9-12 (24 thorough) "
          "entries that is non-decreasing (the shape of the activation tables) with depth 1..3; int8-sized (256 entries) tables with symbolic run boundaries")


def probe(c, r, lut, what):
    c.check(And(*[eq(r[i], v) for i, v in enumerate(lut)]), "entry " + what)
    it = list(r)
    c.check(len(it) == len(lut), "iteration length " + what)
    c.check(And(*[eq(a, b) for a, b in zip(it, lut)]), "iteration " + what)


def reject(c, r, n):
    try:
        r[n]
    except IndexError:
        return
    except Exception as e:
        c.check(False, "index past the end", repr(e))
    c.check(False, "index past the end")


def run(c, lut, depth, mr, asym, text=True):
    M = c.mod(LUTM)
    orig = list(lut)
    r = M.ReducedLUT(lut, depth, mr, asym)
    c.check(len(lut) == len(orig) and all(a is b for a, b in zip(lut, orig)), "the table it was built from is left alone")
    probe(c, r, lut, "direct")
    s = r.serialize()
    probe(c, M.ReducedLUT.deserialize(s), lut, "deserialised")
    c.check(eq(s["reduced_lut_len"], len(s["reduced_lut"])), "length field")
    for side in ("head", "tail"):
        c.check(eq(s[side]["tuples_len"], len(s[side]["tuples"])), "length field")
    c.check(And(eq(s["depth"], depth), eq(s["min_reduce"], mr), Iff(s["asymmetric"], asym)), "parameters in the serialised form")
    probe(c, r, lut, "after serialising")
    if text:
        t = c.loads(c.dumps(s))
        d = M.ReducedLUT.deserialize(t)
        probe(c, d, lut, "from JSON text")
        probe(c, M.ReducedLUT.deserialize(c.loads(c.dumps(d.serialize()))), lut, "second round trip")
    c.observe("red", [list(r.reduced_lut), r.left_shift, r.right_shift])


def h_any(c, n, asym, dmax):
    lut = [c.int(f"t{i}", -32768, 32767) for i in range(n)]
    depth = c.int("d", 0, dmax)
    mr = c.int("mr", 0, 300)
    run(c, lut, depth, mr, asym)


def h_mono(c, n, depth, asym):
    """non-decreasing tables with few distinct runs at both ends"""
    lut = [c.int(f"t{i}", -32768, 32767) for i in range(n)]
    for a, b in zip(lut, lut[1:]):
        c.assume(And(le(a, b), le(b, ex(a) + 1)))
    run(c, lut, depth, 0, asym)


def h_large(c, n, k, depth, asym, sym_vals=True):
    """long tables: constant runs whose boundaries and values are symbolic"""
    cuts = [0]
    for j in range(k - 1):
        cuts.append(c.choice(f"c{j}", [x for x in (1, 2, n // 3, n // 2, n - 2, n - 1)]))
    for a, b in zip(cuts, cuts[1:]):
        c.assume(a < b)
    vals = [c.int(f"v{j}", -128, 255) for j in range(k)]
    lut = []
    for j in range(k):
        e = cuts[j + 1] if j + 1 < k else n
        lut += [vals[j]] * (e - cuts[j])
    run(c, lut, depth, 0, asym, text=False)


def h_list_kinds(c, n, asym, kind):
    """tables coming from an array, and index types of numpy"""
    lut = [c.int(f"t{i}", -128, 127) for i in range(n)]
    M = c.mod(LUTM)
    r = M.ReducedLUT(lut, 2, 0, asym)
    i = c.np_int("i", 0, n - 1, np.int16)
    v = r[i]
    want = lut[-1]
    for j in range(n - 1):
        want = ite(eq(i, j), lut[j], want)
    c.check(eq(v, want), "numpy index")
    c.observe("v", v)


def cases(tier):
    th = tier == "thorough"
    out = []
    for asym in (False, True):
        for n in range(1, 9 if th else 7):
            out.append(case(f"any table of {n} asym={asym}", h_any, weight=4 ** n / 100, opts=dict(max_paths=30000, time_s=700), n=n, asym=asym, dmax=n + 1))
        for n, d in ((9, 1), (12, 2)) + (((16, 2), (16, 3), (20, 2), (24, 2)) if th else ()):
            out.append(case(f"monotone table of {n} depth {d} asym={asym}", h_mono, weight=100, opts=dict(max_paths=20000, time_s=700), n=n, depth=d, asym=asym))
        for n, k, d in ((64, 3, 1), (64, 3, 2)) + (((256, 4, 2), (256, 4, 3), (256, 3, 5)) if th else ()):
            out.append(case(f"table of {n}, {k} runs, depth {d} asym={asym}", h_large, weight=100, opts=dict(max_paths=5000, time_s=700), n=n, k=k, depth=d, asym=asym))
        out.append(case(f"numpy index asym={asym}", h_list_kinds, weight=10, n=4, asym=asym, kind="np"))
    return out
