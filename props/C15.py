"""LSTM sequences: state, batch and return modes are consistent."""
from .common import *
from .lstm_model import *

BOUNDS = ("1-2 features, 1-2 units, batches of 1-3, 1-3 time steps; every int8 input code; zero points fixed at asymmetric values or at zero, weights symbolic in some cases; "
          "two earlier calls with symbolic inputs of other shapes; "
          "larger cases: layers of up to 5 features, 7 units, batches of 9 and 12 steps with one symbolic code per input")
CUT = {"cut": True}


def build(c, n, units, s, seq, sym=(), zp="mixed", luts=None, w=None):
    K, U, b = w or weights(c, n, units, sym)
    zps = zpoints(c, zp)
    kinds = luts or dict(i="sigm", f="mixed", g="tanh", o="ramp", ca="tanh")
    tabs = {k: table(v) for k, v in kinds.items()}
    return c.mod(L).LSTM.from_model(opr(n, units, s, K, U, b, zps, tabs, seq)), (K, U, b)


def same(c, a, b, label):
    a, b = exl(a), exl(b)
    c.check(len(a) == len(b) and And(*[eq(p, q) for p, q in zip(a, b)]), label)


def part(c, x, dims, pick):
    """a part of x as an array of its own"""
    batch, steps, n = dims
    bs, ts = pick
    flat = x.reshape(-1)
    items = [flat[(i * steps + t) * n + f] for i in bs for t in ts for f in range(n)]
    return c.mkarr(items, (len(bs), len(ts), n), "int8")


def h_state(c, n, units, batch, steps, s, seq, sym=(), zp="mixed"):
    l, w = build(c, n, units, s, seq, sym, zp)
    first = c.iarr("first", (batch, steps, n), -128, 127, "int8")
    other = c.iarr("other", (1, 2, n), -128, 127, "int8")
    x = c.iarr("x", (batch, steps, n), -128, 127, "int8")
    l.infer(first)
    y1 = l.infer(x)
    l.infer(other)
    y2 = l.infer(x)
    y3 = build(c, n, units, s, seq, zp=zp, w=w)[0].infer(x)
    c.same_shape(y1, (batch, steps, units) if seq else (batch, units))
    c.observe("y", y1)
    same(c, y1, y3, "independent of earlier inferences")
    same(c, y2, y3, "independent of inferences of other shapes")


def h_batch(c, n, units, batch, steps, s, seq, sym=(), zp="mixed"):
    l, w = build(c, n, units, s, seq, sym, zp)
    x = c.iarr("x", (batch, steps, n), -128, 127, "int8")
    y = exl(l.infer(x))
    k = len(y) // batch
    for b in range(batch):
        one = l.infer(part(c, x, (batch, steps, n), ([b], range(steps))))
        same(c, y[b * k:(b + 1) * k], one, "a batch element is the element alone")
    z = exl(l.infer(part(c, x, (batch, steps, n), (list(range(batch))[::-1], range(steps)))))
    same(c, [z[(batch - 1 - b) * k + j] for b in range(batch) for j in range(k)], y, "the order of the batch does not matter")


def h_modes(c, n, units, batch, steps, s, sym=(), zp="mixed"):
    l1, w = build(c, n, units, s, True, sym, zp)
    l2, _ = build(c, n, units, s, False, zp=zp, w=w)
    x = c.iarr("x", (batch, steps, n), -128, 127, "int8")
    y, z = l1.infer(x), l2.infer(x)
    c.same_shape(y, (batch, steps, units))
    c.same_shape(z, (batch, units))
    ys = exl(y)
    c.observe("z", z)
    same(c, [ys[(b * steps + steps - 1) * units + j] for b in range(batch) for j in range(units)], z, "the last state is the last of the sequence")


def h_causal(c, n, units, batch, steps, s, sym=(), zp="mixed"):
    l, _ = build(c, n, units, s, True, sym, zp)
    x = c.iarr("x", (batch, steps, n), -128, 127, "int8")
    y = exl(l.infer(x))
    for t in range(1, steps):
        z = l.infer(part(c, x, (batch, steps, n), (range(batch), range(t))))
        same(c, [y[(b * steps + i) * units + j] for b in range(batch) for i in range(t) for j in range(units)], z, "step t depends on the inputs up to t")


def cases(tier):
    th = tier == "thorough"
    out = []
    for sn, s in (("pow2", S_POW2), ("real", S_REAL)):
        for zp in ("zero", "mixed"):
            for seq in (True, False):
                for n, u, bt, st in ((1, 1, 1, 2), (2, 2, 2, 1)) + (((2, 1, 2, 2), (1, 2, 3, 3)) if th else ()):
                    out.append(case(f"state {sn} zp={zp} seq={seq} {n}x{u}x{bt}x{st}", h_state, opts=CUT, weight=2, n=n, units=u, batch=bt, steps=st, s=s, seq=seq, zp=zp))
                for n, u, bt, st in ((1, 1, 2, 2), (2, 1, 3, 1)) + (((1, 2, 2, 2), (1, 1, 3, 3)) if th else ()):
                    out.append(case(f"batch {sn} zp={zp} seq={seq} {n}x{u}x{bt}x{st}", h_batch, opts=CUT, weight=2, n=n, units=u, batch=bt, steps=st, s=s, seq=seq, zp=zp))
            for n, u, bt, st in ((1, 1, 1, 3), (2, 1, 2, 2), (1, 2, 2, 1)) + (((1, 2, 2, 3),) if th else ()):
                out.append(case(f"modes {sn} zp={zp} {n}x{u}x{bt}x{st}", h_modes, opts=CUT, weight=2, n=n, units=u, batch=bt, steps=st, s=s, zp=zp))
            for n, u, bt, st in ((1, 1, 1, 3), (2, 1, 2, 2)) + (((1, 2, 1, 4),) if th else ()):
                out.append(case(f"causal {sn} zp={zp} {n}x{u}x{bt}x{st}", h_causal, opts=CUT, weight=2, n=n, units=u, batch=bt, steps=st, s=s, zp=zp))
    W = tuple(f"{k}{g}" for k in "KUb" for g in range(4))
    for f, nm, kw in ((h_state, "state", dict(seq=True)), (h_batch, "batch", dict(seq=False)), (h_modes, "modes", {}), (h_causal, "causal", {})):
        out.append(case(f"{nm} any weights", f, opts=CUT, weight=3, n=1, units=1, batch=2, steps=2, s=S_POW2, sym=W, **kw))
    for n, u, bt, st in ((5, 7, 2, 2), (1, 2, 1, 12), (2, 1, 9, 2)):
        pat = rf"^(x|first|other)\[{bt - 1},{st - 1},{n - 1}\]$"
        for sq in (True, False):
            out.append(case(f"large state seq={sq} {n}x{u}x{bt}x{st}", sparse(h_state, pat), opts=CUT, weight=4, n=n, units=u, batch=bt, steps=st, s=S_POW2, seq=sq))
            if bt > 1:
                out.append(case(f"large batch seq={sq} {n}x{u}x{bt}x{st}", sparse(h_batch, pat), opts=CUT, weight=4, n=n, units=u, batch=bt, steps=st, s=S_POW2, seq=sq))
        out.append(case(f"large modes {n}x{u}x{bt}x{st}", sparse(h_modes, pat), opts=CUT, weight=4, n=n, units=u, batch=bt, steps=st, s=S_POW2))
        if st > 1:
            out.append(case(f"large causal {n}x{u}x{bt}x{st}", sparse(h_causal, rf"^x\[0,0,0\]$"), opts=CUT, weight=4, n=n, units=u, batch=bt, steps=min(st, 5), s=S_POW2))
    return out
