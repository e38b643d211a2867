"""Quantised LSTM step implements the LSTM equations."""
from .common import *
from .lstm_model import *

BOUNDS = ("1-2 features, 1-2 units, batches of 1-2, 1-2 time steps; every int8 input code at once; zero points, kernels, recurrent kernels or biases symbolic over their whole "
          "dtype in some cases and fixed at asymmetric values in the others; three sets of scales; every stage judged against the previous stage's recorded values with an error "
          "of at most one step (and 1e-4); "
          "larger cases: layers of up to 40 features, 7 units, batches of 9 and 12 steps with one symbolic input code, sums of 1100 largest products")
CUT = {"cut": True}
ONE = 1 + Fr(1, 10 ** 4)


def build(c, via, op):
    if via == "builder":
        return c.mod(B).build_layer(op)
    return c.mod(L).LSTM.from_model(op)


def run(c, n, units, batch, steps, s, sym=(), zp="mixed", luts=None, via="model", seq=True, dts=None, x=None, sums=False):
    K, U, b = weights(c, n, units, sym)
    zps = zpoints(c, zp)
    if sums:
        K = [[[127] * units for _ in range(n)] for _ in range(4)]
        zps.update(k=[-128] * 4, inp=-128)
        x = c.mkarr([127] * (n - 1) + [c.int("x", -128, 127)], (1, 1, n), "int8")
    dts = dts or {}
    r = irange(dts.get("radd", "int8"))
    rc = irange(dts.get("cell", "int8"))
    kinds = luts or dict(i="sigm", f="mixed", g="tanh", o="ramp", ca="tanh")
    tabs = {k: table(v, *(rc if k == "ca" else r)) for k, v in kinds.items()}
    l = build(c, via, opr(n, units, s, K, U, b, zps, tabs, seq, dts))
    if x is None:
        x = c.iarr("x", (batch, steps, n), -128, 127, "int8")
    y = l.infer(x)
    return l, x, y, K, U, b, zps, tabs, r, rc


def within(c, y, v, lo, hi, label):
    """y is v, saturated, up to one step"""
    c.check(And(ge(y, lo), le(y, hi)), label + " inside its dtype")
    c.check(And(ge(y, mn(hi, v - ONE)), le(y, mx(lo, v + ONE))), label)


def lookup(tab, lo, q):
    """tab at code q"""
    return table_at(tab, q, lo)


def table_at(tab, q, lo):
    from sx import sym
    if hasattr(q, "z"):
        return ex(sym.table(sym.scalar_op("sub", q, lo), tab))
    return ex(tab[int(q) - int(lo)])


def h_stages(c, n, units, batch, steps, s, **kw):
    l, x, y, K, U, b, zps, tabs, r, rc = run(c, n, units, batch, steps, s, **kw)
    c.same_shape(y, (batch, steps, units))
    c.observe("y", y)
    it = l.intermediate_tensors
    xs = exl(x)
    ys = exl(y)
    dts = kw.get("dts") or {}
    hr = irange(dts.get("hid", "int8"))
    at = lambda a, i, j: exl(a)[i * units + j]
    zi, zh, zc = ex(zps["inp"]), ex(zps["hid"]), ex(zps["cell"])
    for t in range(steps):
        for bi in range(batch):
            hp = [ys[(bi * steps + t - 1) * units + j] if t else zh for j in range(units)]
            for j in range(units):
                gate = []
                for g in range(4):
                    acc = sum((ex(xs[(bi * steps + t) * n + i]) - zi) * (ex(K[g][i][j]) - ex(zps["k"][g])) for i in range(n)) + ex(b[g][j])
                    M1 = Fr(s["inp"]) * Fr(s["k"][g]) / (Fr(s["hid"]) * Fr(s["rk"][g]))
                    ba = at(it.bias_add[t][g], bi, j)
                    c.check(And(le(acc * M1 - ONE, ba), le(ba, acc * M1 + ONE)), f"{GATES[g]} gate: input product and bias")
                    M2 = Fr(s["hid"]) * Fr(s["rk"][g]) / Fr(s["radd"][g])
                    v = (sum((hp[k] - zh) * (ex(U[g][k][j]) - ex(zps["rk"][g])) for k in range(units)) + ba) * M2 + ex(zps["radd"][g])
                    ra = at(it.recurrent_add[t][g], bi, j)
                    within(c, ra, v, *r, f"{GATES[g]} gate: recurrent product")
                    a = (it.input_gate_act, it.forget_gate_act, it.cell_gate_act, it.output_gate_act)[g][t]
                    a = at(a, bi, j)
                    c.check(eq(a, table_at(tabs["ifgo"[g]], ra, r[0])), f"{GATES[g]} gate: activation")
                    gate.append(a - ex(zps["ifgo"[g]]))
                cs = at(it.cell_state[t], bi, j)
                cp = at(it.cell_state[t - 1], bi, j) if t else zc
                v = zc + Fr(s["f"]) * gate[1] * (cp - zc) + Fr(s["i"]) * Fr(s["g"]) / Fr(s["cell"]) * gate[0] * gate[2]
                within(c, cs, v, *rc, "cell state")
                ca = at(it.cell_state_act[t], bi, j)
                c.check(eq(ca, table_at(tabs["ca"], cs, rc[0])), "cell activation")
                v = zh + Fr(s["o"]) * Fr(s["ca"]) / Fr(s["hid"]) * gate[3] * (ca - ex(zps["ca"]))
                within(c, ys[(bi * steps + t) * units + j], v, *hr, "hidden state")
    c.check(And(*[eq(p, q) for p, q in zip(exl(x), xs)]), "input left alone")


def cases(tier):
    th = tier == "thorough"
    out = []
    for sn, s in (("pow2", S_POW2), ("real", S_REAL), ("big", S_BIG)):
        for zp in ("zero", "mixed"):
            dims = [(1, 1, 1, 1), (2, 1, 1, 1), (1, 1, 1, 2), (1, 1, 2, 1)]
            dims += [(2, 1, 1, 2), (1, 2, 1, 2)] if th or (sn != "real" and zp == "mixed") else []
            dims += [(2, 2, 2, 2), (1, 1, 1, 3)] if th else []
            for n, u, bt, st in dims:
                out.append(case(f"step {sn} zp={zp} features={n} units={u} batch={bt} steps={st}", h_stages, opts=CUT, weight=n * u * bt * st, n=n, units=u, batch=bt, steps=st, s=s, zp=zp))
        for zp in ("pos", "neg"):
            if th or sn != "real":
                out.append(case(f"zero points {zp} {sn}", h_stages, opts=CUT, weight=5, n=1, units=1, batch=1, steps=2, s=s, zp=zp))
            else:
                out.append(case(f"zero points {zp} {sn}", h_stages, opts=CUT, weight=5, n=1, units=1, batch=1, steps=1, s=s, zp=zp))
        out.append(case(f"kernels {sn}", h_stages, opts=CUT, weight=3, n=2, units=1, batch=1, steps=1, s=s, sym=("K0", "K1", "K2", "K3", "b0", "b1", "b2", "b3")))
        out.append(case(f"recurrent kernels {sn}", h_stages, opts=CUT, weight=3, n=1, units=1, batch=1, steps=2, s=s, sym=("U0", "U1", "U2", "U3")))
    out.append(case("recurrent kernels two units", h_stages, opts=CUT, weight=5, n=1, units=2, batch=1, steps=2, s=S_BIG, zp="zero", sym=("U0", "U1")))
    for k, d in (("cell", "int16"), ("cell", "int7"), ("radd", "int6"), ("ca", "int16")):
        if k == "cell" and d == "int16":
            continue
        out.append(case(f"{k} of {d}", h_stages, opts=CUT, weight=3, n=1, units=1, batch=1, steps=2, s=S_BIG, dts={k: d}))
    for n, u, bt, st in ((5, 7, 1, 1), (3, 4, 2, 2), (1, 1, 1, 12), (40, 2, 1, 1), (1, 1, 9, 1)):
        out.append(case(f"large features={n} units={u} batch={bt} steps={st}", sparse(h_stages, rf"^x\[{bt - 1},{st - 1},{n - 1}\]$"), opts=CUT, weight=5, n=n, units=u, batch=bt, steps=st, s=S_POW2))
    for sn, s in (("pow2", S_POW2), ("big", S_BIG)):
        out.append(case(f"large sums {sn}", h_stages, opts=CUT, weight=5, n=1100, units=1, batch=1, steps=1, s=s, sums=True, sym=("b0", "b1", "b2", "b3")))
    out.append(case("builder", h_stages, opts=CUT, weight=2, n=1, units=1, batch=1, steps=2, s=S_POW2, via="builder"))
    return out
