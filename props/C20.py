"""Node look-up tables follow their parameters."""
from .common import *

T = "itcl_quantizer.tensor_extractor.tensor"
A = "itcl_quantizer.tensor_extractor.keras.layers.activations"
BOUNDS = ("activation: an arbitrary function (uninterpreted, values multiples of 2^-6 in [-12, 12]), 0.5*x and x*x/4 with the table built by the layer quantiser from concrete calibration data; tables of 2^2..2^4 codes; "
          "every sequence of up to 2 operations (3 thorough) out of: new input parameters, new output parameters, new binary policy; zero points: every code; scales: every pair of the listed powers of two, and 0.1 with a "
          "tolerance of 1e-6 steps")
TOL = Fr(1, 10 ** 6)
KINDS = ("in", "out", "policy")


def nearest(vs):
    return [ite(ge(ex(v) - floor(ex(v)), Fr(1, 2)), 1, 0) for v in vs]


def table(c, lut, f, rng, si, zi, so, zo, pol, what):
    lo, hi = rng
    n = hi - lo + 1
    c.check(len(lut) == n, what + ": one entry per code")
    for k in range(n):
        v = ex(f((lo + k - zi) * si)) / ex(so) + ex(zo)
        if pol is None:
            c.check(And(ge(lut[k], clamp(floor(v - TOL), lo, hi)), le(lut[k], clamp(floor(v + 1 + TOL), lo, hi))), what + ": a neighbouring code")
            continue
        v = v + ex(pol[k])
        if pow2(so):
            c.check(eq(lut[k], clamp(floor(v), lo, hi)), what + ": entry")
        else:
            c.check(And(ge(lut[k], clamp(floor(v - TOL), lo, hi)), le(lut[k], clamp(floor(v + TOL), lo, hi))), what + ": entry")


def agree(c, node, rng, what):
    """call, index, length and JSON of a node's table"""
    lo, hi = rng
    lut = node.LUT
    n = hi - lo + 1
    j = lut.as_json()
    c.check(len(lut) == n and len(j["LUT"]) == n, what + ": length")
    c.check(And(eq(lut.offset, -lo), eq(j["offset"], -lo)), what + ": offset")
    c.eq_list(exl(j["LUT"]), [lut[i] for i in range(n)], what + ": JSON entries")
    for q in range(lo, hi + 1):
        c.check(eq(lut(q), lut[q + lut.offset]), what + ": call")
    jn = node.as_json()["LUT"]
    c.eq_list(exl(jn["LUT"]), exl(j["LUT"]), what + ": JSON of the node")
    c.check(eq(jn["offset"], -lo), what + ": offset of the node")


def h_history(c, dtype, steps, ops, sis, sos, tensor=False, fun="any", zis=None):
    rng = irange(dtype)
    lo, hi = rng
    n = hi - lo + 1
    m = c.mod(T)
    if fun == "any":
        f = c.opaque("f", -12, 12, -34)
    else:
        a, b = c.choice("a", [0.5, -2.0]), c.real("b", -4, 4, -6)
        f = lambda x: x * a + b

    def zin(k):
        return c.choice(k, list(zis)) if zis else c.int(k, lo, hi)
    si, zi, so, zo = sis[0], zin("zi"), sos[0], c.int("zo", lo, hi)
    node = m.NodeTensorBase(si, zi, "n", Q(c, dtype))
    if tensor:
        xs = [c.real(f"x{i}", -3, 3, -6) for i in range(2)]
        node = node.with_tensor(c.mkarr(xs, (2,), np.float64))
    got = node.with_lut(f, so, zo)
    c.check(got is node, "with_lut returns the node")
    xs0 = [ex(f((lo + k - zi) * si)) for k in range(n)]
    pol = nearest([y / ex(so) for y in xs0]) if pow2(so) else None
    lut = node.LUT
    table(c, lut, f, rng, si, zi, so, zo, [Fr(1, 2)] * n if pow2(so) else None, "new table")
    agree(c, node, rng, "new table")
    for k in range(steps):
        op = c.choice(f"op{k}", list(ops)) if len(ops) > 1 else ops[0]
        if op == "in":
            si, zi = c.choice(f"si{k}", list(sis)), zin(f"zi{k}")
            node.update_quant_parameters(si, zi)
        elif op == "out":
            so, zo = c.choice(f"so{k}", list(sos)), c.int(f"zo{k}", lo, hi)
            node.LUT._update_out_qparams(so, zo)
        else:
            pol = [c.int(f"p{k}_{i}", 0, 1) for i in range(n)]
            node.LUT.rounding_policy = c.mkarr(pol, (n,), np.int64)
        if pol is None:
            p = exl(node.LUT.rounding_policy)
            c.check(And(*[Or(eq(e, 0), eq(e, 1)) for e in p]), "the first policy is binary")
            table(c, node.LUT, f, rng, si, zi, so, zo, p, op)
        else:
            c.eq_list(exl(node.LUT.rounding_policy), pol, op + ": policy")
            table(c, node.LUT, f, rng, si, zi, so, zo, pol, op)
        agree(c, node, rng, op)
        if tensor:
            q = exl(node.quantized)
            for g, x, p in zip(q, xs, exl(node.rounding_policy)):
                c.check(eq(g, clamp(floor(ex(x) / ex(si) + ex(zi) + ex(p)), lo, hi)), "the node's own codes")


FUNCS = {"half": lambda x: x * 0.5, "shifted": lambda x: 1.5 - x * 0.5}


def h_layer(c, dtype, kind, act_name, data, ops=KINDS, steps=1):
    """tables built by the layer quantiser follow the nodes of their operator"""
    rng = irange(dtype)
    lo, hi = rng
    n = hi - lo + 1
    f = FUNCS[kind]
    m, a = c.mod(T), c.mod(A)
    x = np.array(data)
    si, zi = 0.5, c.int("zi", lo, hi)
    node = m.NodeTensorBase(si, zi, "n", Q(c, dtype)).with_tensor(x)
    op, act = a.quantize_activation_node(f, act_name, x, Q(c, dtype), node)
    c.check(op is not None and op.inputs[0] is node and len(op.inputs) == 1 and len(op.outputs) == 1, "operator of the activation")
    c.check(op.as_json()["op_type"] == act_name.upper() + "LUT", "operator type")
    c.eq_list(exl(act), exl(f(x)), "activated data", 1e-9)
    out = op.outputs[0]
    c.same_shape(out.fp_tensor, x.shape)
    ys = exl(f(x))
    top, bot = max(ys + [0]), min(ys + [0])
    c.check(near(out.scale, Fr(float(top - bot)) / (hi - lo), 1e-9), "scale of the output")
    c.check(And(ge(out.zero_point, lo), le(out.zero_point, hi)), "zero point of the output")
    # the table uses the parameters of both nodes
    so, zo = out.scale, out.zero_point
    lut = node.LUT
    table(c, lut, f, rng, si, zi, so, zo, [Fr(1, 2)] * n, "new table")
    pol = exl(lut.rounding_policy)
    for k in range(steps):
        o = c.choice(f"op{k}", list(ops)) if len(ops) > 1 else ops[0]
        if o == "in":
            si, zi = c.choice(f"si{k}", [0.5, 0.25]), c.int(f"zi{k}", lo, hi)
            node.update_quant_parameters(si, zi)
        elif o == "out":
            so, zo = c.choice(f"so{k}", [0.5, 0.125]), c.int(f"zo{k}", lo, hi)
            out.update_quant_parameters(so, zo)
        else:
            pol = [c.int(f"p{k}_{i}", 0, 1) for i in range(n)]
            node.LUT.rounding_policy = c.mkarr(pol, (n,), np.int64)
        table(c, node.LUT, f, rng, si, zi, so, zo, pol, o)
        agree(c, node, rng, o)
        j = op.as_json()
        c.eq_list(exl(j["inputs"][0]["LUT"]["LUT"]), exl(node.LUT.as_json()["LUT"]), "JSON of the operator")
        c.check(And(eq(j["outputs"][0]["scale"], so), eq(j["outputs"][0]["zero_point"], zo), eq(j["inputs"][0]["scale"], si), eq(j["inputs"][0]["zero_point"], zi)), "JSON of the operator")


def cases(tier):
    th = tier == "thorough"
    out = []
    for dt in ("int2", "uint2", "int3", "uint3"):
        lo, hi = irange(dt)
        out.append(case(f"{dt} 2 operations", h_history, dtype=dt, steps=2, ops=KINDS, sis=(0.5, 0.25), sos=(0.25, 0.5), zis=(lo + 1, hi), weight=3))
        out.append(case(f"{dt} 2 operations linear", h_history, dtype=dt, steps=2, ops=KINDS, sis=(0.5, 0.25), sos=(0.25, 0.5), fun="linear", weight=3))
    out.append(case("int2 1 operation", h_history, dtype="int2", steps=1, ops=KINDS, sis=(0.5, 1.0), sos=(0.125, 1.0), weight=3))
    out.append(case("int4 1 operation", h_history, dtype="int4", steps=1, ops=KINDS, sis=(0.5, 1.0), sos=(0.125, 1.0), zis=(-8, 0, 3), weight=3))
    out.append(case("int3 with a tensor", h_history, dtype="int3", steps=1, ops=KINDS, sis=(0.5, 1.0), sos=(0.125, 1.0), tensor=True, zis=(-2, 3), weight=3))
    out.append(case("int3 scale 0.1", h_history, dtype="int3", steps=1, ops=KINDS, sis=(0.5, 0.25), sos=(0.1, 0.3), zis=(-2, 3)))
    for dt in ("int8", "uint8"):
        out.append(case(f"{dt} new output parameters", h_history, dtype=dt, steps=1, ops=("out",), sis=(0.5,), sos=(0.125,), zis=(3,), fun="linear", weight=9))
    for kind in FUNCS:
        for name in ("tanh", "SIGMOID"):
            out.append(case(f"layer {name} {kind}", h_layer, dtype="int3", kind=kind, act_name=name, data=[[-3.0, -1.0], [4.0, 0.25]], steps=2, weight=2))
    out.append(case("layer uint4", h_layer, dtype="uint4", kind="half", act_name="tanh", data=[[0.5, 7.5], [2.0, 0.25]], weight=3))
    if th:
        for dt in ("int2", "uint2", "int3"):
            lo, hi = irange(dt)
            out.append(case(f"{dt} 3 operations", h_history, dtype=dt, steps=3, ops=KINDS, sis=(0.5, 0.25), sos=(0.25, 0.5), zis=(lo + 1, hi), weight=9))
            out.append(case(f"{dt} 3 operations linear", h_history, dtype=dt, steps=3, ops=KINDS, sis=(0.5, 0.25), sos=(0.25, 0.5), fun="linear", weight=9))
        out.append(case("int3 1 operation", h_history, dtype="int3", steps=1, ops=KINDS, sis=(0.5, 1.0), sos=(0.125, 1.0), weight=9))
        out.append(case("int5 1 operation", h_history, dtype="int5", steps=1, ops=KINDS, sis=(0.5, 1.0), sos=(0.125, 1.0), zis=(-3, 4), weight=9))
        out.append(case("int8 any function, new output parameters", h_history, dtype="int8", steps=1, ops=("out",), sis=(0.5,), sos=(0.125, 1.0), zis=(0,), weight=9))
        out.append(case("layer 3 operations", h_layer, dtype="int3", kind="shifted", act_name="tanh", data=[[-3.0, -1.0], [4.0, 0.25]], steps=3, weight=8))
    return out
