"""Rounding optimisation keeps policies binary and improves cost."""
from .common import *
from .keras_model import *
from . import C23
from .C23 import Cost, flat

AN = "itcl_quantizer.equalizers.adaround.annealer"
AD = "itcl_quantizer.equalizers.adaround.adaround"
CFG = "itcl_quantizer.config.models.keras"
LAYERS = "itcl_quantizer.tensor_extractor.keras.layers"
BOUNDS = ("1-3 tensors of 1-4 entries of rank 1-3; all start policies, all random draws, every cost function of the policies with values out of 0..2 (0..3 thorough), annealing with 0-2 moves (3 thorough) and any acceptance of "
          "worse states, local search with max_retries 0..1 (2 thorough); AdaRound on 1-3 nodes and tables with the annealer and with an optimiser that returns any policies; networks of 1-2 dense layers, one with a table activation; "
          "larger cases: moves on tensors of up to 24 entries")
ASSUMPTIONS = ["values and codes over the real numbers, rounding errors of the float arithmetic left out"]
B = {"exact": True, "max_paths": 8000}


def bits(neigh):
    return [ex(v) for t in neigh for v in exl(t)]


def valid(c, neigh, shapes, what):
    c.check(len(neigh) == len(shapes), what + ": one policy per tensor")
    for p, s in zip(neigh, shapes):
        c.same_shape(p, s)
        for v in exl(p):
            c.check(Or(eq(v, 0), eq(v, 1)), what + ": binary")


def policies(c, shapes):
    return [c.iarr(f"p{k}", s, 0, 1) for k, s in enumerate(shapes)]


def annealer(c, steps, retries):
    c.anneal_steps = steps
    return c.mod(AN).RoundingAnnealer(steps=steps, max_retries=retries)


def h_move(c, shapes):
    neigh = policies(c, shapes)
    start = [exl(p) for p in neigh]
    a = annealer(c, 0, 0)
    a.set_initial_neigh(neigh)
    a.move()
    valid(c, a.state, shapes, "move")
    for k, (old, new) in enumerate(zip(start, [exl(p) for p in a.state])):
        d = [ite(eq(x, y), 0, 1) for x, y in zip(old, new)]
        c.check(eq(sum(d), 1), "a move flips one bit of every tensor")
        for i, x in enumerate(d):
            c.possible(eq(x, 1), f"bit {i} of tensor {k} can be flipped")
    for p, s in zip(neigh, start):
        c.eq_list(exl(p), s, "the given policies stay")


def h_optimize(c, shapes, steps, retries, hi, reach=True):
    neigh = policies(c, shapes)
    start = [exl(p) for p in neigh]
    calls = [0]

    def see(n):
        calls[0] += 1
        valid(c, n, shapes, "evaluated")
        if steps == 0:
            es = [e for _, e in cost.log]
            for k, (o, e) in enumerate(cost.log):
                best = And(*[lt(e, x) for x in es[:k]], *[le(e, x) for x in es[k + 1:]])
                i, near_ = 0, []
                for t in n:
                    v = exl(t)
                    near_.append(le(sum(ite(eq(a, b), 0, 1) for a, b in zip(v, o[i:i + len(v)])), 1))
                    i += len(v)
                c.check(Implies(best, And(*near_)), "local search flips bits of the best policies so far")
        c.check(calls[0] <= steps + 4 * (hi + 1) * (retries + 1) + 4, "the search ends")
        return bits(n)
    cost = Cost(c, None, hi)
    a = annealer(c, steps, retries)
    a.set_cost_fn(lambda n: cost.at(see(n)))
    a.set_initial_neigh(neigh)
    best, got = a.optimize()
    valid(c, best, shapes, "returned")
    c.check(eq(cost.at(bits(best)), got), "the returned cost is the cost of the returned policies")
    c.check(And(*[le(got, e) for _, e in cost.log]), "no evaluated policies are better")
    for k, (p, s) in enumerate(zip(neigh, start)):
        c.eq_list(exl(p), s, "the given policies stay")
        for i, (x, y) in enumerate(zip(exl(best[k]), s)):
            if reach:
                c.possible(Not(eq(x, y)), f"bit {i} of tensor {k} can change")
    first = [v for s in start for v in s]
    at_start = And(*[eq(a, b) for a, b in zip(bits(best), first)])
    if retries == 0 and steps == 0:
        c.possible(at_start, "a failed move is undone")
    c.possible(And(eq(got, 0), at_start), "policies without error stay")


def nodes(c, kinds):
    m = c.mod(TE)
    out = []
    for k, kind in enumerate(kinds):
        z = c.int(f"z{k}", -3, 3)
        s = [0.25, 0.5, 0.125][k]
        if kind == "lut":
            n = m.NodeTensorBase(s, z, f"n{k}", Q(c, "int2")).with_lut(lambda x: x * 0.5, 0.5, 1)
            out.append(n.LUT)
        else:
            shp = {"matrix": (2, 2), "row": (1, 2), "vector": (3,)}[kind]
            out.append(m.NodeTensorBase(s, z, f"n{k}", Q(c, "int4")).with_tensor(reals(c, f"x{k}_", shp, -4, 4, -5)))
        out[-1]._sx = (kind, s, z)
    return out


def codes(c, ts, pols, what):
    for t, p in zip(ts, pols):
        kind, s, z = t._sx
        c.eq_list(exl(t.rounding_policy), p, what + ": installed policy")
        if kind == "lut":
            got = flat(t.as_json()["LUT"])
            want = [clamp(floor((ex(k) - ex(z)) * Fr(float(s)) * Fr(1, 2) / Fr(1, 2) + 1 + b), -2, 1) for k, b in zip(range(-2, 2), p)]
        else:
            got = exl(t.quantized)
            want = [clamp(floor(ex(x) / ex(s) + ex(z) + b), -8, 7) for x, b in zip(exl(t.fp_tensor), p)]
        c.eq_list([ex(v) for v in got], want, what + ": integers of the policy")


def any_optimizer(c, shapes, costs, tag=""):
    """an optimiser that evaluates and returns any policies"""
    O = c.mod("itcl_quantizer.equalizers.adaround.iround_optimizer").IRoundOptimizer

    class Any(O):
        def __init__(self):
            self.seen = {}

        def set_cost_fn(self, fn):
            self.seen["fn"] = fn
            return self

        def set_initial_neigh(self, n):
            self.seen["neigh"] = [exl(p) for p in n]
            self.seen["shapes"] = [shape(p) for p in n]
            return self

        def set_layer(self, l):
            self.seen["layer"] = l
            return self

        def set_quant_results(self, r):
            self.seen["results"] = r
            return self

        def set_input_data(self, d):
            self.seen["data"] = d
            return self

        def optimize(self):
            sh = shapes or self.seen["shapes"]
            for i, k in enumerate(costs):
                p = [c.iarr(f"{tag}try{i}_{k}", s, 0, 1) for k, s in enumerate(sh)]
                self.now = [exl(x) for x in p]
                c.check(eq(self.seen["fn"](p), k), "the optimiser sees the cost function")
            p = [c.iarr(f"{tag}best_{k}", s, 0, 1) for k, s in enumerate(sh)]
            self.best = [exl(x) for x in p]
            return p, 0.5
    return Any()


def h_any(c, kinds, tries):
    ts = nodes(c, kinds)
    start = [exl(t.rounding_policy) for t in ts]
    shapes = [shape(t.rounding_policy) for t in ts]
    calls = []
    costs = [c.real(f"cost{i}", -8, 8, -4) for i in range(tries)]
    o = any_optimizer(c, shapes, costs)
    seen = o.seen

    def fn():
        codes(c, ts, o.now, "evaluated")
        calls.append(1)
        return costs[len(calls) - 1]
    layer, results, data = object(), object(), np.array([[1.0, 2.0]])
    res = c.mod(AD).AdaRound(o, fn, layer, results, data).round(ts)
    c.check(seen.get("layer") is layer and seen.get("results") is results and seen.get("data") is data, "the optimiser knows the layer, its results and its input")
    c.check(len(seen["neigh"]) == len(ts), "start policies")
    for a, b in zip(seen["neigh"], start):
        c.eq_list(a, b, "start policies")
    c.check(len(res) == len(ts) and all(a is b for a, b in zip(res, ts)), "the rounded tensors are the given ones")
    codes(c, ts, o.best, "final")


def h_round(c, kinds, steps, retries, hi):
    """the annealer on real nodes"""
    ts = nodes(c, kinds)
    start = [v for t in ts for v in exl(t.rounding_policy)]
    cost = Cost(c, None, hi)

    def fn():
        now = [exl(t.rounding_policy) for t in ts]
        codes(c, ts, now, "evaluated")
        return cost.at([ex(v) for p in now for v in p])
    first = cost.at([ex(v) for v in start])
    c.mod(AD).AdaRound(annealer(c, steps, retries), fn, None, None, None).round(ts)
    now = [exl(t.rounding_policy) for t in ts]
    codes(c, ts, now, "final")
    last = cost.at([ex(v) for p in now for v in p])
    c.check(And(*[le(last, e) for _, e in cost.log]), "the best rounding that was evaluated")
    c.check(le(last, first), "never worse than the start")


def h_net(c, acts, steps, retries, hi, which="all"):
    net, res = C23.layers(c, acts, (0.375, -0.5))
    ops = [o for r in res for o in r.operators]
    tensors = [n for o in ops if len(o.inputs) == 3 for n in o.inputs[1:]]
    tables = [o.inputs[0].LUT for o in ops if len(o.inputs) == 1 and o.inputs[0].LUT is not None]
    held = tensors + tables
    counts = [len(exl(t.rounding_policy)) for t in held]

    def see():
        return [ex(v) for t in held for v in exl(t.rounding_policy)]
    S = c.mod("itcl_inference_engine.network.sequential").SequentialNetwork

    def init(self, j):
        self.shown = j
    S.__init__ = init
    start = see()
    cost = Cost(c, None, hi)
    first = cost.at(start)
    made = []

    def loss(seq):
        C23.shows(c, seq.shown, ops)
        C23.consistent(c, ops, "evaluated")
        return cost.at(see())

    def fac():
        made.append(annealer(c, steps, retries))
        return made[-1]
    c.mod(AD).AdaroundNet(net, loss, fac).round()
    c.check(len(made) == len(res), "one optimiser per layer")
    C23.consistent(c, ops, "final")
    last = cost.at(see())
    c.check(le(last, first), "never worse than the start")
    c.check(And(*[le(last, e) for _, e in cost.log]), "the best network that was evaluated")
    now = see()
    for k in range(len(held)):
        i = sum(counts[:k])
        c.possible(Not(And(*[eq(a, b) for a, b in zip(now[i:i + counts[k]], start[i:i + counts[k]])])), f"tensor {k} takes part")


def h_any_net(c, acts):
    """every layer is rounded with its own tensors, input and results"""
    net, res = C23.layers(c, acts, (0.375, -0.5))
    made = []

    def fac():
        made.append(any_optimizer(c, None, [], f"layer{len(made)}_"))
        return made[-1]
    X = np.array([[0.5, -1.0]])
    want = []
    for k, r in enumerate(res):
        want.append([exl(t.rounding_policy) for t in layer_tensors(r)])
    c.mod(AD).AdaroundNet(net, lambda seq: 1.0, fac).round()
    c.check(len(made) == len(res), "one optimiser per layer")
    for k, (o, r) in enumerate(zip(made, res)):
        ts = layer_tensors(r)
        c.check(o.seen.get("layer") is r.layer and o.seen.get("results") is r, "the optimiser knows its layer")
        if o.seen.get("data") is None:
            c.check(False, "the optimiser knows the float input of its layer")
        c.eq_list(exl(o.seen["data"]), exl(X if k == 0 else res[k - 1].input_data), "the optimiser knows the float input of its layer")
        c.check(len(o.best) == len(ts), "kernel, bias and table are rounded")
        for a, b in zip(o.seen["neigh"], want[k]):
            c.eq_list(a, b, "start policies")
        for t, p in zip(ts, o.best):
            c.eq_list(exl(t.rounding_policy), p, "installed policies")
    C23.consistent(c, [o for r in res for o in r.operators], "final")


def layer_tensors(r):
    ts = list(r.operators[0].inputs[1:])
    for o in r.operators[1:]:
        if o.inputs[0].LUT is not None:
            ts.append(o.inputs[0].LUT)
    return ts


def h_cfg(c, retries):
    m = c.mod(CFG)
    a = m.RoundingMinimaCfg(max_retries=retries).build()
    c.anneal_steps = 2
    n = [0]

    def fn(neigh):
        n[0] += 1
        return 1.0
    a.set_cost_fn(fn)
    a.set_initial_neigh([c.iarr("p", (2,), 0, 1)])
    best, got = a.optimize()
    c.check(eq(got, 1), "cost")
    c.check(n[0] == retries + 2, "local search alone: the start and its retries", str(n[0]))
    t0, t1 = c.real("t0", 0.25, 4, -4), c.real("t1", 8, 1000, -4)
    up, st, mr = c.int("updates", 0, 1000), c.int("steps", 0, 10000), c.int("retries", 0, 1000)
    b = m.RoundingAnnealerCfg(t_min=t0, t_max=t1, updates=up, steps=st, max_retries=mr).build()
    c.check(And(eq(b.Tmin, t0), eq(b.Tmax, t1), eq(b.updates, up), eq(b.steps, st)), "the annealer runs with the configured schedule")
    c.check(isinstance(b, c.mod(AN).RoundingAnnealer) and isinstance(m.RoundingQUBOCfg().build(), c.mod("itcl_quantizer.equalizers.adaround.qubo").QUBOAnnealer), "configured optimisers")


def cases(tier):
    deep = tier == "thorough"
    hi = 3 if deep else 2
    out = []
    for shapes in (((1,),), ((3,),), ((2, 2),), ((1, 2, 2),), ((2,), (1, 2)), ((3, 1), (1,), (2,))) + ((((4,), (2, 2)), ((2, 3), (2,), (1,))) if deep else ()):
        out.append(case(f"move {shapes}", h_move, opts=B, shapes=shapes))
    for shapes in (((24,),), ((3, 4), (4,))):
        out.append(case(f"large move {shapes}", h_move, weight=3, opts=B, shapes=shapes))
    for shapes in (((2,),), ((2, 1),), ((1, 2), (1,)), ((2, 2),)):
        out.append(case(f"local search {shapes}", h_optimize, weight=2, opts=B, shapes=shapes, steps=0, retries=0, hi=hi))
        out.append(case(f"annealing {shapes}", h_optimize, weight=3, opts=B, shapes=shapes, steps=1, retries=0, hi=1))
    out.append(case("local search with a retry", h_optimize, weight=3, opts=B, shapes=((2,),), steps=0, retries=1, hi=2))
    out.append(case("annealing, 2 moves", h_optimize, weight=3, opts=B, shapes=((2,),), steps=2, retries=0, hi=2))
    out.append(case("annealing of one bit, 2 moves and a retry", h_optimize, weight=3, opts=B, shapes=((1,),), steps=2, retries=1, hi=2))
    if deep:
        out.append(case("local search with two retries", h_optimize, weight=6, opts=B, shapes=((2,), (1,)), steps=0, retries=2, hi=2))
        out.append(case("annealing, 3 moves", h_optimize, weight=6, opts=B, shapes=((2,), (1,)), steps=3, retries=0, hi=2))
        out.append(case("annealing of two tensors", h_optimize, weight=6, opts=B, shapes=((2,), (2, 1)), steps=1, retries=0, hi=2))
    for kinds in (("row",), ("matrix", "vector"), ("row", "vector", "lut")):
        out.append(case(f"any optimiser on {'+'.join(kinds)}", h_any, weight=2, opts=B, kinds=kinds, tries=2))
    for acts in (("linear",), ("tanh",), ("linear", "sigmoid"), ("tanh", "linear")):
        out.append(case(f"any optimiser on a network {'+'.join(acts)}", h_any_net, weight=2, opts=B, acts=acts))
    for kinds in (("row",), ("row", "lut")):
        out.append(case(f"annealer on {'+'.join(kinds)}", h_round, weight=4, opts=B, kinds=kinds, steps=0, retries=0, hi=1))
    out.append(case("annealer on row, with moves", h_round, weight=4, opts=B, kinds=("row",), steps=1, retries=0, hi=1))
    out.append(case("network of a layer", h_net, weight=4, opts=B, acts=("linear",), steps=0, retries=0, hi=1))
    if deep:
        out.append(case("network with a table", h_net, weight=6, opts=B, acts=("tanh",), steps=0, retries=0, hi=1))
    if deep:
        out.append(case("network of two layers", h_net, weight=8, opts=B, acts=("linear", "linear"), steps=0, retries=0, hi=1))
    for r in (0, 1, 3):
        out.append(case(f"configured optimisers, {r} retries", h_cfg, opts=B, retries=r))
    return out
