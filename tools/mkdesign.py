"""Writes DESIGN.md: the head below, then per property how it is decided (HOW) and its bounds (from props/), findings and planted bugs."""
import glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, HERE)

HEAD = """# How the properties are decided

## Technique

Every check executes the *real* Python source of /repo symbolically and asks z3. `check.sh C07 quick` runs `sx/run.py`, which

1. reads the modules the property needs from `$SX_REPO` (default /repo) at run time, parses them and instruments the syntax tree (`sx/loader.py`):
   branches, boolean operators, comparisons, calls of builtins (`round`, `int`, `len`, `range`, `isinstance`, ...), string formatting, subscripts and
   comprehensions call hooks that know symbolic values. Nothing is copied into /verif: the encoding is regenerated from the working tree on every run;
2. runs a harness from `props/CXX.py` on it with symbolic inputs (`c.int`, `c.real`, `c.iarr`, `c.rarr`, `c.string`, `c.choice`, ...). Symbolic scalars
   (`sx/sym.py`) carry an exact integer / real term, a Python or numpy dtype and an interval; symbolic arrays (`sx/arr.py`) are object arrays with
   numpy's shape, dtype, broadcasting, casting, wrap-around and in-place semantics; `sx/symstr.py` does strings (names, dtypes) as sequences of code points;
3. forks on every condition both of whose sides are satisfiable (`sx/explore.py`): a path is a list of decisions, replayed from the start; every feasible
   path within the bounds is explored, otherwise the case is reported as not exhausted (`INCONCLUSIVE`, in the evidence);
4. at every `c.check(condition)` asks z3 for a model of path and negated condition. `unsat`: the assertion holds for every value within the bounds.
   `sat`: the model is turned into concrete inputs and the harness is run again on the **unmodified** modules (no instrumentation, real numpy, Python's own import);
   only if the assertion fails there too is it reported: `VIOLATION property=<id> replay=evidence/replays/<id>-<n>.json`, replayed by
   `./check.sh CXX quick --replay FILE`. A model the real code does not confirm is listed as `unconfirmed` (never an alarm). If z3 gives up on an
   assertion it is asked again with some of the inputs fixed (this can only find violations); an undecided assertion is `INCONCLUSIVE`, counted in the evidence.

### Arithmetic
- Integers are mathematical integers plus explicit wrap-around where the numpy dtype wraps.
- Floats are exact rationals plus an error variable per rounded operation (`|err| <= 2^-53 |value|`), unless the operation is provably exact (dyadic values
  on a grid whose magnitude fits into 53 bits), so ties with power-of-two scales are decided exactly. Non-dyadic scales get a tolerance around ties, stated per property.
- Division by a symbolic scale is a multiplication with a shared reciprocal symbol; products of two symbols go to z3's nonlinear solver, after a linear
  over-approximation (`purify`) and a real relaxation were tried, which can only prove.
- tanh, exp, sigmoid, sqrt are uninterpreted functions with their monotonicity, range and values at the points the solver visits (refined lazily, CEGAR style).
- Activation functions and cost functions given by the user are uninterpreted (`c.opaque`): any function.
- Random draws, sampler answers and minimiser results are fresh symbolic values within the range of the library call: every schedule of draws is covered.

### Validation of the encoding
Every path ends with witnesses: a model of the path is run through the unmodified code and all observed values are compared with the symbolic ones
(`witnesses` / `mismatch` in the evidence; a mismatch is reported as INCONCLUSIVE). This runs on every check.

### Stand-ins
TensorFlow, Keras, pydantic, onnx, tflite, dimod, neal, greedy, dwave, qiskit and simanneal are not installed. `sx/stubs.py` supplies them: containers with
the attributes the code reads, Keras layers that hold weights, samplers that return any assignment, annealers that make `anneal_steps` moves with any draws and
accept or reject each. They are part of the trusted base; the same stand-ins serve the concrete replays.

### What is outside
- Bounds per property are listed below. Arrays larger than those, float32 rounding inside TensorFlow, files on disk, command line parsing, plotting and the `demo`
  scripts are not covered. Floating-point overflow to inf / nan is only modelled where stated (C13).
- "Larger cases" (most properties have some): the shapes are those of ordinary use (tens to a few hundred entries, matrices that are not square, batches),
  but only a few inputs, chosen by name (`sparse` in `props/common.py`, `Base.only`), are symbolic; the others are arbitrary values fixed by a hash of their names. The verdict
  there is for every value of the symbolic inputs at those fixed values of the rest. They exist for code that behaves differently on larger data
  (blocks, thresholds on sizes, fast paths, axes that only differ when the shape is not square); the general claim is the one for the smaller bounds.
- Solver time limits: quick at most 10 minutes per property in total (usually under one), thorough 10 minutes per case.

Evidence (`evidence/CXX.json`) lists the functions of the repository that were executed symbolically, bounds, cases, paths, queries, solver time, undecided assertions.
"""

HOW = {
 "C01": "harness calls `Quantization.quantize`, `to_int8`, `QuantizeLinear.infer`, `Quantize.infer` on symbolic tensors; oracle: clamp(floor(x/s+zp+1/2)) over exact rationals, shape, monotonicity for pairs.",
 "C02": "dequantise, requantise and compare; oracle: (q-zp)*s exactly, identity on every code, |x - dq(q(x))| <= s/2.",
 "C03": "`quantize(..., rounding_policy)` and `get_base_rounding`; oracle: clamp(floor(x/s+zp+p)); wrong-shaped policies fall back to nearest; base policy equals nearest for non-integers (ties included).",
 "C04": "`GenericDtype` on symbolic strings: every character a solver variable; oracle: a grammar written as a predicate over the characters; ranges 2^(N-1) etc. for the symbolic width.",
 "C05": "`create_LUT`, `float_activation`, `LUTActivation` with an uninterpreted activation; oracle: entry q = quantise(f(dequantise(q))).",
 "C06": "`ReducedLUT` on tables whose entries are symbolic (comparisons of entries fork), symbolic index, depth and mode; also through serialize / JSON text / deserialize and `LUTActivation.from_node`.",
 "C07": "`Dtype` operators and the widening helpers on every pair of operands; oracle: integer arithmetic, result dtype contains the value and is the operand's dtype unless that overflows.",
 "C08": "`FloatingIntegerApprox` and `FullyConnectedQuantizedMultiplier`: frexp of a symbolic factor by case split on the exponent; oracle: error bound over rationals.",
 "C09": "`FullyConnected.build/from_model/infer` with all operands symbolic at once; oracle: real-valued definition, error of the fixed-point multiplier, saturation, row independence, exact accumulators.",
 "C10": "`QLinearMatMul`, `QLinearAdd`: oracle over rationals with round-half-even; zero points symbolic.",
 "C11": "`Tanh`, `Sigmoid`, `QLinearSigmoid` on every code; oracle: quantisation of the (uninterpreted, refined) function, range, monotone.",
 "C12": "`RELU.infer`; oracle: max(0,x) in output parameters within one step, exact zero point below, monotone.",
 "C13": "`Softmax.infer`; oracle: non-negative, sums to one, order, independence of rows and shift; no overflow for inputs up to 1000.",
 "C14": "`LSTM.from_model/infer`; each stage (input product, recurrent product, activation, cell, hidden) judged from the recorded values of the stage before (`cut`), which is an induction over the stages.",
 "C15": "two and three runs of the same layer object compared: state leakage, batch elements alone, last step, prefixes (causality).",
 "C16": "`SequentialNetwork` over graphs of 1-5 operators; oracle: composition of the layers built alone; intermediate results, histories, caller's array untouched.",
 "C17": "dispatch on symbolic strings; supported names in any case build the class with the operator's parameters, all other strings raise.",
 "C18": "`Distribution(...).quantize` on symbolic data (sorting and histogram by forking on the order); oracle: range coverage within a step, zero representable, forced values.",
 "C19": "`NodeTensorTensor` under every bounded sequence of operations; oracle recomputed from the float tensor after each.",
 "C20": "`NodeLUT` under every bounded sequence of operations with an uninterpreted activation; also the tables `quantize_activation_node` attaches.",
 "C21": "`KerasDense.quantize` on a stand-in Dense layer; calibration replaced by a contract (positive scale, zero point in range; the contract is C18) in the update histories, real in others.",
 "C22": "`KerasLSTM.quantize` on a stand-in LSTM layer, then `inference_engine` `LSTM.from_model` on its JSON; oracle: slices of the weights, the float LSTM equations.",
 "C23": "`BFSEqualizer` with symbolic draws and an uninterpreted cost of the node parameters.",
 "C24": "`RoundingAnnealer`, `AdaRound` with symbolic draws and an uninterpreted cost of the policies.",
 "C25": "both QUBO builders on symbolic weights, data and assignment bits; oracle: the polynomial identity energy + constant = mean squared reconstruction error.",
 "C26": "`QUBOAnnealer._qubo_dense` with a sampler that returns any assignment; every problem handed to the sampler is judged against its neuron's reconstruction error; result bits against the policies.",
 "C27": "`OnnxGraph.build_graph` and the node builders on graphs whose operator types are enumerated and whose initialisers are symbolic; the JSON is run by the inference engine and compared with the ONNX definitions.",
 "C28": "`keras2json` on stand-in Keras models with symbolic weights.",
 "C29": "`BaseOperator`, `TanhLUT`, `SigmoidLUT` on stand-in flatbuffer objects with symbolic parameters.",
 "C30": "slices of `Distribution` and the optimisers on symbolic data; oracle: the kept bins by their edges, the data by membership.",
 "C31": "`keras_builder.build` with the real calibration on fixed weights and data, the network run on symbolic inputs; oracle: the float model with every tensor clamped to its calibrated range, and an error bound of the steps carried through the layers (the solver decides that no input exceeds it).",
 "C32": "`keras_builder.build` with symbolic weights and the calibration's contract, configurations as objects, JSON and YAML; oracle: operators, types, data chains and integers from model and configuration; tuning against every loss function of what the network shows.",
 "C33": "`InferFPGAMQTT`, `LossFPGA` and the message classes run on symbolic rows, model parameters and answers against a broker/device stand-in whose schedule of answers (at once, while waiting, never, twice, after the timeout, broken, incomplete) is part of the case; waiting is what makes time pass. Oracle: the device's function of the row and the model.",
 "C34": "`calc_collisions` on symbolic values and codes against a count of values per code; the dense layer's report with a symbolic policy; `KerasLSTM._quantization_noise` with any float results; `Distribution.compare/normalize` with a recording metric, `mse` on symbolic arrays.",
}

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
na = {n["property"]: n["reason"] for n in man["not_applicable"]}
kf = json.load(open(os.path.join(HERE, "known_findings.json")))
notes = os.path.join(HERE, "tools", "notes.json")
notes = json.load(open(notes)) if os.path.exists(notes) else {}
catch = os.path.join(HERE, "tools", "catches.json")
catch = json.load(open(catch)) if os.path.exists(catch) else {}
o = [HEAD, "\n## Properties\n"]
for p in props:
    i = p["id"]
    o.append(f"### {i} {p['title']}\n")
    if i in na:
        o.append(f"Not claimed: {na[i]}\n")
        continue
    m = importlib.import_module("props." + i)
    o.append(f"- How: {HOW[i]}\n- Bounds: {m.BOUNDS}.\n- Why beyond the tests: {p['why_tests_cant']}")
    if getattr(m, "ASSUMPTIONS", None):
        o.append(f"- Assumptions: {m.ASSUMPTIONS}")
    if i in notes:
        o.append(f"- Cost: {notes[i]}")
    o.append("")
o.append("## Genuine defects\n\nRepaired by a `fix:` commit in /repo (the check fails again if they return):\n")
o += ["- " + l[len("fixed: "):] for l in kf["fixed"]]
o.append("\nRecorded, not repaired (`known_findings.json`):\n")
o += [f"- {f['property']} ({f['case']}): {f['what']}" for f in kf["findings"]] or ["- none"]
o.append("""
## Corrections to properties and machinery (false alarms on the way)
- C07: unsigned, mixed-sign and two-dimensional operands raise or are ambiguous in `Dtype`; the property is restricted to signed operands in up to one dimension.
- C08: factors of 2^30 and above give a negative shift by design of the encoding; the property is stated for factors below 2^30.
- C16 and others once compared class identity; a loader bug loaded submodules twice. Checks now compare behaviour.
- C21: the range of a fused ReLU is judged from the data, not from the bins.
- Non-dyadic scales: near ties the float computation may land on the neighbouring code; properties allow it within the stated tolerance.
- INCONCLUSIVE lines never fail a check; they are counted in the evidence.

## Planted bugs and what catches them

Each is in `seeded/<id>/` (`tools/seeds.py` is their source, `tools/mkseeds.py` confirms them, `tools/runseeds.sh` runs the checks on them).

| bug | property | needs | quick check |
|---|---|---|---|""")
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    o.append(f"| {i} | {m['property']} | {m['needs']} | {catch.get(i, '')} |")
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(o) + "\n")
