#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                     **({"observe_at": observe} if observe else {}), hook_needed=None)))

CORE="core/itcl_quantization/quantization/"
IE="inference_engine/itcl_inference_engine/"
QZ="quantizer/itcl_quantizer/"
MC="model_converters/"

prop("C01","Quantisation rounds to nearest and saturates",
 "Quantising real values with an integer dtype, a positive scale and a zero point returns, element by element and in the same shape, clamp(floor(x/scale + zero_point + 1/2)) limited to exactly that dtype's range: nearest integer, ties upward, saturating at both ends. The result is therefore monotone in the input and never outside the dtype, for every dtype the library accepts.",
 ["inputs","configurations"],"all real inputs (inside and far outside the representable range), all dtypes, scales and zero points",
 "Tests quantise a few hand-picked arrays with int8/uint8; ties, saturation boundaries, odd bit widths and arbitrary shapes are a handful of points.",
 [CORE+"operators.py",IE+"util/quantization.py",IE+"layers/onnx/quantize_linear.py",IE+"layers/tflite/quantize.py"],
 [("Quantization.quantize / round",CORE+"operators.py"),("to_int8",IE+"util/quantization.py"),("QuantizeLinear.infer, Quantize.infer",IE+"layers")])

prop("C02","Dequantise inverts quantise within half a step",
 "Dequantising q gives exactly (q - zero_point) * scale, elementwise and in the same shape. Quantising that value again with the same parameters gives q back for every q the dtype can hold, and dequantising a quantised x is within scale/2 of x whenever x lies in the representable range.",
 ["inputs","configurations"],"every representable integer, every real in range, all dtypes up to 16 bits, scales and zero points",
 "The tests check one round trip on a few values; the identity has to hold at all 2^bits codes and for every zero point.",
 [CORE+"operators.py",IE+"util/quantization.py",IE+"layers/onnx/dequantize_linear.py",IE+"layers/tflite/dequantize.py"],
 [("Quantization.dequantize",CORE+"operators.py"),("from_int8",IE+"util/quantization.py"),("DequantizeLinear.infer, Dequantize.infer",IE+"layers")])

prop("C03","Rounding policies pick floor or ceiling per element",
 "Quantising with a binary rounding policy of the tensor's shape gives, per element, clamp(floor(x/scale + zero_point + policy)), so 0 keeps the floor and 1 the next integer; a policy whose shape cannot be combined with the tensor is ignored in favour of rounding to nearest. The base policy derived from a tensor and its scale makes policy quantisation coincide with nearest rounding for every non-integer x/scale.",
 ["inputs","configurations"],"all tensors, scales, zero points and policies",
 "No test covers rounding policies in the core; AdaRound correctness depends on every (value, policy) pair.",
 [CORE+"operators.py",QZ+"equalizers/adaround/irounding_policy.py"],
 [("Quantization.quantize(rounding_policy)",CORE+"operators.py"),("get_base_rounding",QZ+"equalizers/adaround/irounding_policy.py")])

prop("C04","Data types have two's-complement ranges",
 "A dtype name intN / uintN, in any letter case, or the corresponding numpy integer type, denotes exactly the range [-2^(N-1), 2^(N-1)-1] / [0, 2^N-1] and prints as its canonical lower-case name. Names that are not exactly a supported type followed by a positive width are rejected with an error and never silently reinterpreted.",
 ["inputs","configurations"],"all widths N and all malformed names",
 "Tests cover about ten names; the width is an unbounded integer.",
 [CORE+"operators.py"],[("GenericDtype",CORE+"operators.py")])

prop("C05","Activation tables hold the quantised activation of every code",
 "An activation look-up table built from a function and the input and output parameters has one entry per code of the dtype, in ascending code order, and the entry of code q is the output quantisation of f applied to the dequantised q, hence inside the dtype's range. Applying the table layer to a quantised tensor returns, for each element independently and in the same shape, the entry of that code, taking the table's offset into account.",
 ["inputs","configurations"],"every activation function, every code, all parameters, every input tensor of codes",
 "Tests build tables for tanh with one parameter set; the guarantee is over arbitrary functions and every code.",
 [CORE+"operators.py",IE+"layers/common/lut.py"],
 [("create_LUT / float_activation",CORE+"operators.py"),("LUTActivation.infer / from_node",IE+"layers/common/lut.py")])

prop("C06","Reduced look-up tables are lossless",
 "A reduced look-up table returns for every valid index exactly the value of the table it was built from, for any table, depth and mode, and iterating over it yields the original table. Serialising it and deserialising the result (also through JSON text) gives a table that answers every index and iterates identically.",
 ["inputs","configurations"],"all tables (monotone or not), all depths, symmetric and asymmetric reduction, all indices",
 "Tests use a couple of tanh tables with fixed depth; head/tail overlap, constant tables and asymmetric mode are not reached.",
 [CORE+"lut.py",IE+"layers/common/lut.py"],
 [("ReducedLUT",CORE+"lut.py"),("LUTActivation.from_node",IE+"layers/common/lut.py")])

prop("C07","Checked integer arithmetic never wraps",
 "Adding, subtracting or multiplying two signed dtype-tagged integers or one-dimensional integer arrays of up to 32 bits gives the exact mathematical result, tagged with a dtype whose range contains it, widening when the operand dtype would overflow and not otherwise. The widening int8/int16/int32 multiply and add helpers are exact for every pair of operands in range.",
 ["inputs","configurations"],"all operand values of the dtypes, all signed dtype pairs",
 "Tests check a few sums and products at fixed values.",
 [CORE+"operators.py",IE+"util/quantization.py"],[("Dtype.__add__/__sub__/__mul__",CORE+"operators.py"),("intN_multiplication/addition",CORE+"operators.py")])

prop("C08","Fixed-point multipliers approximate the real multiplier",
 "The integer multiplier, shift and rounding term derived from a real scale factor reproduce multiplication by it: for every accumulator x in 32-bit range and every factor below 2^30, the fixed-point product differs from the real product by at most 1/2 plus |x| times the encoding error (2^-31 relative), the multiplier fits in 31 bits and the shift is positive. A factor below 1e-6 counts as zero in the dense layer's multiplier.",
 ["inputs","configurations"],"all accumulators and all real multipliers in the stated ranges, including those whose mantissa rounds up to a power of two",
 "Tests compare a few multipliers on a few values; off-by-one in shift or rounding only shows for particular mantissas.",
 [IE+"util/floating.py",IE+"layers/tflite/fullyconnected.py"],
 [("FloatingIntegerApprox",IE+"util/floating.py"),("FullyConnectedQuantizedMultiplier",IE+"layers/tflite/fullyconnected.py")])

prop("C09","Quantised dense layer equals its real-valued definition",
 "The dense layer's output is the nearest integer to out_zp + (in_scale*w_scale/out_scale) * (sum (w - w_zp)*(x - in_zp) + bias), up to the fixed-point multiplier's rounding, saturated to the declared output dtype. Every row of a two-dimensional batch gives exactly the output that row gives alone, and the accumulation never overflows.",
 ["inputs","configurations"],"all quantised inputs, weights, biases and zero points within bounded layer shapes",
 "Tests run three fixed examples; saturation, nonzero weight zero points and batch/vector agreement are not explored.",
 [IE+"layers/tflite/fullyconnected.py"],[("FullyConnected.build / from_model / infer",IE+"layers/tflite/fullyconnected.py")])

prop("C10","ONNX linear operators are correctly rounded and saturated",
 "The ONNX quantised matrix product and quantised addition return uint8 tensors whose every element is the rounded real result (round half to even, then the output zero point added) saturated to 0..255, with all zero points honoured and the stored weight matrix laid out so that output j uses the weights of output j. Each batch row depends only on that row.",
 ["inputs","configurations"],"all uint8 inputs, weights, zero points within bounded shapes, and a set of scales",
 "Tests use one fixed matrix per operator.",
 [IE+"layers/onnx/q_linear_mmul.py",IE+"layers/onnx/q_linear_add.py"],
 [("QLinearMatMul.from_model/infer",IE+"layers/onnx/q_linear_mmul.py"),("QLinearAdd.from_model/infer",IE+"layers/onnx/q_linear_add.py")])

prop("C11","Quantised tanh and sigmoid honour their fixed output format",
 "The quantised tanh layer returns the int8 quantisation of tanh of the dequantised input with output scale 1/128 and zero point 0, and the quantised logistic layer that of the sigmoid with output scale 1/256 and zero point -128; the ONNX sigmoid does the same with its declared uint8 output parameters. Outputs are in range and non-decreasing in the input code.",
 ["inputs","configurations"],"all 256 codes and a range of input scales and zero points",
 "Tests compare five codes at one scale; one logistic test cannot even run here (needs TensorFlow).",
 [IE+"layers/tflite/tanh.py",IE+"layers/tflite/logistic.py",IE+"layers/onnx/q_linear_sigmoid.py",IE+"layers/onnx/tanh.py"],
 [("Tanh.infer",IE+"layers/tflite/tanh.py"),("Sigmoid.infer",IE+"layers/tflite/logistic.py"),("QLinearSigmoid.infer",IE+"layers/onnx/q_linear_sigmoid.py")])

prop("C12","Quantised ReLU is ReLU on the represented reals",
 "The quantised ReLU layer returns, for every int8 input code, the int8 code that represents max(0, x) in the output parameters, where x is the value the input code represents: within one step of the real result and saturated at the ends of int8 instead of wrapping. Inputs at or below the input zero point give exactly the output zero point, and the result is non-decreasing in the input.",
 ["inputs","configurations"],"all input codes, input/output zero points and scale ratios",
 "There is no test for the ReLU layer.",
 [IE+"layers/common/relu.py"],[("RELU.infer",IE+"layers/common/relu.py")])

prop("C13","ONNX softmax yields a probability vector per row",
 "The softmax operator maps each row of its input to non-negative numbers that sum to one, ordered like the inputs, and each row's result does not depend on the other rows of the batch or on a constant added to the row.",
 ["inputs"],"all finite inputs in bounded shapes and magnitudes",
 "The test uses one vector.",
 [IE+"layers/onnx/softmax.py"],[("Softmax.infer",IE+"layers/onnx/softmax.py")])

prop("C14","Quantised LSTM step implements the LSTM equations",
 "Every step of the quantised LSTM computes the four gate pre-activations from the zero-point-corrected input, the recurrent product with the previous hidden state and the bias, with the documented scale factors, and updates cell and hidden state as cell = forget*cell + input*candidate and hidden = output*act(cell) in the declared quantised formats, within rounding of one step per requantisation. All intermediate tensors stay inside their declared dtypes so table look-ups are always in bounds.",
 ["inputs","histories","configurations"],"all quantised inputs, kernels, states and zero points within bounded sizes and numbers of steps",
 "There is no test that runs the LSTM layer.",
 [IE+"layers/itclq/lstm.py"],[("LSTM.build / from_model / infer",IE+"layers/itclq/lstm.py")])

prop("C15","LSTM sequences: state, batch and return modes are consistent",
 "Each LSTM inference starts from the zero state regardless of earlier calls, each batch element's result equals the result of that element run alone, and the output with return_sequences off is the last time step of the output with it on. The hidden state at step t depends only on inputs up to t.",
 ["inputs","histories"],"all input sequences within bounded batch and length, all earlier calls",
 "No test runs the layer, let alone twice or in both modes.",
 [IE+"layers/itclq/lstm.py"],[("LSTM.infer",IE+"layers/itclq/lstm.py")])

prop("C16","A network is the composition of its layers in file order",
 "Running a network equals applying each layer built from the file's graph, in file order, to the previous layer's output, with all intermediate outputs recorded in that order for the latest inference only. Repeated inferences are independent of earlier ones, the caller's input is not modified, and models without quantisation layers have their float input quantised with the file's input parameters first.",
 ["inputs","histories","configurations"],"all inputs, inference histories and small layer graphs",
 "Model tests need TensorFlow and compare accuracy on a sample only.",
 [IE+"network/sequential.py"],[("SequentialNetwork.infer / __init__",IE+"network/sequential.py")],
 state=[("_intermediate_results","outputs of the last inference",IE+"network/sequential.py")])

prop("C17","Operator names select the right layer or are rejected",
 "For both engines every supported operator type builds the layer implementing it with the operator's own parameters, in any letter case for the TFLite engine, and an unsupported operator type or engine raises an error instead of building some other layer.",
 ["inputs","configurations"],"all operator type names and engine names",
 "No test exercises dispatch (the TFLite builder needs TensorFlow).",
 [IE+"layers/tflite/build_layer.py",IE+"layers/onnx/build_operator.py",IE+"util/check_layer_type.py",IE+"network/sequential.py"],
 [("build_layer / LayerType",IE+"layers/tflite/build_layer.py"),("build_operator",IE+"layers/onnx/build_operator.py")])

prop("C18","Calibrated scale and zero point cover the observed range",
 "The scale and zero point computed from a data distribution have scale > 0 and, unless forced, a zero point inside the dtype range, represent 0.0 exactly, and represent the smallest and largest observed values (extended to include zero) within one quantisation step. With the zero point forced to 0 and symmetric mode on, the largest magnitude maps to the top code; symmetric mode leaves the lowest code of signed dtypes unused; a forced scale or zero point is returned as given, and data that are all zero give a positive scale and a valid zero point.",
 ["inputs","configurations"],"all data sets within bounded size, all dtypes and modes",
 "The quantizer tests do not run in this environment and use fixed arrays.",
 [QZ+"quantizer/distributions/distribution.py"],[("Distribution.quantize",QZ+"quantizer/distributions/distribution.py"),("get_min / get_max",QZ+"quantizer/distributions/distribution.py")])

prop("C19","Quantised tensors always match their parameters",
 "After any sequence of parameter updates (with requantisation), resets and rounding-policy changes, a tensor node's stored integers are the quantisation of its float tensor under its current scale, zero point and policy, its dequantised view is (q - zero_point)*scale of those integers, and its JSON reports exactly these values, dtype and shape. A rounding policy of another shape is rejected without changing the node, and update listeners run once per update after the new parameters are visible.",
 ["inputs","histories"],"all update histories within a bounded length, all tensor values and parameters",
 "Existing node tests do not run here and apply single updates with fixed numbers.",
 [QZ+"tensor_extractor/tensor.py"],[("NodeTensorTensor.update_quant_parameters / rounding_policy / as_json",QZ+"tensor_extractor/tensor.py")],
 state=[("_quantized","cached integers",QZ+"tensor_extractor/tensor.py"),("_rounding_policy","current policy",QZ+"tensor_extractor/tensor.py")])

prop("C20","Node look-up tables follow their parameters",
 "After any sequence of input-parameter, output-parameter and rounding-policy changes the look-up table of a node, and the one a quantised activation attaches to the node before it, holds, for every code of its dtype, the output quantisation of the activation of the dequantised code under the current parameters and policy. Calling the table with a code, indexing it with code plus offset, its length and its JSON all agree.",
 ["inputs","histories"],"all update histories within a bounded length, all activation functions and parameters",
 "No test updates a node table after construction.",
 [QZ+"tensor_extractor/tensor.py"],[("NodeLUT",QZ+"tensor_extractor/tensor.py")],
 state=[("_LUT","cached table",QZ+"tensor_extractor/tensor.py")])

prop("C21","Dense extraction keeps bias scale tied to input and kernel",
 "Quantising a dense layer yields an operator whose bias has zero point 0 and scale equal to input scale times kernel scale, and both still hold, with the bias integers requantised, after any later change of the input or kernel parameters. The kernel is stored output-major, symmetric with zero point 0, a missing bias counts as zeros of the output size, and every tensor's JSON shape matches the data it describes; a rectifying activation is fused by starting the output range at zero, and the next layer is calibrated with the rectified data.",
 ["inputs","histories","configurations"],"all weights, inputs and parameter-update histories within bounded layer shapes",
 "The Keras tests need TensorFlow and never run here.",
 [QZ+"tensor_extractor/keras/layers/keras_dense.py",QZ+"tensor_extractor/keras/layers/activations.py"],
 [("KerasDense.quantize",QZ+"tensor_extractor/keras/layers/keras_dense.py"),("quantize_activation_node",QZ+"tensor_extractor/keras/layers/activations.py")])

prop("C22","LSTM extraction is consistent with the LSTM inference layer",
 "Quantising an LSTM layer yields an operator whose per-gate kernels, recurrent kernels and biases are the matching slices of the trained weights in input, forget, cell, output order, with bias scales equal to input scale times the gate's kernel scale, and whose nodes sit at the positions the inference layer reads them from. The float simulation used for calibration follows the LSTM equations, including for batches and both return modes.",
 ["inputs","configurations"],"all weights and inputs within bounded sizes",
 "The Keras tests need TensorFlow and never run here.",
 [QZ+"tensor_extractor/keras/layers/keras_lstm.py","core/itcl_quantization/ids.py",IE+"layers/itclq/lstm.py"],
 [("KerasLSTM.quantize, LSTM.__call__",QZ+"tensor_extractor/keras/layers/keras_lstm.py"),("LSTMInputs","core/itcl_quantization/ids.py")])

prop("C23","Parameter equalisation never makes the network worse",
 "For every cost function and every sequence of random moves, the parameter equalisers (best first and annealing) leave the nodes they were given with exactly the best parameters they evaluated, all integers, bias scales and tables following them, and return that cost, which is never above the initial cost; best-first search moves from the best parameters so far and ends once its retries are used up; this holds for single nodes, dense layers and whole networks, of which the kernel and every output take part. Every tried scale is positive and close to the previous one, every tried zero point stays inside the node's dtype one code away, and moves in both directions are possible.",
 ["inputs","histories","schedules"],"all random draws, all cost functions, bounded numbers of moves",
 "No test runs the equaliser; it depends on random draws and an arbitrary cost.",
 [QZ+"equalizers/param_equalizer/bfs_equalizer.py",QZ+"equalizers/param_equalizer/abstract_param_optimizer.py"],
 [("BFSEqualizer.optimize",QZ+"equalizers/param_equalizer/bfs_equalizer.py"),("ParamEqAnnealer",QZ+"equalizers/param_equalizer/annealer.py"),("ParamEqualizerNet / ParamEqualizerFullNet",QZ+"equalizers/param_equalizer/param_equalizer.py"),("move/_eq_scale/_eq_zp",QZ+"equalizers/param_equalizer/abstract_param_optimizer.py")])

prop("C24","Rounding optimisation keeps policies binary and improves cost",
 "For every cost function and random draws, the rounding annealer only evaluates policies that are binary and have the tensors' shapes, never modifies the policies it was given, moves by flipping one bit of every tensor, where every bit can be reached, searches locally from the best policies so far, and returns a policy together with its own cost that is no worse than any it evaluated in its local search. AdaRound evaluates each candidate installed in the tensors, and leaves exactly the returned policies in the corresponding tensors, in order, with their integers and tables following. Rounding a network rounds kernel, bias and table of every dense layer, its optimiser knowing that layer, its results and its float input, and never leaves the network worse.",
 ["inputs","histories","schedules"],"all random draws, all cost functions, bounded numbers of moves and tensor shapes",
 "No test runs the annealer (needs simanneal).",
 [QZ+"equalizers/adaround/annealer.py",QZ+"equalizers/adaround/adaround.py"],
 [("RoundingAnnealer.move/_to_minima",QZ+"equalizers/adaround/annealer.py"),("AdaRound.round/_cost_fn",QZ+"equalizers/adaround/adaround.py")])

prop("C25","The QUBO energy is the layer's reconstruction error",
 "For each output neuron the QUBO built for a dense layer satisfies, for every binary assignment, energy = mean squared reconstruction error of the layer with that rounding minus a constant independent of the assignment. Its variables are numbered so that neuron l's kernel bits come first in input order and its bias bit is its own last variable, without colliding with other neurons.",
 ["inputs","configurations"],"all weights, biases, inputs and outputs, all binary assignments, bounded layer and data-set sizes",
 "test_qubo.py compares a few coefficients at fixed numbers and needs packages that are not installed.",
 [QZ+"equalizers/adaround/qubocalculation.py",QZ+"equalizers/adaround/Calculationsint.py"],
 [("Bterm*_Calculation_*, dterm_Calculation",QZ+"equalizers/adaround/qubocalculation.py"),("ADAInt",QZ+"equalizers/adaround/Calculationsint.py")])

prop("C26","QUBO rounding writes each sample bit to its weight",
 "The QUBO optimiser solves one problem per output neuron and returns a kernel policy and a bias policy with the layer's shapes in which entry (l, i) is the sampled bit of neuron l's input i and bias entry l its sampled bias bit. Every neuron's problem is built from that neuron's own data: its energy equals that neuron's reconstruction error, also for the coefficients reused from the first neuron.",
 ["inputs","configurations"],"all layer data and all sampler answers within bounded sizes",
 "Needs D-Wave and qiskit packages; no test covers the optimiser end to end.",
 [QZ+"equalizers/adaround/qubo.py",QZ+"equalizers/adaround/qubocalculation.py"],
 [("QUBOAnnealer._qubo_dense",QZ+"equalizers/adaround/qubo.py"),("Tensor_Redondeo, Bterm_Calculation_Vuelta*",QZ+"equalizers/adaround/qubocalculation.py")])

prop("C27","ONNX conversion preserves operators, order and parameters",
 "Converting an ONNX graph emits its operators in order, each exactly once, with only the exact sequence dequantise-tanh-quantise fused into one table operator, and with scales, zero points and tensors taken from the initialisers each operator names. The converted model run by the inference engine computes what the ONNX operators define; unsupported operators are rejected, and the input and output entries describe the model's inputs and outputs.",
 ["programs","inputs"],"all operator sequences up to a bounded length, all tensors and parameters",
 "The only converter test exercises the tanh table; graph fusion and tensor layout are not tested.",
 [MC+"onnx2json/2json.py",MC+"onnx2json/helpers/graph.py",MC+"onnx2json/helpers/buildOperator.py",MC+"onnx2json/helpers/nodeBuilders/buildBaseNode.py"],
 [("OnnxGraph.build_graph",MC+"onnx2json/helpers/graph.py"),("build_quantized_node",MC+"onnx2json/helpers/nodeBuilders/buildBaseNode.py")])

prop("C28","Keras conversion preserves layers, weights and shapes",
 "Converting a Keras model emits, for every layer in order, its operators with exactly the layer's weights: dense kernels transposed to output-major with bias of output length (zeros when absent), LSTM and convolution weights complete, and each tensor's declared shape and dtype matching its data; input and dropout layers emit nothing and unknown layers are rejected.",
 ["programs","inputs"],"all layer sequences up to a bounded length and all weights within bounded shapes",
 "There are no tests for the Keras converter.",
 [MC+"keras2json/keras2json/_convert.py",MC+"keras2json/keras2json/layers/dense.py",MC+"keras2json/keras2json/layers/lstm.py",MC+"keras2json/keras2json/layers/conv2d.py"],
 [("_from_layer / keras2json",MC+"keras2json/keras2json/_convert.py"),("Dense, LSTM, Conv2d builders",MC+"keras2json/keras2json/layers")])

prop("C29","TFLite conversion preserves operators, order, parameters and tables",
 "Converting an int8-quantised TFLite graph emits its operators in order, each exactly once, with every tensor's name, scale, zero point, shape, dtype and stored data in operand order; missing quantisation is reported as absent and an absent optional operand never takes another tensor's parameters or data. Tanh and logistic operators become table operators whose tables, plain and reduced, equal the quantised function for the operator's own input and output parameters at every int8 code. The input and output entries describe the model's inputs and outputs, and the inference engine computes the converted operators' TFLite definitions in order.",
 ["programs","inputs"],"all operator sequences up to a bounded length, all tensors and parameters within bounded sizes",
 "There are no tests for the TFLite converter (needs TensorFlow).",
 [MC+"tflite2json/itcl_tflite2json/__init__.py",MC+"tflite2json/itcl_tflite2json/operators/BaseOperator.py",MC+"tflite2json/itcl_tflite2json/operators/TanhLUT.py",MC+"tflite2json/itcl_tflite2json/operators/SigmoidLUT.py"],
 [("convert",MC+"tflite2json/itcl_tflite2json/__init__.py"),("BaseOperator.build_from_node",MC+"tflite2json/itcl_tflite2json/operators/BaseOperator.py"),("TanhLUT / SigmoidLUT build",MC+"tflite2json/itcl_tflite2json/operators")])

prop("C30","Range trimming and slicing keep exactly the selected data",
 "Slicing a data distribution to an interval keeps the bins that overlap it (or, without partial bins, only bins inside it), with histogram, edges and sorted data describing the same elements, never elements outside the kept bins. Range optimisers only ever shrink the observed range, never extend it, and the min-max optimiser leaves it unchanged.",
 ["inputs","configurations"],"all data sets within bounded size, all interval bounds",
 "The quantizer tests do not run in this environment and use fixed arrays.",
 [QZ+"quantizer/distributions/distribution.py",QZ+"optimizers/fixed_percent.py",QZ+"optimizers/minmax.py",QZ+"optimizers/scipy_optimizer.py"],
 [("Distribution.__getitem__/__clone",QZ+"quantizer/distributions/distribution.py")])

prop("C31","A quantised network computes its float model up to the quantisation steps",
 "For a Keras model of dense layers built into a quantised network from representative inputs, the network run by the inference engine returns, for every input inside the represented range, the float model's output up to the error that the quantisation steps of the tensors allow, carried through the layers; inputs and intermediate values outside their represented range saturate at its ends. This holds for linear, rectified and table activations, with and without biases, symmetric or plain kernels, and for networks read back from the written file.",
 ["inputs"],"every real input, also several rows at once; models of bounded size",
 "Existing tests look at single parts; none runs a built network against its float model, and it would only sample inputs.",
 [QZ+"tensor_extractor/keras/keras_builder.py",QZ+"tensor_extractor/keras/layers/keras_dense.py",QZ+"quantizer/distributions/distribution.py",IE+"network/sequential.py",IE+"layers/tflite/fullyconnected.py"],
 [("build",QZ+"tensor_extractor/keras/keras_builder.py"),("KerasDense.quantize",QZ+"tensor_extractor/keras/layers/keras_dense.py"),("SequentialNetwork.infer",IE+"network/sequential.py")])

prop("C32","Building a quantised network follows the model and its configuration",
 "Building from a Keras model emits the input quantisation, every dense layer's operators with the layer's own weights in model order, and the final dequantisation, skipping dropout and input layers and rejecting layers it does not know. Every tensor has the data type and every kernel the symmetry that the configuration sets for all layers or for that layer by name; each layer is calibrated on the data the layers before it produce. The written file is the returned network. Networks are tuned only when a loss is given and tuning is configured, with the configured optimiser, schedule and retries, starting from the calibrated network and never ending with a worse one. Configurations read from JSON or YAML set exactly the named fields over independent defaults, wrong settings are rejected, and the tflite preset makes the kernels of layers without settings of their own symmetric and switches tuning off.",
 ["inputs","configurations","programs"],"all weights, layer sequences and configurations within bounds; every loss function",
 "The quantizer tests need TensorFlow and pydantic, do not run here and never build a network from a configuration.",
 [QZ+"tensor_extractor/keras/keras_builder.py",QZ+"config/models/keras.py",QZ+"util/network.py",QZ+"tensor_extractor/keras/utils.py"],
 [("build, _quantize, get_layer_quantizer",QZ+"tensor_extractor/keras/keras_builder.py"),("QuantizerCfg",QZ+"config/models/keras.py"),("Network",QZ+"util/network.py")])

prop("C33","Remote inference returns the answers that belong to its own requests",
 "A call of the remote (MQTT) inference sends the model, then every row of its data exactly once and in order, in batches of at most the configured size with the shape each message declares, and returns one answer row per data row, in row order, each being the device's answer to that row under that model, for any number of rows. A batch whose answer is missing, broken or incomplete fails the call; answers of earlier calls are never returned as a later call's result, and repeated answers change nothing. The remote loss is the device's loss for the network just sent, or an error. Requests, answers and data sets keep ids, shapes and values.",
 ["inputs","schedules","faults"],"all inputs and answers, all schedules of the answers of up to three calls, every number of rows and batch size within bounds",
 "There are no tests of the demo library; a broker and a device would be needed, and a test sees one schedule.",
 ["demo/demo_lib/demo_lib/fpga.py"],
 [("InferFPGAMQTT.__call__, on_result","demo/demo_lib/demo_lib/fpga.py"),("LossFPGA","demo/demo_lib/demo_lib/fpga.py"),("Input, Output, InputOutput","demo/demo_lib/demo_lib/fpga.py")])

prop("C34","Collision and noise reports count and measure what they say",
 "The number of collisions of a tensor with its quantised form is, over all codes that stand for two or more different float values (equal up to the given number of decimals), the number of those values: never negative, zero when no two different values share a code, independent of the order of the elements and of how often a value repeats. A dense layer's report has one entry per kernel, bias-add and activation tensor, averaged over the rows of batched tensors and rounded up, and its sum is the sum of the entries. An LSTM's noise report gives, per intermediate tensor and time step, the mean squared difference between the values its codes stand for and the float results. Histogram comparisons give the metric both histograms, each as shares of its own data or as counts, return the metric's result and leave the distributions alone; the mean squared difference is exact.",
 ["inputs"],"all values, codes, counts and histograms within bounded sizes",
 "One existing test with one tensor, which does not run here; repeated values and layer reports are not tested.",
 [QZ+"util/collisions.py",QZ+"tensor_extractor/keras/layers/keras_dense.py",QZ+"tensor_extractor/abstract_layer.py",QZ+"quantizer/distributions/distribution.py",QZ+"quantizer/metrics/noise.py",QZ+"tensor_extractor/keras/layers/keras_lstm.py"],
 [("calc_collisions",QZ+"util/collisions.py"),("KerasDense.calc_collisions",QZ+"tensor_extractor/keras/layers/keras_dense.py"),("Distribution.compare, normalize",QZ+"quantizer/distributions/distribution.py"),("KerasLSTM._quantization_noise",QZ+"tensor_extractor/keras/layers/keras_lstm.py")])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
for p in P:
    assert len(p["title"])<=80,p["id"]
print(len(P))
