"""Writes known_findings.json: FINDINGS are defects that are recorded, FIXED the ones repaired by a commit in /repo."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_L = "an answer of another call is not used"
_M = "a late loss is not taken for the loss of another network"
_W = "an answer that arrives after its call timed out is returned as the answer of the next request: ids restart at 0 for every call and are not compared"
_V = "a loss that arrives after its call timed out is returned as the loss of the next network: loss messages carry no id"
FINDINGS = [{"property": "C33", "case": n, "label": l, "what": w + f" (schedule: {n})"} for n, l, w in (
    ("late answer", _L, _W), ("late answer, then none", _L, _W), ("late answer of a batch", _L, _W), ("later answer, then none", _L, _W),
    ("loss late wait", _M, _V), ("loss late never", _M, _V))]
FIXED = [
 ("C06", "b912164", "asymmetric reduced table: the offsets of the tail were relative to the table without its head, codes near the tail got a wrong value (LUT [0,0,1,2,3,3], depth 1, asymmetric)"),
 ("C06", "a9b4033", "iterating over a deserialised reduced table yielded nothing"),
 ("C12", "2b18f84", "quantised ReLU ignored the input zero point in the comparison, truncated and wrapped above 127"),
 ("C13", "c36531c", "softmax normalised a batch over all its rows and overflowed to nan for inputs above 709"),
 ("C17", "b751d13", "LOG_SOFTMAX and other longer operator types built the layer whose type they contain"),
 ("C05", "1b3141a", "an activation that returns an integer for the first code truncated the whole table to integers"),
 ("C07", "54f6a3e", "adding a plain number wider than the dtype overflowed without widening"),
 ("C08", "3d99aa7", "multipliers below 2^-32 shifted by a negative amount / overflowed the rounding term"),
 ("C09", "f8a3f6d", "int8 weight arrays wrapped when their zero point was subtracted"),
 ("C14", "1133eeb", "the LSTM used the raw hidden state in the recurrent product and started from code 0 instead of the zero point"),
 ("C14", "9e5d39d", "the cell state was saturated to the dtype of another tensor"),
 ("C14", "1ee7c2e", "int8 inputs wrapped when the input zero point was subtracted"),
 ("C18", "1002eb0", "calibrating constant zero data divided zero by zero"),
 ("C18", "8fa25b9", "forced zero points with an unsigned dtype divided by zero"),
 ("C30", "3b0a2c8", "slices without partial bins dropped the bin that starts exactly at the lower bound"),
 ("C30", "96cf354", "the fixed percent optimiser used the lower percentile twice"),
 ("C30", "c6b34e4", "the data of a slice included values that belong to the bin after its last one"),
 ("C30", "7be98d6", "a slice that starts at the last edge had no bins and failed"),
 ("C19", "141421e", "the dequantised view added the zero point instead of subtracting it"),
 ("C19", "ec08c2d", "resetting scale or zero point left the stored integers at the previous parameters"),
 ("C20", "f7fafc4", "tables were not rebuilt for a new rounding policy or new output parameters"),
 ("C20", "c13a6a6", "the table of an activation did not follow later updates of its output node"),
 ("C21", "1227cfa", "layers after a rectified dense layer were calibrated with data that are not rectified"),
 ("C21", "8a34766", "the dense layer's output node held the input data: wrong shape in the JSON"),
 ("C22", "e4a134a", "the bias add tensors of an LSTM held the sums with the recurrent term"),
 ("C22", "ca15f1e", "the input gate of an LSTM was calibrated on the first time steps of all gates instead of all steps of its own"),
 ("C22", "becfd21", "the result of an LSTM layer referred to the Keras layer: rounding optimisation of the network failed"),
 ("C22", "366f687", "rounding optimisation of an LSTM layer raised a TypeError (missing float input)"),
 ("C22", "77afe21", "the bias scales of an LSTM did not follow later updates of its input and kernels"),
 ("C23", "b1122c4", "the annealing equaliser evaluated and returned copies: the nodes of the network were left at a state that was never evaluated"),
 ("C24", "97e8cfa", "a rounding whose cost is zero was replaced by a worse one in the local search"),
 ("C24", "e4717fc", "only the first rows of a tensor could be flipped by the rounding annealer (index drawn from the length instead of the size)"),
 ("C21", "42bd64d", "the range of a rectified dense layer started at the lower edge of the bin that contains zero"),
 ("C26", "8d1a451", "the rounding problem compared the dense sums with the activated output (kernel 1 and bias 0 with relu: negative sums were pulled to 0)"),
 ("C27", "fd07bb6", "operators that read the first intermediate tensor of an ONNX graph (index 0) were rejected"),
 ("C27", "b7cb07e", "the output entries of a converted ONNX model described its inputs"),
 ("C27", "39c79cf", "an operator type that starts with QuantizeLinear after dequantise and tanh was fused into a table"),
 ("C28", "141b53d", "a dense layer without bias got one zero per input"),
 ("C28", "f032775", "convolutions without bias raised an IndexError"),
 ("C28", "4b18026", "LSTM layers without bias raised an IndexError"),
 ("C28", "ef0400d", "Conv2DTranspose, DepthwiseConv2D, SeparableConv2D, ConvLSTM2D, DenseFeatures, GlobalMaxPooling2D and LSTMCell layers were converted as other layers"),
 ("C29", "0f3de17", "index -1 of an absent optional operand was read as a tensor"),
 ("C33", "bebead6", "remote inference of fewer rows than the batch size failed, other numbers of rows were sent in batches above the allowed size"),
 ("C34", "e9cf8a6", "equal float values that share a code counted as a collision, equal values with different codes gave negative counts"),
]
json.dump({"findings": FINDINGS, "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in FIXED]},
          open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
