From b91216419ca79187dafc5cef38b4bbf8a510401a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 01/44] fix: offsets of the tail of an asymmetric reduced LUT

---
 core/itcl_quantization/quantization/lut.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/itcl_quantization/quantization/lut.py b/core/itcl_quantization/quantization/lut.py
index ab1e261..88c0729 100644
--- a/core/itcl_quantization/quantization/lut.py
+++ b/core/itcl_quantization/quantization/lut.py
@@ -41,6 +41,12 @@ class ReducedLUT:
         self.right_shift, self.right_tuples = self.__reduce_lut_from_left(
             lut[self.left_shift :] if self.asymmetric else lut, reverse=True
         )
+        if self.asymmetric:
+            # The tail was computed without the pruned head: make its offsets
+            # relative to the whole LUT
+            self.right_tuples = [
+                (offset + self.left_shift, value) for offset, value in self.right_tuples
+            ]
 
         # Reduce the original LUT
         r_shift_slice_idx = -self.right_shift if self.right_shift else None
-- 
2.43.0


From a9b4033cf016daee39be5794712363a0f4ecd79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 02/44] fix: iteration over a deserialized reduced LUT

---
 core/itcl_quantization/quantization/lut.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/itcl_quantization/quantization/lut.py b/core/itcl_quantization/quantization/lut.py
index 88c0729..5235384 100644
--- a/core/itcl_quantization/quantization/lut.py
+++ b/core/itcl_quantization/quantization/lut.py
@@ -180,6 +180,13 @@ class ReducedLUT:
         reduced_lut.right_tuples = json_lut["tail"]["tuples"]
         reduced_lut.reduced_lut = json_lut["reduced_lut"]
 
+        # Rebuild the original LUT, as the iterator needs its length
+        if reduced_lut.right_tuples:
+            size = reduced_lut.right_tuples[-1][0] + reduced_lut.right_shift
+        else:
+            size = reduced_lut.left_shift + len(reduced_lut.reduced_lut)
+        reduced_lut.lut = [reduced_lut[i] for i in range(size)]
+
         return reduced_lut
 
 
-- 
2.43.0


From 2b18f84cad844fac54ae7b22c6afbd609586dad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 03/44] fix: quantized ReLU uses the input zero point, rounds
 and saturates

---
 inference_engine/itcl_inference_engine/layers/common/relu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/layers/common/relu.py b/inference_engine/itcl_inference_engine/layers/common/relu.py
index e48da1e..3fc8e57 100644
--- a/inference_engine/itcl_inference_engine/layers/common/relu.py
+++ b/inference_engine/itcl_inference_engine/layers/common/relu.py
@@ -34,6 +34,7 @@ class RELU(ILayer):
 
         y = (input_.astype(np.int16)).clip(min=self.input_zp)
 
-        relu = (self.output_zp + self.k * (y - self.output_zp)).astype(np.int8)
+        relu = self.output_zp + self.k * (y - self.input_zp)
+        relu = np.floor(relu + 0.5).clip(-128, 127).astype(np.int8)
 
         return relu
-- 
2.43.0


From c36531ca7794a0ee3eab0eb2ba2e35dc6d0b97ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 04/44] fix: ONNX softmax normalizes each row and does not
 overflow

---
 inference_engine/itcl_inference_engine/layers/onnx/softmax.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/layers/onnx/softmax.py b/inference_engine/itcl_inference_engine/layers/onnx/softmax.py
index 06a19f5..e84acfb 100644
--- a/inference_engine/itcl_inference_engine/layers/onnx/softmax.py
+++ b/inference_engine/itcl_inference_engine/layers/onnx/softmax.py
@@ -32,4 +32,5 @@ class Softmax(IOperator):
             np.ndarray: Float32 output tensor (Each value should be between 0 and 1)
         """
 
-        return np.exp(input_) / np.sum(np.exp(input_))
+        exp = np.exp(input_ - np.max(input_, axis=-1, keepdims=True))
+        return exp / np.sum(exp, axis=-1, keepdims=True)
-- 
2.43.0


From b751d13daf7b743fd1fc7b5c8871c8b4cf243849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:44 +0000
Subject: [PATCH 05/44] fix: operator types have to match exactly, LOG_SOFTMAX
 is not SOFTMAX

---
 .../itcl_inference_engine/util/check_layer_type.py     | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/inference_engine/itcl_inference_engine/util/check_layer_type.py b/inference_engine/itcl_inference_engine/util/check_layer_type.py
index 9fd9db5..fc199b0 100644
--- a/inference_engine/itcl_inference_engine/util/check_layer_type.py
+++ b/inference_engine/itcl_inference_engine/util/check_layer_type.py
@@ -1,7 +1,7 @@
 class LayerType:
     @staticmethod
     def is_fully_connected(layerCode: str):
-        return "FULLY_CONN" in layerCode.upper()
+        return "FULLY_CONNECTED" == layerCode.upper()
 
     @staticmethod
     def is_tanh(layerCode: str):
@@ -13,11 +13,11 @@ class LayerType:
 
     @staticmethod
     def is_logistic(layerCode: str):
-        return "LOGISTIC" in layerCode.upper()
+        return "LOGISTIC" == layerCode.upper()
 
     @staticmethod
     def is_softmax(layerCode: str):
-        return "SOFTMAX" in layerCode.upper()
+        return "SOFTMAX" == layerCode.upper()
 
     @staticmethod
     def is_quantize(layerCode: str):
@@ -25,11 +25,11 @@ class LayerType:
 
     @staticmethod
     def is_dequantize(layerCode: str):
-        return "DEQUANTIZE" in layerCode.upper()
+        return "DEQUANTIZE" == layerCode.upper()
 
     @staticmethod
     def is_sigmoidLUT(layerCode: str):
-        return "SIGMOIDLUT" in layerCode.upper()
+        return "SIGMOIDLUT" == layerCode.upper()
 
     @staticmethod
     def is_relu(layerCode: str):
-- 
2.43.0


From 1b3141ae56407da617182bff932ae1d5effdb8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 06/44] fix: LUTs of activations that return an integer for the
 first code

---
 core/itcl_quantization/quantization/operators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index 7807f74..0de9778 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -172,7 +172,8 @@ class Quantization(Generic[T]):
         )
         float_input = self.dequantize(quantized_input, input_zp, input_s)
 
-        apply_fn = np.vectorize(activation_fn)
+        # The dtype of the output must not depend on the first activated value
+        apply_fn = np.vectorize(activation_fn, otypes=[np.float64])
 
         return apply_fn(float_input)
 
-- 
2.43.0


From 54f6a3e08da86be40f1e5835520567d241a29514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 07/44] fix: sums of mixed-width integers widen when the wider
 operand's dtype overflows

---
 core/itcl_quantization/quantization/operators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index 0de9778..87fb531 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -258,7 +258,7 @@ class Dtype:
         dtype = larger.dtype
 
         # If overflow: Upgrade the dtype to the next higher dtype
-        if self.__has_overflow(res, self):
+        if self.__has_overflow(res, larger):
             dtype = next.dtype
         return Dtype(res, dtype)
 
@@ -276,7 +276,7 @@ class Dtype:
 
         dtype = larger.dtype
 
-        if self.__has_overflow(res, self):
+        if self.__has_overflow(res, larger):
             dtype = next.dtype
 
         return Dtype(res, dtype)
@@ -302,7 +302,7 @@ class Dtype:
         )
 
         dtype = larger.dtype
-        if self.__has_overflow(res, self):
+        if self.__has_overflow(res, larger):
             dtype = next.dtype
         return Dtype(res, dtype)
 
-- 
2.43.0


From 3d99aa72b86428b1478a1ede397eb2b205f1f423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 08/44] fix: multipliers below 2^-32 overflow the rounding term

---
 inference_engine/itcl_inference_engine/util/floating.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/util/floating.py b/inference_engine/itcl_inference_engine/util/floating.py
index f9c7d89..cae3b66 100644
--- a/inference_engine/itcl_inference_engine/util/floating.py
+++ b/inference_engine/itcl_inference_engine/util/floating.py
@@ -20,7 +20,7 @@ class FloatingIntegerApprox(Generic[E]):
             shift += 1
 
         if shift < -31:
-            self._shift = 0
+            shift = 0
             quantized_multiplier = 0
 
         self._q = quantized_multiplier
-- 
2.43.0


From f8a3f6df638efeadfd975f7a9e44af8508cf551c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 09/44] fix: int8 weights of the dense layer wrap when their
 zero point is subtracted

---
 .../itcl_inference_engine/layers/tflite/fullyconnected.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py b/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
index 7004cfd..6636ee5 100644
--- a/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
+++ b/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
@@ -112,7 +112,8 @@ class FullyConnected(ILayer):
             input_s, weight_s, output_s
         )
 
-        weights = weights - weight_zp
+        # A narrow integer array would wrap around when subtracting the zero point
+        weights = np.asarray(weights).astype(np.int64) - weight_zp
 
         return FullyConnected(
             input_zp,
-- 
2.43.0


From 1133eeb0024a06234c8a6ced37907227df156df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 10/44] fix: the LSTM subtracts the zero point of its hidden
 state and starts from the zero state

---
 .../itcl_inference_engine/layers/itclq/lstm.py         | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
index 37f146a..b0fd966 100644
--- a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
+++ b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
@@ -270,8 +270,11 @@ class LSTM(ILayer):
         input_norm = (input_ - self._input_zp).swapaxes(0, 1)
 
         # Create the initial hidden state and cell state
-        hidden_state = [np.zeros((1, self._n_cells), dtype=np.int64)]
-        cell_state = np.zeros((1, self._n_cells), dtype=np.int64)
+        # A state of 0.0 is represented by its zero point
+        hidden_state = [
+            np.full((1, self._n_cells), self._hidden_state_zp, dtype=np.int64)
+        ]
+        cell_state = np.full((1, self._n_cells), self._cell_state_zp, dtype=np.int64)
 
         inter = LSTMIntermediateTensors()
 
@@ -291,7 +294,8 @@ class LSTM(ILayer):
             for i, (recurrent_kernel, bias, M2) in enumerate(
                 zip(self._recurrent_kernel, bias_add, self._M2)
             ):
-                recurrent_add_large = (hidden_state[-1] @ recurrent_kernel) + bias
+                hidden_state_norm = hidden_state[-1] - self._hidden_state_zp
+                recurrent_add_large = (hidden_state_norm @ recurrent_kernel) + bias
                 recurrent_add.append(
                     (recurrent_add_large * M2 + self._recurrent_add_zp[i])
                     .clip(
-- 
2.43.0


From 9e5d39dda32161642320cbf66d939b374c1fc148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 11/44] fix: the LSTM saturates its cell state to the dtype of
 the cell state

---
 inference_engine/itcl_inference_engine/layers/itclq/lstm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
index b0fd966..1b8a7a1 100644
--- a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
+++ b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
@@ -193,7 +193,7 @@ class LSTM(ILayer):
         return_sequences: bool,
     ) -> LSTM:
 
-        assert cell_state_out["tensor"] is not None
+        assert cell_state["tensor"] is not None
         assert hidden_state["tensor"] is not None
 
         # Kernel
@@ -259,7 +259,7 @@ class LSTM(ILayer):
             # dtypes:
             bias_add_dtype=bias_add_nodes[0]["tensor"]["dtype"],  # type: ignore
             recurrent_add_dtype=recurrent_add_nodes[0]["tensor"]["dtype"],  # type: ignore
-            cell_state_dtype=cell_state_out["tensor"]["dtype"],
+            cell_state_dtype=cell_state["tensor"]["dtype"],
             hidden_state_dtype=hidden_state["tensor"]["dtype"],
             return_sequences=return_sequences,
         )
-- 
2.43.0


From 1ee7c2eb9e861b55543da8f9470cfcfa09c1e5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:32 +0000
Subject: [PATCH 12/44] fix: int8 inputs of the LSTM wrap when their zero point
 is subtracted

---
 inference_engine/itcl_inference_engine/layers/itclq/lstm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
index 1b8a7a1..ddd50be 100644
--- a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
+++ b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
@@ -267,7 +267,10 @@ class LSTM(ILayer):
     def infer(self, input_: np.ndarray) -> np.ndarray:
 
         # batch, window_len, n_features =  -> w, b , n
-        input_norm = (input_ - self._input_zp).swapaxes(0, 1)
+        # A narrow integer input would wrap around when subtracting the zero point
+        input_norm = (np.asarray(input_).astype(np.int64) - self._input_zp).swapaxes(
+            0, 1
+        )
 
         # Create the initial hidden state and cell state
         # A state of 0.0 is represented by its zero point
-- 
2.43.0


From 1002eb043ac3a0bbc71d5bc9cce744440b74cce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:07 +0000
Subject: [PATCH 13/44] fix: quantising a distribution of zeros divides zero by
 zero

---
 .../itcl_quantizer/quantizer/distributions/distribution.py   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
index 91a7b11..947c241 100644
--- a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
+++ b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
@@ -146,7 +146,10 @@ class Distribution:
             q_min = -q_max
 
         scale = (max_ - min_) / (q_max - q_min)
-        zero_point = round((min_ * q_max - max_ * q_min) / (min_ - max_))
+        # There is nothing to divide by when all the values are zero
+        zero_point = 0
+        if min_ != max_:
+            zero_point = round((min_ * q_max - max_ * q_min) / (min_ - max_))
 
         if force_zp is not None:
             zero_point = force_zp
-- 
2.43.0


From 8fa25b9f0e8b630dd21208c9b03e913aedac1bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:07 +0000
Subject: [PATCH 14/44] fix: a forced zero point divides by zero for unsigned
 dtypes

---
 .../itcl_quantizer/quantizer/distributions/distribution.py     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
index 947c241..a9d65e1 100644
--- a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
+++ b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
@@ -158,7 +158,8 @@ class Distribution:
             if symmetric:
                 scale /= q_max
             else:
-                scale /= abs(q_min)
+                # The minimum of the unsigned dtypes is zero
+                scale /= max(abs(q_min), abs(q_max))
 
         if force_s is not None:
             scale = force_s
-- 
2.43.0


From 3b0a2c84aecd23d11a9407b091a691313a42550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:13 +0000
Subject: [PATCH 15/44] fix: slices without partial bins drop a whole bin at
 the lower bound

---
 .../itcl_quantizer/quantizer/distributions/distribution.py  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
index a9d65e1..839a84f 100644
--- a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
+++ b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
@@ -291,7 +291,11 @@ class Distribution:
         if self._include_partial_bins:
             max_bin_idx = min(max_bin_idx + 1, len(self._histogram))
         else:
-            min_bin_idx = min(min_bin_idx + 1, max_bin_idx - 1)
+            # A bin that starts at the lower bound is not a partial bin
+            if self._bin_edges[min_bin_idx] < key.start:
+                min_bin_idx += 1
+            min_bin_idx = max(min(min_bin_idx, max_bin_idx - 1), 0)
+            max_bin_idx = max(max_bin_idx, 1)
 
         # Update the current distribution parameters as is cheaper than creating a new distribution
 
-- 
2.43.0


From 96cf35408bece5f9d940211dff364e607df69906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:13 +0000
Subject: [PATCH 16/44] fix: the upper percentile of the fixed percent
 optimizer

---
 quantizer/itcl_quantizer/optimizers/fixed_percent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/optimizers/fixed_percent.py b/quantizer/itcl_quantizer/optimizers/fixed_percent.py
index b339a63..f118703 100644
--- a/quantizer/itcl_quantizer/optimizers/fixed_percent.py
+++ b/quantizer/itcl_quantizer/optimizers/fixed_percent.py
@@ -12,7 +12,7 @@ class FixedPercentOptimizer(IOptimizer):
         bins = distribution.get_bin_edges()
         fp_array = distribution._sorted_a
         low_percent = np.percentile(fp_array, self.__percent)
-        high_percent = np.percentile(fp_array, 1 - self.__percent)
+        high_percent = np.percentile(fp_array, 100 - self.__percent)
 
         clipped_array = fp_array.clip(low_percent, high_percent)
 
-- 
2.43.0


From c6b34e4f1c171ed1e09343529a50104876f3b5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:25 +0000
Subject: [PATCH 17/44] fix: the data of a slice include values of the bin
 after its last one

---
 .../itcl_quantizer/quantizer/distributions/distribution.py    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
index 839a84f..4268d39 100644
--- a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
+++ b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
@@ -316,6 +316,10 @@ class Distribution:
 
         view_slice = self.__slice_distribution(min_bin_val, max_bin_val)
 
+        # The values on an inner edge belong to the next bin
+        if max_bin_idx < len(self._histogram):
+            view_slice = view_slice[: view_slice.searchsorted(max_bin_val)]
+
         deep_distr._sorted_a = view_slice
 
         return deep_distr
-- 
2.43.0


From 7be98d6f6ae968babc63d405c6abed84cba30965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:13 +0000
Subject: [PATCH 18/44] fix: slices that start at the last edge have no bins

---
 .../itcl_quantizer/quantizer/distributions/distribution.py      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
index 4268d39..0978441 100644
--- a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
+++ b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
@@ -289,6 +289,8 @@ class Distribution:
                 max_bin_idx = i
 
         if self._include_partial_bins:
+            # The last edge does not start a bin
+            min_bin_idx = min(min_bin_idx, len(self._histogram) - 1)
             max_bin_idx = min(max_bin_idx + 1, len(self._histogram))
         else:
             # A bin that starts at the lower bound is not a partial bin
-- 
2.43.0


From 141421e88fa8e398b047f2ebad3dfe250987b62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 19/44] fix: the dequantized view of a tensor adds the zero
 point instead of subtracting it

---
 quantizer/itcl_quantizer/tensor_extractor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 58e7d0f..dacafa0 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -479,7 +479,7 @@ class NodeTensorTensor(IRoundingPolicy, NodeTensorBase):
         Returns:
             np.ndarray: A float tensor
         """
-        return self.quantized * self.scale + self.zero_point
+        return self.quant.dequantize(self.quantized, self.zero_point, self.scale)
 
     def _requantize(self):
         """Requantization Function"""
-- 
2.43.0


From ec08c2d8bb49fbd04556bf538f0b6b543de6e14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 20/44] fix: resetting the scale or zero point leaves the
 tensor quantized with the previous one

---
 quantizer/itcl_quantizer/tensor_extractor/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index dacafa0..17a8d65 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -214,7 +214,7 @@ class NodeTensorBase(ISerializable):
 
     def reset_scale(self):
         """Resets the scale to the original/constructor one."""
-        self._scale = self._og_scale
+        self.update_quant_parameters(self._og_scale, self.zero_point)
 
     @property
     def name(self) -> str:
@@ -250,7 +250,7 @@ class NodeTensorBase(ISerializable):
 
     def reset_zp(self):
         """Resets the current zero point to the original one"""
-        self._zero_p = self._og_zero_p
+        self.update_quant_parameters(self.scale, self._og_zero_p)
 
     def update_quant_parameters(
         self, scale: float, zero_point: int, requantize: bool = True
-- 
2.43.0


From f7fafc4c11cb23de376d511f3ff5642738667ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 21/44] fix: node LUTs are not rebuilt for a new rounding
 policy or new output parameters

---
 quantizer/itcl_quantizer/tensor_extractor/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 17a8d65..7f5638d 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -98,6 +98,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         """
         self._output_s = output_s
         self._output_zp = output_zp
+        self._create()
 
     @property
     def offset(
@@ -155,6 +156,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
     @rounding_policy.setter
     def rounding_policy(self, policy: np.ndarray):
         self._rounding_policy = policy
+        self._create()
 
     def as_json(self) -> LUTJson:
         """Serializes the LUT class as a serializable dictionary k:str, v: Any
-- 
2.43.0


From c13a6a640abe5b9d5df0766c87bc2aafb578fb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 22/44] fix: the LUT of an activation does not follow the
 parameters of its output node

---
 .../tensor_extractor/keras/layers/activations.py         | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
index d5d3890..355602c 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
@@ -77,9 +77,10 @@ def quantize_activation_node(
         )
 
     # Create and save the LUT (if possible)
+    lut = None
     if activation_name in LUT_FUNCTIONS and not skip_lut:
         activation_name += "LUT"
-        input_node.with_lut(fn, out_s, out_zp)
+        lut = input_node.with_lut(fn, out_s, out_zp).LUT
 
     # Create the output node
     output_node = (
@@ -89,6 +90,12 @@ def quantize_activation_node(
         .exclude_tensor()
     )
 
+    # The LUT holds values that are quantized with the parameters of the output node
+    if lut is not None:
+        output_node.on_quant_param_update.append(
+            lambda node: lut._update_out_qparams(node.scale, node.zero_point)
+        )
+
     operator = Operator(
         activation_name, activation_name, [input_node], [output_node], fn
     )
-- 
2.43.0


From 1227cfa504e31ab2d9ae914a4168e3cc004e4d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:19 +0000
Subject: [PATCH 23/44] fix: layers after a rectified layer are calibrated with
 data that are not rectified

---
 .../tensor_extractor/keras/layers/activations.py           | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
index 355602c..c147dad 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
@@ -18,6 +18,10 @@ LUT_FUNCTIONS = ["TANH", "SIGMOID"]
 # Functions that shouldn't be included in the final model as they are not required.
 SKIP_FUNCTIONS = ["LINEAR", "SOFTMAX", "RELU", "RELU6"]
 
+# Skipped functions that are applied by the range of the previous node. The next
+# layers receive the activated data.
+FUSED_FUNCTIONS = ["RELU", "RELU6"]
+
 # A dict with overriden functions
 OVERRIDE_FUNCTIONS: Dict[str, Callable[[Any], Any]] = {
     "SOFTMAX": lambda x: x,
@@ -54,6 +58,9 @@ def quantize_activation_node(
     """
     activation_name = activation_name.upper()
 
+    if activation_name in FUSED_FUNCTIONS:
+        return None, np.array(fn(input_data))
+
     if activation_name in SKIP_FUNCTIONS:
         return None, input_data
 
-- 
2.43.0


From 8a347667efba0bdd82cfcb4efa590a25216ee22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:35 +0000
Subject: [PATCH 24/44] fix: the output node of the dense layer holds the input
 data

---
 .../tensor_extractor/keras/layers/keras_dense.py            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
index 9ef5a17..d515ce4 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
@@ -221,7 +221,7 @@ class KerasDense(AbstractLayer):
         return self.__quantize_bias_from_params(bias_s, bias_zp)
 
     def __quantize_bias_add_from_params(
-        self, float_input: np.ndarray, scale: float, zp: int
+        self, float_output: np.ndarray, scale: float, zp: int
     ) -> NodeTensorTensor:
         return (
             Node(
@@ -230,7 +230,7 @@ class KerasDense(AbstractLayer):
                 f"{self.__layer_name}/BiasAdd",
                 self.__q_bias_add,
             )
-            .with_tensor(float_input)
+            .with_tensor(float_output)
             .exclude_batch_dimension()
             .exclude_tensor()
         )
@@ -260,7 +260,7 @@ class KerasDense(AbstractLayer):
 
         out_s, out_zp = out_dist.quantize(self.__q_bias_add)
         return (
-            self.__quantize_bias_add_from_params(float_input, out_s, out_zp),
+            self.__quantize_bias_add_from_params(np.array(float_output), out_s, out_zp),
             float_output,
         )
 
-- 
2.43.0


From 42bd64d4024c282ee223fc9d38b41d8597c9c765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:15 +0000
Subject: [PATCH 25/44] fix: rectified dense layers keep negative outputs of
 the bin that contains the zero

---
 .../tensor_extractor/keras/layers/keras_dense.py       | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
index d515ce4..b8aa96b 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
@@ -32,8 +32,14 @@ from itcl_quantizer.tensor_extractor.tensor import (
     NodeTensorTensor,
 )
 
-FUSED_RELU_TRIM: Callable[[Distribution], Distribution] = lambda x: x[0:]
-FUSED_RELU6_TRIM: Callable[[Distribution], Distribution] = lambda x: x[0:6]
+# The range of a rectified output has to start exactly at zero, a slice keeps the whole
+# bin that contains the zero
+FUSED_RELU_TRIM: Callable[[Distribution], Distribution] = lambda x: Distribution(
+    np.clip(x._sorted_a, 0, None)
+)
+FUSED_RELU6_TRIM: Callable[[Distribution], Distribution] = lambda x: Distribution(
+    np.clip(x._sorted_a, 0, 6)
+)
 
 
 def fused_relu(activation: str):
-- 
2.43.0


From e4a134a19fb5193cbed5c30c03d3b1543300d7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:07 +0000
Subject: [PATCH 26/44] fix: LSTM bias add excludes the recurrent term

---
 .../itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 156767e..7f77816 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -688,7 +688,7 @@ class LSTM:
         return LSTMResult(
             hidden_state=np.array(h[1:]),  # Remove the initial scale
             cell_state=np.array(previous_c),
-            bias_add=np.array(previous_recurrent_add),
+            bias_add=np.array(previous_bias_add),
             recurrent_add=np.array(previous_recurrent_add),
             input_gate=np.array(previous_i),
             forget_gate=np.array(previous_f),
-- 
2.43.0


From ca15f1e7632e4d53ef0de5b71bbb4d66447d0408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:07 +0000
Subject: [PATCH 27/44] fix: LSTM input gate is calibrated on its own slice

---
 .../itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 7f77816..7bb1e6d 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -419,7 +419,7 @@ class KerasLSTM(AbstractLayer):
         input_gate_op, _ = quantize_activation_node(
             tf.math.sigmoid,
             ACTIVATION_NAMES.SIGMOID,
-            recurrent_add[: self._n_units],
+            recurrent_add[:, :, : self._n_units],
             self._q_activation,
             input_gate,
         )
-- 
2.43.0


From becfd21e3572129a055574ffa4139297a7f0b33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:07 +0000
Subject: [PATCH 28/44] fix: LSTM quantization result refers to the quantizer
 layer

---
 .../itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 7bb1e6d..6e9d186 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -517,7 +517,7 @@ class KerasLSTM(AbstractLayer):
             input_data=lstm_states.result,
             out_node=hidden_node,
             operators=[lstm_op],
-            layer=self._layer,
+            layer=self,
         )
 
         if is_debug_mode():
-- 
2.43.0


From 366f6878f0d1b7bd1c03f4e8c3871c0e5b9548e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:07 +0000
Subject: [PATCH 29/44] fix: LSTM adaround hands over its float input

---
 .../tensor_extractor/keras/layers/keras_lstm.py       | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 6e9d186..39e7fbe 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -64,6 +64,8 @@ class KerasLSTM(AbstractLayer):
         self._q_recurrent_add = Quantization(recurrent_add_dtype)
         self._q_output = Quantization(output_dtype)
 
+        self._last_float_input: np.ndarray | None = None
+
     def _get_scale_zp(
         self, tensor: NPFP32, quantize: Quantization, symmetric: bool = False
     ) -> tuple[float, int]:
@@ -382,6 +384,7 @@ class KerasLSTM(AbstractLayer):
             QuantizationResult: The quantization result of the LSTM layer
         """
         input_data = input_result.input_data
+        self._last_float_input = input_data
         input_node = input_result.out_node
 
         if input_node is None:
@@ -561,7 +564,13 @@ class KerasLSTM(AbstractLayer):
             ],
         )
 
-        AdaRound(optimizer_factory(), cost_fn, self, results).round(tensors)
+        AdaRound(
+            optimizer_factory(),
+            cost_fn,
+            self,
+            results,
+            float_input=self._last_float_input,
+        ).round(tensors)
 
 
 class MinMaxList(list):
-- 
2.43.0


From 77afe21e066443a7db65efcdef0ca747e66e8937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:07 +0000
Subject: [PATCH 30/44] fix: LSTM bias scales follow the input and kernel
 scales

---
 .../tensor_extractor/keras/layers/keras_lstm.py        | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 39e7fbe..b766b4e 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -404,6 +404,16 @@ class KerasLSTM(AbstractLayer):
         recurrent_kernel_nodes = self._quantize_recurrent_kernel()
         bias_nodes = self._quantize_bias(input_node.scale, kernel_nodes)
 
+        # On kernel/input scale update: Update the bias scales and requantize
+        def update_bias_scales(_: Node) -> None:
+            for kernel_node, bias_node in zip(kernel_nodes, bias_nodes):
+                bias_node.update_quant_parameters(
+                    input_node.scale * kernel_node.scale, bias_node.zero_point
+                )
+
+        for node in [input_node, *kernel_nodes]:
+            node.on_quant_param_update.append(update_bias_scales)
+
         # Quantize the intermediate Nodes
         hidden_node = self._quantize_hidden_state(lstm_states.hidden_state)
 
-- 
2.43.0


From b1122c45529ef64504dcfe180d3c8c68c0ee47b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:53 +0000
Subject: [PATCH 31/44] fix: annealed parameters are evaluated and installed in
 the equalized nodes

---
 .../itcl_quantizer/equalizers/param_equalizer/annealer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/equalizers/param_equalizer/annealer.py b/quantizer/itcl_quantizer/equalizers/param_equalizer/annealer.py
index 663ac02..9753352 100644
--- a/quantizer/itcl_quantizer/equalizers/param_equalizer/annealer.py
+++ b/quantizer/itcl_quantizer/equalizers/param_equalizer/annealer.py
@@ -51,7 +51,9 @@ class ParamEqAnnealer(AbstractParamOptimizer, Annealer):
             float: loss
         """
 
-        energy: float = self._cost_fn(self.state)
+        # The annealer replaces the state with copies, the cost function reads the nodes
+        self.copy(self._tensors, self.state, requantize=True)
+        energy: float = self._cost_fn(self._tensors)
         return energy
 
     def optimize(self) -> tuple[list[NodeTensorBase], float]:
@@ -60,4 +62,6 @@ class ParamEqAnnealer(AbstractParamOptimizer, Annealer):
         Returns:
             Tuple[List[np.ndarray], float]: A tuple with the improved neighborhood and the final cost
         """
-        return self.anneal()  # type: ignore
+        best, cost = self.anneal()
+        self.copy(self._tensors, best, requantize=True)  # type: ignore
+        return self._tensors, cost  # type: ignore
-- 
2.43.0


From 97e8cfaace7f6755c99ffbec6208222059102a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:53 +0000
Subject: [PATCH 32/44] fix: a rounding without error is not replaced by a
 worse one

---
 quantizer/itcl_quantizer/equalizers/adaround/annealer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/annealer.py b/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
index 23cbbda..d5d71c2 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
@@ -128,7 +128,7 @@ class RoundingAnnealer(Annealer, IRoundOptimizer):
             Tuple[List[np.ndarray], float]: _description_
         """
         neigh, energy = super().anneal()
-        return self._to_minima(neigh, energy or sys.maxsize)
+        return self._to_minima(neigh, sys.maxsize if energy is None else energy)
 
     def energy(self) -> float:
         """Function that calculates the energy or loss
-- 
2.43.0


From e4717fc40f195840afb1070953a75fba6ea23bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:53 +0000
Subject: [PATCH 33/44] fix: the rounding annealer reaches every bit of a
 tensor

---
 quantizer/itcl_quantizer/equalizers/adaround/annealer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/annealer.py b/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
index d5d71c2..e395422 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
@@ -68,7 +68,7 @@ class RoundingAnnealer(Annealer, IRoundOptimizer):
         new_state = []
 
         while True:
-            new_permutation = (*[randrange(start=0, stop=len(t)) for t in self.state],)
+            new_permutation = (*[randrange(start=0, stop=t.size) for t in self.state],)
             if not new_permutation in self._past_permutations:
                 break
 
-- 
2.43.0


From 8d1a451bc5642b9dddb1a85755209948a3543985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:41 +0000
Subject: [PATCH 34/44] fix: the rounding problem targets the output before the
 activation

---
 quantizer/itcl_quantizer/equalizers/adaround/qubo.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/qubo.py b/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
index 1ab2674..23a2144 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
@@ -66,9 +66,8 @@ class QUBOAnnealer(IRoundOptimizer):
         kernel, bias = dense_layer.get_weights()
         input_f = self._input_data
         input_f = np.array(input_f)
-        output_f = self._results.input_data
-        output_f = np.array(output_f)
-        # output_f = TODO
+        # The layer's float output, before its activation
+        output_f = np.dot(input_f, np.transpose(kernel)) + bias
          
         kernel_roundp = tensors[0]  # todo: update
         bias_roundp = tensors[1]  # todo: update
-- 
2.43.0


From fd07bb63098613d752bd905094ae5e90ab8edd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:41 +0000
Subject: [PATCH 35/44] fix: the first intermediate tensor of an ONNX graph is
 found

---
 .../onnx2json/helpers/nodeBuilders/buildBaseNode.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py b/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
index 6885aeb..8d604c1 100644
--- a/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
+++ b/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
@@ -81,7 +81,7 @@ def build_base_node(model, tensor_id) -> Node:
     id2idx = {init.name: i for i, init in enumerate(model.graph.value_info)}
     idx = id2idx.get(tensor_id)
     
-    if idx: # The tensor id is expected to be in the model
+    if idx is not None: # The tensor id is expected to be in the model
         layer_info = model.graph.value_info[idx]
 
     # Some tensors, like the input and output tensors, are not in the model body
-- 
2.43.0


From b7cb07eb8dc4b622997916abd871a3ba629c2a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:41 +0000
Subject: [PATCH 36/44] fix: the output entries of a converted ONNX model
 describe its outputs

---
 model_converters/onnx2json/2json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model_converters/onnx2json/2json.py b/model_converters/onnx2json/2json.py
index 4dacdcd..0b7079c 100644
--- a/model_converters/onnx2json/2json.py
+++ b/model_converters/onnx2json/2json.py
@@ -29,7 +29,7 @@ def model2json(model) -> JsonNetwork:
         "engine": "ONNX",
         "graph": graph.build_graph(),
         "input": [{"zero_point": None, "scale": None, "tensor":  layer_info_to_tensor(_in)} for _in in model.graph.input],
-        "output": [{"zero_point": None, "scale": None, "tensor":  layer_info_to_tensor(_out)} for _out in model.graph.input],
+        "output": [{"zero_point": None, "scale": None, "tensor":  layer_info_to_tensor(_out)} for _out in model.graph.output],
     }
 
 
-- 
2.43.0


From 39c79cfeef17bb006ec5e03a198ff14a0f5e43a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:41 +0000
Subject: [PATCH 37/44] fix: only complete operator types are fused into a
 table

---
 model_converters/onnx2json/helpers/graph.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/model_converters/onnx2json/helpers/graph.py b/model_converters/onnx2json/helpers/graph.py
index 1d38555..60b6aeb 100644
--- a/model_converters/onnx2json/helpers/graph.py
+++ b/model_converters/onnx2json/helpers/graph.py
@@ -58,15 +58,13 @@ class OnnxGraph:
         """
         remaining_op = self.__operators[self.__current_op_idx :]
 
-        op_type_seq = ".".join(
-            [op.op_type for op in remaining_op]
-        )  # op_typ_seq = "QuantizeLinear.Tanh.Softmax"
+        # op_type_seq = ["QuantizeLinear", "Tanh", "Softmax"]
+        op_type_seq = [op.op_type for op in remaining_op]
 
         # Find the largest Advanced Operator Match
         for advanced_op_name, advanced_op in ADVANCED_OPERATORS_SORTED:
-            advanced_op_regex = ".".join(advanced_op)
-            # if op_type_seq starts with op_type_seq_regex
-            if op_type_seq.startswith(advanced_op_regex):
+            # if op_type_seq starts with advanced_op
+            if op_type_seq[: len(advanced_op)] == advanced_op:
 
                 candidate = BuildOperatorCandidate(
                     advanced_op_name, remaining_op[: len(advanced_op)]
-- 
2.43.0


From 141b53dd99fbbc7baf3ef11861d3697000600326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:41 +0000
Subject: [PATCH 38/44] fix: a converted dense layer without bias has one zero
 per unit

---
 model_converters/keras2json/keras2json/layers/dense.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model_converters/keras2json/keras2json/layers/dense.py b/model_converters/keras2json/keras2json/layers/dense.py
index 67f8625..a7d0b9f 100644
--- a/model_converters/keras2json/keras2json/layers/dense.py
+++ b/model_converters/keras2json/keras2json/layers/dense.py
@@ -19,7 +19,7 @@ class Dense(ILayer):
         if len(weights) > 1:
             self._bias: np.ndarray = np.array(weights[1])
         else:
-            self._bias = np.zeros(len(self._kernel))
+            self._bias = np.zeros(self._kernel.shape[1])
 
     def _dense(self) -> Operator :
 
-- 
2.43.0


From f0327757851bf779e9f3b3576b86ff7c2c2350f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:41 +0000
Subject: [PATCH 39/44] fix: convert convolutions without bias

---
 model_converters/keras2json/keras2json/layers/conv2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model_converters/keras2json/keras2json/layers/conv2d.py b/model_converters/keras2json/keras2json/layers/conv2d.py
index 6df1aac..e1e6add 100644
--- a/model_converters/keras2json/keras2json/layers/conv2d.py
+++ b/model_converters/keras2json/keras2json/layers/conv2d.py
@@ -13,7 +13,7 @@ class Conv2d(ILayer):
         weights: list[np.ndarray] = layer.get_weights()
 
         W = weights[0]
-        B = weights[1]
+        B = weights[1] if len(weights) > 1 else np.zeros(W.shape[-1], dtype=W.dtype)
         strides: tuple[int, int] = tuple(layer.strides)
         padding = 0 if "valid" in str(layer.padding).lower() else 1
 
-- 
2.43.0


From 4b1802677cd0f55a3bbf2e365960cd59fff88db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:41 +0000
Subject: [PATCH 40/44] fix: convert LSTM layers without bias

---
 model_converters/keras2json/keras2json/layers/lstm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model_converters/keras2json/keras2json/layers/lstm.py b/model_converters/keras2json/keras2json/layers/lstm.py
index 5512a58..5a0df42 100644
--- a/model_converters/keras2json/keras2json/layers/lstm.py
+++ b/model_converters/keras2json/keras2json/layers/lstm.py
@@ -30,7 +30,7 @@ class LSTM(ILayer):
 
         W_full = weights[0].T
         U_full = weights[1].T
-        B_full = weights[2]
+        B_full = weights[2] if len(weights) > 2 else np.zeros(4 * n_units, dtype=W_full.dtype)
 
         # print(U_full.shape)
         # print(B_full.reshape())
-- 
2.43.0


From ef0400d93099926ea6868e50fdcb8ea1d6f92f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:41 +0000
Subject: [PATCH 41/44] fix: layers that only resemble a supported layer are
 rejected

---
 model_converters/keras2json/keras2json/_convert.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/model_converters/keras2json/keras2json/_convert.py b/model_converters/keras2json/keras2json/_convert.py
index 68b8b6b..63d13c1 100644
--- a/model_converters/keras2json/keras2json/_convert.py
+++ b/model_converters/keras2json/keras2json/_convert.py
@@ -11,15 +11,15 @@ from keras2json import layers
 def _from_layer(keras_layer) -> list[Operator]:
     name = str(keras_layer.__class__.__name__).upper()
 
-    if "DENSE" in name:
+    if name == "DENSE":
         builder = layers.Dense
-    elif "LSTM" in name:
+    elif name == "LSTM":
         builder = layers.LSTM
-    elif "CONV2D" in name:
+    elif name == "CONV2D":
         builder = layers.Conv2d
-    elif "FLATTEN" in name:
+    elif name == "FLATTEN":
         builder = layers.Flatten
-    elif "MAXPOOLING2D" in name:
+    elif name == "MAXPOOLING2D":
         builder = layers.MaxPool2D
     elif name in ["INPUT", "OUTPUT", "INPUTLAYER", "DROPOUT"]:
         return []
-- 
2.43.0


From 0f3de17661f6360c9d7edeae09147e4160af8ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:07 +0000
Subject: [PATCH 42/44] fix: absent optional inputs of a TFLite operator are
 not read

---
 .../tflite2json/itcl_tflite2json/operators/BaseOperator.py   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/model_converters/tflite2json/itcl_tflite2json/operators/BaseOperator.py b/model_converters/tflite2json/itcl_tflite2json/operators/BaseOperator.py
index aab81d2..106bc34 100644
--- a/model_converters/tflite2json/itcl_tflite2json/operators/BaseOperator.py
+++ b/model_converters/tflite2json/itcl_tflite2json/operators/BaseOperator.py
@@ -36,7 +36,8 @@ class BaseOperator:
         subgraph = self.__model.Subgraphs(0)
         operator_type = self.__model.OperatorCodes(operator.OpcodeIndex())
         operator_type_name = layers2str(operator_type.BuiltinCode())
-        inputs: List[Tensor] = [subgraph.Tensors(i) for i in operator.InputsAsNumpy()]  # type: ignore
+        # An index of -1 stands for an optional input that is not present
+        inputs: List[Tensor] = [subgraph.Tensors(i) if i >= 0 else None for i in operator.InputsAsNumpy()]  # type: ignore
         outputs: List[Tensor] = [
             subgraph.Tensors(i) for i in operator.OutputsAsNumpy()
         ]  # type: ignore
@@ -49,6 +50,8 @@ class BaseOperator:
                 self.build_from_node(
                     self.__interpreter, i, self.__model, self.__layer_name2idx
                 )
+                if i is not None
+                else {"scale": None, "zero_point": None, "tensor": None}
                 for i in inputs
             ],
             "outputs": [
-- 
2.43.0


From bebead6eaa8800021a3641de261f55c387526618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:45 +0000
Subject: [PATCH 43/44] fix: remote inference splits every number of rows into
 batches of at most max_batch_size

---
 demo/demo_lib/demo_lib/fpga.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demo/demo_lib/demo_lib/fpga.py b/demo/demo_lib/demo_lib/fpga.py
index 541aea2..c937bad 100644
--- a/demo/demo_lib/demo_lib/fpga.py
+++ b/demo/demo_lib/demo_lib/fpga.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import json
 import logging
+import math
 import threading
 from abc import abstractmethod
 from dataclasses import dataclass
@@ -57,7 +58,7 @@ class InferFPGAMQTT(InferFPGA):
 
         self._client.publish(self._model_topic, json_net, qos=self._qos)
 
-        n_splits = len(x) // self._max_batch_size
+        n_splits = math.ceil(len(x) / self._max_batch_size)
 
         chunk_resuts = []
 
-- 
2.43.0


From e9cf8a630d60be47c3a199d59cb01b509d4d12e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:45 +0000
Subject: [PATCH 44/44] fix: equal float values do not count as collisions

---
 quantizer/itcl_quantizer/util/collisions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quantizer/itcl_quantizer/util/collisions.py b/quantizer/itcl_quantizer/util/collisions.py
index fdcf9ba..2ba2e10 100644
--- a/quantizer/itcl_quantizer/util/collisions.py
+++ b/quantizer/itcl_quantizer/util/collisions.py
@@ -16,7 +16,8 @@ def calc_collisions(fp_tensor: np.ndarray, q_tensor: np.ndarray, epsilon: int) -
     """
     rounded_fp = np.around(fp_tensor, decimals=epsilon) if epsilon > 0 else fp_tensor
 
-    _, counts_fp = np.unique(rounded_fp, return_counts=True)
-    _, counts_q = np.unique(q_tensor, return_counts=True)
+    # Equal FP elements do not collide: count each (Q, FP) pair once
+    pairs = np.unique(np.stack((q_tensor.ravel(), rounded_fp.ravel())), axis=1)
+    _, counts_q = np.unique(pairs[0], return_counts=True)
 
-    return (counts_q * (counts_q != 1)).sum() - (counts_fp - 1).sum()
+    return counts_q[counts_q != 1].sum()
-- 
2.43.0

