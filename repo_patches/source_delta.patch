From b28e89daaca09332f1f30808d5acd194571addfd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 01/55] fix: uint32 quantization no longer wraps codes above
 2^31-1

---
 core/itcl_quantization/quantization/operators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index 7807f74..4494031 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -159,7 +159,10 @@ class Quantization(Generic[T]):
         """
         rounded_data = np.floor(np.array(data) + extra)
 
-        return rounded_data.clip(self.dtype.min(), self.dtype.max()).astype("int32")
+        # int32 holds every code except the upper half of the 32 bit unsigned range
+        carrier = "int32" if self.dtype.max() <= np.iinfo(np.int32).max else "int64"
+
+        return rounded_data.clip(self.dtype.min(), self.dtype.max()).astype(carrier)
 
     def float_activation(
         self,
-- 
2.43.0


From a859eeb85e113668a18797a4127c186af541b06b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 02/55] fix: dequantize 32 bit codes without integer overflow

---
 core/itcl_quantization/quantization/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index 4494031..b3510ed 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -149,7 +149,7 @@ class Quantization(Generic[T]):
         Returns:
             np.ndarray: Dequantized Numpy Array
         """
-        return (np.array(data, dtype=np.int32) - zero_point) * scale
+        return (np.array(data, dtype=np.int64) - zero_point) * scale
 
     def round(self, data: input_type, extra=0.5) -> np.ndarray:
         """Rounds a numpy array of float64 quantized values to their nearest int8 value
-- 
2.43.0


From 4484c935f0dae8f5f1d69286a2c44cf50d2763c5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 03/55] fix: sample activations as floats even when the first
 output is an int

---
 core/itcl_quantization/quantization/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index b3510ed..76e15e4 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -175,7 +175,7 @@ class Quantization(Generic[T]):
         )
         float_input = self.dequantize(quantized_input, input_zp, input_s)
 
-        apply_fn = np.vectorize(activation_fn)
+        apply_fn = np.vectorize(activation_fn, otypes=[np.float64])
 
         return apply_fn(float_input)
 
-- 
2.43.0


From 63832206f680af9d5b128026ea1b61d75b18776f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 04/55] fix: tail intervals of asymmetric reduced LUTs are
 offset by the pruned head

---
 core/itcl_quantization/quantization/lut.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/itcl_quantization/quantization/lut.py b/core/itcl_quantization/quantization/lut.py
index ab1e261..de8b700 100644
--- a/core/itcl_quantization/quantization/lut.py
+++ b/core/itcl_quantization/quantization/lut.py
@@ -41,6 +41,11 @@ class ReducedLUT:
         self.right_shift, self.right_tuples = self.__reduce_lut_from_left(
             lut[self.left_shift :] if self.asymmetric else lut, reverse=True
         )
+        if self.asymmetric:
+            # The tail was measured on the LUT without its head
+            self.right_tuples = [
+                (start + self.left_shift, value) for start, value in self.right_tuples
+            ]
 
         # Reduce the original LUT
         r_shift_slice_idx = -self.right_shift if self.right_shift else None
-- 
2.43.0


From 90d931d629a12d8cb2cdf6083bc09d7854677539 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 05/55] fix: a deserialized reduced LUT can be iterated

---
 core/itcl_quantization/quantization/lut.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/itcl_quantization/quantization/lut.py b/core/itcl_quantization/quantization/lut.py
index de8b700..2e5085c 100644
--- a/core/itcl_quantization/quantization/lut.py
+++ b/core/itcl_quantization/quantization/lut.py
@@ -179,6 +179,13 @@ class ReducedLUT:
         reduced_lut.right_tuples = json_lut["tail"]["tuples"]
         reduced_lut.reduced_lut = json_lut["reduced_lut"]
 
+        # Rebuild the full LUT, as the iterator needs its length
+        if reduced_lut.right_tuples:
+            length = reduced_lut.right_tuples[-1][0] + reduced_lut.right_shift
+        else:
+            length = reduced_lut.left_shift + len(reduced_lut.reduced_lut)
+        reduced_lut.lut = [reduced_lut[i] for i in range(length)]
+
         return reduced_lut
 
 
-- 
2.43.0


From c3b8960172d4b6fa6cfff0f73315c224d9d1db5e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 06/55] fix: uint32 Dtype arithmetic stays exact instead of
 going through float64

---
 core/itcl_quantization/quantization/operators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index 76e15e4..a77e477 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -256,7 +256,7 @@ class Dtype:
         next = Dtype.from_dtype(larger.__double_dtype())
         a = np.array(self.value).astype(next.dtype)
         b = np.array(other.value).astype(next.dtype)
-        res = np.clip(a + b, next.min(), next.max())
+        res = np.clip(a + b, next.min(), next.max(), dtype=next.dtype)
         dtype = larger.dtype
 
         # If overflow: Upgrade the dtype to the next higher dtype
@@ -274,6 +274,7 @@ class Dtype:
             a - b,
             next.min(),
             next.max(),
+            dtype=next.dtype,
         )
 
         dtype = larger.dtype
@@ -301,6 +302,7 @@ class Dtype:
             a * b,
             next.min(),
             next.max(),
+            dtype=next.dtype,
         )
 
         dtype = larger.dtype
-- 
2.43.0


From a1082373cc4a6e409cca7fac39616e6989d9ba0e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 07/55] fix: LSTM inference honours the hidden and cell state
 zero points

---
 .../itcl_inference_engine/layers/itclq/lstm.py       | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
index 37f146a..22fbd3a 100644
--- a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
+++ b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
@@ -269,9 +269,11 @@ class LSTM(ILayer):
         # batch, window_len, n_features =  -> w, b , n
         input_norm = (input_ - self._input_zp).swapaxes(0, 1)
 
-        # Create the initial hidden state and cell state
-        hidden_state = [np.zeros((1, self._n_cells), dtype=np.int64)]
-        cell_state = np.zeros((1, self._n_cells), dtype=np.int64)
+        # Create the initial hidden state and cell state (a real 0 is the zero point)
+        hidden_state = [
+            np.full((1, self._n_cells), self._hidden_state_zp, dtype=np.int64)
+        ]
+        cell_state = np.full((1, self._n_cells), self._cell_state_zp, dtype=np.int64)
 
         inter = LSTMIntermediateTensors()
 
@@ -291,7 +293,9 @@ class LSTM(ILayer):
             for i, (recurrent_kernel, bias, M2) in enumerate(
                 zip(self._recurrent_kernel, bias_add, self._M2)
             ):
-                recurrent_add_large = (hidden_state[-1] @ recurrent_kernel) + bias
+                recurrent_add_large = (
+                    (hidden_state[-1] - self._hidden_state_zp) @ recurrent_kernel
+                ) + bias
                 recurrent_add.append(
                     (recurrent_add_large * M2 + self._recurrent_add_zp[i])
                     .clip(
-- 
2.43.0


From 02ad5154f6994cf81c30fe4523a69a5adb818a2d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 08/55] fix: RELU rescales from the input zero point and
 saturates to int8

---
 inference_engine/itcl_inference_engine/layers/common/relu.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inference_engine/itcl_inference_engine/layers/common/relu.py b/inference_engine/itcl_inference_engine/layers/common/relu.py
index e48da1e..cf8b81d 100644
--- a/inference_engine/itcl_inference_engine/layers/common/relu.py
+++ b/inference_engine/itcl_inference_engine/layers/common/relu.py
@@ -2,6 +2,7 @@ import numpy as np
 from itcl_quantization.json.specification import Operator
 
 from itcl_inference_engine.layers.common.layer import ILayer
+from itcl_inference_engine.util.quantization import int8_quantization
 
 
 class RELU(ILayer):
@@ -34,6 +35,6 @@ class RELU(ILayer):
 
         y = (input_.astype(np.int16)).clip(min=self.input_zp)
 
-        relu = (self.output_zp + self.k * (y - self.output_zp)).astype(np.int8)
+        relu = int8_quantization.round(self.output_zp + self.k * (y - self.input_zp))
 
-        return relu
+        return relu.astype(np.int8)
-- 
2.43.0


From ab8fc93c164e5ba72fcf64149c1f0b15fb2ce758 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 09/55] fix: ONNX Softmax normalizes each row and does not
 overflow

---
 inference_engine/itcl_inference_engine/layers/onnx/softmax.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/layers/onnx/softmax.py b/inference_engine/itcl_inference_engine/layers/onnx/softmax.py
index 06a19f5..7c37437 100644
--- a/inference_engine/itcl_inference_engine/layers/onnx/softmax.py
+++ b/inference_engine/itcl_inference_engine/layers/onnx/softmax.py
@@ -32,4 +32,6 @@ class Softmax(IOperator):
             np.ndarray: Float32 output tensor (Each value should be between 0 and 1)
         """
 
-        return np.exp(input_) / np.sum(np.exp(input_))
+        exp = np.exp(input_ - np.max(input_, axis=-1, keepdims=True))
+
+        return exp / np.sum(exp, axis=-1, keepdims=True)
-- 
2.43.0


From 9f294c958d8ef4caadd51ac14158b3212ba02796 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 10/55] fix: tiny fixed point multipliers keep a 64 bit shift

---
 inference_engine/itcl_inference_engine/util/floating.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/util/floating.py b/inference_engine/itcl_inference_engine/util/floating.py
index f9c7d89..cae3b66 100644
--- a/inference_engine/itcl_inference_engine/util/floating.py
+++ b/inference_engine/itcl_inference_engine/util/floating.py
@@ -20,7 +20,7 @@ class FloatingIntegerApprox(Generic[E]):
             shift += 1
 
         if shift < -31:
-            self._shift = 0
+            shift = 0
             quantized_multiplier = 0
 
         self._q = quantized_multiplier
-- 
2.43.0


From 54029899b3a314bf9770f5846a73360ea4fe5c30 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 11/55] fix: a rounding policy picks the floor or its successor
 without float carry

floor(x + 1) carries for x just below zero or a power of two (-1e-17 + 1 == 1.0), so such elements were rounded one step too high.
---
 core/itcl_quantization/quantization/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index a77e477..1004834 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -131,7 +131,7 @@ class Quantization(Generic[T]):
 
         if rounding_policy is not None:
             try:
-                return self.round(float_res + rounding_policy, extra=0)
+                return self.round(np.floor(float_res) + rounding_policy, extra=0)
             except ValueError:
                 logging.warning(
                     "Invalid quantization rounding policy, rounding to nearest"
-- 
2.43.0


From b7e4bd3f1b2e33f340c479b8b7305325401c8f53 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 12/55] fix: the base rounding policy uses the arithmetic of
 quantize

Computed in float32 and without the zero point it disagreed with Quantization.quantize on (almost) on-grid values, so resetting the rounding or requantizing moved codes by one.
---
 .../equalizers/adaround/irounding_policy.py              | 9 +++++++--
 quantizer/itcl_quantizer/tensor_extractor/tensor.py      | 4 ++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/irounding_policy.py b/quantizer/itcl_quantizer/equalizers/adaround/irounding_policy.py
index 3d05b3d..c0c5e69 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/irounding_policy.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/irounding_policy.py
@@ -20,14 +20,19 @@ class IRoundingPolicy(Protocol):
         ...
 
 
-def get_base_rounding(tensor: np.ndarray, scale: float) -> np.ndarray:
+def get_base_rounding(
+    tensor: np.ndarray, scale: float, zero_point: int = 0
+) -> np.ndarray:
     """Get the Round To Nearest rounding policy of a float tensor
 
     Args:
         tensor (np.ndarray): Tensor to get the policy from.
+        scale (float): Quantization scale of the tensor
+        zero_point (int): Quantization zero point of the tensor. Defaults to 0.
 
     Returns:
         np.ndarray: _description_
     """
-    tensor = tensor / scale
+    # same arithmetic as Quantization.quantize, otherwise both can disagree on the floor
+    tensor = np.asarray(tensor, dtype=np.float64) / scale + zero_point
     return np.where(np.floor(tensor + 0.5) > tensor, 1, 0)
diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 58e7d0f..2852f6d 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -57,7 +57,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         self._fn = fn
 
         self._rounding_policy = get_base_rounding(
-            quant.float_activation(fn, input_s, input_zp), output_s
+            quant.float_activation(fn, input_s, input_zp), output_s, output_zp
         )
         self._create()
 
@@ -390,7 +390,7 @@ class NodeTensorTensor(IRoundingPolicy, NodeTensorBase):
         self.__dict__ = node.__dict__.copy()
         self._fp_tensor = fp_tensor
         self._rounding_policy = self._og_rounding_policy = get_base_rounding(
-            fp_tensor, self.scale
+            fp_tensor, self.scale, self.zero_point
         )
         self._quantized = self.quant.quantize(fp_tensor, self.zero_point, self.scale)
 
-- 
2.43.0


From eb97660284900f9a52f45c36a84924221cf90e37 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 13/55] fix: a tensor node dequantizes with its zero point

The zero point was added in float units instead of being subtracted from the codes.
---
 quantizer/itcl_quantizer/tensor_extractor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 2852f6d..3bb176f 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -479,7 +479,7 @@ class NodeTensorTensor(IRoundingPolicy, NodeTensorBase):
         Returns:
             np.ndarray: A float tensor
         """
-        return self.quantized * self.scale + self.zero_point
+        return self.quant.dequantize(self.quantized, self.zero_point, self.scale)
 
     def _requantize(self):
         """Requantization Function"""
-- 
2.43.0


From 0fa207287320c060775e9aafcba094803576d8f3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 14/55] fix: requantized nodes and tables keep rounding to
 nearest

After a scale or zero point update the base policy of the old parameters was reused, rounding elements to the far neighbour; reset_rounding restored it too.
---
 .../itcl_quantizer/tensor_extractor/tensor.py | 34 ++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 3bb176f..003e98e 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -56,9 +56,24 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         self._quant = quant
         self._fn = fn
 
-        self._rounding_policy = get_base_rounding(
-            quant.float_activation(fn, input_s, input_zp), output_s, output_zp
+        self._rounding_policy = self._og_rounding_policy = self._base_rounding()
+        self._create()
+
+    def _base_rounding(self) -> np.ndarray:
+        """Round To Nearest policy of the LUT under the current parameters"""
+        return get_base_rounding(
+            self._quant.float_activation(self._fn, self._input_s, self._input_zp),
+            self._output_s,
+            self._output_zp,
         )
+
+    def _recreate(self):
+        """Rebuilds the LUT after a parameter update. The rounding keeps being
+        Round To Nearest unless another policy has been set."""
+        base = self._base_rounding()
+        if np.array_equal(self._rounding_policy, self._og_rounding_policy):
+            self._rounding_policy = base
+        self._og_rounding_policy = base
         self._create()
 
     def _create(self):
@@ -87,7 +102,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         """
         self._input_s = input_s
         self._input_zp = input_zp
-        self._create()
+        self._recreate()
 
     def _update_out_qparams(self, output_s: float, output_zp: int):
         """Update the out node quantiation parameters
@@ -421,6 +436,9 @@ class NodeTensorTensor(IRoundingPolicy, NodeTensorBase):
 
     def reset_rounding(self):
         """Reset the rounding policy to Round To Nearest"""
+        self._og_rounding_policy = get_base_rounding(
+            self._fp_tensor, self.scale, self.zero_point
+        )
         self.rounding_policy = self._og_rounding_policy
 
     @property
@@ -482,7 +500,15 @@ class NodeTensorTensor(IRoundingPolicy, NodeTensorBase):
         return self.quant.dequantize(self.quantized, self.zero_point, self.scale)
 
     def _requantize(self):
-        """Requantization Function"""
+        """Requantization Function
+
+        The rounding keeps being Round To Nearest unless another policy has been set.
+        """
+        base = get_base_rounding(self._fp_tensor, self.scale, self.zero_point)
+        if np.array_equal(self._rounding_policy, self._og_rounding_policy):
+            self._rounding_policy = base
+        self._og_rounding_policy = base
+
         self._quantized = self.quant.quantize(
             self._fp_tensor,
             self.zero_point,
-- 
2.43.0


From b6f9af2a6242772e7cb6284244e434b85331f765 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 15/55] fix: a new rounding policy rebuilds the look up table

AdaRound changed the policy of the tables without any effect on their content.
---
 quantizer/itcl_quantizer/tensor_extractor/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 003e98e..b25d409 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -170,6 +170,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
     @rounding_policy.setter
     def rounding_policy(self, policy: np.ndarray):
         self._rounding_policy = policy
+        self._create()
 
     def as_json(self) -> LUTJson:
         """Serializes the LUT class as a serializable dictionary k:str, v: Any
-- 
2.43.0


From 8fe698ff0ab179a07e72b81c3fd478c7cd84afd8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 16/55] fix: activation tables follow the parameters of their
 output node

The equalizers changed the output scale and zero point of an activation while its table kept producing codes for the old ones.
---
 .../tensor_extractor/keras/layers/activations.py         | 9 ++++++++-
 quantizer/itcl_quantizer/tensor_extractor/tensor.py      | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
index d5d3890..4c6c407 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
@@ -77,9 +77,10 @@ def quantize_activation_node(
         )
 
     # Create and save the LUT (if possible)
+    lut = None
     if activation_name in LUT_FUNCTIONS and not skip_lut:
         activation_name += "LUT"
-        input_node.with_lut(fn, out_s, out_zp)
+        lut = input_node.with_lut(fn, out_s, out_zp).LUT
 
     # Create the output node
     output_node = (
@@ -89,6 +90,12 @@ def quantize_activation_node(
         .exclude_tensor()
     )
 
+    # On output scale/zp update: Rebuild the LUT that produces the output codes
+    if lut is not None:
+        output_node.on_quant_param_update.append(
+            lambda _: lut._update_out_qparams(output_node.scale, output_node.zero_point)
+        )
+
     operator = Operator(
         activation_name, activation_name, [input_node], [output_node], fn
     )
diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index b25d409..72083de 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -113,6 +113,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         """
         self._output_s = output_s
         self._output_zp = output_zp
+        self._recreate()
 
     @property
     def offset(
-- 
2.43.0


From e7a228b098f23b19245120185365c8d4b46c7c4c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 17/55] fix: the bias add node of a dense layer describes its
 output, not its input

---
 .../tensor_extractor/keras/layers/keras_dense.py          | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
index 9ef5a17..03ee78b 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
@@ -221,7 +221,7 @@ class KerasDense(AbstractLayer):
         return self.__quantize_bias_from_params(bias_s, bias_zp)
 
     def __quantize_bias_add_from_params(
-        self, float_input: np.ndarray, scale: float, zp: int
+        self, float_output: np.ndarray, scale: float, zp: int
     ) -> NodeTensorTensor:
         return (
             Node(
@@ -230,7 +230,7 @@ class KerasDense(AbstractLayer):
                 f"{self.__layer_name}/BiasAdd",
                 self.__q_bias_add,
             )
-            .with_tensor(float_input)
+            .with_tensor(float_output)
             .exclude_batch_dimension()
             .exclude_tensor()
         )
@@ -260,7 +260,9 @@ class KerasDense(AbstractLayer):
 
         out_s, out_zp = out_dist.quantize(self.__q_bias_add)
         return (
-            self.__quantize_bias_add_from_params(float_input, out_s, out_zp),
+            self.__quantize_bias_add_from_params(
+                np.array(float_output), out_s, out_zp
+            ),
             float_output,
         )
 
-- 
2.43.0


From 7b664025dd41e82d943547e50e885193cb080603 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 18/55] fix: layers after a fused RELU are calibrated with its
 output

They were calibrated with the pre-activation values. The QUBO rounding, which relied on that for RELU only, now derives the pre-activation output itself for every activation.
---
 quantizer/itcl_quantizer/equalizers/adaround/qubo.py        | 5 ++---
 .../tensor_extractor/keras/layers/activations.py            | 6 ++++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/qubo.py b/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
index 1ab2674..765e8d5 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
@@ -66,9 +66,8 @@ class QUBOAnnealer(IRoundOptimizer):
         kernel, bias = dense_layer.get_weights()
         input_f = self._input_data
         input_f = np.array(input_f)
-        output_f = self._results.input_data
-        output_f = np.array(output_f)
-        # output_f = TODO
+        # the QUBO approximates the layer before its activation
+        output_f = np.dot(input_f, kernel.T) + bias
          
         kernel_roundp = tensors[0]  # todo: update
         bias_roundp = tensors[1]  # todo: update
diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
index 4c6c407..823add2 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
@@ -18,6 +18,9 @@ LUT_FUNCTIONS = ["TANH", "SIGMOID"]
 # Functions that shouldn't be included in the final model as they are not required.
 SKIP_FUNCTIONS = ["LINEAR", "SOFTMAX", "RELU", "RELU6"]
 
+# Skipped functions that are fused in the previous operator (its output range is trimmed)
+FUSED_FUNCTIONS = ["RELU", "RELU6"]
+
 # A dict with overriden functions
 OVERRIDE_FUNCTIONS: Dict[str, Callable[[Any], Any]] = {
     "SOFTMAX": lambda x: x,
@@ -55,6 +58,9 @@ def quantize_activation_node(
     activation_name = activation_name.upper()
 
     if activation_name in SKIP_FUNCTIONS:
+        # Fused functions have no operator, but the next layer receives their output
+        if activation_name in FUSED_FUNCTIONS:
+            return None, np.array(fn(input_data))
         return None, input_data
 
     # Override the function if possible
-- 
2.43.0


From 4469e2e6d3fb6bf2eb8189c95d22ddcdbd98a034 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 19/55] fix: fused RELU ranges start at zero and survive dead
 layers

Slicing the histogram raised IndexError when no value was positive, kept part of a negative bin and did not cap RELU6 when every value exceeded 6.
---
 .../keras/layers/keras_dense.py               | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
index 03ee78b..040f9f9 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
@@ -32,8 +32,28 @@ from itcl_quantizer.tensor_extractor.tensor import (
     NodeTensorTensor,
 )
 
-FUSED_RELU_TRIM: Callable[[Distribution], Distribution] = lambda x: x[0:]
-FUSED_RELU6_TRIM: Callable[[Distribution], Distribution] = lambda x: x[0:6]
+
+
+def _clip_distribution(
+    distribution: Distribution, upper: float | None = None
+) -> Distribution:
+    """
+    Clips a distribution to the output range of a fused RELU: saturating the quantized values to that
+    range is what applies the activation.
+
+    Args:
+      distribution (Distribution): distribution of the values before the activation.
+      upper (float | None): Upper limit of the activation.
+    """
+    clipped = np.clip(distribution._sorted_a, 0, upper)
+    # If every value is clipped to 0 any range starting at 0 is valid
+    return Distribution(clipped, range=(0, clipped[-1] or 1))
+
+
+FUSED_RELU_TRIM: Callable[[Distribution], Distribution] = _clip_distribution
+FUSED_RELU6_TRIM: Callable[
+    [Distribution], Distribution
+] = lambda x: _clip_distribution(x, 6)
 
 
 def fused_relu(activation: str):
-- 
2.43.0


From 2293299d542c47c1474b3ab41dbe85df882ed48c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 20/55] fix: the rounding annealer keeps a zero cost rounding

A cost of exactly 0 was taken as the worst one, so the next visited rounding replaced it.
---
 quantizer/itcl_quantizer/equalizers/adaround/annealer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/annealer.py b/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
index 23cbbda..d5d71c2 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
@@ -128,7 +128,7 @@ class RoundingAnnealer(Annealer, IRoundOptimizer):
             Tuple[List[np.ndarray], float]: _description_
         """
         neigh, energy = super().anneal()
-        return self._to_minima(neigh, energy or sys.maxsize)
+        return self._to_minima(neigh, sys.maxsize if energy is None else energy)
 
     def energy(self) -> float:
         """Function that calculates the energy or loss
-- 
2.43.0


From e4ece3996d4c2a08f586cd48f8d195a80cc03540 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 21/55] fix: the rounding annealer can flip every element of a
 tensor

The flattened index was drawn from the length of the first axis.
---
 quantizer/itcl_quantizer/equalizers/adaround/annealer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/annealer.py b/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
index d5d71c2..e395422 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
@@ -68,7 +68,7 @@ class RoundingAnnealer(Annealer, IRoundOptimizer):
         new_state = []
 
         while True:
-            new_permutation = (*[randrange(start=0, stop=len(t)) for t in self.state],)
+            new_permutation = (*[randrange(start=0, stop=t.size) for t in self.state],)
             if not new_permutation in self._past_permutations:
                 break
 
-- 
2.43.0


From 7db30c5379b319ba663aa0ab344f408ebd59b98c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 22/55] fix: the parameter annealer leaves its best parameters
 in the network

simanneal replaces the state by copies: moves stopped reaching the network nodes and the result was returned in copies only.
---
 .../itcl_quantizer/equalizers/param_equalizer/annealer.py    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/equalizers/param_equalizer/annealer.py b/quantizer/itcl_quantizer/equalizers/param_equalizer/annealer.py
index 663ac02..e202925 100644
--- a/quantizer/itcl_quantizer/equalizers/param_equalizer/annealer.py
+++ b/quantizer/itcl_quantizer/equalizers/param_equalizer/annealer.py
@@ -41,8 +41,9 @@ class ParamEqAnnealer(AbstractParamOptimizer, Annealer):
             _type_: _description_
         """
         best, cost = super().anneal()
+        self.copy(self._tensors, best, requantize=True)
 
-        return best, cost
+        return self._tensors, cost
 
     def energy(self) -> float:
         """Function that calculates the energy or loss
@@ -51,6 +52,8 @@ class ParamEqAnnealer(AbstractParamOptimizer, Annealer):
             float: loss
         """
 
+        # The annealer works on copies of the nodes: evaluate their parameters in the network
+        self.copy(self._tensors, self.state, requantize=True)
         energy: float = self._cost_fn(self.state)
         return energy
 
-- 
2.43.0


From 941fff04827760d70cc7a4ca9a8e59dbd48801ca Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 23/55] fix: the LSTM input gate is calibrated with its own
 pre-activations

The time axis was sliced instead of the gate axis.
---
 .../itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 156767e..44f96fd 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -419,7 +419,7 @@ class KerasLSTM(AbstractLayer):
         input_gate_op, _ = quantize_activation_node(
             tf.math.sigmoid,
             ACTIVATION_NAMES.SIGMOID,
-            recurrent_add[: self._n_units],
+            recurrent_add[:, :, : self._n_units],
             self._q_activation,
             input_gate,
         )
-- 
2.43.0


From e32db305d5317f54d2e0de6dbd53824e33dcc7e7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 24/55] fix: networks with LSTM layers can be equalized and
 AdaRounded

The result of a quantized LSTM referenced the Keras layer instead of its quantizer, and AdaRound was built without its required input.
---
 .../tensor_extractor/keras/layers/keras_lstm.py             | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 44f96fd..7c7ba5a 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -517,7 +517,7 @@ class KerasLSTM(AbstractLayer):
             input_data=lstm_states.result,
             out_node=hidden_node,
             operators=[lstm_op],
-            layer=self._layer,
+            layer=self,
         )
 
         if is_debug_mode():
@@ -561,7 +561,9 @@ class KerasLSTM(AbstractLayer):
             ],
         )
 
-        AdaRound(optimizer_factory(), cost_fn, self, results).round(tensors)
+        AdaRound(
+            optimizer_factory(), cost_fn, self, results, float_input=None
+        ).round(tensors)
 
 
 class MinMaxList(list):
-- 
2.43.0


From 076f4a49c2fb07bb085285dd495f65efd69cc963 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 25/55] fix: the LSTM forward pass reports its bias add

---
 .../itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 7c7ba5a..e114252 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -690,7 +690,7 @@ class LSTM:
         return LSTMResult(
             hidden_state=np.array(h[1:]),  # Remove the initial scale
             cell_state=np.array(previous_c),
-            bias_add=np.array(previous_recurrent_add),
+            bias_add=np.array(previous_bias_add),
             recurrent_add=np.array(previous_recurrent_add),
             input_gate=np.array(previous_i),
             forget_gate=np.array(previous_f),
-- 
2.43.0


From 9f7700c983aff89df73a273295fff7491c94de7c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 26/55] fix: LSTM biases follow the scale of their input node

An equalized dense layer in front of the LSTM changed the input scale the biases are expressed in.
---
 .../tensor_extractor/keras/layers/keras_lstm.py          | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index e114252..44f2307 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -401,6 +401,15 @@ class KerasLSTM(AbstractLayer):
         recurrent_kernel_nodes = self._quantize_recurrent_kernel()
         bias_nodes = self._quantize_bias(input_node.scale, kernel_nodes)
 
+        def update_bias_scale(_):
+            for bias_node, kernel_node in zip(bias_nodes, kernel_nodes):
+                bias_node.update_quant_parameters(
+                    kernel_node.scale * input_node.scale, bias_node.zero_point
+                )
+
+        # On input scale update: Update the bias scale and requantize the bias
+        input_node.on_quant_param_update.append(update_bias_scale)
+
         # Quantize the intermediate Nodes
         hidden_node = self._quantize_hidden_state(lstm_states.hidden_state)
 
-- 
2.43.0


From df09757acc1c8a2f2344fc84c756f5fcb140d1c3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 27/55] fix: activation tables saturate to the dtype of their
 output node

---
 .../tensor_extractor/keras/layers/activations.py |  2 +-
 .../itcl_quantizer/tensor_extractor/tensor.py    | 16 ++++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
index 823add2..a9de0d1 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
@@ -86,7 +86,7 @@ def quantize_activation_node(
     lut = None
     if activation_name in LUT_FUNCTIONS and not skip_lut:
         activation_name += "LUT"
-        lut = input_node.with_lut(fn, out_s, out_zp).LUT
+        lut = input_node.with_lut(fn, out_s, out_zp, out_quant=quantization).LUT
 
     # Create the output node
     output_node = (
diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 72083de..0c49625 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -36,6 +36,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         output_s: float,
         output_zp: int,
         reduced_depth: int = 3,
+        out_quant: Quantization | None = None,
     ) -> None:
         """_summary_
 
@@ -47,6 +48,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
             output_s (float): Output Scale (Calculated from the distribution of the activated data)
             output_zp (int): Output ZP (...)
             reduced_depth (int, optional): Depth of the Reduced LUT. Defaults to 3.
+            out_quant (Quantization, optional): Quantization of the output codes. Defaults to the input one.
         """
         self._input_s = input_s
         self._input_zp = input_zp
@@ -54,6 +56,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         self._output_zp = output_zp
         self._reduced_depth = reduced_depth
         self._quant = quant
+        self._out_quant = out_quant or quant
         self._fn = fn
 
         self._rounding_policy = self._og_rounding_policy = self._base_rounding()
@@ -78,14 +81,12 @@ class NodeLUT(ISerializable, IRoundingPolicy):
 
     def _create(self):
         """Create the LUT"""
-        self._LUT = self._quant.create_LUT(
-            self._fn,
-            self._input_s,
-            self._input_zp,
-            self._output_s,
+        self._LUT = self._out_quant.quantize(
+            self._quant.float_activation(self._fn, self._input_s, self._input_zp),
             self._output_zp,
+            self._output_s,
             rounding_policy=self._rounding_policy,
-        )
+        ).tolist()
         self._offset = -self._quant.min_value()
         self._quant = self._quant
 
@@ -304,6 +305,7 @@ class NodeTensorBase(ISerializable):
         out_scale: float,
         out_zp: int,
         reduced_depth=3,
+        out_quant: Quantization | None = None,
     ) -> Self:
         """Adds a LUT to the node
 
@@ -312,6 +314,7 @@ class NodeTensorBase(ISerializable):
             out_scale (float): Output Node Scale
             out_zp (int): Output Node Zero Point
             reduced_depth (int, optional): Reduced Depth. Defaults to 3, 0 to disable.
+            out_quant (Quantization, optional): Output Node Quantization. Defaults to the one of this node.
 
         Returns:
             Self: _description_
@@ -324,6 +327,7 @@ class NodeTensorBase(ISerializable):
             out_scale,
             out_zp,
             reduced_depth,
+            out_quant,
         )
         return self
 
-- 
2.43.0


From c59b7cad4219c119b51b0df8c8f0294d9e187454 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:53 +0000
Subject: [PATCH 28/55] fix: a distribution of zeros can be quantized whatever
 its bins

---
 .../itcl_quantizer/quantizer/distributions/distribution.py  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
index 91a7b11..958b8b5 100644
--- a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
+++ b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
@@ -146,7 +146,11 @@ class Distribution:
             q_min = -q_max
 
         scale = (max_ - min_) / (q_max - q_min)
-        zero_point = round((min_ * q_max - max_ * q_min) / (min_ - max_))
+
+        if min_ == max_:  # the distribution only contains zeros
+            zero_point = 0
+        else:
+            zero_point = round((min_ * q_max - max_ * q_min) / (min_ - max_))
 
         if force_zp is not None:
             zero_point = force_zp
-- 
2.43.0


From 4e3d23040396de4a52ba7277c46dd9965e902b6c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:53 +0000
Subject: [PATCH 29/55] fix: a forced zero point does not divide by zero with
 unsigned dtypes

---
 .../itcl_quantizer/quantizer/distributions/distribution.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
index 958b8b5..80b273e 100644
--- a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
+++ b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
@@ -159,7 +159,7 @@ class Distribution:
             if symmetric:
                 scale /= q_max
             else:
-                scale /= abs(q_min)
+                scale /= max(abs(q_min), q_max)
 
         if force_s is not None:
             scale = force_s
-- 
2.43.0


From a48e09644b9bc53b0a62adaf2c9ed0a66d12c605 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:08 +0000
Subject: [PATCH 30/55] fix: the percentile optimizer trims both tails by its
 percentage

---
 quantizer/itcl_quantizer/optimizers/fixed_percent.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/quantizer/itcl_quantizer/optimizers/fixed_percent.py b/quantizer/itcl_quantizer/optimizers/fixed_percent.py
index b339a63..dfddfd3 100644
--- a/quantizer/itcl_quantizer/optimizers/fixed_percent.py
+++ b/quantizer/itcl_quantizer/optimizers/fixed_percent.py
@@ -9,11 +9,10 @@ class FixedPercentOptimizer(IOptimizer):
 
     def trim(self, distribution: Distribution) -> Distribution:
 
-        bins = distribution.get_bin_edges()
         fp_array = distribution._sorted_a
         low_percent = np.percentile(fp_array, self.__percent)
-        high_percent = np.percentile(fp_array, 1 - self.__percent)
+        high_percent = np.percentile(fp_array, 100 - self.__percent)
 
         clipped_array = fp_array.clip(low_percent, high_percent)
 
-        return Distribution(clipped_array, bins=bins)
+        return Distribution(clipped_array, bins=len(distribution))
-- 
2.43.0


From 5778c5fc622219122868b1d1370014c8148953bc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 31/55] fix: the scipy optimizer measures the noise of the
 dtype it is asked for

---
 quantizer/itcl_quantizer/optimizers/scipy_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/optimizers/scipy_optimizer.py b/quantizer/itcl_quantizer/optimizers/scipy_optimizer.py
index 60cd419..8a68e70 100644
--- a/quantizer/itcl_quantizer/optimizers/scipy_optimizer.py
+++ b/quantizer/itcl_quantizer/optimizers/scipy_optimizer.py
@@ -35,7 +35,7 @@ class ScipyOptimizer(IOptimizer):
 
             trimmed = distribution[x[0] : x[1]]
 
-            s, zp = trimmed.quantize()
+            s, zp = trimmed.quantize(Q)
             quant_arr = Q.quantize(distribution._sorted_a, zp, s)
             dequant_arr = Q.dequantize(quant_arr, zp, s)
             trimmed_quant = Distribution(dequant_arr, bins=edges)
-- 
2.43.0


From a0a176aba2435050e0742351be076ce228051ce2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 32/55] fix: the scipy optimizer only trims to a range less
 noisy than the original

---
 quantizer/itcl_quantizer/optimizers/scipy_optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantizer/itcl_quantizer/optimizers/scipy_optimizer.py b/quantizer/itcl_quantizer/optimizers/scipy_optimizer.py
index 8a68e70..a8b71ba 100644
--- a/quantizer/itcl_quantizer/optimizers/scipy_optimizer.py
+++ b/quantizer/itcl_quantizer/optimizers/scipy_optimizer.py
@@ -58,4 +58,8 @@ class ScipyOptimizer(IOptimizer):
             print(f"Original range: {min}, {max}")
             print(f"Optimized range: {lower}, {upper}")
 
+        # Some scipy methods may end in a range that is not better than the initial one
+        if minimize_noise((lower, upper)) >= minimize_noise((min, max)):
+            return distribution
+
         return distribution[lower:upper]
-- 
2.43.0


From dbaea1fec18300bfa818ae2be1ca1b578ae36f69 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:59 +0000
Subject: [PATCH 33/55] fix: empty bins of a reduced histogram are not NaN

---
 quantizer/itcl_quantizer/optimizers/kl_div_optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/optimizers/kl_div_optimizer.py b/quantizer/itcl_quantizer/optimizers/kl_div_optimizer.py
index 82441e8..6e7e3a5 100644
--- a/quantizer/itcl_quantizer/optimizers/kl_div_optimizer.py
+++ b/quantizer/itcl_quantizer/optimizers/kl_div_optimizer.py
@@ -71,7 +71,8 @@ class KLDivergenceOptimizer(IOptimizer):
 
             mask_slice = np.array(mask[idx : idx + bins_per_reduced_bin])
 
-            expanded_bin = mask_slice * (bin.sum() / np.array(mask_slice).sum())
+            # A reduced bin without any item stays empty
+            expanded_bin = mask_slice * (bin.sum() / max(mask_slice.sum(), 1))
 
             expanded_bins.extend(expanded_bin)
 
-- 
2.43.0


From f2078887fbde5063717f12f845db1c820ff2eba6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:39 +0000
Subject: [PATCH 34/55] fix: equal values that share a code are not collisions

---
 quantizer/itcl_quantizer/util/collisions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quantizer/itcl_quantizer/util/collisions.py b/quantizer/itcl_quantizer/util/collisions.py
index fdcf9ba..0e4628d 100644
--- a/quantizer/itcl_quantizer/util/collisions.py
+++ b/quantizer/itcl_quantizer/util/collisions.py
@@ -16,7 +16,8 @@ def calc_collisions(fp_tensor: np.ndarray, q_tensor: np.ndarray, epsilon: int) -
     """
     rounded_fp = np.around(fp_tensor, decimals=epsilon) if epsilon > 0 else fp_tensor
 
-    _, counts_fp = np.unique(rounded_fp, return_counts=True)
-    _, counts_q = np.unique(q_tensor, return_counts=True)
+    # Different (fp, q) pairs that share the same q value
+    pairs = np.stack([np.ravel(rounded_fp), np.ravel(q_tensor)])
+    _, counts_q = np.unique(np.unique(pairs, axis=1)[1], return_counts=True)
 
-    return (counts_q * (counts_q != 1)).sum() - (counts_fp - 1).sum()
+    return counts_q[counts_q > 1].sum()
-- 
2.43.0


From 9a4acba8255d4f5d96c7bd7cfb6571e52ff1ef2d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:41 +0000
Subject: [PATCH 35/55] fix: QUBO rounding takes the floor of a layer's weights
 in the precision of the rounding policies

---
 quantizer/itcl_quantizer/equalizers/adaround/qubo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/qubo.py b/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
index 765e8d5..2a8e400 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
@@ -63,9 +63,9 @@ class QUBOAnnealer(IRoundOptimizer):
         """
   
         dense_layer: KerasDense = self._layer  # type: ignore
-        kernel, bias = dense_layer.get_weights()
-        input_f = self._input_data
-        input_f = np.array(input_f)
+        # same precision as the rounding policies, otherwise both can disagree on the floor
+        kernel, bias = (np.asarray(w, dtype=np.float64) for w in dense_layer.get_weights())
+        input_f = np.asarray(self._input_data, dtype=np.float64)
         # the QUBO approximates the layer before its activation
         output_f = np.dot(input_f, kernel.T) + bias
          
-- 
2.43.0


From 564404f8627050ad76aee4aea6899e7b27fc7485 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:56 +0000
Subject: [PATCH 36/55] fix: FPGA batches are never larger than the maximum and
 at least one

---
 demo/demo_lib/demo_lib/fpga.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demo/demo_lib/demo_lib/fpga.py b/demo/demo_lib/demo_lib/fpga.py
index 541aea2..7f6b7da 100644
--- a/demo/demo_lib/demo_lib/fpga.py
+++ b/demo/demo_lib/demo_lib/fpga.py
@@ -57,7 +57,8 @@ class InferFPGAMQTT(InferFPGA):
 
         self._client.publish(self._model_topic, json_net, qos=self._qos)
 
-        n_splits = len(x) // self._max_batch_size
+        # ceil: no chunk exceeds the maximum, and there is at least one
+        n_splits = -(-len(x) // self._max_batch_size)
 
         chunk_resuts = []
 
-- 
2.43.0


From 4b04a8e67259d3799204da266cee7eecdb2b913b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 37/55] fix: the missing bias of a converted dense layer has
 one zero per unit

---
 model_converters/keras2json/keras2json/layers/dense.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model_converters/keras2json/keras2json/layers/dense.py b/model_converters/keras2json/keras2json/layers/dense.py
index 67f8625..a7d0b9f 100644
--- a/model_converters/keras2json/keras2json/layers/dense.py
+++ b/model_converters/keras2json/keras2json/layers/dense.py
@@ -19,7 +19,7 @@ class Dense(ILayer):
         if len(weights) > 1:
             self._bias: np.ndarray = np.array(weights[1])
         else:
-            self._bias = np.zeros(len(self._kernel))
+            self._bias = np.zeros(self._kernel.shape[1])
 
     def _dense(self) -> Operator :
 
-- 
2.43.0


From 097916884e41b1f71a17100971dca487994ebd7b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 38/55] fix: convolution and LSTM layers without bias can be
 converted

---
 model_converters/keras2json/keras2json/layers/conv2d.py | 3 ++-
 model_converters/keras2json/keras2json/layers/lstm.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/model_converters/keras2json/keras2json/layers/conv2d.py b/model_converters/keras2json/keras2json/layers/conv2d.py
index 6df1aac..4db03f5 100644
--- a/model_converters/keras2json/keras2json/layers/conv2d.py
+++ b/model_converters/keras2json/keras2json/layers/conv2d.py
@@ -13,7 +13,8 @@ class Conv2d(ILayer):
         weights: list[np.ndarray] = layer.get_weights()
 
         W = weights[0]
-        B = weights[1]
+        # layers without bias have zeros
+        B = weights[1] if len(weights) > 1 else np.zeros(W.shape[-1])
         strides: tuple[int, int] = tuple(layer.strides)
         padding = 0 if "valid" in str(layer.padding).lower() else 1
 
diff --git a/model_converters/keras2json/keras2json/layers/lstm.py b/model_converters/keras2json/keras2json/layers/lstm.py
index 5512a58..546566f 100644
--- a/model_converters/keras2json/keras2json/layers/lstm.py
+++ b/model_converters/keras2json/keras2json/layers/lstm.py
@@ -30,7 +30,8 @@ class LSTM(ILayer):
 
         W_full = weights[0].T
         U_full = weights[1].T
-        B_full = weights[2]
+        # layers without bias have zeros
+        B_full = weights[2] if len(weights) > 2 else np.zeros(4 * n_units)
 
         # print(U_full.shape)
         # print(B_full.reshape())
-- 
2.43.0


From cf9d2bb0e0e2aff4247cd23ecd0e24789175f611 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:27 +0000
Subject: [PATCH 39/55] fix: convolution variants without a counterpart are
 refused instead of converted as plain convolutions

---
 model_converters/keras2json/keras2json/_convert.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/model_converters/keras2json/keras2json/_convert.py b/model_converters/keras2json/keras2json/_convert.py
index 68b8b6b..5ca9352 100644
--- a/model_converters/keras2json/keras2json/_convert.py
+++ b/model_converters/keras2json/keras2json/_convert.py
@@ -11,15 +11,16 @@ from keras2json import layers
 def _from_layer(keras_layer) -> list[Operator]:
     name = str(keras_layer.__class__.__name__).upper()
 
-    if "DENSE" in name:
+    # exact names: DepthwiseConv2D, SeparableConv2D... are not Conv2D
+    if name == "DENSE":
         builder = layers.Dense
-    elif "LSTM" in name:
+    elif name == "LSTM":
         builder = layers.LSTM
-    elif "CONV2D" in name:
+    elif name == "CONV2D":
         builder = layers.Conv2d
-    elif "FLATTEN" in name:
+    elif name == "FLATTEN":
         builder = layers.Flatten
-    elif "MAXPOOLING2D" in name:
+    elif name == "MAXPOOLING2D":
         builder = layers.MaxPool2D
     elif name in ["INPUT", "OUTPUT", "INPUTLAYER", "DROPOUT"]:
         return []
-- 
2.43.0


From 4454cb57c99a752b5afc979f6846030d796516bc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:53 +0000
Subject: [PATCH 40/55] fix: sigmoid tables of converted TFLite models do not
 overflow for large input scales

---
 .../tflite2json/itcl_tflite2json/operators/SigmoidLUT.py       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model_converters/tflite2json/itcl_tflite2json/operators/SigmoidLUT.py b/model_converters/tflite2json/itcl_tflite2json/operators/SigmoidLUT.py
index e2985bc..9c29777 100644
--- a/model_converters/tflite2json/itcl_tflite2json/operators/SigmoidLUT.py
+++ b/model_converters/tflite2json/itcl_tflite2json/operators/SigmoidLUT.py
@@ -11,7 +11,8 @@ from itcl_quantization.quantization.lut import ReducedLUT
 from itcl_tflite2json.util.settings import settings
 
 # A function that takes in a value (x) and returns the sigmoid of that value.
-sigmoid_fn = lambda x: 1 / (1 + math.exp(-x))
+# exp(-x) overflows for very negative values, whose sigmoid is exp(x) / (1 + exp(x)).
+sigmoid_fn = lambda x: 1 / (1 + math.exp(-x)) if x >= 0 else math.exp(x) / (1 + math.exp(x))
 
 class SigmoidLUT(BaseOperator):
     def __init__(
-- 
2.43.0


From db44a09204cdc6fee60d1bac8e04f9581c67adb6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 41/55] fix: the output of a converted ONNX network is the
 model's output, not its input

---
 model_converters/onnx2json/2json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model_converters/onnx2json/2json.py b/model_converters/onnx2json/2json.py
index 4dacdcd..0b7079c 100644
--- a/model_converters/onnx2json/2json.py
+++ b/model_converters/onnx2json/2json.py
@@ -29,7 +29,7 @@ def model2json(model) -> JsonNetwork:
         "engine": "ONNX",
         "graph": graph.build_graph(),
         "input": [{"zero_point": None, "scale": None, "tensor":  layer_info_to_tensor(_in)} for _in in model.graph.input],
-        "output": [{"zero_point": None, "scale": None, "tensor":  layer_info_to_tensor(_out)} for _out in model.graph.input],
+        "output": [{"zero_point": None, "scale": None, "tensor":  layer_info_to_tensor(_out)} for _out in model.graph.output],
     }
 
 
-- 
2.43.0


From 47faa92d69dcc49dcfd156c504cfc6171b7e05ab Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:03 +0000
Subject: [PATCH 42/55] fix: the first listed intermediate tensor of an ONNX
 model is found

---
 .../onnx2json/helpers/nodeBuilders/buildBaseNode.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py b/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
index 6885aeb..8d604c1 100644
--- a/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
+++ b/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
@@ -81,7 +81,7 @@ def build_base_node(model, tensor_id) -> Node:
     id2idx = {init.name: i for i, init in enumerate(model.graph.value_info)}
     idx = id2idx.get(tensor_id)
     
-    if idx: # The tensor id is expected to be in the model
+    if idx is not None: # The tensor id is expected to be in the model
         layer_info = model.graph.value_info[idx]
 
     # Some tensors, like the input and output tensors, are not in the model body
-- 
2.43.0


From 4364fbc0bf03943f6c52e2c48d731f60bbf2fd85 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:24 +0000
Subject: [PATCH 43/55] fix: sigmoid tables of converted ONNX models do not
 overflow for large input scales

---
 .../onnx2json/helpers/nodeBuilders/QLinearSigmoid.py           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model_converters/onnx2json/helpers/nodeBuilders/QLinearSigmoid.py b/model_converters/onnx2json/helpers/nodeBuilders/QLinearSigmoid.py
index 5764176..e3bc341 100644
--- a/model_converters/onnx2json/helpers/nodeBuilders/QLinearSigmoid.py
+++ b/model_converters/onnx2json/helpers/nodeBuilders/QLinearSigmoid.py
@@ -22,7 +22,8 @@ class QLinearSigmoid(IBuilder):
         )
 
 
-sigmoid = lambda x: 1 / (1 + math.exp(-x))
+# exp(-x) overflows for very negative values, whose sigmoid is exp(x) / (1 + exp(x)).
+sigmoid = lambda x: 1 / (1 + math.exp(-x)) if x >= 0 else math.exp(x) / (1 + math.exp(x))
 
 
 class SigmoidLUT(IBuilder):
-- 
2.43.0


From cd3495ffeeba82f283eeeec137532661bd0634f0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:24 +0000
Subject: [PATCH 44/55] fix: converting a folder of ONNX models leaves its
 other files alone

---
 model_converters/onnx2json/2json.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model_converters/onnx2json/2json.py b/model_converters/onnx2json/2json.py
index 0b7079c..b952852 100644
--- a/model_converters/onnx2json/2json.py
+++ b/model_converters/onnx2json/2json.py
@@ -12,6 +12,9 @@ def main():
 
 
     for model in os.listdir("../../models/mnist/uint8"):
+        if not model.endswith(".onnx"):
+            continue
+
         input = os.path.join("../../models/mnist/uint8", model)
         output = input.replace("onnx", "json")
 
-- 
2.43.0


From 8c13b6a1880c5fc31f5ae582f173e60facda15b9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 45/55] fix: an exported network declares its own input and
 output shapes

---
 quantizer/itcl_quantizer/util/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/util/network.py b/quantizer/itcl_quantizer/util/network.py
index da7849c..72d9515 100644
--- a/quantizer/itcl_quantizer/util/network.py
+++ b/quantizer/itcl_quantizer/util/network.py
@@ -72,7 +72,7 @@ class Network(ISerializable):
                     "scale": None,
                     "zero_point": None,
                     "tensor": {
-                        "shape": [1, 784],
+                        "shape": [1, *self._quant_res[0].input_data.shape[1:]],
                         "dtype": "FLOAT32",
                         "name": "INPUT",
                         "tensor": None,
@@ -84,7 +84,7 @@ class Network(ISerializable):
                     "scale": None,
                     "zero_point": None,
                     "tensor": {
-                        "shape": [1, 10],
+                        "shape": [1, *self._quant_res[-1].input_data.shape[1:]],
                         "dtype": "FLOAT32",
                         "name": "OUTPUT",
                         "tensor": None,
-- 
2.43.0


From 98d5f2c0c2fb19bc3b5c0ef42d83b5ba9b8fc052 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:54 +0000
Subject: [PATCH 46/55] fix: retuning a kernel of an LSTM layer requantizes its
 bias

---
 .../tensor_extractor/keras/layers/keras_lstm.py              | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 44f2307..08d3a7e 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -407,8 +407,9 @@ class KerasLSTM(AbstractLayer):
                     kernel_node.scale * input_node.scale, bias_node.zero_point
                 )
 
-        # On input scale update: Update the bias scale and requantize the bias
-        input_node.on_quant_param_update.append(update_bias_scale)
+        # On input or kernel scale update: Update the bias scale and requantize the bias
+        for node in (input_node, *kernel_nodes):
+            node.on_quant_param_update.append(update_bias_scale)
 
         # Quantize the intermediate Nodes
         hidden_node = self._quantize_hidden_state(lstm_states.hidden_state)
-- 
2.43.0


From 190bcfd169d3201b2d9e1d8da184d68eb7fc16ae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:47 +0000
Subject: [PATCH 47/55] fix: Dtype arithmetic works on arrays of any rank

---
 core/itcl_quantization/quantization/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index 1004834..0e475d3 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -288,7 +288,7 @@ class Dtype:
     def __has_overflow(value: Union[np.ndarray, number], larger: "Dtype"):
 
         if isinstance(value, np.ndarray):
-            return any(value > larger.max()) or any(value < larger.min())
+            return bool(np.any(value > larger.max()) or np.any(value < larger.min()))
 
         return value > larger.max() or value < larger.min()
 
-- 
2.43.0


From 01850358f5ba4f44c8d34c6a94bd2a4a18219019 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:47 +0000
Subject: [PATCH 48/55] fix: Dtype - and * accept plain numbers, as + does

---
 core/itcl_quantization/quantization/operators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index 0e475d3..ebb251d 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -265,6 +265,7 @@ class Dtype:
         return Dtype(res, dtype)
 
     def __sub__(self, other):
+        other = self.__adjust_other(other)
         larger = self.get_larger_dtype(self, other)
         next = Dtype.from_dtype(larger.__double_dtype())
 
@@ -293,6 +294,7 @@ class Dtype:
         return value > larger.max() or value < larger.min()
 
     def __mul__(self, other):
+        other = self.__adjust_other(other)
         larger = self.get_larger_dtype(self, other)
         next = Dtype.from_dtype(larger.__double_dtype())
 
-- 
2.43.0


From 0373df09be041fb9a0cccc705825fcb15746e730 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:47 +0000
Subject: [PATCH 49/55] fix: Dtype accepts numpy types as dtype

---
 core/itcl_quantization/quantization/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index ebb251d..6055700 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -216,8 +216,8 @@ class Dtype:
 
         if isinstance(dtype, str):
             self.dtype = np.dtype(dtype.lower())
-        else:
-            self.dtype = dtype
+        elif dtype is not None:
+            self.dtype = np.dtype(dtype)
         if dtype is None:
             dtype = np.array(value).dtype
             self.dtype = dtype
-- 
2.43.0


From d93932df529017d8786a7ac8541fc7bd488ad11f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:25 +0000
Subject: [PATCH 50/55] fix: LSTM inference of int8 codes with a nonzero input
 zero point wrapped around

---
 inference_engine/itcl_inference_engine/layers/itclq/lstm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
index 22fbd3a..700efdf 100644
--- a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
+++ b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
@@ -267,7 +267,8 @@ class LSTM(ILayer):
     def infer(self, input_: np.ndarray) -> np.ndarray:
 
         # batch, window_len, n_features =  -> w, b , n
-        input_norm = (input_ - self._input_zp).swapaxes(0, 1)
+        # (the codes are widened first: int8 - zero point does not fit in an int8)
+        input_norm = (input_.astype(np.int64) - self._input_zp).swapaxes(0, 1)
 
         # Create the initial hidden state and cell state (a real 0 is the zero point)
         hidden_state = [
-- 
2.43.0


From bca9ba8b87e69e80c4729913e542123942e76a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:49 +0000
Subject: [PATCH 51/55] fix: a tflite fully connected operator without bias can
 be converted and run

---
 .../layers/tflite/fullyconnected.py                |  3 ++-
 .../itcl_tflite2json/operators/BaseOperator.py     | 14 +++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py b/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
index 7004cfd..b1c5ab9 100644
--- a/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
+++ b/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
@@ -149,7 +149,8 @@ class FullyConnected(ILayer):
 
         bias_s = operator["inputs"][2]["scale"]
         bias_zp = operator["inputs"][2]["zero_point"]
-        bias = np.array(operator["inputs"][2]["tensor"]["tensor"] or [])  # type: ignore
+        # Without a bias tensor the bias is zero
+        bias = np.array(operator["inputs"][2]["tensor"]["tensor"] or [0] * len(weights))  # type: ignore
 
         out_s = operator["outputs"][0]["scale"]
         out_zp = operator["outputs"][0]["zero_point"]
diff --git a/model_converters/tflite2json/itcl_tflite2json/operators/BaseOperator.py b/model_converters/tflite2json/itcl_tflite2json/operators/BaseOperator.py
index aab81d2..719e593 100644
--- a/model_converters/tflite2json/itcl_tflite2json/operators/BaseOperator.py
+++ b/model_converters/tflite2json/itcl_tflite2json/operators/BaseOperator.py
@@ -36,7 +36,8 @@ class BaseOperator:
         subgraph = self.__model.Subgraphs(0)
         operator_type = self.__model.OperatorCodes(operator.OpcodeIndex())
         operator_type_name = layers2str(operator_type.BuiltinCode())
-        inputs: List[Tensor] = [subgraph.Tensors(i) for i in operator.InputsAsNumpy()]  # type: ignore
+        # An index of -1 marks an optional input that is not present (no bias)
+        inputs: List[Tensor] = [subgraph.Tensors(i) if i >= 0 else None for i in operator.InputsAsNumpy()]  # type: ignore
         outputs: List[Tensor] = [
             subgraph.Tensors(i) for i in operator.OutputsAsNumpy()
         ]  # type: ignore
@@ -49,6 +50,8 @@ class BaseOperator:
                 self.build_from_node(
                     self.__interpreter, i, self.__model, self.__layer_name2idx
                 )
+                if i is not None
+                else self.absent_node()
                 for i in inputs
             ],
             "outputs": [
@@ -59,6 +62,15 @@ class BaseOperator:
             ],
         }
 
+    @staticmethod
+    def absent_node() -> NodeJson:
+        """Node of an optional input that the operator does not have"""
+        return {
+            "scale": None,
+            "zero_point": None,
+            "tensor": {"shape": [], "dtype": "?", "name": "?", "tensor": None},
+        }
+
     @staticmethod
 
     def build_from_node(
-- 
2.43.0


From f1906c3de68a10fa9367cef30447a37618934167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:27 +0000
Subject: [PATCH 52/55] fix: LSTM layers without bias can be quantized

---
 .../tensor_extractor/keras/layers/keras_lstm.py        | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 08d3a7e..95d1692 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -29,6 +29,12 @@ from .activations import quantize_activation_node
 LSTM_GATES = ["input", "forget", "cell", "output"]
 
 
+def _get_bias(layer: tf.keras.layers.LSTM) -> NPFP32:
+    """The bias of the layer, zeros if it has none"""
+    weights = layer.get_weights()
+    return np.array(weights[2]) if len(weights) > 2 else np.zeros(4 * layer.units)
+
+
 class KerasLSTM(AbstractLayer):
     """Keras LSTM Quantization Class"""
 
@@ -49,8 +55,8 @@ class KerasLSTM(AbstractLayer):
         self._layer_name = layer.name
         self._K: NPFP32 = np.array(layer.get_weights()[0])  # kernel
         self._U: NPFP32 = np.array(layer.get_weights()[1])  # recurrent_kernel
-        self._B: NPFP32 = np.array(layer.get_weights()[2])  # bias
         self._n_units: int = layer.units
+        self._B: NPFP32 = _get_bias(layer)  # bias
 
         self._return_sequences: bool = layer.return_sequences
 
@@ -613,7 +619,7 @@ class LSTM:
         self._layer = layer
         self._W = np.array(layer.get_weights()[0])
         self._U = np.array(layer.get_weights()[1])
-        self._b = np.array(layer.get_weights()[2])
+        self._b = _get_bias(layer)
         self._n_units = layer.units
 
         self._return_sequences = layer.return_sequences
-- 
2.43.0


From 5266340e100ae8527cd208055ea87a668fc17ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:00 +0000
Subject: [PATCH 53/55] fix: int8 weights of a fully connected layer wrapped
 around when their zero point was subtracted

---
 .../itcl_inference_engine/layers/tflite/fullyconnected.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py b/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
index b1c5ab9..7fe93e1 100644
--- a/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
+++ b/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
@@ -112,7 +112,8 @@ class FullyConnected(ILayer):
             input_s, weight_s, output_s
         )
 
-        weights = weights - weight_zp
+        # (widened first: an int8 minus its zero point does not fit in an int8)
+        weights = np.asarray(weights).astype(np.int64) - weight_zp
 
         return FullyConnected(
             input_zp,
-- 
2.43.0


From 8da2db50715e95d311a18ce893225372ad22a16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:16 +0000
Subject: [PATCH 54/55] fix: Keras layers with options the JSON format cannot
 represent were converted as if they had the usual ones

---
 .../keras2json/keras2json/layers/conv2d.py           |  6 +++++-
 .../keras2json/keras2json/layers/flatten.py          |  4 +++-
 .../keras2json/keras2json/layers/i_layer.py          | 12 ++++++++++++
 .../keras2json/keras2json/layers/lstm.py             |  6 +++++-
 .../keras2json/keras2json/layers/maxpool2d.py        |  4 +++-
 5 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/model_converters/keras2json/keras2json/layers/conv2d.py b/model_converters/keras2json/keras2json/layers/conv2d.py
index 4db03f5..8c4bc35 100644
--- a/model_converters/keras2json/keras2json/layers/conv2d.py
+++ b/model_converters/keras2json/keras2json/layers/conv2d.py
@@ -2,7 +2,7 @@ import numpy as np
 from itcl_quantization.json.specification import Attribute, Node, Operator
 from keras2json.layers._activations import get_activation_name
 from keras2json.layers._ids import CONV2D
-from keras2json.layers.i_layer import ILayer, build_node
+from keras2json.layers.i_layer import ILayer, build_node, require
 from tensorflow import keras
 
 
@@ -10,6 +10,10 @@ from tensorflow import keras
 class Conv2d(ILayer):
     @classmethod
     def from_model(cls, layer: keras.layers.Layer) -> list[Operator]:
+        require(layer, "data_format", "channels_last")
+        require(layer, "dilation_rate", (1, 1), 1)
+        require(layer, "groups", 1)
+
         weights: list[np.ndarray] = layer.get_weights()
 
         W = weights[0]
diff --git a/model_converters/keras2json/keras2json/layers/flatten.py b/model_converters/keras2json/keras2json/layers/flatten.py
index 0c7a50f..b47dce4 100644
--- a/model_converters/keras2json/keras2json/layers/flatten.py
+++ b/model_converters/keras2json/keras2json/layers/flatten.py
@@ -1,5 +1,5 @@
 from itcl_quantization.json.specification import Operator
-from keras2json.layers.i_layer import ILayer
+from keras2json.layers.i_layer import ILayer, require
 from tensorflow import keras
 
 
@@ -7,6 +7,8 @@ class Flatten(ILayer):
     @classmethod
     def from_model(cls, layer: keras.layers.Layer) -> list[Operator]:
 
+        require(layer, "data_format", "channels_last")
+
         op: Operator = {
             "op_type": "FLATTEN",
             "name": "Flatten Layer",
diff --git a/model_converters/keras2json/keras2json/layers/i_layer.py b/model_converters/keras2json/keras2json/layers/i_layer.py
index 957816e..09689dd 100644
--- a/model_converters/keras2json/keras2json/layers/i_layer.py
+++ b/model_converters/keras2json/keras2json/layers/i_layer.py
@@ -9,6 +9,18 @@ class ILayer():
         raise NotImplementedError
 
 
+def require(layer, option: str, *expected):
+    """Refuses a layer whose option the JSON format cannot represent"""
+    value = getattr(layer, option, expected[0])
+    value = getattr(value, "__name__", value)  # activation functions
+    value = tuple(value) if isinstance(value, (list, tuple)) else value
+
+    if value not in expected:
+        raise ValueError(
+            f"Layer {layer.name} cannot be converted: {option} {value} is not supported"
+        )
+
+
 def build_node(w: np.ndarray, name: str) -> Node:
     return {
         "scale": None,
diff --git a/model_converters/keras2json/keras2json/layers/lstm.py b/model_converters/keras2json/keras2json/layers/lstm.py
index 546566f..c6cd9dc 100644
--- a/model_converters/keras2json/keras2json/layers/lstm.py
+++ b/model_converters/keras2json/keras2json/layers/lstm.py
@@ -1,5 +1,5 @@
 import numpy as np
-from keras2json.layers.i_layer import ILayer
+from keras2json.layers.i_layer import ILayer, require
 from tensorflow import keras
 from itcl_quantization.json.specification import Operator, Node, Attribute
 from keras2json.layers._ids import LSTM as LSTM_ID
@@ -24,6 +24,10 @@ class LSTM(ILayer):
 
     @classmethod
     def from_model(cls, layer: keras.layers.Layer) -> list[Operator]:
+        require(layer, "activation", "tanh")
+        require(layer, "recurrent_activation", "sigmoid")
+        require(layer, "go_backwards", False)
+
         weights: list[np.ndarray] = layer.get_weights()
 
         n_units: int = layer.get_config()["units"]
diff --git a/model_converters/keras2json/keras2json/layers/maxpool2d.py b/model_converters/keras2json/keras2json/layers/maxpool2d.py
index 42e2d94..76f4b4b 100644
--- a/model_converters/keras2json/keras2json/layers/maxpool2d.py
+++ b/model_converters/keras2json/keras2json/layers/maxpool2d.py
@@ -2,7 +2,7 @@ import numpy as np
 from itcl_quantization.json.specification import Attribute, Node, Operator
 from keras2json.layers._activations import get_activation_name
 from keras2json.layers._ids import MAXPOOL2D
-from keras2json.layers.i_layer import ILayer, build_node
+from keras2json.layers.i_layer import ILayer, build_node, require
 from tensorflow import keras
 
 
@@ -11,6 +11,8 @@ class MaxPool2D(ILayer):
     @classmethod
     def from_model(cls, layer: keras.layers.Layer) -> list[Operator]:
 
+        require(layer, "data_format", "channels_last")
+
         strides: tuple[int, int] = tuple(layer.strides)
         padding = 0 if "valid" in str(layer.padding).lower() else 1
         pool_size: tuple[int, int] = tuple(layer.pool_size)
-- 
2.43.0


From 3d79c08a2e7a22b89f1eccf4827d459139631f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:16 +0000
Subject: [PATCH 55/55] fix: LSTM layers with other activations or running
 backwards were quantized as if they had the default ones

---
 .../tensor_extractor/keras/layers/keras_lstm.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 95d1692..7e461de 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -35,6 +35,21 @@ def _get_bias(layer: tf.keras.layers.LSTM) -> NPFP32:
     return np.array(weights[2]) if len(weights) > 2 else np.zeros(4 * layer.units)
 
 
+def _check_supported(layer: tf.keras.layers.LSTM):
+    """The inference engine only computes forward LSTMs with the default activations"""
+    for option, expected in [
+        ("activation", "tanh"),
+        ("recurrent_activation", "sigmoid"),
+        ("go_backwards", False),
+    ]:
+        value = getattr(layer, option, expected)
+        value = getattr(value, "__name__", value)
+        if value != expected:
+            raise ValueError(
+                f"LSTM {layer.name} cannot be quantized: {option} {value} is not supported"
+            )
+
+
 class KerasLSTM(AbstractLayer):
     """Keras LSTM Quantization Class"""
 
@@ -51,6 +66,8 @@ class KerasLSTM(AbstractLayer):
         cell_state_dtype: str = "int8",
         hidden_state_dtype: str = "int8",
     ) -> None:
+        _check_supported(layer)
+
         self._layer = layer
         self._layer_name = layer.name
         self._K: NPFP32 = np.array(layer.get_weights()[0])  # kernel
-- 
2.43.0

