From 3cca1e06aeeb2f7e16b3425bfa168888847f10cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 01/72] fix: ONNX Sub/Div/Mul/Max/Min/Mean with constant
 operands

Constants of Sub and Div were negated/inverted before being applied, were dropped
when any element was neutral, and were always applied on the right; Max/Min/Mean
rejected initializers. They are now constant operands, as for Add.
---
 .../importers/ONNX_importer/create_layer.py   | 103 ++++--------------
 1 file changed, 22 insertions(+), 81 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 7217f56..ef4b0b2 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1165,6 +1165,18 @@ def _collect_node_inputs(
     return collected
 
 
+def _collect_broadcast_inputs(
+    model: onnx.ModelProto,
+    node: onnx.NodeProto,
+) -> tuple[list[str], list[list[int]]]:
+    """Collect names and 4D shapes of all operands, initializers included."""
+    names, shapes = [], []
+    for name, shape in _collect_node_inputs(model, node):
+        names.append(name)
+        shapes.append([1] * (4 - len(shape)) + [int(d) for d in shape])
+    return names, shapes
+
+
 # create a layer Add
 def create_add(
     node: onnx.NodeProto,
@@ -1204,39 +1216,17 @@ def create_div(
     model: onnx.ModelProto,
 ) -> Divide:
     """Create a Divide layer."""
-    constant_length = 4
-
-    input_shapes = []
-    constant = np.ones(get_shape(node.input[0], model))
-    dict_input[idx] = []
-    for input_value in node.input:
-        factor = look_for_initializer(input_value, model)
-        if factor:
-            constant = constant / onnx.numpy_helper.to_array(factor)
-        else:
-            dict_input[idx].append(input_value)
-            input_shapes.append(get_shape(input_value, model))
-
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_output[node.output[0]] = idx
-    # FIXME It seems like a test is missing here on the values of constant
-    if (constant != np.ones(constant.shape)).all():
-        if len(constant.shape) < constant_length:
-            for _i in range(4 - len(constant.shape)):
-                constant = np.expand_dims(constant, axis=0)
-        input_shapes.append(list(constant.shape))
-    else:
-        constant = None
-    input_shapes = np.array(input_shapes)
+    dict_input[idx], input_shapes = _collect_broadcast_inputs(model, node)
     return Divide(
         original_name=node.name,
         idx=idx,
         size=size,
-        input_shapes=input_shapes,
+        input_shapes=np.array(input_shapes),
         output_shape=output_shape,
         activation_function=Linear(),
-        constant=constant,
     )
 
 
@@ -1249,37 +1239,17 @@ def create_mul(
     model: onnx.ModelProto,
 ) -> Multiply:
     """Create Multiply layer."""
-    constant_length = 4
-
-    input_shapes = []
-    constant = np.ones(get_shape(node.input[0], model))
-    dict_input[idx] = []
-    for input_value in node.input:
-        factor = look_for_initializer(input_value, model)
-        if factor:
-            constant = constant * onnx.numpy_helper.to_array(factor)
-        else:
-            dict_input[idx].append(input_value)
-            input_shapes.append(get_shape(input_value, model))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_output[node.output[0]] = idx
-    if (constant != np.ones(constant.shape)).all():
-        if len(constant.shape) < constant_length:
-            for _i in range(4 - len(constant.shape)):
-                constant = np.expand_dims(constant, axis=0)
-        input_shapes.append(list(constant.shape))
-    else:
-        constant = None
-    input_shapes = np.array(input_shapes)
+    dict_input[idx], input_shapes = _collect_broadcast_inputs(model, node)
     return Multiply(
         original_name=node.name,
         idx=idx,
         size=size,
-        input_shapes=input_shapes,
+        input_shapes=np.array(input_shapes),
         output_shape=output_shape,
         activation_function=Linear(),
-        constant=constant,
     )
 
 
@@ -1292,37 +1262,17 @@ def create_sub(
     model: onnx.ModelProto,
 ) -> Subtract:
     """Create a Subtract layer."""
-    constant_length = 4
-
-    input_shapes = []
-    constant = np.zeros(get_shape(node.input[0], model))
-    dict_input[idx] = []
-    for input_value in node.input:
-        factor = look_for_initializer(input_value, model)
-        if factor:
-            constant = constant - onnx.numpy_helper.to_array(factor)
-        else:
-            dict_input[idx].append(input_value)
-            input_shapes.append(get_shape(input_value, model))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_output[node.output[0]] = idx
-    if (constant != np.zeros(constant.shape)).all():
-        if len(constant.shape) < constant_length:
-            for _i in range(4 - len(constant.shape)):
-                constant = np.expand_dims(constant, axis=0)
-        input_shapes.append(list(constant.shape))
-    else:
-        constant = None
-    input_shapes = np.array(input_shapes)
+    dict_input[idx], input_shapes = _collect_broadcast_inputs(model, node)
     return Subtract(
         original_name=node.name,
         idx=idx,
         size=size,
-        input_shapes=input_shapes,
+        input_shapes=np.array(input_shapes),
         output_shape=output_shape,
         activation_function=Linear(),
-        constant=constant,
     )
 
 
@@ -1335,13 +1285,10 @@ def create_max(
     model: onnx.ModelProto,
 ) -> Maximum:
     """Create a Max layer."""
-    input_shapes = []
-    for input_value in node.input:
-        input_shapes.append(get_shape(input_value, model))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input
     dict_output[node.output[0]] = idx
+    dict_input[idx], input_shapes = _collect_broadcast_inputs(model, node)
     return Maximum(
         original_name=node.name,
         idx=idx,
@@ -1361,13 +1308,10 @@ def create_min(
     model: onnx.ModelProto,
 ) -> Minimum:
     """Create a Min layer."""
-    input_shapes = []
-    for input_value in node.input:
-        input_shapes.append(get_shape(input_value, model))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input
     dict_output[node.output[0]] = idx
+    dict_input[idx], input_shapes = _collect_broadcast_inputs(model, node)
     return Minimum(
         original_name=node.name,
         idx=idx,
@@ -1387,18 +1331,15 @@ def create_avg(
     model: onnx.ModelProto,
 ) -> Average:
     """Create an Average layer."""
-    input_shapes = []
-    for input_value in node.input:
-        input_shapes.append(get_shape(input_value, model))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input
     dict_output[node.output[0]] = idx
+    dict_input[idx], input_shapes = _collect_broadcast_inputs(model, node)
     return Average(
         original_name=node.name,
         idx=idx,
         size=size,
-        input_shapes=input_shapes,
+        input_shapes=np.array(input_shapes),
         output_shape=output_shape,
         activation_function=Linear(),
     )
-- 
2.43.0


From 610c094e1c9bbfede8846c183303365c6130afc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 02/72] fix: Python reference of broadcasting operators

Add/Sub/Mul/Div accumulated in the shape of the first operand, Max/Min/Mean ignored
the operand shapes, and Mean overwrote its first operand in place.
---
 .../generator/layers/broadcast/add/Add.py             |  9 +++++++--
 .../generator/layers/broadcast/average/Average.py     |  8 +++++---
 .../generator/layers/broadcast/divide/Divide.py       |  2 +-
 .../generator/layers/broadcast/maximum/Maximum.py     | 11 ++++++++---
 .../generator/layers/broadcast/minimum/Minimum.py     | 11 ++++++++---
 .../generator/layers/broadcast/multiply/Multiply.py   |  2 +-
 .../generator/layers/broadcast/subtract/Subtract.py   |  2 +-
 7 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/broadcast/add/Add.py b/src/acetone_nnet/generator/layers/broadcast/add/Add.py
index 6e5ba75..a45f4d8 100644
--- a/src/acetone_nnet/generator/layers/broadcast/add/Add.py
+++ b/src/acetone_nnet/generator/layers/broadcast/add/Add.py
@@ -118,14 +118,19 @@ class Add(Layer):
                 .astype(dtype=getattr(self, "temp_pydtype", input_arrays[0].dtype))
             )
             for i in range(1, len(input_arrays)):
-                output += np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = np.add(
+                    output,
+                    np.reshape(input_arrays[i], self.input_shapes[i][1:]),
+                    dtype=output.dtype,
+                    casting="same_kind",
+                )
             """ checks that accumulator does not overflow in low precision integer """
             if np.issubdtype(input_arrays[0].dtype,np.integer):
                 out_i64 = (
                     np.copy(input_arrays[0])
                     .reshape(self.input_shapes[0][1:])
                     .astype(dtype=np.int64))
-                out_i64 += np.reshape(input_arrays[i], self.input_shapes[i][1:]).astype(dtype=np.int64)
+                out_i64 = out_i64 + np.reshape(input_arrays[i], self.input_shapes[i][1:]).astype(dtype=np.int64)
                 if (output != out_i64).all():
                     logging.warning("Add integer overflow !!!")
         else:
diff --git a/src/acetone_nnet/generator/layers/broadcast/average/Average.py b/src/acetone_nnet/generator/layers/broadcast/average/Average.py
index befd1f7..1f67e42 100644
--- a/src/acetone_nnet/generator/layers/broadcast/average/Average.py
+++ b/src/acetone_nnet/generator/layers/broadcast/average/Average.py
@@ -113,9 +113,11 @@ class Average(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
-        output = input_arrays[0]
-        for input_array in input_arrays[1:]:
-            output += input_array
+        if len(self.previous_layer) == 1:
+            input_arrays = [input_arrays]
+        output = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+        for i in range(1, len(input_arrays)):
+            output = output + np.reshape(input_arrays[i], self.input_shapes[i][1:])
         return self.activation_function.compute(output / (len(input_arrays)))
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py b/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
index 29f1557..d67a028 100644
--- a/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
+++ b/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
@@ -131,7 +131,7 @@ class Divide(Layer):
         if len(self.previous_layer) > 1:
             output = np.copy(input_arrays[0]).reshape(self.input_shapes[0][1:])
             for i in range(1, len(input_arrays)):
-                output /= np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output / np.reshape(input_arrays[i], self.input_shapes[i][1:])
         else:
             output = np.reshape(input_arrays, self.input_shapes[0][1:])
         return self.activation_function.compute(output / constant)
diff --git a/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py b/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
index d36fe5e..c469f21 100644
--- a/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
+++ b/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
@@ -124,9 +124,14 @@ class Maximum(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
-        maxi = input_arrays[0]
-        for input_array in input_arrays[1:]:
-            maxi = np.maximum(maxi, input_array)
+        if len(self.previous_layer) == 1:
+            input_arrays = [input_arrays]
+        maxi = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+        for i in range(1, len(input_arrays)):
+            maxi = np.maximum(
+                maxi,
+                np.reshape(input_arrays[i], self.input_shapes[i][1:]),
+            )
         return self.activation_function.compute(maxi)
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py b/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
index 479c5e0..61ef9a7 100644
--- a/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
+++ b/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
@@ -124,9 +124,14 @@ class Minimum(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
-        mini = input_arrays[0]
-        for input_array in input_arrays[1:]:
-            mini = np.minimum(mini, input_array)
+        if len(self.previous_layer) == 1:
+            input_arrays = [input_arrays]
+        mini = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+        for i in range(1, len(input_arrays)):
+            mini = np.minimum(
+                mini,
+                np.reshape(input_arrays[i], self.input_shapes[i][1:]),
+            )
         return self.activation_function.compute(mini)
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py b/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
index 392e569..6f5444c 100644
--- a/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
+++ b/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
@@ -131,7 +131,7 @@ class Multiply(Layer):
         if len(self.previous_layer) > 1:
             output = np.copy(input_arrays[0]).reshape(self.input_shapes[0][1:])
             for i in range(1, len(input_arrays)):
-                output *= np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output * np.reshape(input_arrays[i], self.input_shapes[i][1:])
         else:
             output = np.reshape(input_arrays, self.input_shapes[0][1:])
         return self.activation_function.compute(output * constant)
diff --git a/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py b/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
index db4bde4..e98e39c 100644
--- a/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
+++ b/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
@@ -131,7 +131,7 @@ class Subtract(Layer):
         if len(self.previous_layer) > 1:
             output = np.copy(input_arrays[0]).reshape(self.input_shapes[0][1:])
             for i in range(1, len(input_arrays)):
-                output -= np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output - np.reshape(input_arrays[i], self.input_shapes[i][1:])
         else:
             output = np.reshape(input_arrays, self.input_shapes[0][1:])
         return self.activation_function.compute(output - constant)
-- 
2.43.0


From 3edae5ba9ba39fdf5381d3a9e7563289f98eeb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 03/72] fix: pooling with asymmetric padding and with a fused
 activation

The C templates exchanged the vertical and horizontal offsets; the Python reference
padded only when all four sides were padded, counted the padding as data, and did
not apply the activation function.
---
 .../generator/layers/pooling/Pooling2D.py     | 19 +++++++++----------
 .../templates/layers/template_Pooling2D.c.tpl |  4 ++--
 .../layers/template_Pooling2D_HWC.c.tpl       |  6 +++---
 3 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/pooling/Pooling2D.py b/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
index 802675f..b6c1811 100644
--- a/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
+++ b/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
@@ -145,18 +145,17 @@ class Pooling2D(Layer):
 
         output = np.zeros((self.input_channels, self.output_height, self.output_width))
 
-        if self.pad_right and self.pad_left and self.pad_top and self.pad_bottom:
-            input_padded = np.zeros((self.input_channels, self.input_height + self.pad_top + self.pad_bottom,
-                                     self.input_width + self.pad_left + self.pad_right))
-            input_padded[:, self.pad_top:-self.pad_bottom, self.pad_left:-self.pad_right] = input_array
-        else:
-            input_padded = input_array
-
         for c in range(self.input_channels):
             for i in range(self.output_height):
                 for j in range(self.output_width):
+                    # Padded elements do not take part in the pooling
+                    top = i * self.strides - self.pad_top
+                    left = j * self.strides - self.pad_left
                     output[c, i, j] = self.pooling_function(
-                        input_padded[c, i * self.strides:i * self.strides + self.pool_size,
-                        j * self.strides:j * self.strides + self.pool_size])
+                        input_array[
+                            c,
+                            max(top, 0):top + self.pool_size,
+                            max(left, 0):left + self.pool_size,
+                        ])
 
-        return output
\ No newline at end of file
+        return self.activation_function.compute(output)
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl b/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl
index 5bf6825..2f68a14 100644
--- a/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl
@@ -10,8 +10,8 @@
                 {
                     for (w = 0; w < {{pool_size}}; ++w)
                     {
-                        int ii = i*{{strides}} + h - {{pad_left}};
-                        int jj = j*{{strides}} + w - {{pad_top}};
+                        int ii = i*{{strides}} + h - {{pad_top}};
+                        int jj = j*{{strides}} + w - {{pad_left}};
                         if (ii >= 0 && ii < {{input_height}} && jj >= 0 && jj < {{input_width}})
                         {
                             {{{specific_function}}}
diff --git a/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl b/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
index cad8b88..e659dbf 100644
--- a/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
@@ -5,10 +5,10 @@
         float inv_area = 1.0f / (float)({{pool_size}} * {{pool_size}});
         {{/is_avgpool}}
         for (int oh = 0; oh < {{output_height}}; ++oh) {
-            int temp_h_start = {{pad_left}} - oh * {{strides}};
+            int temp_h_start = {{pad_top}} - oh * {{strides}};
             int kh_start = (0 > temp_h_start) ? 0 : temp_h_start;
             
-            int temp_h_end = {{input_height}} + {{pad_left}} - oh * {{strides}};
+            int temp_h_end = {{input_height}} + {{pad_top}} - oh * {{strides}};
             int kh_end = ({{pool_size}} < temp_h_end) ? {{pool_size}} : temp_h_end;
 
             for (int ow = 0; ow < {{output_width}}; ++ow) {
@@ -27,7 +27,7 @@
 
                 // Spatial window loops
                 for (int kh = kh_start; kh < kh_end; ++kh) {
-                    int ih = oh * {{strides}} + kh - {{pad_left}};
+                    int ih = oh * {{strides}} + kh - {{pad_top}};
                     for (int kw = kw_start; kw < kw_end; ++kw) {
                         int iw = ow * {{strides}} + kw - {{pad_left}};
                         
-- 
2.43.0


From af780e29dcc6902a31b0a1ffe89c6f7060d98bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 04/72] fix: dilated convolutions in the Python reference and
 with SAME padding

---
 src/acetone_nnet/generator/layers/convolution/Conv2D.py | 6 ++++--
 src/acetone_nnet/ir/layer.py                            | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2D.py b/src/acetone_nnet/generator/layers/convolution/Conv2D.py
index 09d82eb..7dd6987 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2D.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2D.py
@@ -267,6 +267,8 @@ class Conv2D(Layer):
         else:
             input_padded = input_array
 
+        extent_h = (self.kernel_h - 1) * self.dilation_rate + 1
+        extent_w = (self.kernel_w - 1) * self.dilation_rate + 1
         for f in range(self.nb_filters):
             for i in range(self.output_height):
                 for j in range(self.output_width):
@@ -274,8 +276,8 @@ class Conv2D(Layer):
                         self.weights[f, :, :, :]
                         * input_padded[
                             ::self.group,
-                            i * self.strides : i * self.strides + self.kernel_h,
-                            j * self.strides : j * self.strides + self.kernel_w,
+                            i * self.strides : i * self.strides + extent_h : self.dilation_rate,
+                            j * self.strides : j * self.strides + extent_w : self.dilation_rate,
                         ]
                     )
                     output[f, i, j] = np.sum(w) + self.biases[f]
diff --git a/src/acetone_nnet/ir/layer.py b/src/acetone_nnet/ir/layer.py
index 5856c45..aa345e0 100644
--- a/src/acetone_nnet/ir/layer.py
+++ b/src/acetone_nnet/ir/layer.py
@@ -127,8 +127,8 @@ class Layer(ABCHasTraits):
         if isinstance(padding, str):
             # Compute 'same' padding tensorflow
 
-            filter_height = kernel_h - (kernel_h - 1) * (dilation_rate - 1)
-            filter_width = kernel_w - (kernel_w - 1) * (dilation_rate - 1)
+            filter_height = kernel_h + (kernel_h - 1) * (dilation_rate - 1)
+            filter_width = kernel_w + (kernel_w - 1) * (dilation_rate - 1)
 
             # The total padding applied along the height and width is computed as:
             if padding in ("VALID", "valid"):
-- 
2.43.0


From 32eedd28d4431a2fc61a5a86f8a432abe3718fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 05/72] fix: import of ONNX reductions and Tile (operand names,
 axes attribute and initializer)

---
 .../importers/ONNX_importer/create_layer.py   | 67 ++++++++++++-------
 1 file changed, 41 insertions(+), 26 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index ef4b0b2..5cbd0dd 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -751,7 +751,7 @@ def create_tile(
     input_shape = get_shape(node.input[0], model)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     repeats = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))
     repeats = [int(rep) for rep in repeats]
@@ -784,14 +784,14 @@ def create_reduce_sum(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -800,9 +800,12 @@ def create_reduce_sum(
         if "noop_with_empty_axes" not in attributes:
             attributes["noop_with_empty_axes"] = 0
         if len(node.input) == is_axes:
-            attributes["axes"] = onnx.numpy_helper.to_array(
-                look_for_initializer(node.input[1], model),
-            )
+            attributes["axes"] = [
+                int(axis)
+                for axis in onnx.numpy_helper.to_array(
+                    look_for_initializer(node.input[1], model),
+                )
+            ]
         else:
             attributes["axes"] = []
 
@@ -838,14 +841,14 @@ def create_reduce_max(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -854,9 +857,12 @@ def create_reduce_max(
         if "noop_with_empty_axes" not in attributes:
             attributes["noop_with_empty_axes"] = 0
         if len(node.input) == is_axes:
-            attributes["axes"] = onnx.numpy_helper.to_array(
-                look_for_initializer(node.input[1], model),
-            )
+            attributes["axes"] = [
+                int(axis)
+                for axis in onnx.numpy_helper.to_array(
+                    look_for_initializer(node.input[1], model),
+                )
+            ]
         else:
             attributes["axes"] = []
 
@@ -892,14 +898,14 @@ def create_reduce_min(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -908,9 +914,12 @@ def create_reduce_min(
         if "noop_with_empty_axes" not in attributes:
             attributes["noop_with_empty_axes"] = 0
         if len(node.input) == is_axes:
-            attributes["axes"] = onnx.numpy_helper.to_array(
-                look_for_initializer(node.input[1], model),
-            )
+            attributes["axes"] = [
+                int(axis)
+                for axis in onnx.numpy_helper.to_array(
+                    look_for_initializer(node.input[1], model),
+                )
+            ]
         else:
             attributes["axes"] = []
 
@@ -946,14 +955,14 @@ def create_reduce_mean(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -962,9 +971,12 @@ def create_reduce_mean(
         if "noop_with_empty_axes" not in attributes:
             attributes["noop_with_empty_axes"] = 0
         if len(node.input) == is_axes:
-            attributes["axes"] = onnx.numpy_helper.to_array(
-                look_for_initializer(node.input[1], model),
-            )
+            attributes["axes"] = [
+                int(axis)
+                for axis in onnx.numpy_helper.to_array(
+                    look_for_initializer(node.input[1], model),
+                )
+            ]
         else:
             attributes["axes"] = []
 
@@ -1000,14 +1012,14 @@ def create_reduce_prod(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -1016,9 +1028,12 @@ def create_reduce_prod(
         if "noop_with_empty_axes" not in attributes:
             attributes["noop_with_empty_axes"] = 0
         if len(node.input) == is_axes:
-            attributes["axes"] = onnx.numpy_helper.to_array(
-                look_for_initializer(node.input[1], model),
-            )
+            attributes["axes"] = [
+                int(axis)
+                for axis in onnx.numpy_helper.to_array(
+                    look_for_initializer(node.input[1], model),
+                )
+            ]
         else:
             attributes["axes"] = []
 
-- 
2.43.0


From 8f4064f79be42b066f0c5762c99cd9363afd5765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 06/72] fix: ONNX Gather and GatherElements with negative
 indices or default axis

---
 .../importers/ONNX_importer/create_layer.py          | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 5cbd0dd..1883df5 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -495,9 +495,11 @@ def create_gather(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))
+    indices = np.array(
+        onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model)),
+    )
     if "axis" not in attributes:
-        attributes["axis"] = 0
+        attributes["axis"] = len(input_shape) - original_len_shape
     elif attributes["axis"] < 0:
         attributes["axis"] = len(input_shape) + attributes["axis"]
     else:
@@ -534,9 +536,11 @@ def create_gather_elements(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))
+    indices = np.array(
+        onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model)),
+    )
     if "axis" not in attributes:
-        attributes["axis"] = 0
+        attributes["axis"] = len(input_shape) - original_len_shape
     elif attributes["axis"] < 0:
         attributes["axis"] = len(input_shape) + attributes["axis"]
     else:
-- 
2.43.0


From cec1d9775fb9b2df778131b10e60e268c11872d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 07/72] fix: ONNX Gemm without bias, with scalar, row, column
 or matrix bias

---
 src/acetone_nnet/generator/layers/gemm/Gemm.py   |  2 +-
 .../generator/layers/gemm/GemmDefault.py         | 12 ++++++++++++
 .../importers/ONNX_importer/create_layer.py      | 16 +++++++++++-----
 .../templates/layers/Gemm/template_gemm_nn.c.tpl |  2 +-
 .../templates/layers/Gemm/template_gemm_nt.c.tpl |  2 +-
 .../templates/layers/Gemm/template_gemm_tn.c.tpl |  2 +-
 .../templates/layers/Gemm/template_gemm_tt.c.tpl |  2 +-
 7 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/gemm/Gemm.py b/src/acetone_nnet/generator/layers/gemm/Gemm.py
index e865827..bd07062 100644
--- a/src/acetone_nnet/generator/layers/gemm/Gemm.py
+++ b/src/acetone_nnet/generator/layers/gemm/Gemm.py
@@ -148,7 +148,7 @@ class Gemm(Layer):
             msg += f"Error: non consistency between output shape and output weight in Gemm ({self.output_width}!={self.weights.shape[1 - self.transpo[1]]})"
             msg += "\n"
         if any(
-            self.biases.shape[i] != 1 and self.biases.shape[i] != output_shape[3 - i]
+            self.biases.shape[-1 - i] not in (1, output_shape[3 - i])
             for i in range(len(self.biases.shape))
         ):
             msg = f"Error: biases ({self.biases.shape}) in Gemm not broadcastable to dim ({self.output_height},{self.output_width})"
diff --git a/src/acetone_nnet/generator/layers/gemm/GemmDefault.py b/src/acetone_nnet/generator/layers/gemm/GemmDefault.py
index 4af7e0c..881e93d 100644
--- a/src/acetone_nnet/generator/layers/gemm/GemmDefault.py
+++ b/src/acetone_nnet/generator/layers/gemm/GemmDefault.py
@@ -42,6 +42,14 @@ class GemmDefault(Gemm):
             (1, 0): self.write_gemm_tn,
         }
 
+    def bias_index(self: Self, n: int) -> str:
+        """Generate the index of the bias of the element (i, j) of the output."""
+        if self.nb_biases == 1:
+            return "0"
+        if self.nb_biases == n:
+            return "j"
+        return f"(i * {n}) + j"
+
     # The various ways to compute the operation:
 
     # None of the tensor ar transposed
@@ -69,6 +77,7 @@ class GemmDefault(Gemm):
         )
         mustach_hash["alpha"] = self.alpha
         mustach_hash["beta"] = self.beta
+        mustach_hash["bias_index"] = self.bias_index(n)
 
         with open(
             self.template_path / "layers" / "Gemm" / "template_gemm_nn.c.tpl"
@@ -101,6 +110,7 @@ class GemmDefault(Gemm):
         )
         mustach_hash["alpha"] = self.alpha
         mustach_hash["beta"] = self.beta
+        mustach_hash["bias_index"] = self.bias_index(n)
 
         with open(
             self.template_path / "layers" / "Gemm" / "template_gemm_nt.c.tpl"
@@ -133,6 +143,7 @@ class GemmDefault(Gemm):
         )
         mustach_hash["alpha"] = self.alpha
         mustach_hash["beta"] = self.beta
+        mustach_hash["bias_index"] = self.bias_index(n)
 
         with open(
             self.template_path / "layers" / "Gemm" / "template_gemm_tn.c.tpl"
@@ -165,6 +176,7 @@ class GemmDefault(Gemm):
         )
         mustach_hash["alpha"] = self.alpha
         mustach_hash["beta"] = self.beta
+        mustach_hash["bias_index"] = self.bias_index(n)
 
         with open(
             self.template_path / "layers" / "Gemm" / "template_gemm_tt.c.tpl"
diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 1883df5..a936bfb 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -579,10 +579,16 @@ def create_gemm(
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     b_tensor = look_for_initializer(node.input[1], model)
-    if len(node.input) == 3:  # noqa: PLR2004
-        c_tensor = look_for_initializer(node.input[2], model)
+    weights = onnx.numpy_helper.to_array(b_tensor)
+    if len(node.input) == 3 and node.input[2]:  # noqa: PLR2004
+        bias = onnx.numpy_helper.to_array(look_for_initializer(node.input[2], model))
     else:
-        c_tensor = np.zeros((1, 1))
+        bias = np.zeros((1, 1), dtype=weights.dtype)
+    # Expand the bias to one row, or to the whole output if its rows differ
+    if bias.ndim < 2 or bias.shape[0] == 1:
+        bias = np.array(np.broadcast_to(bias.flatten(), (output_shape[3],)))
+    else:
+        bias = np.array(np.broadcast_to(bias, (output_shape[2], output_shape[3])))
     if "transA" not in attributes:
         attributes["transA"] = 0
     if "transB" not in attributes:
@@ -599,8 +605,8 @@ def create_gemm(
         beta=attributes["beta"],
         transA=attributes["transA"],
         transB=attributes["transB"],
-        weights=onnx.numpy_helper.to_array(b_tensor),
-        bias=onnx.numpy_helper.to_array(c_tensor),
+        weights=weights,
+        bias=bias,
         input_shape=input_shape,
         output_shape=output_shape,
         activation_function=Linear(),
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl
index 2186fe0..7119269 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl
@@ -8,7 +8,7 @@
             {
                 output += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[(i * {{k}}) + p]*({{B}}[(p * {{n}}) + j]);
             }
-            output += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[j];
+            output += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[{{bias_index}}];
             ctx->tensor_temp[(i * {{n}}) + j] = {{{activation_function}}};
         }
     }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl
index 91d9da8..f61adca 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl
@@ -8,7 +8,7 @@
             {
                 output += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[(i * {{k}}) + p]*({{B}}[(j * {{k}}) + p]);
             }
-            output += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[j];
+            output += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[{{bias_index}}];
             ctx->tensor_temp[i*{{n}}+j] = {{{activation_function}}};
         }
     }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl
index ae27567..bff70e4 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl
@@ -8,7 +8,7 @@
             {
                 output += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[p*{{m}}+i]*{{#direct}}*{{/direct}}({{B}}[p*{{n}}+j]);
             }   
-            output += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[j];
+            output += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[{{bias_index}}];
             ctx->tensor_temp[i*{{n}} + j] = {{{activation_function}}};
         }
     }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl
index 186f4e8..8d22043 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl
@@ -8,7 +8,7 @@
             {
                 sum += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[p*{{m}} +i]*{{#direct}}*{{/direct}}({{B}}[j*{{k}}+p]);
             }
-            sum += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[j];
+            sum += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[{{bias_index}}];
             ctx->tensor_temp[i*{{n}}+j] = {{{activation_function}}};
         }
     }
\ No newline at end of file
-- 
2.43.0


From 062b836a8276a99f0db66017b2e6a8f0a7122246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 08/72] fix: tensor read both by a bypassed ONNX node and by
 another node

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index a936bfb..155d2e4 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1472,7 +1472,7 @@ def bypass(
     model: onnx.ModelProto,
 ) -> None:
     """Bypass the layer (output=input)."""
-    dict_output[node.output[0]] = dict_output.pop(node.input[0])
+    dict_output[node.output[0]] = dict_output[node.input[0]]
 
 
 def create_initializer(
-- 
2.43.0


From 359253cd5a5118b6f128e7957b6e19ba4f7c6902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 09/72] fix: ONNX Constant nodes (shape, non-raw data, use as
 an operand)

---
 .../importers/ONNX_importer/create_layer.py      | 16 ++++++++++++++--
 .../importers/ONNX_importer/parser_ONNX.py       |  4 +++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 155d2e4..23cc61b 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1481,10 +1481,22 @@ def create_initializer(
     model: onnx.ModelProto,
 ) -> None:
     """Change a constant layer into an initializer."""
+    attribute = node.attribute[0]
+    if attribute.name == "value":
+        value = attribute.t
+    elif attribute.name in ("value_float", "value_floats"):
+        value = onnx.numpy_helper.from_array(
+            np.array(onnx.helper.get_attribute_value(attribute), dtype=np.float32),
+        )
+    elif attribute.name in ("value_int", "value_ints"):
+        value = onnx.numpy_helper.from_array(
+            np.array(onnx.helper.get_attribute_value(attribute), dtype=np.int64),
+        )
+    else:
+        raise TypeError("Error: constant " + attribute.name + " not supported\n")
     const = model.graph.initializer.add()
+    const.CopyFrom(value)
     const.name = node.output[0]
-    const.data_type = node.attribute[0].t.data_type
-    const.raw_data = node.attribute[0].t.raw_data
 
 
 ###### Dict of all the functions ######
diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index aaecadb..361bc91 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -91,7 +91,6 @@ def load_onnx(
         idx += 1
 
     # Create constant for all initializers
-    init_dict = {i.name:i for i in model.graph.initializer}
     '''for initializer in model.graph.initializer:
         layers.append(
             create_initializer_layer(
@@ -124,6 +123,9 @@ def load_onnx(
         else:
             raise TypeError("Error: layer " + node.op_type + " not supported\n")
 
+    # Constant nodes have been added to the initializers of the model
+    init_dict = {i.name: i for i in model.graph.initializer}
+
     # Attach layers to their inputs and outputs
     for layer_idx, layer_inputs in dict_input.items():
         # The indices of a layer is the same as it's position in the list
-- 
2.43.0


From d6d599fa1f1e742190a3fa966627530c24c0251b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 10/72] fix: ONNX initializers also listed as graph inputs

---
 src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index 361bc91..9b9793c 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -85,8 +85,12 @@ def load_onnx(
     # Indices of the layer
     idx = 0
 
+    # An initializer listed in the inputs only has a default value there
+    initializer_names = {i.name for i in model.graph.initializer}
+    network_inputs = [i for i in model.graph.input if i.name not in initializer_names]
+
     # Creating and adding all the input layers to the list
-    for i in model.graph.input:
+    for i in network_inputs:
         layers.append(create_input_layer(i, idx, dict_output))
         idx += 1
 
@@ -147,7 +151,7 @@ def load_onnx(
             parent.next_layer.append(layer)
 
     data_type = onnx.helper.tensor_dtype_to_np_dtype(
-        model.graph.input[0].type.tensor_type.elem_type,
+        network_inputs[0].type.tensor_type.elem_type,
     )
 
     data_type, data_type_py = find_data_type(str(data_type))
-- 
2.43.0


From 6b9fa18422a9b730b64866dd58e8c97b696aa2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 11/72] fix: ONNX Clip with scalar, attribute or missing bounds

---
 src/acetone_nnet/generator/activation_functions.py   | 11 +++++++----
 .../importers/ONNX_importer/create_layer.py          | 12 +++++++-----
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/acetone_nnet/generator/activation_functions.py b/src/acetone_nnet/generator/activation_functions.py
index afa6338..3ee1c29 100644
--- a/src/acetone_nnet/generator/activation_functions.py
+++ b/src/acetone_nnet/generator/activation_functions.py
@@ -267,18 +267,21 @@ class Clip(ActivationFunctions):
         """Generate the string to print."""
         # output = condition ? value_if_true : value_if_false
         # output = input > max ? max : (input < min ? min : input)
+        # An absent bound is infinite
+        max_value = "INFINITY" if self.max == float("inf") else str(self.max)
+        min_value = "-INFINITY" if self.min == float("-inf") else str(self.min)
         return (
             local_var
             + " > "
-            + str(self.max)
+            + max_value
             + " ? "
-            + str(self.max)
+            + max_value
             + " : ("
             + local_var
             + " < "
-            + str(self.min)
+            + min_value
             + " ? "
-            + str(self.min)
+            + min_value
             + " : "
             + local_var
             + ")"
diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 23cc61b..08c614f 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1392,11 +1392,13 @@ def instantiate_activation_layer(
                 attribute["alpha"] = 0.01
             return LeakyReLu(attribute["alpha"])
         case "Clip":
-            mini, maxi = float("-inf"), float("inf")
-            if node.input[1]:
-                mini = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))[0]
-            if node.input[2]:
-                maxi = onnx.numpy_helper.to_array(look_for_initializer(node.input[2], model))[0]
+            attribute = extract_attributes(node)
+            mini = attribute.get("min", float("-inf"))
+            maxi = attribute.get("max", float("inf"))
+            if len(node.input) > 1 and node.input[1]:
+                mini = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model)).item()
+            if len(node.input) > 2 and node.input[2]:  # noqa: PLR2004
+                maxi = onnx.numpy_helper.to_array(look_for_initializer(node.input[2], model)).item()
             return Clip(maxi,mini)
         case _:
             return None
-- 
2.43.0


From ca6cf3ef7542f5cb18d39823463912c96535b292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 12/72] fix: Softmax on an axis holding a single value

---
 src/acetone_nnet/generator/layers/softmax/Softmax.py        | 5 ++++-
 src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py | 3 ++-
 src/acetone_nnet/importers/ONNX_importer/create_layer.py    | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/softmax/Softmax.py b/src/acetone_nnet/generator/layers/softmax/Softmax.py
index bc792ff..27991cc 100644
--- a/src/acetone_nnet/generator/layers/softmax/Softmax.py
+++ b/src/acetone_nnet/generator/layers/softmax/Softmax.py
@@ -47,7 +47,10 @@ class Softmax(Layer):
             self.original_name = original_name
         self.axis = axis
 
-        if self.size in output_shape:
+        # All the values are on the normalised axis, or there is only one axis
+        if self.size in output_shape and (
+            axis not in (1, 2, 3) or list(output_shape[axis:axis + 1]) in ([], [self.size])
+        ):
             self.one_dimension = True
         else:
             self.output_channels = output_shape[1]
diff --git a/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py b/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
index 9bdc014..8434f8e 100644
--- a/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
+++ b/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
@@ -95,7 +95,8 @@ def softmax_default_implementation(
 ) -> SoftmaxDefault:
     """Create a Softmax_Default layer using the attributes of old_layer."""
     if old_layer.one_dimension:
-        output_shape = [1, 1, 1, old_layer.size]
+        output_shape = [1, 1, 1, 1]
+        output_shape[-1 if old_layer.axis is None else old_layer.axis] = old_layer.size
     else:
         output_shape = [1, old_layer.output_channels, old_layer.output_height, old_layer.output_width]
     return SoftmaxDefault(
diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 08c614f..463f62a 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -246,7 +246,7 @@ def create_softmax(
     attributes = extract_attributes(node)
     if "axis" not in attributes:
         if model.opset_import[0].version < onnx_version_change_implementation:
-            attributes["axis"] = 1
+            attributes["axis"] = 4 + 1 - len(input_shape)
         else:
             attributes["axis"] = len(output_shape) - 1
     elif attributes["axis"] < 0:
-- 
2.43.0


From 537de8f00a3f570035f0e3915fc245770b189ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 13/72] fix: ONNX GlobalAveragePool of a non-square tensor

---
 .../importers/ONNX_importer/create_layer.py          | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 463f62a..ac2068d 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1160,6 +1160,18 @@ def create_global_average_pool(
     size = find_size(output_shape)
     dict_input[idx] = node.input
     dict_output[node.output[0]] = idx
+    if input_shape[2] != input_shape[3]:
+        # The pooling window is square: average over the spatial axes instead
+        return ReduceMean(
+            original_name=node.name,
+            idx=idx,
+            size=size,
+            axis=(2, 3),
+            keepdims=1,
+            noop_with_empty_axes=0,
+            input_shape=input_shape,
+            activation_function=Linear(),
+        )
     return AveragePooling2D(
         original_name=node.name,
         idx=idx,
-- 
2.43.0


From 5e2f45ebc4ea9eb9f3eb3896c5b83637a27efd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 14/72] fix: ONNX Pad without constant value or mode, with
 axes, and of rank below four

---
 .../importers/ONNX_importer/create_layer.py   | 31 ++++++++++---------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index ac2068d..e4feb59 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -456,24 +456,27 @@ def create_pad(
     ]
     attributes = extract_attributes(node)
 
-    initializer_length = 2
-    if len(initializers) == initializer_length:
-        axes = []
-    else:
-        axes = onnx.numpy_helper.to_array(initializers[2])
-        for i in range(len(axes)):
-            axe = axes[i]
-            if axe < 0:
-                axe = len(input_shape) - axe
-            axes[i] = axe
+    rank = len(get_shape(node.input[0], model, extend=False))
+    given_pads = [int(pad) for pad in onnx.numpy_helper.to_array(initializers[0])]
+    constant_value = 0.0
+    if len(initializers) > 1 and initializers[1]:
+        constant_value = float(onnx.numpy_helper.to_array(initializers[1]).item())
+    axes = list(range(rank))
+    if len(initializers) > 2 and initializers[2]:  # noqa: PLR2004
+        axes = [int(axis) % rank for axis in onnx.numpy_helper.to_array(initializers[2])]
+    # Pads of the four axes, the axes which are not given being left unchanged
+    axes = [axis + 4 - rank for axis in axes]
+    pads = [0] * 8
+    for i, axis in enumerate(axes):
+        pads[axis], pads[axis + 4] = given_pads[i], given_pads[i + len(axes)]
     return create_pad_obj(
-        mode=attributes["mode"],
+        mode=attributes.get("mode", b"constant"),
         original_name=node.name,
         idx=idx,
         size=size,
-        pads=list(map(int, onnx.numpy_helper.to_array(initializers[0]))),
-        constant_value=float(onnx.numpy_helper.to_array(initializers[1])),
-        axes=axes,
+        pads=pads,
+        constant_value=constant_value,
+        axes=[],
         input_shape=list(map(int, input_shape)),
         activation_function=Linear(),
     )
-- 
2.43.0


From 72aa4fd9e77881bc723dcad1c95e4619864df801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 15/72] fix: out-of-bounds read of the wrap padding of as many
 values as the axis holds

---
 .../templates/layers/Pad/template_Wrap_Pad.c.tpl            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl b/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl
index 5bf4f2f..e79b780 100644
--- a/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl
+++ b/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl
@@ -4,7 +4,7 @@
                 }
                 if(f < {{pads_front}})
                 {
-                    new_f = (new_f) % ({{input_channels}}) +  {{input_channels}};
+                    new_f = ((new_f) % ({{input_channels}}) + {{input_channels}}) % ({{input_channels}});
                 }
 
                 if(i >= {{height_and_pad_top}})
@@ -13,7 +13,7 @@
                 }
                 if(i < {{pads_top}})
                 {
-                    new_i = (new_i) % ({{input_height}}) + {{input_height}};
+                    new_i = ((new_i) % ({{input_height}}) + {{input_height}}) % ({{input_height}});
                 }
 
                 if(j >= {{width_and_pad_left}})
@@ -22,5 +22,5 @@
                 }
                 if(j < {{pads_left}})
                 {
-                    new_j = (new_j) % ({{input_width}}) + {{input_width}};
+                    new_j = ((new_j) % ({{input_width}}) + {{input_width}}) % ({{input_width}});
                 }
\ No newline at end of file
-- 
2.43.0


From 8b8f335639be9ef2f70ce7271ffb4a4eceb4d94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 16/72] fix: C code of MatMul with an operand shared by all
 channels

---
 src/acetone_nnet/generator/layers/matmul/MatMul.py        | 2 +-
 src/acetone_nnet/generator/layers/matmul/MatMulDefault.py | 2 ++
 src/acetone_nnet/templates/layers/template_MatMul.c.tpl   | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/matmul/MatMul.py b/src/acetone_nnet/generator/layers/matmul/MatMul.py
index e72904a..30740d8 100644
--- a/src/acetone_nnet/generator/layers/matmul/MatMul.py
+++ b/src/acetone_nnet/generator/layers/matmul/MatMul.py
@@ -50,7 +50,7 @@ class MatMul(Layer):
         self.local_var = "dotproduct"
         self.input_shapes = input_shapes
 
-        self.output_channels = self.input_shapes[0][1]
+        self.output_channels = max(self.input_shapes[0][1], self.input_shapes[1][1])
         self.output_height = self.input_shapes[0][-2]
         self.output_width = self.input_shapes[1][-1]
         self.shared_dimension = self.input_shapes[0][-1]
diff --git a/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py b/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
index 1f3de4b..200b39c 100644
--- a/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
+++ b/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
@@ -50,6 +50,8 @@ class MatMulDefault(MatMul):
 
         mustach_hash["shared_dimension"] = self.shared_dimension
         mustach_hash["output_channels"] = self.output_channels
+        mustach_hash["left_broadcast"] = self.input_shapes[0][1] == 1
+        mustach_hash["right_broadcast"] = self.input_shapes[1][1] == 1
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
 
diff --git a/src/acetone_nnet/templates/layers/template_MatMul.c.tpl b/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
index 178ca93..bb5972d 100644
--- a/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
@@ -8,7 +8,7 @@
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = 0;
                 for (k = 0; k < {{shared_dimension}}; ++k)
                 {
-                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] += ctx->{{output_str_left}}[k + {{shared_dimension}}*(i + {{output_height}}*f)]*ctx->{{output_str_right}}[j + {{output_width}}*(k + {{shared_dimension}}*f)];
+                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] += ctx->{{output_str_left}}[k + {{shared_dimension}}*(i{{^left_broadcast}} + {{output_height}}*f{{/left_broadcast}})]*ctx->{{output_str_right}}[j + {{output_width}}*(k{{^right_broadcast}} + {{shared_dimension}}*f{{/right_broadcast}})];
                 }
             }
         }
-- 
2.43.0


From aaaa4ec670282bbdb1b3dbac9dd2073b29613e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 17/72] fix: Resize coordinates (border clamping,
 align_corners, half_pixel_symmetric, one-row or one-column inputs) and fused
 activation

---
 .../generator/layers/resize/Resize.py         | 33 +++++++++++--------
 .../layers/resize/resize_cubic/ResizeCubic.py |  2 +-
 .../resize/resize_cubic/ResizeCubicDefault.py | 10 +++---
 .../resize/resize_linear/ResizeLinear.py      |  2 +-
 .../resize_linear/ResizeLinearDefault.py      | 10 +++---
 .../resize/resize_nearest/ResizeNearest.py    |  6 +++-
 .../resize_nearest/ResizeNearestDefault.py    | 10 ++++--
 .../importers/ONNX_importer/create_layer.py   |  2 ++
 .../Resize/template_ResizeLinear1D.c.tpl      | 13 ++++----
 .../Resize/template_ResizeNearest.c.tpl       |  2 ++
 10 files changed, 55 insertions(+), 35 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/resize/Resize.py b/src/acetone_nnet/generator/layers/resize/Resize.py
index b9cc327..df6007b 100644
--- a/src/acetone_nnet/generator/layers/resize/Resize.py
+++ b/src/acetone_nnet/generator/layers/resize/Resize.py
@@ -243,18 +243,18 @@ class Resize(Layer):
     ) -> str:
         """Generate the half-pixel-symmetric coordinate transformation code."""
         if coord_dim == 2:
-            target_length = self.output_height * self.scale[2]
+            target_length = self.input_height * self.scale[2]
+            resized_length = self.output_height
             input_length = self.input_height
         else:
-            target_length = self.output_width * self.scale[3]
+            target_length = self.input_width * self.scale[3]
+            resized_length = self.output_width
             input_length = self.input_width
 
-        s = f"float adjustment = {int(target_length)}/{target_length};\n"
-        s += f"                float center = {input_length}/2;\n"
-        s += "                float offset = center*(1 - adjustment);\n"
-        s += (f"                {coord_original} = offset + ({coord_resized} + 0.5)"
-              f"/{self.scale[coord_dim]} - 0.5;")
-        return s
+        adjustment = resized_length / target_length
+        offset = input_length / 2 * (1 - adjustment)
+        return (f"{coord_original} = {offset} + ({coord_resized} + 0.5)"
+                f"/{self.scale[coord_dim]} - 0.5;")
 
     def half_pixel_symmetric_implem(
             self: Self,
@@ -263,13 +263,15 @@ class Resize(Layer):
     ) -> float:
         """Compute the half-pixel-symmetric coordinate transformation code."""
         if coordinate_dimension == 2:
-            target_length = self.output_height * self.scale[2]
+            target_length = self.input_height * self.scale[2]
+            resized_length = self.output_height
             input_length = self.input_height
         else:
-            target_length = self.output_width * self.scale[3]
+            target_length = self.input_width * self.scale[3]
+            resized_length = self.output_width
             input_length = self.input_width
 
-        adjustment = int(target_length) / target_length
+        adjustment = resized_length / target_length
         center = input_length / 2
         offset = center * (1 - adjustment)
         return offset + (coordinate + 0.5) / self.scale[coordinate_dimension] - 0.5
@@ -319,9 +321,10 @@ class Resize(Layer):
             length_original = self.input_width
             length_resized = self.output_width
 
-        s = (f"{coord_original} = {coord_resized}*({length_original} - 1)"
-             f"/({length_resized} - 1);")
-        return s
+        if length_resized == 1:
+            return f"{coord_original} = 0;"
+        return (f"{coord_original} = (double){coord_resized}*({length_original} - 1)"
+                f"/({length_resized} - 1);")
 
     def align_corners_implem(
             self: Self,
@@ -336,6 +339,8 @@ class Resize(Layer):
             length_original = self.input_width
             length_resized = self.output_width
 
+        if length_resized == 1:
+            return 0
         return coordinate * (length_original - 1) / (length_resized - 1)
 
     def asymmetric(
diff --git a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
index eab6b2e..91ea620 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
@@ -99,7 +99,7 @@ class ResizeCubic(Resize):
                                        + coeff2 * self.cubic_interpolation_1_d(input_array, f, x0, y0, x - x0)
                                        + coeff3 * self.cubic_interpolation_1_d(input_array, f, x0, y0 + 1, x - x0)
                                        + coeff4 * self.cubic_interpolation_1_d(input_array, f, x0, y0 + 2, x - x0))
-        return output
+        return self.activation_function.compute(output)
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
diff --git a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
index cf27bbd..569cb93 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
@@ -69,7 +69,7 @@ class ResizeCubicDefault(ResizeCubic):
             mustach_hash["coordinate_transformation_mode"] = self.coordinate_transformation_mode_mapping[
                 self.coordinate_transformation_mode]("i", 2, "x")
             dimension = "1D"
-        elif (self.input_height > 1) and (self.input_width > 1):
+        else:
             mustach_hash["input_width"] = self.input_width
             mustach_hash["input_height"] = self.input_height
             mustach_hash["coordinate_transformation_mode_x"] = self.coordinate_transformation_mode_mapping[
@@ -90,7 +90,7 @@ def resize_cubic_default_implementation(
         version: str,
 ) -> ResizeCubicDefault:
     """Create a ResizeCubic_Default layer using the parameters of old_layer."""
-    return ResizeCubicDefault(
+    layer = ResizeCubicDefault(
         version=version,
         original_name=old_layer.original_name,
         idx=old_layer.idx,
@@ -101,13 +101,15 @@ def resize_cubic_default_implementation(
         coordinate_transformation_mode=old_layer.coordinate_transformation_mode,
         exclude_outside=old_layer.exclude_outside,
         keep_aspect_ratio_policy=old_layer.keep_aspect_ratio_policy,
-        boolean_resize=True,
-        target_size=old_layer.scale,
+        boolean_resize=False,
+        target_size=[1, old_layer.output_channels, old_layer.output_height, old_layer.output_width],
         roi=old_layer.roi,
         extrapolation_value=old_layer.extrapolation_value,
         nearest_mode=old_layer.nearest_mode,
         cubic_coeff_a=old_layer.cubic_coeff_a,
     )
+    layer.scale = old_layer.scale
+    return layer
 
 resize_cubic_factory.register_implementation(
     None,
diff --git a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
index c980e42..9a35a99 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
@@ -73,4 +73,4 @@ class ResizeLinear(Resize):
                                         + f12 * (x1 - x) * (y - y0) + f22 * (x - x0) * (y - y0))
                                        / ((x1 - x0) * (y1 - y0)))
 
-        return output
+        return self.activation_function.compute(output)
diff --git a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
index 748ed76..914f35b 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
@@ -73,7 +73,7 @@ class ResizeLinearDefault(ResizeLinear):
             mustach_hash["coordinate_transformation_mode"] = self.coordinate_transformation_mode_mapping[
                 self.coordinate_transformation_mode]("i", 2, "x")
             dimension = "1D"
-        elif (self.input_height > 1) and (self.input_width > 1):
+        else:
             mustach_hash["len_height"] = self.input_height - 1
             mustach_hash["len_width"] = self.input_width - 1
             mustach_hash["input_width"] = self.input_width
@@ -95,7 +95,7 @@ def resize_linear_default_implementation(
         version: str,
 ) -> ResizeLinearDefault:
     """Create a ResizeLinear_Default layer using the parameters of old_layer."""
-    return ResizeLinearDefault(
+    layer = ResizeLinearDefault(
         version=version,
         original_name=old_layer.original_name,
         idx=old_layer.idx,
@@ -106,13 +106,15 @@ def resize_linear_default_implementation(
         coordinate_transformation_mode=old_layer.coordinate_transformation_mode,
         exclude_outside=old_layer.exclude_outside,
         keep_aspect_ratio_policy=old_layer.keep_aspect_ratio_policy,
-        boolean_resize=True,
-        target_size=old_layer.scale,
+        boolean_resize=False,
+        target_size=[1, old_layer.output_channels, old_layer.output_height, old_layer.output_width],
         roi=old_layer.roi,
         extrapolation_value=old_layer.extrapolation_value,
         nearest_mode=old_layer.nearest_mode,
         cubic_coeff_a=old_layer.cubic_coeff_a,
     )
+    layer.scale = old_layer.scale
+    return layer
 
 resize_linear_factory.register_implementation(
     None,
diff --git a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
index fdf8b18..874020a 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
@@ -88,5 +88,9 @@ class ResizeNearest(Resize):
                     y = self.coordinate_transformation_mode_implem_mapping[self.coordinate_transformation_mode](j, 3)
                     y0 = self.nearest_mode_implem_mapping[self.nearest_mode](y)
 
+                    # Coordinates rounded outside the tensor take the border value
+                    x0 = max(0, min(self.input_height - 1, x0))
+                    y0 = max(0, min(self.input_width - 1, y0))
+
                     output[f, i, j] = input_array[f, x0, y0]
-        return output
+        return self.activation_function.compute(output)
diff --git a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
index 66df2fd..c0bcc20 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
@@ -71,6 +71,8 @@ class ResizeNearestDefault(ResizeNearest):
         mustach_hash["activation_function"] = self.activation_function.write_activation_str(
             f"ctx->{output_str}[y0 + {self.input_width}*(x0 + {self.input_height}*f)]")
 
+        mustach_hash["input_height"] = self.input_height
+        mustach_hash["input_width"] = self.input_width
         mustach_hash["output_channels"] = self.output_channels
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
@@ -92,7 +94,7 @@ def resize_nearest_default_implementation(
         version: str,
 ) -> ResizeNearestDefault:
     """Create a ResizeNearest_Default layer using the parameters of old_layer."""
-    return ResizeNearestDefault(
+    layer = ResizeNearestDefault(
         version=version,
         original_name=old_layer.original_name,
         idx=old_layer.idx,
@@ -103,13 +105,15 @@ def resize_nearest_default_implementation(
         coordinate_transformation_mode=old_layer.coordinate_transformation_mode,
         exclude_outside=old_layer.exclude_outside,
         keep_aspect_ratio_policy=old_layer.keep_aspect_ratio_policy,
-        boolean_resize=True,
-        target_size=old_layer.scale,
+        boolean_resize=False,
+        target_size=[1, old_layer.output_channels, old_layer.output_height, old_layer.output_width],
         roi=old_layer.roi,
         extrapolation_value=old_layer.extrapolation_value,
         nearest_mode=old_layer.nearest_mode,
         cubic_coeff_a=old_layer.cubic_coeff_a,
     )
+    layer.scale = old_layer.scale
+    return layer
 
 resize_nearest_factory.register_implementation(
     None,
diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index e4feb59..0fb31e6 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -402,6 +402,8 @@ def create_resize(
         look_for_initializer(initializer_name, model)
         for initializer_name in node.input[1:]
     ]
+    # Trailing optional inputs may be omitted
+    initializers += [[]] * (3 - len(initializers))
     attributes = extract_attributes(node)
     attributes = resize_set_default_attributes_values(attributes, input_shape)
 
diff --git a/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl b/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl
index 6fd876a..4156aed 100644
--- a/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl
+++ b/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl
@@ -1,18 +1,17 @@
     // {{name}}_{{idx}}{{comment}} {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
-    x1 = {{len_dimension}};
-    x0 = 0;
-
     for (f = 0; f < {{output_channels}}; ++f)
     {
-        f11 = ctx->{{output_str}}[x0 + {{dimension}}*f];
-        f22 = ctx->{{output_str}}[x1 + {{dimension}}*f];
-
         for (i = 0; i < {{output_height}}; ++i)
         {
             for(j = 0; j < {{output_width}}; ++j)
             {
                 {{{coordinate_transformation_mode}}}
-                x = x<x0 ? x0 : (x>x1 ? x1: x);
+                x = x<0 ? 0 : (x>{{len_dimension}} ? {{len_dimension}}: x);
+
+                x0 = floor(x);
+                x1 = x0 + 1;
+                f11 = ctx->{{output_str}}[x0 + {{dimension}}*f];
+                f22 = x1 > {{len_dimension}} ? 0 : ctx->{{output_str}}[x1 + {{dimension}}*f];
 
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = (f11*(x1 - x) + f22*(x - x0))/(x1 - x0);
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{{activation_function}}};
diff --git a/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl b/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl
index 243cd4c..749ed6e 100644
--- a/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl
+++ b/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl
@@ -9,6 +9,8 @@
                 {{{coordinate_transformation_mode_y}}}
                 {{nearest_mode_x}}
                 {{nearest_mode_y}}
+                x0 = x0 < 0 ? 0 : (x0 >= {{input_height}} ? {{input_height}} - 1 : x0);
+                y0 = y0 < 0 ? 0 : (y0 >= {{input_width}} ? {{input_width}} - 1 : y0);
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{{activation_function}}};
             }
         }
-- 
2.43.0


From 714e9bef371af686c2520517194959ddc5ecbfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 18/72] fix: C code of ReduceMax and ReduceMin over two axes
 and of no-op reductions

---
 src/acetone_nnet/generator/layers/reduce/Reduce.py     | 10 +++++-----
 .../templates/layers/template_Reduce.c.tpl             |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/reduce/Reduce.py b/src/acetone_nnet/generator/layers/reduce/Reduce.py
index 00cb37d..0400a5a 100644
--- a/src/acetone_nnet/generator/layers/reduce/Reduce.py
+++ b/src/acetone_nnet/generator/layers/reduce/Reduce.py
@@ -169,10 +169,10 @@ class Reduce(Layer):
             mustach_hash["func"] = "*"
 
         if len(which_dim_to_reduc) == 0:
-            if self.noop_with_empty_axes:
+            if self.noop_with_empty_axes or self.axes:
                 mustach_hash["none"] = True
                 mustach_hash["activation_function"] = self.activation_function.write_activation_str(
-                    f"ctx->output_{self.path}[k]")
+                    f"ctx->{output_str}[k]")
             else:
                 mustach_hash["all"] = True
                 mustach_hash["activation_function"] = self.activation_function.write_activation_str("reduced")
@@ -221,7 +221,7 @@ class Reduce(Layer):
                 mustach_hash["reduced_dimension_2"] = self.input_height
                 mustach_hash["position"] = f"f + {self.input_width}*(j + {self.input_height}*i)"
                 if self.reduce_func in ("Max", "Min"):
-                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_width}*f]"
+                    mustach_hash["starting_value"] = f"ctx->{output_str}[f]"
 
             elif which_dim_to_reduc == "cw":
                 mustach_hash["output_dimension"] = self.output_height
@@ -229,7 +229,7 @@ class Reduce(Layer):
                 mustach_hash["reduced_dimension_2"] = self.input_width
                 mustach_hash["position"] = f"j + {self.input_width}*(f + {self.input_height}*i)"
                 if self.reduce_func in ("Max", "Min"):
-                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_height}*f]"
+                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_width}*f]"
 
             elif which_dim_to_reduc == "hw":
                 mustach_hash["output_dimension"] = self.output_channels
@@ -237,7 +237,7 @@ class Reduce(Layer):
                 mustach_hash["reduced_dimension_2"] = self.input_width
                 mustach_hash["position"] = f"j + {self.input_width}*(i + {self.input_height}*f)"
                 if self.reduce_func in ("Max", "Min"):
-                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_channels}*f]"
+                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_width * self.input_height}*f]"
 
             if self.reduce_func == "Mean":
                 mustach_hash["nb_elements"] = mustach_hash["reduced_dimension_1"] * mustach_hash["reduced_dimension_2"]
diff --git a/src/acetone_nnet/templates/layers/template_Reduce.c.tpl b/src/acetone_nnet/templates/layers/template_Reduce.c.tpl
index a6f7f1e..ca70a3e 100644
--- a/src/acetone_nnet/templates/layers/template_Reduce.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Reduce.c.tpl
@@ -35,13 +35,13 @@
             for (j = 0; j < {{reduced_dimension_2}}; ++j)
             {
                 {{#Max}}
-                if (ctx->output_{{road}}[{{position}}] > ctx->tensor_temp[f])
+                if (ctx->{{output_str}}[{{position}}] > ctx->tensor_temp[f])
                 {
                     ctx->tensor_temp[f] = ctx->{{output_str}}[{{position}}];
                 }
                 {{/Max}}
                 {{#Min}}
-                if (ctx->output_{{road}}[{{position}}] < ctx->tensor_temp[f])
+                if (ctx->{{output_str}}[{{position}}] < ctx->tensor_temp[f])
                 {
                     ctx->tensor_temp[f] = ctx->{{output_str}}[{{position}}];
                 }
-- 
2.43.0


From caf0e12945c2f389867e68791e215ed607067334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 19/72] fix: layer fusions (indices, dropped operands and
 activations, layers without activation)

---
 .../generator/layers/gather/Gather.py             |  4 +++-
 .../layers/gather_elements/GatherElements.py      |  2 +-
 .../layers/reduce/reduce_max/ReduceMax.py         |  6 +++---
 .../layers/reduce/reduce_mean/ReduceMean.py       |  6 +++---
 .../layers/reduce/reduce_min/ReduceMin.py         |  4 ++--
 .../layers/reduce/reduce_prod/ReduceProd.py       |  4 ++--
 .../layers/reduce/reduce_sum/ReduceSum.py         |  4 ++--
 src/acetone_nnet/generator/layers/tile/Tile.py    |  4 +++-
 .../generator/layers/transpose/Transpose.py       |  2 +-
 src/acetone_nnet/pattern_matching/Pattern.py      | 14 +++++++++-----
 .../patterns/FuseActivationLayers.py              | 15 +++++++++++++--
 .../patterns/FuseConvBatchNorm.py                 |  8 ++++----
 .../pattern_matching/patterns/FuseSigmoidMul.py   | 11 ++++++++---
 13 files changed, 54 insertions(+), 30 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/gather/Gather.py b/src/acetone_nnet/generator/layers/gather/Gather.py
index 55a87d0..1697c08 100644
--- a/src/acetone_nnet/generator/layers/gather/Gather.py
+++ b/src/acetone_nnet/generator/layers/gather/Gather.py
@@ -130,4 +130,6 @@ class Gather(Layer):
             self.input_channels,
             self.input_height,
             self.input_width)
-        return np.take(input_array, indices=self.indices, axis=self.axis - 1)
\ No newline at end of file
+        return self.activation_function.compute(
+            np.take(input_array, indices=self.indices, axis=self.axis - 1),
+        )
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py b/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
index 127a1d6..acd32da 100644
--- a/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
+++ b/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
@@ -155,4 +155,4 @@ class GatherElements(Layer):
                         output[f, i, j] = input_array[f, self.indices[0, f, i, j], j]
                     elif self.axis == 3:
                         output[f, i, j] = input_array[f, i, self.indices[0, f, i, j]]
-        return output
\ No newline at end of file
+        return self.activation_function.compute(output)
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py b/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py
index 4a71509..2608dea 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py
@@ -137,9 +137,9 @@ class ReduceMax(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.max(input_array, axis=None, keepdims=self.keepdims)
-        return np.max(input_array, axis=self.axes, keepdims=self.keepdims)
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(np.max(input_array, axis=None, keepdims=self.keepdims))
+        return self.activation_function.compute(np.max(input_array, axis=self.axes, keepdims=self.keepdims))
 
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py b/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py
index a24ff1b..17bbf06 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py
@@ -119,9 +119,9 @@ class ReduceMean(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.mean(input_array, axis=None, keepdims=self.keepdims)
-        return np.mean(input_array, axis=self.axes, keepdims=self.keepdims)
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(np.mean(input_array, axis=None, keepdims=self.keepdims))
+        return self.activation_function.compute(np.mean(input_array, axis=self.axes, keepdims=self.keepdims))
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py b/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
index 8a864e2..9ee49ec 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
@@ -123,6 +123,6 @@ class ReduceMin(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.min(input_array, axis=None, keepdims=self.keepdims)
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(np.min(input_array, axis=None, keepdims=self.keepdims))
         return np.min(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py b/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
index 881090c..7f11fef 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
@@ -124,6 +124,6 @@ class ReduceProd(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.multiply.reduce(input_array, axis=None, keepdims=self.keepdims)
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(np.multiply.reduce(input_array, axis=None, keepdims=self.keepdims))
         return np.multiply.reduce(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py b/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
index 66bfbfb..3692b6e 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
@@ -124,6 +124,6 @@ class ReduceSum(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.add.reduce(input_array, axis=None, keepdims=self.keepdims)
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(np.add.reduce(input_array, axis=None, keepdims=self.keepdims))
         return np.add.reduce(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/tile/Tile.py b/src/acetone_nnet/generator/layers/tile/Tile.py
index af388e9..9a32080 100644
--- a/src/acetone_nnet/generator/layers/tile/Tile.py
+++ b/src/acetone_nnet/generator/layers/tile/Tile.py
@@ -107,4 +107,6 @@ class Tile(Layer):
     ) -> np.ndarray:
         """Compute output of layer."""
         input_array = input_array.reshape((self.input_channels, self.input_height, self.input_width))
-        return np.tile(input_array, self.repeats[1:])
\ No newline at end of file
+        return self.activation_function.compute(
+            np.tile(input_array, self.repeats[1:]),
+        )
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/transpose/Transpose.py b/src/acetone_nnet/generator/layers/transpose/Transpose.py
index b29936f..cee3d6c 100644
--- a/src/acetone_nnet/generator/layers/transpose/Transpose.py
+++ b/src/acetone_nnet/generator/layers/transpose/Transpose.py
@@ -117,4 +117,4 @@ class Transpose(Layer):
             input_array,
             (1, self.input_channels, self.input_height, self.input_width),
         )
-        return np.transpose(input_array, self.perm)
\ No newline at end of file
+        return self.activation_function.compute(np.transpose(input_array, self.perm))
\ No newline at end of file
diff --git a/src/acetone_nnet/pattern_matching/Pattern.py b/src/acetone_nnet/pattern_matching/Pattern.py
index d3e06e2..3434681 100644
--- a/src/acetone_nnet/pattern_matching/Pattern.py
+++ b/src/acetone_nnet/pattern_matching/Pattern.py
@@ -57,7 +57,7 @@ def update_indices(
         shift: int,
         dict_cst: dict[int,int],
 ) -> None:
-    """Update the indices of the layers after index by shifting them of shift."""
+    """Shift the indices greater than the one of layers[index], which is about to be removed."""
     nb_layers = len(layers)
     ref = layers[index].idx
 
@@ -70,12 +70,16 @@ def update_indices(
 
     for i in range(nb_layers):
         if layers[i].idx > ref:
-            cst_index = dict_cst.get(layers[i].idx, None)
-            if cst_index is not None:
-                dict_cst.pop(layers[i].idx)
-                dict_cst[layers[i].idx - shift] = cst_index
             layers[i].idx = layers[i].idx - shift
 
+    # The layers are not necessarily ordered by index
+    shifted_cst = {
+        idx - shift if idx > ref else idx: cst_index
+        for idx, cst_index in dict_cst.items()
+    }
+    dict_cst.clear()
+    dict_cst.update(shifted_cst)
+
 def update_next_layers(removed_layer: Layer, replacement_layer:Layer) -> None:
     """Link the layers in removed_layer.next_layer to the replacement_layer as input."""
     for next_layer in removed_layer.next_layer:
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
index 560173d..87b8250 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
@@ -21,7 +21,13 @@
 from typing_extensions import Self
 
 from acetone_nnet.generator.activation_functions import Linear
-from acetone_nnet.generator.layers import ActivationLayer
+from acetone_nnet.generator.layers import (
+    ActivationLayer,
+    ConstantLayer,
+    Flatten,
+    InputLayer,
+    Softmax,
+)
 from acetone_nnet.ir import Layer
 from acetone_nnet.pattern_matching.Pattern import (
     Pattern,
@@ -58,6 +64,11 @@ class FuseActivationLayer(Pattern):
             return False
         if isinstance(layer.previous_layer[0], ActivationLayer):
             return False
+        if isinstance(
+            layer.previous_layer[0],
+            InputLayer | ConstantLayer | Flatten | Softmax,
+        ):
+            return False
         if not hasattr(layer.previous_layer[0], "activation_function"):
             return False
         if not isinstance(layer.previous_layer[0].activation_function, Linear):
@@ -85,8 +96,8 @@ class FuseActivationLayer(Pattern):
         layer.original_name += f" fused with {activation_layer.original_name}"
 
         # Updating the list of layers
+        update_indices(index, layers, 1, dict_cst)
         layers.pop(index)
-        update_indices(index - 1, layers, 1, dict_cst)
 
         return self.pattern.format(
             layer.idx,
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py b/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
index 5a7daf5..753a8f2 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
@@ -75,11 +75,11 @@ class FuseConvBatchNorm(Pattern):
     ) -> tuple[str, int]:
         """Apply the pattern to the layer."""
         batch_norm: BatchNormalization = layers[index]
-        conv: Conv2D = layers[index - 1]
+        conv: Conv2D = batch_norm.previous_layer[0]
 
         # Retrieve the constant
-        weights: np.array = conv.weights
-        biases = conv.biases
+        weights: np.array = np.copy(conv.weights)
+        biases = np.copy(conv.biases)
 
         scale = batch_norm.scale
         bias = batch_norm.biases
@@ -103,8 +103,8 @@ class FuseConvBatchNorm(Pattern):
         conv.original_name += f" fused with {batch_norm.original_name}"
 
         # Updating the list of layers
+        update_indices(index, layers, 1, dict_cst)
         layers.pop(index)
-        update_indices(index - 1, layers, 1, dict_cst)
 
         return self.pattern.format(index - 1, index, index - 1), layers.index(conv)
 
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py b/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
index 7d4d79a..3bbe61b 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
@@ -64,12 +64,12 @@ class SigmoidMultiplyToSilu(Pattern):
         #   - the next layer is in previous_layer.next_layer
         if len(layer.previous_layer) != 1:
             return False
+        if not hasattr(layer.previous_layer[0], "activation_function"):
+            return False
         if not isinstance(layer.previous_layer[0].activation_function, Linear):
             return False
         if len(layer.next_layer) != 1:
             return False
-        if not hasattr(layer.previous_layer[0], "activation_function"):
-            return False
         if len(layer.previous_layer[0].next_layer) != 2:
             return False
         if not isinstance(layer.next_layer[0], Multiply):
@@ -78,6 +78,10 @@ class SigmoidMultiplyToSilu(Pattern):
             return False
         if layer.next_layer[0] not in layer.previous_layer[0].next_layer:
             return False
+        if layer.next_layer[0].constant is not None:
+            return False
+        if not isinstance(layer.next_layer[0].activation_function, Linear):
+            return False
 
         return True
 
@@ -116,9 +120,10 @@ class SigmoidMultiplyToSilu(Pattern):
 
         update_dict_cst(multiply, silu, dict_cst)
         # Updating the list of layers
+        position = layers.index(multiply)
         layers[index] = silu
+        update_indices(position, layers, 1, dict_cst)
         layers.remove(multiply)
-        update_indices(index, layers, 1, dict_cst)
 
         return (self.pattern.format(layer.idx, sigmoid.idx, multiply.idx, silu.idx),
                 layers.index(layer))
-- 
2.43.0


From 9815b12ab5754414537fe918acedb125df6a0a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 20/72] fix: activation applied twice after a non-constant Pad,
 reflection of an axis of size one

---
 .../layers/Pad/template_Pad_Non_Constant.c.tpl  |  3 ---
 .../layers/Pad/template_Reflect_Pad.c.tpl       | 17 ++++++++++++++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl b/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl
index 7f732aa..5584388 100644
--- a/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl
+++ b/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl
@@ -12,9 +12,6 @@
                 {{{change_indice}}}
 
                 ctx->tensor_temp[j + {{output_width}} * (i + {{output_height}} * f)] = ctx->{{output_str}}[new_j + {{input_width}} * (new_i + {{input_height}} * new_f)];
-                {{^linear}}
-                ctx->tensor_temp[j + {{output_width}} * (i + {{output_height}} * f)] = {{{activation_function}}};
-                {{/linear}}
                 {{#activation_function}}
                 ctx->tensor_temp[j + {{output_width}} * (i + {{output_height}} * f)] = {{{activation_function}}};
                 {{/activation_function}}
diff --git a/src/acetone_nnet/templates/layers/Pad/template_Reflect_Pad.c.tpl b/src/acetone_nnet/templates/layers/Pad/template_Reflect_Pad.c.tpl
index 639089c..a2c41bf 100644
--- a/src/acetone_nnet/templates/layers/Pad/template_Reflect_Pad.c.tpl
+++ b/src/acetone_nnet/templates/layers/Pad/template_Reflect_Pad.c.tpl
@@ -1,3 +1,7 @@
+                {{^channels_max}}
+                new_f = 0;
+                {{/channels_max}}
+                {{#channels_max}}
                 new_f = ({{pads_front}} - f) % (2*{{channels_max}});
                 if(new_f < 0)
                 {
@@ -7,7 +11,12 @@
                 {
                     new_f = 2*{{channels_max}} - new_f;
                 }
+                {{/channels_max}}
 
+                {{^height_max}}
+                new_i = 0;
+                {{/height_max}}
+                {{#height_max}}
                 new_i = ({{pads_top}} - i) % (2*{{height_max}});
                 if(new_i < 0)
                 {
@@ -17,7 +26,12 @@
                 {
                     new_i = 2*{{height_max}} - new_i;
                 }
+                {{/height_max}}
 
+                {{^width_max}}
+                new_j = 0;
+                {{/width_max}}
+                {{#width_max}}
                 new_j = ({{pads_left}} - j) % (2*{{width_max}});
                 if(new_j < 0)
                 {
@@ -26,4 +40,5 @@
                 if(new_j > {{width_max}})
                 {
                     new_j = 2*{{width_max}} - new_j;
-                }
\ No newline at end of file
+                }
+                {{/width_max}}
-- 
2.43.0


From 17de878f29fbf638f878c709268c311de145433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 21/72] fix: buffers of a layer reading the same tensor twice

---
 src/acetone_nnet/graph/graph_interpretor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/graph/graph_interpretor.py b/src/acetone_nnet/graph/graph_interpretor.py
index 0663cf2..309f82c 100644
--- a/src/acetone_nnet/graph/graph_interpretor.py
+++ b/src/acetone_nnet/graph/graph_interpretor.py
@@ -90,7 +90,7 @@ def assign_liveliness_index(execution_order: list[Layer]) -> dict[int, int]:
     for n in execution_order:
         assert n.idx not in indexes
         # Free the indices of all predecessors' outputs after use
-        for p in n.previous_layer:
+        for p in {p.idx: p for p in n.previous_layer}.values():
             assert p.idx in indexes
             # Check all consumers of a tensor have been executed (except the current one)
             if all(s.idx in indexes for s in p.next_layer if s.idx != n.idx):
@@ -116,7 +116,7 @@ def assign_cst(
     for layer in execution_order:
         visited_layers.add(layer.idx)
         # Free cst if all successors have been visited
-        for parent in layer.previous_layer:
+        for parent in {p.idx: p for p in layer.previous_layer}.values():
             if parent.idx in dict_cst and all(
                 s.idx in visited_layers for s in parent.next_layer
             ):
-- 
2.43.0


From 3957321666d4237d48639bb859393919365ac740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 22/72] fix: reject window attributes that can't be
 represented, Transpose of rank below four

---
 .../importers/ONNX_importer/create_layer.py   | 43 ++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 0fb31e6..e468d16 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -135,6 +135,24 @@ def extract_attributes(node: onnx.NodeProto) -> dict[str, Any]:
     return attributes
 
 
+def check_window_attributes(
+    node: onnx.NodeProto,
+    attributes: dict[str, Any],
+    uniform: tuple[str, ...],
+    **fixed: int,
+) -> None:
+    """Reject the attributes of a sliding window that the layers can't represent."""
+    for name in uniform:
+        if len(set(attributes.get(name, []))) > 1:
+            msg = f"Error: {name} {attributes[name]} of {node.op_type} {node.name} not implemented"
+            raise ValueError(msg)
+    for name, value in fixed.items():
+        given = attributes.get(name, value)
+        if any(v != value for v in (given if isinstance(given, list) else [given])):
+            msg = f"Error: {name} {given} of {node.op_type} {node.name} not implemented"
+            raise ValueError(msg)
+
+
 # Find the shape of shape_name in model (an onnx model)
 # Depend on the characteristics of the model. Need value_info in the model
 def get_shape(
@@ -282,6 +300,7 @@ def create_conv(
         for initializer_name in node.input[1:]
     ]
     attributes = extract_attributes(node)
+    check_window_attributes(node, attributes, ("strides", "dilations"))
     if "dilations" not in attributes:
         attributes["dilations"] = [1]
     if "group" not in attributes:
@@ -745,12 +764,17 @@ def create_transpose(
     dict_input[idx] = node.input
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
+    rank = len(get_shape(node.input[0], model, extend=False))
+    perm = list(attributes.get("perm", range(rank)[::-1]))
+    # The tensors of lower rank are extended by leading dimensions
+    offset = len(input_shape) - rank
+    perm = [*range(offset), *(axis + offset for axis in perm)]
     return Transpose(
         original_name=node.name,
         idx=idx,
         size=size,
         input_shape=input_shape,
-        perm=attributes["perm"],
+        perm=perm,
         activation_function=Linear(),
     )
 
@@ -1088,6 +1112,12 @@ def create_max_pool(
     dict_input[idx] = node.input
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
+    check_window_attributes(
+        node,
+        attributes,
+        ("strides", "kernel_shape"),
+        dilations=1,
+    )
     if "dilations" not in attributes:
         attributes["dilations"] = [1]
     if ("auto_pad" not in attributes) or (attributes["auto_pad"].decode() == "NOTSET"):
@@ -1127,6 +1157,12 @@ def create_average_pool(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
+    check_window_attributes(
+        node,
+        attributes,
+        ("strides", "kernel_shape"),
+        dilations=1,
+    )
     if "dilations" not in attributes:
         attributes["dilations"] = [1]
     if ("auto_pad" not in attributes) or (attributes["auto_pad"].decode() == "NOTSET"):
@@ -1138,6 +1174,11 @@ def create_average_pool(
         attributes["auto_pad"] = attributes["auto_pad"].decode()
     if "strides" not in attributes:
         attributes["strides"] = [1, 1]
+    padded = attributes["auto_pad"] != "VALID" and any(
+        pad != 0 for pad in attributes["auto_pad"]
+    )
+    if padded:
+        check_window_attributes(node, attributes, (), count_include_pad=0)
     return AveragePooling2D(
         original_name=node.name,
         idx=idx,
-- 
2.43.0


From cfc6e52a488b29a54610a8831012b60ab5f6bb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 23/72] fix: Gemm with a scaled product and an unscaled bias

---
 src/acetone_nnet/generator/layers/gemm/Gemm.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/gemm/Gemm.py b/src/acetone_nnet/generator/layers/gemm/Gemm.py
index bd07062..1f3413f 100644
--- a/src/acetone_nnet/generator/layers/gemm/Gemm.py
+++ b/src/acetone_nnet/generator/layers/gemm/Gemm.py
@@ -95,14 +95,10 @@ class Gemm(Layer):
         if type(self.size) is not int:
             msg += "Error: size type in Gemm (size must be int)"
             msg += "\n"
-        if self.alpha != [] and (
-            type(self.alpha[0]) is not float and type(self.alpha[0]) is int
-        ):
+        if self.alpha != [] and type(self.alpha[0]) not in (float, int):
             msg += "Error: alpha type in Gemm (alpha must be int or float)"
             msg += "\n"
-        if self.alpha != [] and (
-            type(self.beta[0]) is not float and type(self.beta[0]) is int
-        ):
+        if self.beta != [] and type(self.beta[0]) not in (float, int):
             msg += "Error: beta type in Gemm (beta must be int or float)"
             msg += "\n"
         if any(
-- 
2.43.0


From b9c221a4e42fa72dc8e5beccc514311a14e2207a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 24/72] fix: Python reference of ReduceSum, ReduceProd and
 ReduceMin with a fused activation

---
 .../generator/layers/reduce/reduce_min/ReduceMin.py           | 2 +-
 .../generator/layers/reduce/reduce_prod/ReduceProd.py         | 4 +++-
 .../generator/layers/reduce/reduce_sum/ReduceSum.py           | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py b/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
index 9ee49ec..413b0e7 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
@@ -125,4 +125,4 @@ class ReduceMin(Layer):
             if self.noop_with_empty_axes:
                 return self.activation_function.compute(input_array)
             return self.activation_function.compute(np.min(input_array, axis=None, keepdims=self.keepdims))
-        return np.min(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
+        return self.activation_function.compute(np.min(input_array, axis=self.axes, keepdims=self.keepdims))
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py b/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
index 7f11fef..aea9628 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
@@ -126,4 +126,6 @@ class ReduceProd(Layer):
             if self.noop_with_empty_axes:
                 return self.activation_function.compute(input_array)
             return self.activation_function.compute(np.multiply.reduce(input_array, axis=None, keepdims=self.keepdims))
-        return np.multiply.reduce(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
+        return self.activation_function.compute(
+            np.multiply.reduce(input_array, axis=self.axes, keepdims=self.keepdims),
+        )
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py b/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
index 3692b6e..d791707 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
@@ -126,4 +126,4 @@ class ReduceSum(Layer):
             if self.noop_with_empty_axes:
                 return self.activation_function.compute(input_array)
             return self.activation_function.compute(np.add.reduce(input_array, axis=None, keepdims=self.keepdims))
-        return np.add.reduce(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
+        return self.activation_function.compute(np.add.reduce(input_array, axis=self.axes, keepdims=self.keepdims))
\ No newline at end of file
-- 
2.43.0


From 58b01fc1ad800d25f3791ae2521ecae80c496eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 25/72] fix: network with an operator over constants only

---
 src/acetone_nnet/graph/graph_interpretor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/graph/graph_interpretor.py b/src/acetone_nnet/graph/graph_interpretor.py
index 309f82c..a0d3c75 100644
--- a/src/acetone_nnet/graph/graph_interpretor.py
+++ b/src/acetone_nnet/graph/graph_interpretor.py
@@ -21,7 +21,7 @@
 
 from collections import deque
 
-from acetone_nnet.generator.layers import ConstantLayer
+from acetone_nnet.generator.layers import ConstantLayer, InputLayer
 from acetone_nnet.ir import Layer
 
 
@@ -40,13 +40,15 @@ def tri_topo(dnn: list) -> tuple[list[Layer], int, dict[int, int]]:
         if layer.idx not in visited_layers:
             parcours_prof_topo(sorted_layers, layer, visited_layers)
     # FIX Prevent constants from being mistaken as Input or Output
-    other_layers, constants = [], []
+    inputs, other_layers, constants = [], [], []
     for i in sorted_layers:
         if isinstance(i, ConstantLayer):
             constants.append(i)
+        elif isinstance(i, InputLayer):
+            inputs.append(i)
         else:
             other_layers.append(i)
-    sorted_layers = [other_layers[0]] + constants + other_layers[1:]
+    sorted_layers = inputs + constants + other_layers
     # Allocate temp variable to layers
     assign_liveliness_index(sorted_layers)
     dict_cst = assign_cst(sorted_layers)
-- 
2.43.0


From 2a552f3690f77edf230da8ea03d6e2d981fc2f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 26/72] fix: ONNX nodes that don't lead to the output, models
 with several inputs or outputs

---
 .../importers/ONNX_importer/parser_ONNX.py    | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index 9b9793c..61f9db1 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -60,6 +60,20 @@ def find_data_type(
     return data_type, data_type_py
 
 
+def select_nodes(graph: onnx.GraphProto) -> list[onnx.NodeProto]:
+    """Select the nodes needed to compute the output of the graph."""
+    if len(graph.output) != 1:
+        msg = f"Error: model with {len(graph.output)} outputs not supported"
+        raise ValueError(msg)
+    needed = {graph.output[0].name}
+    selected = []
+    for node in reversed(graph.node):
+        if needed.intersection(node.output):
+            needed.update(name for name in node.input if name)
+            selected.insert(0, node)
+    return selected
+
+
 def load_onnx(
     file_to_parse: Path | str | onnx.ModelProto
 ) -> (list[Layer], str, type, str, int, dict[int, int]):
@@ -89,6 +103,10 @@ def load_onnx(
     initializer_names = {i.name for i in model.graph.initializer}
     network_inputs = [i for i in model.graph.input if i.name not in initializer_names]
 
+    if len(network_inputs) != 1:
+        msg = f"Error: model with {len(network_inputs)} inputs not supported"
+        raise ValueError(msg)
+
     # Creating and adding all the input layers to the list
     for i in network_inputs:
         layers.append(create_input_layer(i, idx, dict_output))
@@ -106,7 +124,7 @@ def load_onnx(
         idx += 1'''
 
     # Going through all the nodes to create the layers and add them to the list
-    for node in model.graph.node:
+    for node in select_nodes(model.graph):
         if node.op_type in layer_type:
             # If the node is a useful layer, we add it to the list
             layers.append(
-- 
2.43.0


From 682e9b16c6abf2a20321e478e5542af834ea56e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 27/72] fix: gemm implementations of Conv2D (transposed and
 indirect variants, dilation, predecessor slot, precision)

---
 .../layers/convolution/Conv2DGemm.py          | 24 +++----
 .../layers/convolution/Conv2DIndirectGemm.py  | 71 +++++--------------
 .../layers/convolution/Conv2DStdGemm.py       |  3 +
 src/acetone_nnet/generator/neural_network.py  | 10 ++-
 .../layers/Conv/template_Conv_gemm_nn.c.tpl   |  6 +-
 .../layers/Conv/template_Conv_gemm_nt.c.tpl   |  7 +-
 .../layers/Conv/template_Conv_gemm_tn.c.tpl   | 13 ++--
 .../layers/Conv/template_Conv_gemm_tt.c.tpl   |  7 +-
 .../layers/Conv/template_Conv_std_gemm.c.tpl  |  2 +-
 .../layers/Conv/template_im2col.c.tpl         |  4 +-
 .../layers/Conv/template_im2row.c.tpl         |  6 +-
 .../templates/template_header_file.c.tpl      |  2 +-
 .../templates/template_parameter_file.c.tpl   |  5 +-
 13 files changed, 58 insertions(+), 102 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py b/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py
index 892a83d..568fe74 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py
@@ -55,6 +55,7 @@ class Conv2DGemm(Conv2D):
         mustach_hash = {}
 
         mustach_hash["direct"] = direct
+        mustach_hash["input_str"] = self.previous_layer[0].output_str
         mustach_hash["strides"] = self.strides
         mustach_hash["name"] = self.name
         mustach_hash["idx"] = f"{self.idx:02d}"
@@ -67,9 +68,7 @@ class Conv2DGemm(Conv2D):
         mustach_hash["ldB"] = n
         mustach_hash["C"] = c
         mustach_hash["ldC"] = n
-        mustach_hash["activation_function"] = self.activation_function.write_activation_str(
-                "output",
-            )
+        mustach_hash["activation_function"] = self.activation_function.write_activation_str(f"ctx->tensor_temp[i*{n} + j]")
 
         with open(self.template_path / "layers" / "Conv" / "template_Conv_gemm_nn.c.tpl") as template_file:
             template = template_file.read()
@@ -91,6 +90,7 @@ class Conv2DGemm(Conv2D):
         mustach_hash = {}
 
         mustach_hash["direct"] = direct
+        mustach_hash["input_str"] = self.previous_layer[0].output_str
         mustach_hash["name"] = self.name
         mustach_hash["idx"] = f"{self.idx:02d}"
         mustach_hash["m"] = m
@@ -99,12 +99,10 @@ class Conv2DGemm(Conv2D):
         mustach_hash["A"] = a
         mustach_hash["ldA"] = k
         mustach_hash["B"] = b
-        mustach_hash["ldB"] = n
+        mustach_hash["ldB"] = k
         mustach_hash["C"] = c
         mustach_hash["ldC"] = n
-        mustach_hash["activation_function"] = self.activation_function.write_activation_str(
-                "output",
-            )
+        mustach_hash["activation_function"] = self.activation_function.write_activation_str(f"ctx->tensor_temp[i*{n} + j]")
 
         with open(self.template_path / "layers" / "Conv" / "template_Conv_gemm_nt.c.tpl") as template_file:
             template = template_file.read()
@@ -126,6 +124,7 @@ class Conv2DGemm(Conv2D):
         mustach_hash = {}
 
         mustach_hash["direct"] = direct
+        mustach_hash["input_str"] = self.previous_layer[0].output_str
         mustach_hash["name"] = self.name
         mustach_hash["idx"] = f"{self.idx:02d}"
         mustach_hash["m"] = m
@@ -137,9 +136,7 @@ class Conv2DGemm(Conv2D):
         mustach_hash["ldB"] = n
         mustach_hash["C"] = c
         mustach_hash["ldC"] = n
-        mustach_hash["activation_function"] = self.activation_function.write_activation_str(
-                "output",
-            )
+        mustach_hash["activation_function"] = self.activation_function.write_activation_str(f"ctx->tensor_temp[i*{n} + j]")
 
         with open(self.template_path / "layers" / "Conv" / "template_Conv_gemm_tn.c.tpl") as template_file:
             template = template_file.read()
@@ -161,6 +158,7 @@ class Conv2DGemm(Conv2D):
         mustach_hash = {}
 
         mustach_hash["direct"] = direct
+        mustach_hash["input_str"] = self.previous_layer[0].output_str
         mustach_hash["name"] = self.name
         mustach_hash["idx"] = f"{self.idx:02d}"
         mustach_hash["m"] = m
@@ -169,12 +167,10 @@ class Conv2DGemm(Conv2D):
         mustach_hash["A"] = a
         mustach_hash["ldA"] = k
         mustach_hash["B"] = b
-        mustach_hash["ldB"] = n
+        mustach_hash["ldB"] = k
         mustach_hash["C"] = c
         mustach_hash["ldC"] = n
-        mustach_hash["activation_function"] = self.activation_function.write_activation_str(
-                "sum",
-            )
+        mustach_hash["activation_function"] = self.activation_function.write_activation_str(f"ctx->tensor_temp[i*{n} + j]")
 
         with open(self.template_path / "layers" / "Conv" / "template_Conv_gemm_tt.c.tpl") as template_file:
             template = template_file.read()
diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DIndirectGemm.py b/src/acetone_nnet/generator/layers/convolution/Conv2DIndirectGemm.py
index 96ada2b..360f799 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DIndirectGemm.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DIndirectGemm.py
@@ -37,60 +37,27 @@ class Conv2DIndirectGemm(Conv2DGemm):
         super().__init__(**kwargs)
 
     def create_ppatches(self: Self) -> str:
-        """Generate the new matrix to multiply in the Gemm algorithm."""
-        if self.pad_right or self.pad_left or self.pad_bottom or self.pad_top:
-            self.input_h_padded = self.input_height + self.pad_top + self.pad_bottom
-            self.input_w_padded = self.input_width + self.pad_left + self.pad_right
-
-            start_idx = np.arange(self.kernel_h)[:, None] * self.input_w_padded + np.arange(self.kernel_w)
-            c = self.input_h_padded * self.input_w_padded * np.arange(self.input_channels)
-            start_idx = (c[:, None] + start_idx.ravel()).reshape((-1, self.kernel_h, self.kernel_w))
-            offset_idx = np.arange(self.output_height * self.strides, step=self.strides)[:,
-                         None] * self.input_w_padded + np.arange(self.output_width * self.strides, step=self.strides)
-            idx_padded_input = (start_idx.ravel()[:, None] + offset_idx.ravel()).flatten()
-
-            idx_of_zeros = []
-            j_zeros = np.concatenate(
-                (np.arange(self.pad_left), np.arange(self.pad_right) + (self.input_w_padded - self.pad_right)))
-            i_zeros = np.concatenate(
-                (np.arange(self.pad_top), np.arange(self.pad_bottom) + (self.input_h_padded - self.pad_bottom)))
-            for c in range(self.input_channels):
-                for i in range(self.input_h_padded):
-                    for j in range(self.input_w_padded):
-                        if np.isin(i, i_zeros) or np.isin(j, j_zeros):
-                            idx_of_zeros.append(j + self.input_w_padded * (i + self.input_h_padded * c))
-
-            idx_padded_input = np.where(np.isin(idx_padded_input, idx_of_zeros), np.nan, idx_padded_input)
-            _, idx_padded_input = np.unique(idx_padded_input, return_inverse=True)
-            self.ppatches = np.where(idx_padded_input == self.input_channels * self.input_height * self.input_width,
-                                     np.nan, idx_padded_input)
-
-        else:
-            start_idx = np.arange(self.kernel_h)[:, None] * self.input_width + np.arange(self.kernel_w)
-            c = self.input_height * self.input_width * np.arange(self.input_channels)
-            start_idx = (c[:, None] + start_idx.ravel()).reshape((-1, self.kernel_h, self.kernel_w))
-            offset_idx = np.arange(self.output_height * self.strides, step=self.strides)[:,
-                         None] * self.input_width + np.arange(self.output_width * self.strides, step=self.strides)
-            self.ppatches = (start_idx.ravel()[:, None] + offset_idx.ravel()).flatten()
-
+        """Generate the positions in the input of the elements of the matrix used in the Gemm algorithm.
+
+        Elements in the padding have position -1.
+        """
+        patches = np.full((self.patches_height, self.output_height, self.output_width), -1)
+        for p in range(self.patches_height):
+            c, kernel_idx = divmod(p, self.kernel_h * self.kernel_w)
+            k_h, k_w = divmod(kernel_idx, self.kernel_w)
+            for h in range(self.output_height):
+                for w in range(self.output_width):
+                    i = h * self.strides - self.pad_top + k_h * self.dilation_rate
+                    j = w * self.strides - self.pad_left + k_w * self.dilation_rate
+                    if 0 <= i < self.input_height and 0 <= j < self.input_width:
+                        patches[p, h, w] = (c * self.input_height + i) * self.input_width + j
+
+        patches = patches.reshape((self.patches_height, self.patches_width))
         if "gemm_nt" in self.conv_algorithm or "gemm_tt" in self.conv_algorithm:
-            self.ppatches = self.ppatches.reshape((self.patches_height, self.patches_width)).transpose().flatten()
-
-        output_str = self.previous_layer[0].output_str
-
-        s = "\n        {"
-        for i in range(len(self.ppatches)):
-            if np.isnan(self.ppatches[i]):
-                s += "&zero, "
-            else:
-                s += "&" + output_str + "[" + str(int(self.ppatches[i])) + "], "
-
-        print(self.name, self.idx, "patches size:", self.ppatches.shape)
-
-        s = s[:-2]
-        s += "}"
+            patches = patches.transpose()
+        self.ppatches = patches.flatten().astype(np.int32)
 
-        return s
+        return "\n        {" + ", ".join(str(position) for position in self.ppatches) + "}"
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py b/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
index 5f01a03..0f8b61a 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
@@ -54,6 +54,7 @@ class Conv2DStdGemm(Conv2DGemm):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
         mustach_hash["strides"] = self.strides
+        mustach_hash["dilation_rate"] = self.dilation_rate
         mustach_hash["pad_top"] = self.pad_top
         mustach_hash["pad_left"] = self.pad_left
         mustach_hash["input_height"] = self.input_height
@@ -82,6 +83,7 @@ class Conv2DStdGemm(Conv2DGemm):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
         mustach_hash["strides"] = self.strides
+        mustach_hash["dilation_rate"] = self.dilation_rate
         mustach_hash["pad_top"] = self.pad_top
         mustach_hash["pad_left"] = self.pad_left
         mustach_hash["input_height"] = self.input_height
@@ -119,6 +121,7 @@ class Conv2DStdGemm(Conv2DGemm):
 
         if "cst" not in self.previous_layer[0].output_str:
             mustach_hash["cst"] = True
+            mustach_hash["output_str"] = self.previous_layer[0].output_str
             mustach_hash["input_size"] = self.input_channels * self.input_height * self.input_width
 
         with open(self.template_path / "layers" / "Conv" / "template_Conv_std_gemm.c.tpl") as template_file:
diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index eacb50f..21d8e90 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1125,9 +1125,6 @@ class CodeGenerator(ABC):
     def generate_bin_parameter_file(self: Self, output_dir: Path) -> None:
         """Generate binary file for layer data."""
         symtab = {}
-        if any(isinstance(layer, Conv2DIndirectGemm) for layer in self.layers):
-            symtab["zero"] = np.array([0.0], dtype=np.float32)
-
         for layer in self.layers:
             if (w := getattr(layer, "weights", None)) is not None:
                 if (w := getattr(layer, "layout", None)) is not None:
@@ -1142,6 +1139,10 @@ class CodeGenerator(ABC):
             if hasattr(layer, "biases"):
                 symtab[f"biases_{layer.name}_{layer.idx:02d}"] = layer.biases
 
+            if isinstance(layer, Conv2DIndirectGemm):
+                layer.create_ppatches()
+                symtab[f"ppatches_{layer.name}_{layer.idx:02d}"] = layer.ppatches
+
             if issubclass(type(layer), BatchNormalization):
                 symtab[f"mean_{layer.name}_{layer.idx:02d}"] = layer.mean
                 symtab[f"var_{layer.name}_{layer.idx:02d}"] = layer.var
@@ -1167,9 +1168,6 @@ class CodeGenerator(ABC):
             "page_size": self.target_page_size,
         }
         mustach_hash["layers"] = []
-        if any(isinstance(layer, Conv2DIndirectGemm) for layer in self.layers):
-            mustach_hash["zero"] = True
-
         for layer in self.layers:
             layer_hash = {"name": layer.name, "idx": f"{layer.idx:02d}"}
 
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nn.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nn.c.tpl
index 14077ca..ff13eb1 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nn.c.tpl
@@ -3,16 +3,14 @@
     {
         for (p = 0; p < {{k}}; ++p)
         {
-            register float weight = {{A}}[i*{{ldA}}+p];
             for(j = 0; j < {{n}}; ++j)
             {
-                ctx->tensor_temp[i*{{ldC}} + j] += weight * {{#direct}}*{{/direct}}(ctx->{{B}}[p*{{ldB}} + j]);
+                ctx->tensor_temp[i*{{ldC}} + j] += {{A}}[i*{{ldA}}+p] * {{#direct}}({{B}}[p*{{ldB}} + j] < 0 ? 0 : ctx->{{input_str}}[{{B}}[p*{{ldB}} + j]]){{/direct}}{{^direct}}ctx->{{B}}[p*{{ldB}} + j]{{/direct}};
             }
         }
         for(j = 0; j < {{n}}; ++j)
         {
-            register float output = ctx->tensor_temp[i*{{ldC}} + j];
-            output += biases_{{name}}_{{idx}}[i];
+            ctx->tensor_temp[i*{{ldC}} + j] += biases_{{name}}_{{idx}}[i];
             ctx->tensor_temp[i*{{ldC}} + j] = {{{activation_function}}};
         }
     }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
index 3881f78..d4b0e31 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
@@ -3,12 +3,11 @@
     {
         for (j = 0; j < {{n}}; ++j)
         {
-            register float output =0;
             for (p = 0; p < {{k}}; ++p)
             {
-                output += {{A}}[i*{{ldA}}+p]* {{#direct}}*{{/direct}}({{B}}[j*{{ldB}}+p]);
+                ctx->tensor_temp[i*{{ldC}} + j] += {{A}}[i*{{ldA}}+p] * {{#direct}}({{B}}[j*{{ldB}} + p] < 0 ? 0 : ctx->{{input_str}}[{{B}}[j*{{ldB}} + p]]){{/direct}}{{^direct}}ctx->{{B}}[j*{{ldB}} + p]{{/direct}};
             }
-            output += biases_{{name}}_{{idx}}[i];
-            ctx->tensor_temp[i*{{ldC}}+j] = {{{activation_function}}};
+            ctx->tensor_temp[i*{{ldC}} + j] += biases_{{name}}_{{idx}}[i];
+            ctx->tensor_temp[i*{{ldC}} + j] = {{{activation_function}}};
         }
     }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
index 9d139f2..ee82484 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
@@ -3,15 +3,14 @@
     {
         for (p = 0; p < {{k}}; ++p)
         {
-            float register weight = {{A}}[p*{{ldA}}+i];
             for (j = 0; j < {{n}}; ++j)
             {
-                ctx->tensor_temp[i*{{ldC}}+j] += weight * {{#direct}}*{{/direct}}({{B}}[p*{{ldB}}+j]);
-            }
-            for(j = 0; j < {{n}}; ++j){
-                register float output = ctx->tensor_temp[i*{{ldC}} + j];
-                output += biases_{{name}}_{{idx}}[i];
-                ctx->tensor_temp[i*{{ldC}} + j] = {{{activation_function}}};
+                ctx->tensor_temp[i*{{ldC}} + j] += {{A}}[i*{{ldA}}+p] * {{#direct}}({{B}}[p*{{ldB}} + j] < 0 ? 0 : ctx->{{input_str}}[{{B}}[p*{{ldB}} + j]]){{/direct}}{{^direct}}ctx->{{B}}[p*{{ldB}} + j]{{/direct}};
             }
         }
+        for(j = 0; j < {{n}}; ++j)
+        {
+            ctx->tensor_temp[i*{{ldC}} + j] += biases_{{name}}_{{idx}}[i];
+            ctx->tensor_temp[i*{{ldC}} + j] = {{{activation_function}}};
+        }
     }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
index f8fc0c8..95f10e7 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
@@ -3,12 +3,11 @@
     {
         for (j = 0; j < {{n}}; ++j)
         {
-            float register sum = 0;
             for (p = 0; p < {{k}}; ++p)
             {
-                sum += {{A}}[p*{{ldA}} +i]* {{#direct}}*{{/direct}}({{B}}[j*{{ldB}}+p]);
+                ctx->tensor_temp[i*{{ldC}} + j] += {{A}}[i*{{ldA}}+p] * {{#direct}}({{B}}[j*{{ldB}} + p] < 0 ? 0 : ctx->{{input_str}}[{{B}}[j*{{ldB}} + p]]){{/direct}}{{^direct}}ctx->{{B}}[j*{{ldB}} + p]{{/direct}};
             }
-            sum += biases_{{name}}_{{idx}}[i];
-            tensor_temp[i*{{ldC}}+j] = {{{activation_function}}};
+            ctx->tensor_temp[i*{{ldC}} + j] += biases_{{name}}_{{idx}}[i];
+            ctx->tensor_temp[i*{{ldC}} + j] = {{{activation_function}}};
         }
     }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_std_gemm.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_std_gemm.c.tpl
index af87b11..7c885bf 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_std_gemm.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_std_gemm.c.tpl
@@ -2,7 +2,7 @@
     {{#cst}}
     for (k = 0; k < {{input_size}}; ++k)
     {
-        ctx->tensor_temp[k] = ctx->output_{{road}}[k];
+        ctx->tensor_temp[k] = ctx->{{output_str}}[k];
     }
     {{/cst}}
 {{{patch_building_code}}}
diff --git a/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl
index f64e496..ac92c0b 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl
@@ -1,8 +1,8 @@
     // im2col
     for (i = 0; i < {{patches_height}}; ++i)
     {
-        int i_offset = (i / {{kernel_w}}) % {{kernel_h}};
-        int j_offset = i % {{kernel_w}};
+        int i_offset = ((i / {{kernel_w}}) % {{kernel_h}}) * {{dilation_rate}};
+        int j_offset = (i % {{kernel_w}}) * {{dilation_rate}};
         int c_offset = i / {{kernel_h}} / {{kernel_w}};
         
         for (h = 0; h < {{output_height}}; ++h)
diff --git a/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
index 9d5e2e0..e8693d2 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
@@ -1,8 +1,8 @@
     // im2row
     for (i = 0; i < {{patches_height}}; ++i)
     {
-        int i_offset = (i / {{kernel_w}}) % {{kernel_h}};
-        int j_offset = i % {{kernel_w}};
+        int i_offset = ((i / {{kernel_w}}) % {{kernel_h}}) * {{dilation_rate}};
+        int j_offset = (i % {{kernel_w}}) * {{dilation_rate}};
         int c_offset = i / {{kernel_h}} / {{kernel_w}};
         for (h = 0; h < {{output_height}}; ++h)
         {
@@ -10,7 +10,7 @@
             {
                 int ii = h * {{strides}} - {{pad_top}} + i_offset;
                 int jj = w * {{strides}} - {{pad_left}} + j_offset;
-                int j = w*{{output_height}} + h;
+                int j = h*{{output_width}} + w;
                 if (ii >= 0 && ii < {{input_height}} && jj >= 0 && jj < {{input_width}})
                     ctx->output_{{road}}[j*{{patches_height}} + i] = ctx->{{output_str}}[(c_offset*{{input_height}} + ii)*{{input_width}} + jj];
                 else
diff --git a/src/acetone_nnet/templates/template_header_file.c.tpl b/src/acetone_nnet/templates/template_header_file.c.tpl
index a551a42..83dc713 100644
--- a/src/acetone_nnet/templates/template_header_file.c.tpl
+++ b/src/acetone_nnet/templates/template_header_file.c.tpl
@@ -26,7 +26,7 @@ extern const {{data_type}} weights_{{name}}_{{idx}}[{{nb_weights}}];
 extern const {{data_type}} biases_{{name}}_{{idx}}[{{nb_biases}}];
     {{/nb_biases}}
     {{#patches_size}}
-extern {{data_type}} *ppatches_{{name}}_{{idx}}[{{patches_size}}];
+extern const int ppatches_{{name}}_{{idx}}[{{patches_size}}];
     {{/patches_size}}
     {{#channels}}
 extern const {{data_type}} mean_{{name}}_{{idx}}[{{channels}}];
diff --git a/src/acetone_nnet/templates/template_parameter_file.c.tpl b/src/acetone_nnet/templates/template_parameter_file.c.tpl
index 44c66f5..b3685f1 100644
--- a/src/acetone_nnet/templates/template_parameter_file.c.tpl
+++ b/src/acetone_nnet/templates/template_parameter_file.c.tpl
@@ -1,7 +1,4 @@
 #include "inference.h"
-{{#zero}}
-const {{data_type}} zero = 0.0f;
-{{/zero}}
 
 {{#layers}}
     {{#nb_weights}}
@@ -13,7 +10,7 @@ const {{data_type}} biases_{{name}}_{{idx}}[{{nb_biases}}]  __attribute__((align
 
     {{/nb_biases}}
     {{#patches_size}}
-{{data_type}} *ppatches_{{name}}_{{idx}}[{{patches_size}}] __attribute__((aligned({{page_size}}))) = {{{patches}}};
+const int ppatches_{{name}}_{{idx}}[{{patches_size}}] __attribute__((aligned({{page_size}}))) = {{{patches}}};
 
     {{/patches_size}}
     {{#channels}}
-- 
2.43.0


From 532f47a88e8c6b4bfc3b92d16e017ae28f0ea057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 28/72] fix: storage of the tensors after the layer fusions

---
 src/acetone_nnet/generator/neural_network.py | 5 +++++
 src/acetone_nnet/graph/graph_interpretor.py  | 8 +++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 21d8e90..d33d36e 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -46,6 +46,7 @@ else:
 from typing_extensions import Self
 
 from acetone_nnet import templates
+from acetone_nnet.graph.graph_interpretor import allocate
 from acetone_nnet.importers.parser import parser
 from acetone_nnet.pattern_matching.PatternMatcher import pattern_matcher
 from acetone_nnet.quantize import qform
@@ -158,6 +159,10 @@ class CodeGenerator(ABC):
         
         if self.optimization:
             self.layers, self.log = pattern_matcher.match(self.layers, self.dict_cst)
+            # The lifetimes of the tensors have changed
+            self.maxpath, self.dict_cst = allocate(self.layers)
+            for layer in self.layers:
+                layer.find_output_str(self.dict_cst)
 
         if self.log:
             logging.info(f"Pattern Matching:\n {self.log}")
diff --git a/src/acetone_nnet/graph/graph_interpretor.py b/src/acetone_nnet/graph/graph_interpretor.py
index a0d3c75..10550a3 100644
--- a/src/acetone_nnet/graph/graph_interpretor.py
+++ b/src/acetone_nnet/graph/graph_interpretor.py
@@ -50,11 +50,17 @@ def tri_topo(dnn: list) -> tuple[list[Layer], int, dict[int, int]]:
             other_layers.append(i)
     sorted_layers = inputs + constants + other_layers
     # Allocate temp variable to layers
+    max_path, dict_cst = allocate(sorted_layers)
+    return sorted_layers, max_path, dict_cst
+
+
+def allocate(sorted_layers: list[Layer]) -> tuple[int, dict[int, int]]:
+    """Allocate storage to the outputs of topologically sorted layers."""
     assign_liveliness_index(sorted_layers)
     dict_cst = assign_cst(sorted_layers)
     # Convert paths
     max_path = max(i.path for i in sorted_layers) + 1
-    return sorted_layers, max_path, dict_cst
+    return max_path, dict_cst
 
 
 def parcours_prof_topo(
-- 
2.43.0


From b387448b45a14ddc9a271448a1b736a9a14f1e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 29/72] fix: float temporaries of gemm and Resize in double
 precision models

---
 src/acetone_nnet/generator/neural_network.py  |  3 +++
 .../layers/Gemm/template_gemm_nn.c.tpl        |  2 +-
 .../layers/Gemm/template_gemm_nt.c.tpl        |  2 +-
 .../layers/Gemm/template_gemm_tn.c.tpl        |  2 +-
 .../layers/Gemm/template_gemm_tt.c.tpl        |  2 +-
 .../Resize/template_ResizeCubic2D.c.tpl       |  8 +++----
 .../templates/template_source_file.c.tpl      | 24 +++++++++----------
 7 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index d33d36e..82ea89b 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -876,6 +876,9 @@ class CodeGenerator(ABC):
             for i in self.layers
         ):
             mustach_hash["is_resize"] = True
+            mustach_hash["resize_type"] = (
+                "double" if self.data_type == "double" else "float"
+            )
 
         if any(isinstance(layer, ResizeCubic) for layer in self.layers):
             mustach_hash["is_cubic_interpolation"] = True
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl
index 7119269..f0d5583 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl
@@ -3,7 +3,7 @@
     {
         for(j = 0; j< {{n}}; ++j)
         {
-            register float output = 0;
+            register __typeof__(ctx->tensor_temp[0]) output = 0;
             for (p = 0; p < {{k}}; ++p)
             {
                 output += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[(i * {{k}}) + p]*({{B}}[(p * {{n}}) + j]);
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl
index f61adca..c48f564 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl
@@ -3,7 +3,7 @@
     {
         for (j = 0; j < {{n}}; ++j)
         {
-            register float output = 0;
+            register __typeof__(ctx->tensor_temp[0]) output = 0;
             for (p = 0; p < {{k}}; ++p)
             {
                 output += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[(i * {{k}}) + p]*({{B}}[(j * {{k}}) + p]);
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl
index bff70e4..2e77e33 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl
@@ -3,7 +3,7 @@
     {
         for(j = 0; j < {{n}}; ++j)
         {
-            float register output = 0;
+            register __typeof__(ctx->tensor_temp[0]) output = 0;
             for (p = 0; p < {{k}}; ++p)
             {
                 output += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[p*{{m}}+i]*{{#direct}}*{{/direct}}({{B}}[p*{{n}}+j]);
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl
index 8d22043..903c780 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl
@@ -3,7 +3,7 @@
     {
         for (j = 0; j < {{n}}; ++j)
         {
-            float register sum = 0;
+            register __typeof__(ctx->tensor_temp[0]) sum = 0;
             for (p = 0; p < {{k}}; ++p)
             {
                 sum += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[p*{{m}} +i]*{{#direct}}*{{/direct}}({{B}}[j*{{k}}+p]);
diff --git a/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic2D.c.tpl b/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic2D.c.tpl
index 41542cf..2538a8b 100644
--- a/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic2D.c.tpl
+++ b/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic2D.c.tpl
@@ -18,7 +18,7 @@
                 f1 = x0+1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+1 + {{input_height}}*f)];
                 f2 = x0+2 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+2 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+2 + {{input_height}}*f)];
                 s = x - x0;
-                float register b_1 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
+                register __typeof__(ctx->tensor_temp[0]) b_1 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
 
                 col_index = y0 < 0 ? 0 : y0 >= {{input_width}} ? {{input_width}} - 1 : y0;
                 f_1 = x0-1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0-1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0-1 + {{input_height}}*f)];
@@ -26,7 +26,7 @@
                 f1 = x0+1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+1 + {{input_height}}*f)];
                 f2 = x0+2 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+2 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+2 + {{input_height}}*f)];
                 s = x - x0;
-                float register b0 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
+                register __typeof__(ctx->tensor_temp[0]) b0 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
 
                 col_index = y0+1 < 0 ? 0 : y0+1 >= {{input_width}} ? {{input_width}} - 1 : y0+1;
                 f_1 = x0-1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0-1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0-1 + {{input_height}}*f)];
@@ -34,7 +34,7 @@
                 f1 = x0+1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+1 + {{input_height}}*f)];
                 f2 = x0+2 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+2 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+2 + {{input_height}}*f)];
                 s = x - x0;
-                float register b1 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
+                register __typeof__(ctx->tensor_temp[0]) b1 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
 
                 col_index = y0+2 < 0 ? 0 : y0+2 >= {{input_width}} ? {{input_width}} - 1 : y0+2;
                 f_1 = x0-1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0-1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0-1 + {{input_height}}*f)];
@@ -42,7 +42,7 @@
                 f1 = x0+1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+1 + {{input_height}}*f)];
                 f2 = x0+2 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+2 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+2 + {{input_height}}*f)];
                 s = x - x0;
-                float register b2 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
+                register __typeof__(ctx->tensor_temp[0]) b2 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
 
                 s = y - y0;
 
diff --git a/src/acetone_nnet/templates/template_source_file.c.tpl b/src/acetone_nnet/templates/template_source_file.c.tpl
index 3d9f9a1..33ff6de 100644
--- a/src/acetone_nnet/templates/template_source_file.c.tpl
+++ b/src/acetone_nnet/templates/template_source_file.c.tpl
@@ -52,27 +52,27 @@ int inference(inference_t *ctx, {{data_type}} prediction[{{output_size}}], {{dat
     int count;
 {{/is_count}}
 {{#is_resize}}
-    float x;
-    float y;
+    {{resize_type}} x;
+    {{resize_type}} y;
     int x0;
     int y0;
 {{/is_resize}}
 {{#is_cubic_interpolation}}
     int col_index;
-    float a;
-    float f_1;
-    float f0;
-    float f1;
-    float f2;
-    float s;
+    {{resize_type}} a;
+    {{resize_type}} f_1;
+    {{resize_type}} f0;
+    {{resize_type}} f1;
+    {{resize_type}} f2;
+    {{resize_type}} s;
 {{/is_cubic_interpolation}}
 {{#is_linear_interpolation}}
     int y1;
     int x1;
-    float f11;
-    float f12;
-    float f21;
-    float f22;
+    {{resize_type}} f11;
+    {{resize_type}} f12;
+    {{resize_type}} f21;
+    {{resize_type}} f22;
 {{/is_linear_interpolation}}
 {{#is_gather}}
     int position;
-- 
2.43.0


From c18be46a58ebc93dc55fe1f75eca0a00e2ae5782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:25 +0000
Subject: [PATCH 30/72] fix: channels_last pooling (averaged area, activation,
 double precision)

---
 .../average_pooling/AveragePooling2DDefault.py    |  2 +-
 .../pooling/max_pooling/MaxPooling2DDefault.py    |  2 +-
 .../templates/layers/template_Pooling2D_HWC.c.tpl | 15 ++++++---------
 3 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py b/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py
index 38575a5..eea6369 100644
--- a/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py
+++ b/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py
@@ -80,7 +80,7 @@ class AveragePooling2DDefault(AveragePooling2D):
             suffix = "_HWC"
             mustach_hash["is_avgpool"] = True
             if self.activation_function.name != "linear":
-                mustach_hash["activation_function"] = self.activation_function.write_activation_str("o_ptr[c]")
+                mustach_hash["activation_function"] = self.activation_function.write_activation_str("out_ptr[c]")
             mustach_hash["specific_function"] = self.specific_function(
             f"f + {self.input_width}*(ii + {self.input_height}*jj)", output_str)
         else:
diff --git a/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py b/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py
index ef83e4b..7554713 100644
--- a/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py
+++ b/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py
@@ -79,7 +79,7 @@ class MaxPooling2DDefault(MaxPooling2D):
             suffix = "_HWC"
             mustach_hash["is_maxpool"] = True
             if self.activation_function.name != "linear":
-                mustach_hash["activation_function"] = self.activation_function.write_activation_str("o_ptr[c]")
+                mustach_hash["activation_function"] = self.activation_function.write_activation_str("out_ptr[c]")
             mustach_hash["specific_function"] = self.specific_function(
             f"f + {self.input_width}*(ii + {self.input_height}*jj)", output_str)
         else:
diff --git a/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl b/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
index e659dbf..e029734 100644
--- a/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
@@ -1,9 +1,5 @@
     // {{name}}_{{idx}}{{comment}} {{#channels_last}}HWC layout{{/channels_last}} {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
     {
-        {{#is_avgpool}}
-        // Calcul de l'aire inverse déplacé au début (invariant)
-        float inv_area = 1.0f / (float)({{pool_size}} * {{pool_size}});
-        {{/is_avgpool}}
         for (int oh = 0; oh < {{output_height}}; ++oh) {
             int temp_h_start = {{pad_top}} - oh * {{strides}};
             int kh_start = (0 > temp_h_start) ? 0 : temp_h_start;
@@ -17,12 +13,12 @@
                 
                 int temp_w_end = {{input_width}} + {{pad_left}} - ow * {{strides}};
                 int kw_end = ({{pool_size}} < temp_w_end) ? {{pool_size}} : temp_w_end;
-                float* out_ptr = &ctx->tensor_temp[(oh * {{output_width}} + ow) * {{input_channels}}];
+                __typeof__(ctx->tensor_temp[0])* out_ptr = &ctx->tensor_temp[(oh * {{output_width}} + ow) * {{input_channels}}];
 
                 // Initialize channel accumulators
                 for (int c = 0; c < {{input_channels}}; ++c) {
                     {{#is_maxpool}}out_ptr[c] = -INFINITY;{{/is_maxpool}}
-                    {{#is_avgpool}}out_ptr[c] = 0.0f;{{/is_avgpool}}
+                    {{#is_avgpool}}out_ptr[c] = 0;{{/is_avgpool}}
                 }
 
                 // Spatial window loops
@@ -31,7 +27,7 @@
                     for (int kw = kw_start; kw < kw_end; ++kw) {
                         int iw = ow * {{strides}} + kw - {{pad_left}};
                         
-                        const float* in_ptr = &ctx->{{output_str}}[(ih * {{input_width}} + iw) * {{input_channels}}];
+                        const __typeof__(ctx->tensor_temp[0])* in_ptr = &ctx->{{output_str}}[(ih * {{input_width}} + iw) * {{input_channels}}];
 
                         // Innermost Channel Loop 
                         for (int c = 0; c < {{input_channels}}; ++c) {
@@ -46,9 +42,10 @@
                 }
 
                 {{#is_avgpool}}
-                // Averaging
+                // Averaging over the values of the window that are not padding
+                const int nb_values = (kh_end - kh_start) * (kw_end - kw_start);
                 for (int c = 0; c < {{input_channels}}; ++c) {
-                    out_ptr[c] *= inv_area;
+                    out_ptr[c] /= nb_values;
                 }
                 {{/is_avgpool}}
                 {{#activation_function}}
-- 
2.43.0


From 355775de644f2bf4dd1d3ec18c7560e05a23801d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:25 +0000
Subject: [PATCH 31/72] fix: Python reference of grouped convolutions

---
 src/acetone_nnet/generator/layers/convolution/Conv2D.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2D.py b/src/acetone_nnet/generator/layers/convolution/Conv2D.py
index 7dd6987..f79799e 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2D.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2D.py
@@ -269,13 +269,16 @@ class Conv2D(Layer):
 
         extent_h = (self.kernel_h - 1) * self.dilation_rate + 1
         extent_w = (self.kernel_w - 1) * self.dilation_rate + 1
+        group_channels = self.input_channels // self.group
+        group_filters = self.nb_filters // self.group
         for f in range(self.nb_filters):
+            first_channel = (f // group_filters) * group_channels
             for i in range(self.output_height):
                 for j in range(self.output_width):
                     w = (
                         self.weights[f, :, :, :]
                         * input_padded[
-                            ::self.group,
+                            first_channel : first_channel + group_channels,
                             i * self.strides : i * self.strides + extent_h : self.dilation_rate,
                             j * self.strides : j * self.strides + extent_w : self.dilation_rate,
                         ]
-- 
2.43.0


From 206f39f33930be76b93ddfbc257e76db6c9e4b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:25 +0000
Subject: [PATCH 32/72] fix: direct_block convolutions (odd sizes, number of
 filters, text parameters, double precision)

---
 .../layers/convolution/Conv2Ddirect_block.py  | 20 +++++++++---
 src/acetone_nnet/generator/neural_network.py  |  5 ++-
 .../layers/Conv/template_Conv1x1_block.c.tpl  | 12 +++----
 .../Conv/template_Conv3x3_winograd.c.tpl      | 32 +++++++++----------
 .../layers/Conv/template_Conv_DW_HWC.c.tpl    |  8 ++---
 .../Conv/template_Conv_direct_block.c.tpl     |  8 ++---
 6 files changed, 49 insertions(+), 36 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
index f0473fa..9432646 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
@@ -31,11 +31,19 @@ import numpy as np
 class Conv2Ddirect_block(Conv2D):
     """Implements Conv2D using the six-loops algorithm (direct conv) with blocking of channels."""
 
+    def is_winograd(self: Self) -> bool:
+        """Tell whether the output is computed by tiles of two by two pixels."""
+        return (
+            self.kernel_h == 3 and self.kernel_w == 3
+            and self.strides == 1
+            and self.output_height % 2 == 0
+            and self.output_width % 2 == 0
+        )
+
     def transform_to_6d_blocked_layout(self):
         '''
         converts weight shape to layout dedicated to optimized template
         '''
-        even_image = self.input_width%2==0
         K, C, KH, KW = self.weights.shape
         assert C==self.input_channels//self.group
         assert K==self.nb_filters
@@ -49,7 +57,7 @@ class Conv2Ddirect_block(Conv2D):
             layout = layout.reshape(nb_k, self.block_k, C) #no bloc_c for 1x1 conv
             return layout.transpose(0, 2, 1).copy("C")
         #case winograd 3x3 stride 1
-        elif layout.shape[2]==3 and layout.shape[3]==3 and self.strides==1 and even_image:
+        elif self.is_winograd():
             w_orig = layout
             G = np.array([[1.0, 0.0, 0.0], [0.5, 0.5, 0.5], [0.5, -0.5, 0.5], [0.0, 0.0, 1.0]],dtype=np.float32)
             w_win = np.einsum('ij,okjl,ml->okim',G,layout,G,optimize=True)
@@ -64,9 +72,11 @@ class Conv2Ddirect_block(Conv2D):
         """Build a Convolution layer with 6 loops implementation."""
         super().__init__(**kwargs)
         #output channel block size for 3x3 <= 64, and for 1x1 <= 512
-        self.block_k = min(64,self.nb_filters) if self.weights.shape[-1]>1 else min(512,self.nb_filters)
+        max_block_k = 64 if self.weights.shape[-1]>1 else 512
+        self.block_k = max(k for k in range(1, min(max_block_k, self.nb_filters) + 1) if self.nb_filters % k == 0)
         self.block_c = self.input_channels
         self.layout = self.transform_to_6d_blocked_layout()
+        self.nb_weights = self.layout.size
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
@@ -107,10 +117,10 @@ class Conv2Ddirect_block(Conv2D):
         if self.nb_filters == self.input_channels and self.group == self.nb_filters:
             tpl = "template_Conv_DW_HWC.c.tpl"
         #case point wise
-        elif self.kernel_h==1 and self.kernel_w==1 and self.padding==1:
+        elif self.kernel_h==1 and self.kernel_w==1 and not any((self.pad_left, self.pad_right, self.pad_top, self.pad_bottom)):
             tpl = "template_Conv1x1_block.c.tpl"
         #case 3x3, stride 1, even size, winograd
-        elif self.kernel_h==3 and self.kernel_w==3 and self.strides==1 and self.input_width%2==0:
+        elif self.is_winograd():
             tpl = "template_Conv3x3_winograd.c.tpl"
         else:
             tpl = "template_Conv_direct_block.c.tpl"
diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 82ea89b..79b9477 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1181,7 +1181,10 @@ class CodeGenerator(ABC):
 
             if (w := getattr(layer, "weights", None)) is not None:
                 layer_hash["nb_weights"] = layer.nb_weights
-                layer_hash["weights"] = self.flatten_array_order_c(layer.weights)
+                weights = getattr(layer, "layout", None)
+                layer_hash["weights"] = self.flatten_array_order_c(
+                    weights if weights is not None else layer.weights,
+                )
 
             if isinstance(layer, ConstantLayer):
                 layer_hash["nb_weights"] = layer.constant.size
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv1x1_block.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv1x1_block.c.tpl
index 853061e..3f26bb3 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv1x1_block.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv1x1_block.c.tpl
@@ -3,10 +3,10 @@
      * Output channel [{{K}}] = [{{NB_BLOCK_K}}x{{BLOCK_K}}]
      * Stride: {{STRIDE}}
      */
-    for (int oh = 0; oh < {{H_in}} / {{STRIDE}}; ++oh) {
-        for (int ow = 0; ow < {{W_in}} / {{STRIDE}}; ++ow) {            
-            const float* restrict pixel_in = &ctx->{{output_str}}[(oh * {{STRIDE}} * {{W_in}} + ow * {{STRIDE}}) * {{C}}];
-            float* restrict o_ptr = &ctx->tensor_temp[(oh * ({{W_in}} / {{STRIDE}}) + ow) * {{K}}];
+    for (int oh = 0; oh < {{H_out}}; ++oh) {
+        for (int ow = 0; ow < {{W_out}}; ++ow) {            
+            const __typeof__(ctx->tensor_temp[0])* restrict pixel_in = &ctx->{{output_str}}[(oh * {{STRIDE}} * {{W_in}} + ow * {{STRIDE}}) * {{C}}];
+            __typeof__(ctx->tensor_temp[0])* restrict o_ptr = &ctx->tensor_temp[(oh * {{W_out}} + ow) * {{K}}];
 
             for (int ok_b = 0; ok_b < {{K}}; ok_b += {{BLOCK_K}}) {
                 
@@ -14,9 +14,9 @@
                     o_ptr[ok_b+k] = biases_{{name}}_{{idx}}[ok_b + k];
 
                 for (int ic = 0; ic < {{C}}; ++ic) {
-                    float val_in = pixel_in[ic];
+                    __typeof__(ctx->tensor_temp[0]) val_in = pixel_in[ic];
                     // Weights layout: [NB_BK][C][BK] = [{{NB_BLOCK_K}}][{{C}}][{{BLOCK_K}}]
-                    const float* restrict w_ptr = &weights_{{name}}_{{idx}}[(ok_b / {{BLOCK_K}}) * {{C}} * {{BLOCK_K}} + (ic * {{BLOCK_K}})];
+                    const __typeof__(ctx->tensor_temp[0])* restrict w_ptr = &weights_{{name}}_{{idx}}[(ok_b / {{BLOCK_K}}) * {{C}} * {{BLOCK_K}} + (ic * {{BLOCK_K}})];
                     #pragma omp simd
                     for (int k = 0; k < {{BLOCK_K}}; ++k)
                         o_ptr[ok_b+k] += val_in * w_ptr[k];
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl
index 151c83f..dbe956c 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl
@@ -7,29 +7,29 @@
     */
     for (int k_base = 0; k_base < {{K}}; k_base += {{BLOCK_K}}){
         /* Parcours direct de l'image par tuiles de 2x2 */
-        for (int oh = 0; oh < ({{H_out}} / 2) * 2; oh += 2){
-        for (int ow = 0; ow < ({{W_out}} / 2) * 2; ow += 2){
+        for (int oh = 0; oh < {{H_out}}; oh += 2){
+        for (int ow = 0; ow < {{W_out}}; ow += 2){
             /* Accumulateurs pour les 16 points du domaine Winograd sur BK canaux */
-            float acc[4][4][{{BLOCK_K}}] = {0};
+            __typeof__(ctx->tensor_temp[0]) acc[4][4][{{BLOCK_K}}] = {0};
 
             for (int ic = 0; ic < {{C}}; ic++) {
-                float d[4][4];
+                __typeof__(ctx->tensor_temp[0]) d[4][4];
                 
                 /* Chargement du bloc 4x4 d'entrée avec gestion du padding sans IF */
                 for(int r = 0; r < 4; ++r) {
                     int ih = oh + r - {{PAD}};
-                    const float* row_ptr = &ctx->{{output_str}}[ih * {{W_in}} * {{C}} + ic];
                     int valid_h = (ih >= 0 && ih < {{H_in}});
+                    const __typeof__(ctx->tensor_temp[0])* row_ptr = &ctx->{{output_str}}[(valid_h ? ih : 0) * {{W_in}} * {{C}} + ic];
                     
                     for(int c = 0; c < 4; ++c) {
                         int iw = ow + c - {{PAD}};
                         int valid_w = (iw >= 0 && iw < {{W_in}});
-                        d[r][c] = (valid_h & valid_w) ? row_ptr[iw * {{C}}] : 0.0f;
+                        d[r][c] = (valid_h & valid_w) ? row_ptr[iw * {{C}}] : 0;
                     }
                 }
 
                 /* 1. Transformation de l'entrée (Data Transform BT * d * B) */
-                float temp[4][4];
+                __typeof__(ctx->tensor_temp[0]) temp[4][4];
                 for(int i = 0; i < 4; i++) {
                     temp[0][i] = d[0][i] - d[2][i];
                     temp[1][i] = d[1][i] + d[2][i];
@@ -40,25 +40,25 @@
                 /* 2. Transformation horizontale + Multiplication + Accumulation */
                 for(int i = 0; i < 4; i++) {
                     {
-                        const float* __restrict w0 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 0)*{{C}} + ic)*{{BLOCK_K}}];
+                        const __typeof__(ctx->tensor_temp[0])* __restrict w0 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 0)*{{C}} + ic)*{{BLOCK_K}}];
                         for(int k = 0; k < {{BLOCK_K}}; k++) acc[i][0][k] += (temp[i][0] - temp[i][2]) * w0[k];
                     }
                     {
-                        const float* __restrict w1 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 1)*{{C}} + ic)*{{BLOCK_K}}];
+                        const __typeof__(ctx->tensor_temp[0])* __restrict w1 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 1)*{{C}} + ic)*{{BLOCK_K}}];
                         for(int k = 0; k < {{BLOCK_K}}; k++) acc[i][1][k] += (temp[i][1] + temp[i][2]) * w1[k];
                     }
                     {
-                        const float* __restrict w2 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 2)*{{C}} + ic)*{{BLOCK_K}}];
+                        const __typeof__(ctx->tensor_temp[0])* __restrict w2 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 2)*{{C}} + ic)*{{BLOCK_K}}];
                         for(int k = 0; k < {{BLOCK_K}}; k++) acc[i][2][k] += (temp[i][2] - temp[i][1]) * w2[k];
                     }
                     {
-                        const float* __restrict w3 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 3)*{{C}} + ic)*{{BLOCK_K}}];
+                        const __typeof__(ctx->tensor_temp[0])* __restrict w3 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 3)*{{C}} + ic)*{{BLOCK_K}}];
                         for(int k = 0; k < {{BLOCK_K}}; k++) acc[i][3][k] += (temp[i][1] - temp[i][3]) * w3[k];
                     }
                 }
             }
 
-            float m_temp[2][4][{{BLOCK_K}}] __attribute__((aligned(64)));
+            __typeof__(ctx->tensor_temp[0]) m_temp[2][4][{{BLOCK_K}}] __attribute__((aligned(64)));
             /* 3. Transformation de sortie (AT * M * A) + Biais + Activation */
             for (int k = 0; k < {{BLOCK_K}}; k++) {
                 m_temp[0][0][k] = acc[0][0][k] + acc[1][0][k] + acc[2][0][k];
@@ -72,22 +72,22 @@
 
             }
             {
-                float *restrict o_ptr = &ctx->tensor_temp[((oh + 0) * {{W_out}} + (ow + 0)) * {{K}} + k_base];
+                __typeof__(ctx->tensor_temp[0]) *restrict o_ptr = &ctx->tensor_temp[((oh + 0) * {{W_out}} + (ow + 0)) * {{K}} + k_base];
                 for (int k = 0; k < {{BLOCK_K}}; k++)
                     o_ptr[k] = m_temp[0][0][k] + m_temp[0][1][k] + m_temp[0][2][k] + biases_{{name}}_{{idx}}[k_base + k];
             }
             {    
-                float *restrict o_ptr = &ctx->tensor_temp[((oh + 0) * {{W_out}} + (ow + 1)) * {{K}} + k_base];
+                __typeof__(ctx->tensor_temp[0]) *restrict o_ptr = &ctx->tensor_temp[((oh + 0) * {{W_out}} + (ow + 1)) * {{K}} + k_base];
                 for (int k = 0; k < {{BLOCK_K}}; k++)
                     o_ptr[k] = m_temp[0][1][k] - m_temp[0][2][k] - m_temp[0][3][k] + biases_{{name}}_{{idx}}[k_base + k];
             }
             {
-                float *restrict o_ptr = &ctx->tensor_temp[((oh + 1) * {{W_out}} + (ow + 0)) * {{K}} + k_base];
+                __typeof__(ctx->tensor_temp[0]) *restrict o_ptr = &ctx->tensor_temp[((oh + 1) * {{W_out}} + (ow + 0)) * {{K}} + k_base];
                 for (int k = 0; k < {{BLOCK_K}}; k++)
                     o_ptr[k] = m_temp[1][0][k] + m_temp[1][1][k] + m_temp[1][2][k] + biases_{{name}}_{{idx}}[k_base + k];
             }
             {    
-                float *restrict o_ptr = &ctx->tensor_temp[((oh + 1) * {{W_out}} + (ow + 1)) * {{K}} + k_base];
+                __typeof__(ctx->tensor_temp[0]) *restrict o_ptr = &ctx->tensor_temp[((oh + 1) * {{W_out}} + (ow + 1)) * {{K}} + k_base];
                 for (int k = 0; k < {{BLOCK_K}}; k++)
                     o_ptr[k] = m_temp[1][1][k] - m_temp[1][2][k] - m_temp[1][3][k] + biases_{{name}}_{{idx}}[k_base + k];
             }        
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_DW_HWC.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_DW_HWC.c.tpl
index 8e155e6..4e56311 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_DW_HWC.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_DW_HWC.c.tpl
@@ -12,10 +12,10 @@
 
         for (int ow = 0; ow < {{W_out}}; ++ow) {
             // Accès direct avec restrict pour l'écriture
-            float * restrict out_ptr = (float * restrict)&ctx->tensor_temp[(oh * {{W_out}} * {{K}}) + (ow * {{K}})];
+            __typeof__(ctx->tensor_temp[0]) * restrict out_ptr = (__typeof__(ctx->tensor_temp[0]) * restrict)&ctx->tensor_temp[(oh * {{W_out}} * {{K}}) + (ow * {{K}})];
             #pragma omp simd
             for (int k = 0; k < {{K}}; ++k) {
-                out_ptr[k] = ((const float * restrict)biases_{{name}}_{{idx}})[k];
+                out_ptr[k] = ((const __typeof__(ctx->tensor_temp[0]) * restrict)biases_{{name}}_{{idx}})[k];
             }
 
             const int w_start_idx = ow * {{STRIDE}} - {{PAD}};
@@ -26,8 +26,8 @@
                 const int ih = h_start_idx + kh;
                 for (int kw = kw_start; kw < kw_end; ++kw) {
                     const int iw = w_start_idx + kw;
-                    const float * restrict in_ptr = (const float * restrict)&ctx->{{output_str}}[(ih * {{W_in}} * {{K}}) + (iw * {{K}})];
-                    const float * restrict w_ptr  = (const float * restrict)&weights_{{name}}_{{idx}}[(kh * {{KW}} * {{K}}) + (kw * {{K}})];
+                    const __typeof__(ctx->tensor_temp[0]) * restrict in_ptr = (const __typeof__(ctx->tensor_temp[0]) * restrict)&ctx->{{output_str}}[(ih * {{W_in}} * {{K}}) + (iw * {{K}})];
+                    const __typeof__(ctx->tensor_temp[0]) * restrict w_ptr  = (const __typeof__(ctx->tensor_temp[0]) * restrict)&weights_{{name}}_{{idx}}[(kh * {{KW}} * {{K}}) + (kw * {{K}})];
 
                     #pragma omp simd
                     for (int k = 0; k < {{K}}; ++k) {
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_direct_block.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_direct_block.c.tpl
index 6994e7c..228044a 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_direct_block.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_direct_block.c.tpl
@@ -14,7 +14,7 @@
                 const int kw_s = ({{PAD}} - ow * {{STRIDE}} > 0) ? ({{PAD}} - ow * {{STRIDE}}) : 0;
                 const int kw_e = ({{KW}} < ({{W_in}} + {{PAD}} - ow * {{STRIDE}})) ? {{KW}} : ({{W_in}} + {{PAD}} - ow * {{STRIDE}});
                 
-                float* restrict o_ptr = &ctx->tensor_temp[(oh * {{W_out}} * {{K}}) + (ow * {{K}}) + k_base];
+                __typeof__(ctx->tensor_temp[0])* restrict o_ptr = &ctx->tensor_temp[(oh * {{W_out}} * {{K}}) + (ow * {{K}}) + k_base];
                 for (int k = 0; k < {{BLOCK_K}}; ++k) 
                     o_ptr[k] = biases_{{name}}_{{idx}}[k_base + k];
 
@@ -24,10 +24,10 @@
                         const int ih = oh * {{STRIDE}} - {{PAD}} + kh;
                         for (int kw = kw_s; kw < kw_e; ++kw) {
                             const int iw = ow * {{STRIDE}} - {{PAD}} + kw;
-                            const float* restrict i_ptr = &ctx->{{output_str}}[(ih * {{W_in}} + iw) * {{BLOCK_C}}*{{NB_BLOCK_C}} + c_base];
-                            const float* restrict w_ptr_base = &weights_{{name}}_{{idx}}[((((bk * {{NB_BLOCK_C}} + bc) * {{KH}} + kh) * {{KW}} + kw) * {{BLOCK_C}} * {{BLOCK_K}})];
+                            const __typeof__(ctx->tensor_temp[0])* restrict i_ptr = &ctx->{{output_str}}[(ih * {{W_in}} + iw) * {{BLOCK_C}}*{{NB_BLOCK_C}} + c_base];
+                            const __typeof__(ctx->tensor_temp[0])* restrict w_ptr_base = &weights_{{name}}_{{idx}}[((((bk * {{NB_BLOCK_C}} + bc) * {{KH}} + kh) * {{KW}} + kw) * {{BLOCK_C}} * {{BLOCK_K}})];
                             for (int c = 0; c < {{BLOCK_C}}; ++c) {
-                                float iv = i_ptr[c];
+                                __typeof__(ctx->tensor_temp[0]) iv = i_ptr[c];
                                 #pragma omp simd
                                 for (int k = 0; k < {{BLOCK_K}}; ++k) 
                                     o_ptr[k] += iv * w_ptr_base[c * {{BLOCK_K}} + k];
-- 
2.43.0


From 8188afe43ca5403345f3ee0cb1eca7c055aa3438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:24 +0000
Subject: [PATCH 33/72] fix: reject layers without implementation for the
 layout of the tensors, layout of the output of an activation layer

---
 src/acetone_nnet/generator/neural_network.py | 17 ++--
 src/acetone_nnet/graph/layout.py             | 82 ++++++++++++++++++++
 2 files changed, 92 insertions(+), 7 deletions(-)
 create mode 100644 src/acetone_nnet/graph/layout.py

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 79b9477..a915f6f 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -47,6 +47,7 @@ from typing_extensions import Self
 
 from acetone_nnet import templates
 from acetone_nnet.graph.graph_interpretor import allocate
+from acetone_nnet.graph.layout import check_layout, tensor_shape
 from acetone_nnet.importers.parser import parser
 from acetone_nnet.pattern_matching.PatternMatcher import pattern_matcher
 from acetone_nnet.quantize import qform
@@ -202,6 +203,7 @@ class CodeGenerator(ABC):
         }
         self.versions = self.select_layers_implementation(versions)
         self.layers = versioning(self.layers, self.versions)
+        check_layout(self.layers, self.gen_data_format)
 
         self.quantize_layers()
 
@@ -576,9 +578,9 @@ class CodeGenerator(ABC):
                 nn_output = layer_output
 
                 # Write results in text files to compare prediction.
-                if (self.data_format == "channels_last") and hasattr(
-                    layer,
-                    "output_channels",
+                if (
+                    self.data_format == "channels_last"
+                    and tensor_shape(layer) is not None
                 ):
                     nn_output = np.transpose(nn_output, (1, 2, 0))
                 nn_output = np.reshape(nn_output, -1)
@@ -937,10 +939,11 @@ class CodeGenerator(ABC):
 
         # Generate code to output graph data
         output_hash = {"path": self.layers[-1].path}
-        if hasattr(self.layers[-1], "output_channels"):
-            output_hash["output_height"] = self.layers[-1].output_height
-            output_hash["output_width"] = self.layers[-1].output_width
-            output_hash["output_channels"] = self.layers[-1].output_channels
+        output_shape = tensor_shape(self.layers[-1])
+        if output_shape is not None:
+            output_hash["output_channels"] = output_shape[0]
+            output_hash["output_height"] = output_shape[1]
+            output_hash["output_width"] = output_shape[2]
             if (self.data_format == "channels_first") and (self.gen_data_format=="channels_last"):
                 output_hash["channels_last_to_first"] = True
             elif (self.data_format == "channels_last") and (self.gen_data_format=="channels_first"):
diff --git a/src/acetone_nnet/graph/layout.py b/src/acetone_nnet/graph/layout.py
new file mode 100644
index 0000000..cf770ed
--- /dev/null
+++ b/src/acetone_nnet/graph/layout.py
@@ -0,0 +1,82 @@
+"""Memory layout of the tensors exchanged between layers.
+
+*******************************************************************************
+* ACETONE: Predictable programming framework for ML applications in safety-critical systems
+* Copyright (c) 2022. ONERA
+* This file is part of ACETONE
+*
+* ACETONE is free software ;
+* you can redistribute it and/or modify it under the terms of the GNU Lesser General Public
+* License as published by the Free Software Foundation ;
+* either version 3 of  the License, or (at your option) any later version.
+*
+* ACETONE is distributed in the hope that it will be useful, but WITHOUT ANY WARRANTY ;
+* without even the implied warranty of MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.
+* See the GNU Lesser General Public License for more details.
+*
+* You should have received a copy of the GNU Lesser General Public License along with this program ;
+* if not, write to the Free Software Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA 02111-1307  USA
+******************************************************************************
+"""
+
+from acetone_nnet.generator.layers import (
+    ActivationLayer,
+    Broadcast,
+    InputLayer,
+    Pooling2D,
+)
+from acetone_nnet.generator.layers.convolution.Conv2Ddirect_block import (
+    Conv2Ddirect_block,
+)
+from acetone_nnet.ir import Layer
+
+
+def tensor_shape(layer: Layer) -> tuple[int, int, int] | None:
+    """Give the channels, height and width of the output, if it has any."""
+    while isinstance(layer, ActivationLayer):
+        layer = layer.previous_layer[0]
+    if isinstance(layer, InputLayer):
+        return tuple(layer.input_shape[1:]) if len(layer.input_shape) == 4 else None
+    if hasattr(layer, "output_channels"):
+        return (layer.output_channels, layer.output_height, layer.output_width)
+    return None
+
+
+def is_layout_free(shape: tuple[int, int, int] | None) -> bool:
+    """Tell whether a tensor is stored in the same way in all layouts."""
+    return shape is None or shape[0] == 1 or shape[1] * shape[2] == 1
+
+
+def supports_layout(layer: Layer, layout: str) -> bool:
+    """Tell whether the code of a layer is right when tensors have this layout."""
+    inputs = [tensor_shape(p) for p in layer.previous_layer]
+    if all(map(is_layout_free, [*inputs, tensor_shape(layer)])):
+        return True
+    if isinstance(layer, InputLayer | ActivationLayer):
+        return True
+    is_channels_last = (
+        isinstance(layer, Conv2Ddirect_block)
+        or (isinstance(layer, Pooling2D) and layer.version == "channels_last")
+    )
+    if layout == "channels_first":
+        return not is_channels_last
+    if is_channels_last:
+        return inputs == [(layer.input_channels, layer.input_height, layer.input_width)]
+    if isinstance(layer, Broadcast):
+        return (
+            all(shape == tensor_shape(layer) for shape in inputs)
+            and (layer.constant is None or layer.constant_size == 1)
+        )
+    return False
+
+
+def check_layout(layers: list[Layer], layout: str) -> None:
+    """Reject the layers whose code doesn't handle the layout of the tensors."""
+    for layer in layers:
+        if not supports_layout(layer, layout):
+            msg = (
+                f"Error: layer {layer.name} {layer.idx} (implementation "
+                f"{getattr(layer, 'version', None) or getattr(layer, 'conv_algorithm', None)}) "
+                f"isn't implemented for tensors in {layout}"
+            )
+            raise NotImplementedError(msg)
-- 
2.43.0


From 354b3beed16b35142771edba8a933bf59e1eb1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:35 +0000
Subject: [PATCH 34/72] fix: binary parameters and dataset (element type,
 constants of broadcasting operators, networks without parameters)

---
 src/acetone_nnet/generator/neural_network.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index a915f6f..2451a1f 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -666,7 +666,8 @@ class CodeGenerator(ABC):
         """Generate C code for graph test dataset."""
         if self.bin_dataset:
             with Path.open(output_dir / "test_dataset.dat", "w+") as test_dataset_bin:
-                self.test_dataset.copy("C").tofile(test_dataset_bin)
+                dataset = np.asarray(self.test_dataset).astype(self.data_type_py)
+                dataset.copy("C").tofile(test_dataset_bin)
         elif not self.read_ext_input:
             # Generate test source file
             dataset = "{"
@@ -1159,6 +1160,9 @@ class CodeGenerator(ABC):
                 symtab[f"var_{layer.name}_{layer.idx:02d}"] = layer.var
                 symtab[f"scale_{layer.name}_{layer.idx:02d}"] = layer.scale
 
+            if issubclass(type(layer), Broadcast) and layer.constant is not None:
+                symtab[f"constant_{layer.name}_{layer.idx:02d}"] = layer.constant
+
         def align_up(value, alignment):
             return (value + (alignment - 1)) & ~(alignment - 1)
 
@@ -1168,7 +1172,12 @@ class CodeGenerator(ABC):
                 #print(f"{s} {symtab[s].shape} {symtab[s].dtype}")
                 parameters_bin.seek(align_up(parameters_bin.tell(),self.target_page_size),0)
                 self.symtab += f"--add-symbol {s}=.rodata:{parameters_bin.tell()} "
-                symtab[s].tofile(parameters_bin)
+                # Values are stored in the type of the C array (positions are int)
+                ctype = np.int32 if s.startswith("ppatches_") else self.data_type_py
+                np.asarray(symtab[s]).astype(ctype).tofile(parameters_bin)
+            if not symtab:
+                # objcopy rejects empty files
+                parameters_bin.write("\0")
         logging.info("Generated parameter .dat file.")
 
     def generate_parameter_file(self: Self, output_dir: Path) -> None:
-- 
2.43.0


From 571be063ed0dc8642de36e629fad9b8464209ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 35/72] fix: test inputs read from a file at run time
 (external_input)

---
 src/acetone_nnet/generator/neural_network.py         | 12 +++++++++++-
 src/acetone_nnet/templates/template_main_file.c.tpl  |  6 +++++-
 .../templates/template_test_dataset_header.c.tpl     |  2 +-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 2451a1f..8ff6d81 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -486,7 +486,6 @@ class CodeGenerator(ABC):
             dataset = self._initialise_dataset(
                 dataset_or_path=dataset_or_path,
                 nb_tests=self.nb_tests,
-                data_type=self.data_type_py,
             )
         else:
             dataset = self.test_dataset
@@ -707,11 +706,22 @@ class CodeGenerator(ABC):
                             if np.issubdtype(self.data_type_py, np.integer)
                             else "%a" if self.to_hex else "%9g"
                         ),
+                        "scan_format": self._get_scan_format(),
                     },
                 ),
             )
         logging.info("Generated main file.")
 
+    def _get_scan_format(self) -> str:
+        """Get the conversion reading a value of the inputs in a text file."""
+        dtype = np.dtype(self.data_type_py)
+        if self.data_type == "long int":
+            return "%ld"
+        if np.issubdtype(dtype, np.integer):
+            length = {1: "hh", 2: "h", 4: "", 8: "ll"}[dtype.itemsize]
+            return f"%{length}d"
+        return "%lf" if self.data_type == "double" else "%f"
+
     def _get_makefile_properties(self) -> dict[str, str | list[str]]:
         """Get makefile properties."""
         return {
diff --git a/src/acetone_nnet/templates/template_main_file.c.tpl b/src/acetone_nnet/templates/template_main_file.c.tpl
index 2fe02ca..cf1f275 100644
--- a/src/acetone_nnet/templates/template_main_file.c.tpl
+++ b/src/acetone_nnet/templates/template_main_file.c.tpl
@@ -14,6 +14,10 @@
 {{/min}}
 
 struct timeval GetTimeStamp();
+{{#read_input}}
+
+{{data_type}} nn_test_inputs[nb_samples][nn_input_size];
+{{/read_input}}
 
 int main(int argc, char** argv)
 {
@@ -29,7 +33,7 @@ int main(int argc, char** argv)
     {
         for (j = 0; j < nn_input_size; ++j)
         {
-            fscanf(input_file, "%f", &nn_test_inputs[i][j]);
+            fscanf(input_file, "{{scan_format}}", &nn_test_inputs[i][j]);
         }
     }
     fclose(input_file);
diff --git a/src/acetone_nnet/templates/template_test_dataset_header.c.tpl b/src/acetone_nnet/templates/template_test_dataset_header.c.tpl
index ac70931..6e5d090 100644
--- a/src/acetone_nnet/templates/template_test_dataset_header.c.tpl
+++ b/src/acetone_nnet/templates/template_test_dataset_header.c.tpl
@@ -5,6 +5,6 @@
 #define nn_input_size {{nb_inputs}}
 #define nn_output_size {{nb_outputs}}
 
-{{^read_input}}extern{{/read_input}} {{data_type}} nn_test_inputs[nb_samples][nn_input_size];
+extern {{data_type}} nn_test_inputs[nb_samples][nn_input_size];
 
 #endif
\ No newline at end of file
-- 
2.43.0


From b94fd0927eb318cf791c77295be78c6dde0775c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:04 +0000
Subject: [PATCH 36/72] fix: test datasets (size of the samples, number of
 samples of a file, numbers in text files, element type)

---
 src/acetone_nnet/generator/neural_network.py | 24 +++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 8ff6d81..c00966e 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -401,12 +401,20 @@ class CodeGenerator(ABC):
                         dtype=self.data_type_py,
                     )
             case np.ndarray() as dataset:
-                d = dataset
+                d = dataset.astype(self.data_type_py)
                 self.nb_tests = dataset.shape[0]
             case Path() | str() as path:
                 d = self._load_dataset(Path(path), self.data_type_py, nb_tests)
+                self.nb_tests = len(d)
             case _:
                 raise ValueError
+        for sample in d:
+            if np.size(sample) != int(self.layers[0].size):
+                msg = (
+                    f"Error: test dataset.\n A sample has {np.size(sample)} values,"
+                    f" the input of the model {self.layers[0].size}"
+                )
+                raise ValueError(msg)
         return d
 
     def _load_dataset(
@@ -421,16 +429,15 @@ class CodeGenerator(ABC):
         of values surrounded by [ and ] delimiters.
 
         """
-        test_dataset: list[list[np.number]] = []
+        test_dataset: list[list[float]] = []
         with path.open() as f:
             # FIXME This returns at least one array of values even if nb_tests is 0.DONE
             for i, line in enumerate(f):
                 if i >= nb_tests:
                     break
                 contents = json.loads(line)
-                contents = [self.c2data(c) for c in contents]
-                test_dataset.append(list(map(dtype, contents)))
-        return np.array(test_dataset)
+                test_dataset.append([self.c2data(c) for c in contents])
+        return np.array(test_dataset, dtype=dtype)
 
     def get_input_shape(self: Self) -> list[int]:
         """Return the input shape of the model."""
@@ -599,12 +606,17 @@ class CodeGenerator(ABC):
     def data2c(self, d):
         if np.issubdtype(self.data_type_py, np.integer):
             return str(d)
+        if not np.isfinite(d):
+            # Macros of math.h
+            return "NAN" if np.isnan(d) else "INFINITY" if d > 0 else "-INFINITY"
         if self.to_hex:
             return float.hex(float(d)).replace("0000000p", "p")
         return str(float(d))
 
     def c2data(self, c):
-        return float.fromhex(c) if self.to_hex else float(c)
+        if self.to_hex and isinstance(c, str):
+            return float.fromhex(c)
+        return float(c)
 
     def flatten_array_order_c(self: Self, array: np.ndarray) -> str:
         """Generate C flat array initializer in C order."""
-- 
2.43.0


From cab8ab53a167262405d48113155b6ba0404407ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 37/72] fix: infinite and NaN constants in the generated code

---
 .../layers/padding/constant_pad/ConstantPadDefault.py     | 8 +++++++-
 src/acetone_nnet/templates/template_parameter_file.c.tpl  | 1 +
 .../templates/template_test_dataset_source.c.tpl          | 1 +
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/padding/constant_pad/ConstantPadDefault.py b/src/acetone_nnet/generator/layers/padding/constant_pad/ConstantPadDefault.py
index ea0a564..9de09ae 100644
--- a/src/acetone_nnet/generator/layers/padding/constant_pad/ConstantPadDefault.py
+++ b/src/acetone_nnet/generator/layers/padding/constant_pad/ConstantPadDefault.py
@@ -19,6 +19,7 @@
 ******************************************************************************
 """
 
+import numpy as np
 import pystache
 from typing_extensions import Self
 
@@ -63,7 +64,12 @@ class ConstantPadDefault(ConstantPad):
         mustach_hash["height_without_pads_bottom"] = self.output_height - self.pads[6]
         mustach_hash["pads_left"] = self.pads[3]
         mustach_hash["width_without_pads_right"] = self.output_width - self.pads[7]
-        mustach_hash["constant"] = self.constant_value
+        value = float(self.constant_value)
+        mustach_hash["constant"] = (
+            self.constant_value
+            if np.isfinite(value)
+            else "NAN" if np.isnan(value) else "INFINITY" if value > 0 else "-INFINITY"
+        )
         mustach_hash["input_width"] = self.input_shape[3]
         mustach_hash["input_height"] = self.input_shape[2]
 
diff --git a/src/acetone_nnet/templates/template_parameter_file.c.tpl b/src/acetone_nnet/templates/template_parameter_file.c.tpl
index b3685f1..2ddccf6 100644
--- a/src/acetone_nnet/templates/template_parameter_file.c.tpl
+++ b/src/acetone_nnet/templates/template_parameter_file.c.tpl
@@ -1,3 +1,4 @@
+#include <math.h>
 #include "inference.h"
 
 {{#layers}}
diff --git a/src/acetone_nnet/templates/template_test_dataset_source.c.tpl b/src/acetone_nnet/templates/template_test_dataset_source.c.tpl
index d37275f..0f30f69 100644
--- a/src/acetone_nnet/templates/template_test_dataset_source.c.tpl
+++ b/src/acetone_nnet/templates/template_test_dataset_source.c.tpl
@@ -1,3 +1,4 @@
+#include <math.h>
 #include "test_dataset.h"
 
 {{data_type}} nn_test_inputs[nb_samples][nn_input_size] = {{dataset}}
\ No newline at end of file
-- 
2.43.0


From 8905955569a5bce911433664484ec5964d91d3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 38/72] fix: normalization overwrote the inputs of the caller

---
 .../templates/normalization/template_pre_processing.c.tpl | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl b/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl
index 12419d3..4f5f587 100644
--- a/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl
+++ b/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl
@@ -1,18 +1,20 @@
     // pre-processing for the normalization
+    float normalized_input[{{input_size}}];
     for (i = 0; i < {{input_size}}; ++i) 
     { 
         if ( nn_input[i] < input_min[i]){
-            nn_input[i] = (input_min[i]-input_mean[i])/input_range[i];
+            normalized_input[i] = (input_min[i]-input_mean[i])/input_range[i];
         }
         else
         {
             if (nn_input[i] > input_max[i]){
-                nn_input[i] = (input_max[i]-input_mean[i])/input_range[i];
+                normalized_input[i] = (input_max[i]-input_mean[i])/input_range[i];
             }
             else
             {
-                nn_input[i] = (nn_input[i]-input_mean[i])/input_range[i];
+                normalized_input[i] = (nn_input[i]-input_mean[i])/input_range[i];
             }
         }
     }
+    nn_input = normalized_input;
     
\ No newline at end of file
-- 
2.43.0


From 5d15ecd01cf93809f13beec084a4cf733d4a2f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:32 +0000
Subject: [PATCH 39/72] fix: documented form of custom_generation_functions,
 element type of batch_loop

---
 src/acetone_nnet/generator/neural_network.py        | 13 ++++++++-----
 .../templates/template_train_hook_file.c.tpl        |  2 +-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index c00966e..ce3b50b 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -321,11 +321,14 @@ class CodeGenerator(ABC):
                 lambda s,path: s.generate_target_header_file(path),
             ]
 
-        for k in custom_generation_functions:
-            name, generation_function = custom_generation_functions.get(k, ("", []))
-            if generation_function:
-                file_names.append(name)
-                generation_functions[k] = generation_function
+        for k, functions in custom_generation_functions.items():
+            if isinstance(functions, tuple):
+                # A file and the functions generating it
+                name, generators = functions
+                functions = [(name, f) for f in generators]
+            if functions:
+                file_names.extend(dict.fromkeys(name for name, _ in functions))
+                generation_functions[k] = [function for _, function in functions]
 
         return file_names, generation_functions
 
diff --git a/src/acetone_nnet/templates/template_train_hook_file.c.tpl b/src/acetone_nnet/templates/template_train_hook_file.c.tpl
index 7bbd6a5..22c8202 100644
--- a/src/acetone_nnet/templates/template_train_hook_file.c.tpl
+++ b/src/acetone_nnet/templates/template_train_hook_file.c.tpl
@@ -4,7 +4,7 @@
 #include "inference.h"
 #include "test_dataset.h"
 
-void batch_loop(float * restrict predictions, float * restrict nn_input, int batch_size)
+void batch_loop({{data_type}} * restrict predictions, {{data_type}} * restrict nn_input, int batch_size)
 {
     int i,j;
     for (j = 0; j < batch_size; j+=MAX_BATCH_SIZE){
-- 
2.43.0


From 740f1cd342cd9878b7ee756687b5199bb5e276b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:02 +0000
Subject: [PATCH 40/72] fix: debug mode of the generated code

---
 src/acetone_nnet/templates/template_source_file.c.tpl | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/templates/template_source_file.c.tpl b/src/acetone_nnet/templates/template_source_file.c.tpl
index 33ff6de..fdb72b9 100644
--- a/src/acetone_nnet/templates/template_source_file.c.tpl
+++ b/src/acetone_nnet/templates/template_source_file.c.tpl
@@ -17,7 +17,7 @@ unsigned long long int start, end, difference;
 
 int inference(inference_t *ctx, {{data_type}} prediction[{{output_size}}], {{data_type}} nn_input[{{input_size}}]){
     {{#debug_file}}
-    FILE *fp = fopen("{{debug_file}}", "w+");
+    FILE *fp = fopen("{{{debug_file}}}", "w+");
 
     {{/debug_file}}
     {{#time}}
@@ -100,7 +100,7 @@ int inference(inference_t *ctx, {{data_type}} prediction[{{output_size}}], {{dat
     fprintf(fp, "{{name}} {{idx}} {{to_transpose}} {{channels}} {{height}} {{width}}\n");
     for (k = 0; k < {{size}}; ++k)
     {
-        fprintf(fp,"%.9g ", output_{{path}}[k]);
+        fprintf(fp,"%.17g ", (double)ctx->output_{{path}}[k]);
         if (k == {{size}} - 1)
         {
             fprintf(fp, "\n");
@@ -130,5 +130,8 @@ int inference(inference_t *ctx, {{data_type}} prediction[{{output_size}}], {{dat
 
 
 {{{post_processing}}}
+{{#debug_file}}
+    fclose(fp);
+{{/debug_file}}
     return 0;
 }
\ No newline at end of file
-- 
2.43.0


From 465a6374bba6677fed01f71de8ededb636c875dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:44 +0000
Subject: [PATCH 41/72] fix: constant operands of Concat

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index e468d16..065b21f 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -182,6 +182,9 @@ def get_shape(
                 output.type.tensor_type.shape.dim[i].dim_value
                 for i in range(len(output.type.tensor_type.shape.dim))
             ]
+    for initializer in model.graph.initializer:
+        if shape_name == initializer.name:
+            shape = list(initializer.dims)
     for i in range(len(shape)):
         if shape[i] == 0 or shape[i] is None:
             shape[i] = 1
-- 
2.43.0


From 212510331f6f443bfc23fc2d12b738e2765f3e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:37 +0000
Subject: [PATCH 42/72] fix: Flatten layer read a wrong buffer

Flatten copied from and to the buffer of its own path, in place, for
channels_last; it now copies the value of its predecessor, in both layouts.
---
 .../layers/flatten/FlattenDefault.py          | 24 +++++++++----------
 .../templates/layers/template_Flatten.c.tpl   | 12 +++++++---
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/flatten/FlattenDefault.py b/src/acetone_nnet/generator/layers/flatten/FlattenDefault.py
index a619314..8acc92d 100644
--- a/src/acetone_nnet/generator/layers/flatten/FlattenDefault.py
+++ b/src/acetone_nnet/generator/layers/flatten/FlattenDefault.py
@@ -37,18 +37,18 @@ class FlattenDefault(Flatten):
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
-        mustach_hash = {}
-
-        if self.data_format == "channels_last":
-            mustach_hash["channels_last"] = True
-            mustach_hash["input_channels"] = self.input_shape[1]
-            mustach_hash["input_height"] = self.input_shape[2]
-            mustach_hash["input_width"] = self.input_shape[3]
-            mustach_hash["name"] = self.name
-            mustach_hash["original_name"] = self.original_name
-            mustach_hash["idx"] = f"{self.idx:02d}"
-            mustach_hash["path"] = self.path
-            mustach_hash["size"] = self.size
+        mustach_hash = {
+            "channels_last": self.data_format == "channels_last",
+            "input_channels": self.input_shape[1],
+            "input_height": self.input_shape[2],
+            "input_width": self.input_shape[3],
+            "name": self.name,
+            "original_name": self.original_name,
+            "idx": f"{self.idx:02d}",
+            "path": self.path,
+            "size": self.size,
+            "output_str": self.previous_layer[0].output_str,
+        }
 
         with open(self.template_path / "layers" / "template_Flatten.c.tpl") as template_file:
             template = template_file.read()
diff --git a/src/acetone_nnet/templates/layers/template_Flatten.c.tpl b/src/acetone_nnet/templates/layers/template_Flatten.c.tpl
index c0d2587..8d51caa 100644
--- a/src/acetone_nnet/templates/layers/template_Flatten.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Flatten.c.tpl
@@ -1,5 +1,5 @@
-{{#channels_last}}
     //{{name}}_{{idx}}  {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
+{{#channels_last}}
     // To transforme the tensor in channels_last before entering the 1D layers
     for(f = 0; f < {{input_channels}}; ++f)
     {
@@ -7,7 +7,7 @@
         {
             for (j = 0; j < {{input_width}};  ++j)
             {
-                ctx->tensor_temp[(i*{{input_width}} + j)*{{input_channels}} + f] = ctx->output_{{path}}[(f*{{input_height}} + i)*{{input_width}} + j];
+                ctx->tensor_temp[(i*{{input_width}} + j)*{{input_channels}} + f] = ctx->{{output_str}}[(f*{{input_height}} + i)*{{input_width}} + j];
             }
         }
     }
@@ -15,4 +15,10 @@
     {
         ctx->output_{{path}}[k] = ctx->tensor_temp[k];
     }
-{{/channels_last}}
\ No newline at end of file
+{{/channels_last}}
+{{^channels_last}}
+    for (k = 0; k < {{size}}; ++k)
+    {
+        ctx->output_{{path}}[k] = ctx->{{output_str}}[k];
+    }
+{{/channels_last}}
-- 
2.43.0


From a68ba21ffa1113082657e590b49b92a3a1bdf43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:37 +0000
Subject: [PATCH 43/72] fix: JSON importer: layers computed wrongly or not at
 all

Kernel of Conv2D [C,H,W,F] taken as [F,C,H,W], groups ignored, InputLayer not
constructible, BatchNormalization dropped, indexes shifted by Softmax, negative
axis; what is not supported (non-square strides, ...) is refused.
---
 .../importers/JSON_importer/parser_JSON.py    | 138 +++++++++++-------
 1 file changed, 88 insertions(+), 50 deletions(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 378d7e6..295237f 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -53,6 +53,7 @@ from acetone_nnet.generator import (
     TanH,
 )
 from acetone_nnet.graph import graph_interpretor
+from acetone_nnet.graph.layout import is_layout_free
 from acetone_nnet.ir import Layer
 
 
@@ -88,6 +89,22 @@ def create_resize_obj(
     raise ValueError("Error: resize mode " + mode + " not implemented")
 
 
+def extend_shape(shape: list) -> list:
+    """Complete a shape to four dimensions; apply to each shape of a list."""
+    if any(isinstance(s, list) for s in shape):
+        return [extend_shape(s) for s in shape]
+    return [shape[0], *[1] * (4 - len(shape)), *shape[1:]]
+
+
+def get_square_value(config: dict, name: str) -> int:
+    """Read an attribute which must be the same in both directions."""
+    first, second = config[name]
+    if first != second:
+        msg = f"Error: {name} {config[name]} of layer {config['name']} not supported (must be equal)"
+        raise ValueError(msg)
+    return first
+
+
 def load_json(
     file_to_parse: str | Path,
 ) -> (list[Layer], str, type, str, int, dict[int, int]):
@@ -110,23 +127,28 @@ def load_json(
         data_type = "long int"
         data_type_py = np.int32
 
+    else:
+        raise TypeError("Type " + data_type + " not implemented")
+
     layers = []
 
     l_temp = InputLayer(
-        0,
-        model["config"]["layers"][0]["config"]["size"],
-        model["config"]["layers"][0]["config"]["input_shape"],
-        data_format,
+        original_name=model["config"]["layers"][0]["config"]["name"],
+        idx=0,
+        size=model["config"]["layers"][0]["config"]["size"],
+        input_shape=model["config"]["layers"][0]["config"]["input_shape"],
+        data_format=data_format,
     )
 
     layers.append(l_temp)
-
-    nb_softmax_layers = 0
+    # Layer giving the output of each layer of the model
+    produced_by = {0: l_temp}
 
     for idx, layer in list(islice(enumerate(model["config"]["layers"]), 1, None)):
         add_softmax_layer = False
 
-        idx += nb_softmax_layers
+        position = layer["config"].get("idx", idx)
+        idx = len(layers)
 
         if (
             "activation" in layer["config"]
@@ -136,6 +158,9 @@ def load_json(
             add_softmax_layer = True
 
         if layer["class_name"] == "Dense":
+            if layer["config"].get("size", layer["config"]["units"]) != layer["config"]["units"]:
+                msg = f"Error: Dense layer {layer['config']['name']} over a multi-dimensional tensor not supported"
+                raise ValueError(msg)
             current_layer = Dense(
                 original_name=layer["config"]["name"],
                 idx=idx,
@@ -154,14 +179,16 @@ def load_json(
                 idx=idx,
                 size=layer["config"]["size"],
                 padding=layer["config"]["padding"],
-                strides=layer["config"]["strides"][0],
+                strides=get_square_value(layer["config"], "strides"),
                 kernel_h=layer["config"]["kernel_size"][0],
                 kernel_w=layer["config"]["kernel_size"][1],
-                dilation_rate=layer["config"]["dilation_rate"][0],
+                dilation_rate=get_square_value(layer["config"], "dilation_rate"),
                 nb_filters=layer["config"]["filters"],
+                group=layer["config"].get("groups", 1),
                 input_shape=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
-                weights=np.array(data_type_py(layer["weights"])),
+                # From [C,H,W,F] into [F,C,H,W]
+                weights=np.moveaxis(np.array(data_type_py(layer["weights"])), -1, 0),
                 biases=data_type_py(layer["biases"]),
                 activation_function=create_actv_function_obj(
                     layer["config"]["activation"],
@@ -174,8 +201,8 @@ def load_json(
                 idx=idx,
                 size=layer["config"]["size"],
                 padding=layer["config"]["padding"],
-                strides=layer["config"]["strides"][0],
-                pool_size=layer["config"]["pool_size"][0],
+                strides=get_square_value(layer["config"], "strides"),
+                pool_size=get_square_value(layer["config"], "pool_size"),
                 input_shape=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
@@ -187,8 +214,8 @@ def load_json(
                 idx=idx,
                 size=layer["config"]["size"],
                 padding=layer["config"]["padding"],
-                strides=layer["config"]["strides"][0],
-                pool_size=layer["config"]["pool_size"][0],
+                strides=get_square_value(layer["config"], "strides"),
+                pool_size=get_square_value(layer["config"], "pool_size"),
                 input_shape=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
@@ -199,88 +226,93 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shape=layer["config"]["input_shape"],
+                input_shape=extend_shape(layer["config"]["input_shape"]),
                 data_format=data_format,
             )
 
         elif layer["class_name"] == "Add":
             current_layer = Add(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
-                output_shape=layer["config"]["output_shape"],
+                input_shapes=extend_shape(layer["config"]["input_shape"]),
+                output_shape=extend_shape(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
 
         elif layer["class_name"] == "Multiply":
             current_layer = Multiply(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
-                output_shape=layer["config"]["output_shape"],
+                input_shapes=extend_shape(layer["config"]["input_shape"]),
+                output_shape=extend_shape(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
 
         elif layer["class_name"] == "Subtract":
             current_layer = Subtract(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
-                output_shape=layer["config"]["output_shape"],
+                input_shapes=extend_shape(layer["config"]["input_shape"]),
+                output_shape=extend_shape(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
 
         elif layer["class_name"] == "Concatenate":
             axis = layer["config"]["axis"]
-            if data_format == "channels_last":
+            rank = len(layer["config"]["output_shape"])
+            if axis < 0:
+                axis += rank
+            if rank < 4:
+                axis += 4 - rank
+            elif data_format == "channels_last":
                 axis = 1 if axis == 3 else axis + 1
             current_layer = Concatenate(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 axis=axis,
-                input_shapes=layer["config"]["input_shape"],
-                output_shape=layer["config"]["output_shape"],
+                input_shapes=extend_shape(layer["config"]["input_shape"]),
+                output_shape=extend_shape(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
 
         elif layer["class_name"] == "Maximum":
             current_layer = Maximum(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
-                output_shape=layer["config"]["output_shape"],
+                input_shapes=extend_shape(layer["config"]["input_shape"]),
+                output_shape=extend_shape(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
 
         elif layer["class_name"] == "Minimum":
             current_layer = Minimum(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
-                output_shape=layer["config"]["output_shape"],
+                input_shapes=extend_shape(layer["config"]["input_shape"]),
+                output_shape=extend_shape(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
 
         elif layer["class_name"] == "Average":
             current_layer = Average(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
-                output_shape=layer["config"]["output_shape"],
+                input_shapes=extend_shape(layer["config"]["input_shape"]),
+                output_shape=extend_shape(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
 
         elif layer["class_name"] == "ZeroPadding2D":
             pads = layer["config"]["padding"]
             if type(pads) is int:
-                pads = [pads for i in range(8)]
+                pads = [0, 0, pads, pads, 0, 0, pads, pads]
             else:
                 if type(pads[0]) is int:
                     pad_top, pad_bottom = pads[0], pads[0]
@@ -292,7 +324,7 @@ def load_json(
 
             current_layer = ConstantPad(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 pads=pads,
                 constant_value=0,
@@ -302,11 +334,11 @@ def load_json(
             )
 
         elif layer["class_name"] == "BatchNormalization":
-            BatchNormalization(
+            current_layer = BatchNormalization(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
-                input_shape=layer["config"]["input_shape"],
+                input_shape=[*layer["config"]["input_shape"], 1, 1][:4],
                 epsilon=layer["config"]["epsilon"],
                 scale=np.array(data_type_py(layer["gamma"])),
                 biases=np.array(data_type_py(layer["beta"])),
@@ -316,25 +348,30 @@ def load_json(
             )
 
         elif (
-            "Normalization" in layer["class_name"]
-            or "Dropout" in layer["class_name"]
-            or layer["class_name"] == "Reshape"
+            layer["class_name"] in ("Dropout", "SpatialDropout2D", "GaussianDropout", "AlphaDropout", "Reshape")
         ):
+            # No effect at inference
+            if layer["class_name"] == "Reshape" and not (
+                is_layout_free(extend_shape(layer["config"]["input_shape"])[1:])
+                and is_layout_free(extend_shape(layer["config"]["output_shape"])[1:])
+            ):
+                msg = f"Error: Reshape of a multi-channel tensor ({layer['config']['name']}) not supported"
+                raise ValueError(msg)
+            produced_by[position] = produced_by[layer["config"]["prev_layer_idx"][0]]
             continue
 
         else:
-            raise TypeError("Error: layer" + layer["class_name"] + " not supported\n")
+            raise TypeError("Error: layer " + layer["class_name"] + " not supported\n")
 
         for i in layer["config"]["prev_layer_idx"]:
-            current_layer.previous_layer.append(layers[i])
-            layers[i].next_layer.append(current_layer)
+            current_layer.previous_layer.append(produced_by[i])
+            produced_by[i].next_layer.append(current_layer)
 
         l_temp = current_layer
         layers.append(current_layer)
 
         # Separated method to generate softmax
         if add_softmax_layer:
-            nb_softmax_layers += 1
             current_layer = Softmax(
                 original_name=f"Softmax_{idx+1}",
                 idx=idx + 1,
@@ -344,9 +381,10 @@ def load_json(
             )
             l_temp.next_layer.append(current_layer)
             current_layer.previous_layer.append(l_temp)
-            l_temp = current_layer
             layers.append(current_layer)
 
+        produced_by[position] = current_layer
+
     layers, max_road, dict_cst = graph_interpretor.tri_topo(layers)
     layers = [x.find_output_str(dict_cst) for x in layers]
     print("Finished model initialization.")
-- 
2.43.0


From f1f3050ef1e88a3328fb34b72c0c8a0711b02fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:37 +0000
Subject: [PATCH 44/72] fix: batch normalization of two-dimensional tensors

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 065b21f..78c8eea 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -743,7 +743,7 @@ def create_batch_norm(
         original_name=node.name,
         idx=idx,
         size=size,
-        input_shape=output_shape,
+        input_shape=[*get_shape(node.output[0], model, extend=False), 1, 1][:4],
         epsilon=attributes["epsilon"],
         scale=onnx.numpy_helper.to_array(scale),
         biases=onnx.numpy_helper.to_array(biases),
-- 
2.43.0


From b806fc2953d541bd7bcd35d1e76f00abfb44e921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:37 +0000
Subject: [PATCH 45/72] fix: PyTorch importer: layers computed wrongly

Default stride of max pooling, non-square kernels, arguments given by keyword,
activations shared by several consumers or following another activation, batch
normalization not preceded by a convolution, double precision, ...; what is not
supported is refused.
---
 .../PYTORCH_importer/parse_pytorch.py         | 443 ++++++++++++------
 1 file changed, 308 insertions(+), 135 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 202e0de..8fd12ae 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -4,6 +4,7 @@ import numpy as np
 
 from acetone_nnet.generator import (
     ActivationFunctions,
+    ActivationLayer,
     Add,
     Clip,
     Average,
@@ -74,6 +75,9 @@ class ShapeAwareVisitor(FXGraphVisitor):
         self.indent = "  "
         self.idx=0
         self.layerdic: dict[str:Layer] = {}
+        # Node whose value is the output of each layer
+        self.value_of: dict[int, str] = {}
+        self.data_types = {torch.float32: ("float", np.float32), torch.float64: ("double", np.float64)}
     def _format_shape(self, val: Any) -> str:
         """
         Recursively extracts shape and dtype from FakeTensors stored in meta['val'].
@@ -119,164 +123,327 @@ class ShapeAwareVisitor(FXGraphVisitor):
     def visit_placeholder(self, node: torch.fx.Node):
         target_name = node.target.__name__ if hasattr(node.target, '__name__') else str(node.target)
         self._print_node("INPUT", node, f"call: {target_name}(args={node.args})")
+        if self.layerdic:
+            raise ValueError("Error: model with several inputs not supported")
+        val = node.meta['val']
+        if val.dtype not in self.data_types:
+            raise TypeError(f"Error: type {val.dtype} not supported")
+        self.data_type, self.data_type_py = self.data_types[val.dtype]
         this_layer = InputLayer(
             original_name=node.name,
             idx=self.idx,
-            size=node.meta['val'].numel(),
-            input_shape=node.meta['val'].shape,
-            data_format="channels_last" if node.meta['val'].is_contiguous(memory_format=torch.channels_last) else "channels_first",
+            size=val.numel(),
+            input_shape=val.shape,
+            data_format="channels_last" if not val.is_contiguous() and val.is_contiguous(memory_format=torch.channels_last) else "channels_first",
         )
         self.data_format = this_layer.data_format
         logging.info(f"[LAYOUT] : {self.data_format}")
-        self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
-        self.idx+=1
+        self._register(node, this_layer, [])
 
+    def _register(self, node: torch.fx.Node, layer: Layer, parents: List[torch.fx.Node]):
+        """Add a layer computing the value of a node from the value of others."""
+        for parent in parents:
+            parent_layer = self._get_layer(parent)
+            parent_layer.next_layer.append(layer)
+            layer.previous_layer.append(parent_layer)
+        self.layerdic[node.name] = (layer, node.meta['val'].shape)
+        self.value_of[layer.idx] = node.name
+        self.idx += 1
+
+    def _bypass(self, node: torch.fx.Node, parent: torch.fx.Node):
+        """Give a node the value of another."""
+        self.layerdic[node.name] = (self._get_layer(parent), node.meta['val'].shape)
+
+    def _get_layer(self, node: Any) -> Layer:
+        """Give the layer computing the value of a node."""
+        if not isinstance(node, torch.fx.Node) or node.name not in self.layerdic:
+            raise TypeError(f"Error: operand {node} not supported (must be the output of a layer)")
+        return self.layerdic[node.name][0]
+
+    def _get_tensor(self, node: torch.fx.Node) -> np.ndarray:
+        """Give the value of a parameter."""
+        return self.module.state_dict()[node.target].detach().numpy()
+
+    def _is_fusible(self, node: torch.fx.Node) -> bool:
+        """Tell whether the layer of this node can compute its next operation too."""
+        layer = self._get_layer(node)
+        return (
+            self.value_of[layer.idx] == node.name
+            and len(node.users) == 1
+            and isinstance(getattr(layer, "activation_function", None), Linear)
+        )
+
+    @staticmethod
+    def _get_arguments(node: torch.fx.Node) -> dict:
+        """Give the value of all the arguments, by name."""
+        arguments = {}
+        for i, argument in enumerate(node.target._schema.arguments):
+            if i < len(node.args):
+                arguments[argument.name] = node.args[i]
+            elif argument.name in node.kwargs:
+                arguments[argument.name] = node.kwargs[argument.name]
+            else:
+                arguments[argument.name] = argument.default_value
+        return arguments
+
+    @staticmethod
+    def _get_square_value(node: torch.fx.Node, name: str, value: Any) -> int:
+        """Read an attribute which must be the same in both directions."""
+        values = list(value) if isinstance(value, (list, tuple)) else [value]
+        if any(v != values[0] for v in values):
+            raise ValueError(f"Error: {name} {value} of {node.name} not supported (must be equal)")
+        return values[0]
+
+    @staticmethod
+    def _extend_shape(shape: Any) -> list:
+        """Complete a shape to four dimensions."""
+        return [1] * (4 - len(shape)) + list(shape)
 
     def visit_call_function(self, node: torch.fx.Node):
         target_name = node.target.__name__ if hasattr(node.target, '__name__') else str(node.target)
         self._print_node("FUNC", node, f"call: {target_name}(args={node.args})")
-        if "linear" in target_name:
-            this_layer = Dense(
+        operator, _, overload = target_name.partition(".")
+        if not hasattr(node.target, "_schema"):
+            raise TypeError(f"Error: layer {target_name} not supported")
+        args = self._get_arguments(node)
+        if operator.rstrip("_") == "add" and node.args[0].name not in self.layerdic:
+            # bypass bn2_num_batches_tracked + 1
+            logging.info(f"Add layer bypassed: {node.args[0].name}")
+            return
+        visit = getattr(self, f"create_{operator.rstrip('_')}", None)
+        if visit is None:
+            raise TypeError(f"Error: layer {target_name} not supported")
+        visit(node, args)
+
+    def create_linear(self, node: torch.fx.Node, args: dict):
+        weights = self._get_tensor(args["weight"]).T
+        if node.meta['val'].numel() != weights.shape[1]:
+            raise ValueError(f"Error: {node.name} over a multi-dimensional tensor not supported")
+        biases = np.zeros(weights.shape[1], dtype=weights.dtype) if args["bias"] is None else self._get_tensor(args["bias"])
+        self._register(
+            node,
+            Dense(
                 original_name=node.name,
                 idx=self.idx,
                 size=node.meta['val'].numel(),
-                weights=self.module.state_dict()[node.args[1].target].numpy().T,
-                biases=self.module.state_dict()[node.args[2].target].numpy(),
-                activation_function=Linear()
-            )
-            self.layerdic[node.args[0].name][0].next_layer.append(this_layer)
-            this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
-            self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
-            self.idx+=1
-        elif "relu" in target_name:
-            self.layerdic[node.args[0].name][0].activation_function=ReLu() # set previous layer activation 
-            self.layerdic[node.name] = self.layerdic[node.args[0].name] # register 
-        elif "clamp" in target_name:
-            self.layerdic[node.args[0].name][0].activation_function=Clip( # set previous layer activation 
-                max_value=node.args[2],
-                min_value=node.args[1]
-            )
-            self.layerdic[node.name] = self.layerdic[node.args[0].name] # register 
-        elif "conv2d" in target_name:
-            #first call to conv2d is expected to decide memory layout format based on its input tensor
-            if not hasattr(self,"data_format"):
-                self.data_format = "channels_last" if self.module.state_dict()[node.args[1].target].is_contiguous(memory_format=torch.channels_last) else "channels_first"
-                logging.info(f"[LAYOUT] : {self.data_format}")
-            stride = node.args[3][0] if len(node.args) > 3 else 1
-            padding = node.args[4] + node.args[4] if len(node.args) > 4 else [0,0,0,0]
-            dilation = node.args[5][0] if len(node.args) > 5 else 1
-            group = node.args[6] if len(node.args) > 6 else 1
-            this_layer = Conv2D(
-                    conv_algorithm="specs",
+                weights=weights,
+                biases=biases,
+                activation_function=Linear(),
+            ),
+            [args["input"]],
+        )
+
+    def _create_activation(self, node: torch.fx.Node, parent: torch.fx.Node, function: ActivationFunctions):
+        if self._is_fusible(parent):
+            self._get_layer(parent).activation_function = function # set previous layer activation
+            self._bypass(node, parent)
+            self.value_of[self._get_layer(node).idx] = node.name
+        else:
+            self._register(
+                node,
+                ActivationLayer(
                     original_name=node.name,
                     idx=self.idx,
                     size=node.meta['val'].numel(),
-                    padding=padding,
-                    strides=stride,
-                    group=group,
-                    kernel_h=self.module.state_dict()[node.args[1].target].shape[-1],
-                    kernel_w=self.module.state_dict()[node.args[1].target].shape[-1],
-                    dilation_rate=dilation,
-                    nb_filters=node.meta['val'].shape[1],
-                    input_shape=self.layerdic[node.args[0].name][1],
-                    output_shape=node.meta['val'].shape,
-                    weights=self.module.state_dict()[node.args[1].target].numpy(),
-                    biases=self.module.state_dict()[node.args[2].target].numpy() if node.args[2] is not None else np.zeros(node.meta['val'].shape[1],dtype=np.float32),
-                    activation_function=Linear()
-                )
-            self.layerdic[node.args[0].name][0].next_layer.append(this_layer)
-            this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
-            self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
-            self.idx+=1
-        elif "batch_norm" in target_name:
+                    activation_function=function,
+                ),
+                [parent],
+            )
+
+    def create_relu(self, node: torch.fx.Node, args: dict):
+        self._create_activation(node, args["self"], ReLu())
+
+    def create_relu6(self, node: torch.fx.Node, args: dict):
+        self._create_activation(node, args["self"], Clip(max_value=6.0, min_value=0.0))
+
+    def create_leaky_relu(self, node: torch.fx.Node, args: dict):
+        self._create_activation(node, args["self"], LeakyReLu(args["negative_slope"]))
+
+    def create_hardtanh(self, node: torch.fx.Node, args: dict):
+        self._create_activation(
+            node, args["self"], Clip(max_value=args["max_val"], min_value=args["min_val"]),
+        )
+
+    def create_clamp(self, node: torch.fx.Node, args: dict):
+        mini = float("-inf") if args["min"] is None else args["min"]
+        maxi = float("inf") if args["max"] is None else args["max"]
+        if isinstance(mini, torch.fx.Node) or isinstance(maxi, torch.fx.Node):
+            raise TypeError(f"Error: bounds of {node.name} not supported (must be numbers)")
+        self._create_activation(node, args["self"], Clip(max_value=maxi, min_value=mini))
+
+    def create_conv2d(self, node: torch.fx.Node, args: dict):
+        weights = self._get_tensor(args["weight"])
+        biases = np.zeros(weights.shape[0], dtype=weights.dtype) if args["bias"] is None else self._get_tensor(args["bias"])
+        kernel = weights.shape[2:]
+        dilation = self._get_square_value(node, "dilation", args["dilation"])
+        padding = args["padding"]
+        if padding == "valid":
+            padding = [0, 0, 0, 0]
+        elif padding == "same":
+            total = [dilation * (k - 1) for k in kernel]
+            padding = [t // 2 for t in total] + [t - t // 2 for t in total]
+        else:
+            padding = list(padding) if isinstance(padding, (list, tuple)) else [padding]
+            padding = padding * (4 // len(padding))
+        input_shape = self.layerdic[args["input"].name][1]
+        if len(input_shape) != 4 or input_shape[0] != 1:
+            raise ValueError(f"Error: input shape {input_shape} of {node.name} not supported")
+        self._register(
+            node,
+            Conv2D(
+                conv_algorithm="specs",
+                original_name=node.name,
+                idx=self.idx,
+                size=node.meta['val'].numel(),
+                padding=padding,
+                strides=self._get_square_value(node, "stride", args["stride"]),
+                group=args["groups"],
+                kernel_h=kernel[0],
+                kernel_w=kernel[1],
+                dilation_rate=dilation,
+                nb_filters=node.meta['val'].shape[1],
+                input_shape=input_shape,
+                output_shape=node.meta['val'].shape,
+                weights=weights,
+                biases=biases,
+                activation_function=Linear(),
+            ),
+            [args["input"]],
+        )
+
+    def create_batch_norm(self, node: torch.fx.Node, args: dict):
+        if args["running_mean"] is None or args["running_var"] is None:
+            raise ValueError(f"Error: {node.name} without running statistics not supported")
+        parent = args["input"]
+        mean = self._get_tensor(args["running_mean"])
+        var = self._get_tensor(args["running_var"])
+        scale = np.ones_like(mean) if args["weight"] is None else self._get_tensor(args["weight"])
+        biases = np.zeros_like(mean) if args["bias"] is None else self._get_tensor(args["bias"])
+        layer = self._get_layer(parent)
+        if isinstance(layer, Conv2D) and self._is_fusible(parent):
             # Fusing batch normalization to previous conv2d https://pytorch-cn.com/tutorials/intermediate/fx_conv_bn_fuser.html
-            self.layerdic[node.name] = self.layerdic[node.args[0].name]
-            bn_w = self.module.state_dict()[node.args[1].target]
-            bn_b = self.module.state_dict()[node.args[2].target]
-            bn_rm = self.module.state_dict()[node.args[3].target]
-            bn_rv = self.module.state_dict()[node.args[4].target]
-            bn_eps = node.args[7]
-            bn_var_rsqrt = torch.rsqrt(bn_rv + bn_eps)
-            conv_w = torch.from_numpy(self.layerdic[node.args[0].name][0].weights)
-            conv_b = torch.from_numpy(self.layerdic[node.args[0].name][0].biases)
-            conv_w = conv_w * (bn_w * bn_var_rsqrt).reshape([-1] + [1] * (len(conv_w.shape) - 1))
-            conv_b = (conv_b - bn_rm) * bn_var_rsqrt * bn_w + bn_b
-            self.layerdic[node.args[0].name][0].weights = conv_w.numpy().astype(np.float32)
-            self.layerdic[node.args[0].name][0].biases = conv_b.numpy().astype(np.float32)
-        elif "add" in target_name:
-            if node.args[0].name in self.layerdic.keys(): # bypass bn2_num_batches_tracked + 1
-                this_layer =  Add(
-                    original_name=node.name,
-                    idx=self.idx,
-                    size=node.meta['val'].numel(),
-                    input_shapes=[self.layerdic[node.args[i].name][1] for i in range(len(node.args))],
-                    output_shape=node.meta['val'].shape,
-                    activation_function=Linear(),
-                )
-                for i in range(len(node.args)):
-                    self.layerdic[node.args[i].name][0].next_layer.append(this_layer)
-                    this_layer.previous_layer.append(self.layerdic[node.args[i].name][0])
-                self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
-                self.idx+=1
-            else:
-                logging.info(f"Add layer bypassed: {node.args[0].name}")
-        elif "cat" in target_name:
-            this_layer = Concatenate(
-                    original_name=node.name,
-                    idx=self.idx,
-                    size=node.meta['val'].numel(),
-                    axis=node.args[1],
-                    input_shapes=[self.layerdic[node.args[0][i].name][1] for i in range(len(node.args[0]))],
-                    output_shape=node.meta['val'].shape,
-                    activation_function=Linear(),
-                )
-            for i in range(len(node.args[0])):
-                self.layerdic[node.args[0][i].name][0].next_layer.append(this_layer)
-                this_layer.previous_layer.append(self.layerdic[node.args[0][i].name][0])
-            self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
-            self.idx+=1
-        elif "dropout" in target_name:
-            self.layerdic[node.name] = self.layerdic[node.args[0].name]
-        elif "flatten" in target_name:
-            self.layerdic[node.name] = self.layerdic[node.args[0].name]
-        elif "max_pool2d" in target_name:
-            kernel = node.args[1][0] if len(node.args) > 1 else 1
-            stride = node.args[2][0] if len(node.args) > 2 else 1
-            padding = node.args[3] + node.args[3] if len(node.args) > 3 else [0,0,0,0]
-            dilation = node.args[4][0] if len(node.args) > 4 else 1
-            this_layer = MaxPooling2D(
-                    original_name=node.name,
-                    idx=self.idx,
-                    size=node.meta['val'].numel(),
-                    padding=padding,
-                    strides=stride,
-                    pool_size=kernel,
-                    input_shape=self.layerdic[node.args[0].name][1],
-                    output_shape=node.meta['val'].shape,
-                    activation_function=Linear(),
-                    data_format=self.data_format
-                )            
-            self.layerdic[node.args[0].name][0].next_layer.append(this_layer)
-            this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
-            self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
-            self.idx+=1
-        elif "adaptive_avg_pool2d" in target_name:
-            this_layer = AveragePooling2D(
+            alpha = (scale / np.sqrt(var + args["eps"])).astype(mean.dtype)
+            layer.weights = layer.weights * alpha.reshape(-1, 1, 1, 1)
+            layer.biases = (layer.biases - mean) * alpha + biases
+            self._bypass(node, parent)
+            self.value_of[layer.idx] = node.name
+            return
+        shape = list(self.layerdic[parent.name][1])
+        self._register(
+            node,
+            BatchNormalization(
+                original_name=node.name,
+                idx=self.idx,
+                size=node.meta['val'].numel(),
+                input_shape=shape + [1] * (4 - len(shape)),
+                epsilon=args["eps"],
+                scale=scale,
+                biases=biases,
+                mean=mean,
+                var=var,
+                activation_function=Linear(),
+            ),
+            [parent],
+        )
+
+    def create_add(self, node: torch.fx.Node, args: dict):
+        if args["alpha"] != 1:
+            raise ValueError(f"Error: alpha {args['alpha']} of {node.name} not supported")
+        operands = [args["self"], args["other"]]
+        for operand in operands:
+            self._get_layer(operand)
+        self._register(
+            node,
+            Add(
+                original_name=node.name,
+                idx=self.idx,
+                size=node.meta['val'].numel(),
+                input_shapes=[self._extend_shape(self.layerdic[o.name][1]) for o in operands],
+                output_shape=self._extend_shape(node.meta['val'].shape),
+                activation_function=Linear(),
+            ),
+            operands,
+        )
+
+    def create_cat(self, node: torch.fx.Node, args: dict):
+        operands = args["tensors"]
+        for operand in operands:
+            self._get_layer(operand)
+        rank = len(node.meta['val'].shape)
+        self._register(
+            node,
+            Concatenate(
+                original_name=node.name,
+                idx=self.idx,
+                size=node.meta['val'].numel(),
+                axis=args["dim"] % rank + 4 - rank,
+                input_shapes=[self._extend_shape(self.layerdic[o.name][1]) for o in operands],
+                output_shape=self._extend_shape(node.meta['val'].shape),
+                activation_function=Linear(),
+            ),
+            operands,
+        )
+
+    def create_dropout(self, node: torch.fx.Node, args: dict):
+        self._bypass(node, args["input"])
+
+    def create_flatten(self, node: torch.fx.Node, args: dict):
+        self._bypass(node, args["self"])
+
+    def create_max_pool2d(self, node: torch.fx.Node, args: dict):
+        input_shape = self.layerdic[args["self"].name][1]
+        kernel = self._get_square_value(node, "kernel size", args["kernel_size"])
+        stride = self._get_square_value(node, "stride", args["stride"] or kernel)
+        padding = args["padding"]
+        padding = list(padding) if isinstance(padding, (list, tuple)) else [padding]
+        padding = padding * (4 // len(padding))
+        output_shape = node.meta['val'].shape
+        size = [(input_shape[-2 + k] + 2 * padding[k] - kernel) // stride + 1 for k in range(2)]
+        if (
+            self._get_square_value(node, "dilation", args["dilation"]) != 1
+            or list(output_shape[-2:]) != size
+            or len(input_shape) != 4
+        ):
+            raise ValueError(f"Error: attributes of {node.name} not supported (dilation, ceil_mode or shape)")
+        self._register(
+            node,
+            MaxPooling2D(
+                original_name=node.name,
+                idx=self.idx,
+                size=node.meta['val'].numel(),
+                padding=padding,
+                strides=stride,
+                pool_size=kernel,
+                input_shape=input_shape,
+                output_shape=output_shape,
+                activation_function=Linear(),
+                data_format=self.data_format
+            ),
+            [args["self"]],
+        )
+
+    def create_adaptive_avg_pool2d(self, node: torch.fx.Node, args: dict):
+        input_shape = self.layerdic[args["self"].name][1]
+        output_shape = node.meta['val'].shape
+        kernel = input_shape[-1] // output_shape[-1]
+        if len(input_shape) != 4 or [kernel * d for d in output_shape[2:]] != list(input_shape[2:]):
+            raise ValueError(f"Error: shapes {input_shape} and {output_shape} of {node.name} not supported")
+        self._register(
+            node,
+            AveragePooling2D(
                 original_name=node.name,
                 idx=self.idx,
                 size=node.meta['val'].numel(),
                 padding=[0, 0, 0, 0],
-                strides=1,
-                pool_size=self.layerdic[node.args[0].name][1][-1],
-                input_shape=self.layerdic[node.args[0].name][1],
-                output_shape=node.meta['val'].shape,
+                strides=kernel,
+                pool_size=kernel,
+                input_shape=input_shape,
+                output_shape=output_shape,
                 activation_function=Linear(),
                 data_format=self.data_format
-            )
-            self.layerdic[node.args[0].name][0].next_layer.append(this_layer)
-            this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
-            self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
-            self.idx+=1
+            ),
+            [args["self"]],
+        )
 
     def visit_call_module(self, node: torch.fx.Node):
         self._print_node("MODULE", node, f"mod: {node.target}")
@@ -292,6 +459,12 @@ class ShapeAwareVisitor(FXGraphVisitor):
         # The output node usually contains the return value in args[0]
         # We look at the meta of the output node itself if available, or the inputs
         logging.info(f"{self.indent}[OUTPUT] return {node.args[0]}")
+        outputs = node.args[0]
+        if isinstance(outputs, (list, tuple)):
+            if len(outputs) != 1:
+                raise ValueError(f"Error: model with {len(outputs)} outputs not supported")
+            outputs = outputs[0]
+        self._get_layer(outputs)
 
 
 
@@ -301,4 +474,4 @@ def load_pytorch(program : ExportedProgram):
     layers, max_road, dict_cst = graph_interpretor.tri_topo([l[0] for l in visitor.layerdic.values()])
     layers = [x.find_output_str(dict_cst) for x in layers]
     print("Finished model initialization.")    
-    return layers, "float", np.float32, visitor.data_format,max_road, dict_cst
\ No newline at end of file
+    return layers, visitor.data_type, visitor.data_type_py, visitor.data_format, max_road, dict_cst
-- 
2.43.0


From 5df46e9c4dcdaec64251022de8ff60c4f25749cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:45 +0000
Subject: [PATCH 46/72] fix: JSON importer: shapes of the operands of Maximum
 and Minimum

---
 .../importers/JSON_importer/parser_JSON.py         | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 295237f..9d46ef8 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -93,7 +93,7 @@ def extend_shape(shape: list) -> list:
     """Complete a shape to four dimensions; apply to each shape of a list."""
     if any(isinstance(s, list) for s in shape):
         return [extend_shape(s) for s in shape]
-    return [shape[0], *[1] * (4 - len(shape)), *shape[1:]]
+    return [1, *[1] * (4 - len(shape)), *shape[1:]]
 
 
 def get_square_value(config: dict, name: str) -> int:
@@ -235,7 +235,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=extend_shape(layer["config"]["input_shape"]),
+                input_shapes=np.array(extend_shape(layer["config"]["input_shape"])),
                 output_shape=extend_shape(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
@@ -245,7 +245,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=extend_shape(layer["config"]["input_shape"]),
+                input_shapes=np.array(extend_shape(layer["config"]["input_shape"])),
                 output_shape=extend_shape(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
@@ -255,7 +255,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=extend_shape(layer["config"]["input_shape"]),
+                input_shapes=np.array(extend_shape(layer["config"]["input_shape"])),
                 output_shape=extend_shape(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
@@ -284,7 +284,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=extend_shape(layer["config"]["input_shape"]),
+                input_shapes=np.array(extend_shape(layer["config"]["input_shape"])),
                 output_shape=extend_shape(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
@@ -294,7 +294,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=extend_shape(layer["config"]["input_shape"]),
+                input_shapes=np.array(extend_shape(layer["config"]["input_shape"])),
                 output_shape=extend_shape(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
@@ -304,7 +304,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=extend_shape(layer["config"]["input_shape"]),
+                input_shapes=np.array(extend_shape(layer["config"]["input_shape"])),
                 output_shape=extend_shape(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
-- 
2.43.0


From 4d0bb710745af9012441ff1134fcff0837bb7777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:45 +0000
Subject: [PATCH 47/72] fix: PyTorch importer: in-place operations

---
 .../PYTORCH_importer/parse_pytorch.py         | 29 +++++++++++++++++--
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 8fd12ae..a2e7619 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -77,6 +77,8 @@ class ShapeAwareVisitor(FXGraphVisitor):
         self.layerdic: dict[str:Layer] = {}
         # Node whose value is the output of each layer
         self.value_of: dict[int, str] = {}
+        # Nodes sharing the memory of each node
+        self.aliases: dict[str, list[str]] = {}
         self.data_types = {torch.float32: ("float", np.float32), torch.float64: ("double", np.float64)}
     def _format_shape(self, val: Any) -> str:
         """
@@ -148,11 +150,28 @@ class ShapeAwareVisitor(FXGraphVisitor):
             layer.previous_layer.append(parent_layer)
         self.layerdic[node.name] = (layer, node.meta['val'].shape)
         self.value_of[layer.idx] = node.name
+        self.aliases[node.name] = [node.name]
         self.idx += 1
 
     def _bypass(self, node: torch.fx.Node, parent: torch.fx.Node):
         """Give a node the value of another."""
         self.layerdic[node.name] = (self._get_layer(parent), node.meta['val'].shape)
+        self.aliases[node.name] = [node.name]
+
+    def _view(self, node: torch.fx.Node, parent: torch.fx.Node):
+        """Give a node the value and the memory of another."""
+        self._bypass(node, parent)
+        self.aliases[node.name] = self.aliases[parent.name]
+        self.aliases[node.name].append(node.name)
+
+    def _overwrite(self, parent: torch.fx.Node, node: torch.fx.Node):
+        """Give the value of an in-place operation to all the names of its operand."""
+        layer = self._get_layer(node)
+        for name in self.aliases[parent.name]:
+            self.layerdic[name] = (layer, self.layerdic[name][1])
+        if self.aliases[node.name] is not self.aliases[parent.name]:
+            self.aliases[parent.name] += self.aliases[node.name]
+            self.aliases[node.name] = self.aliases[parent.name]
 
     def _get_layer(self, node: Any) -> Layer:
         """Give the layer computing the value of a node."""
@@ -168,8 +187,10 @@ class ShapeAwareVisitor(FXGraphVisitor):
         """Tell whether the layer of this node can compute its next operation too."""
         layer = self._get_layer(node)
         return (
-            self.value_of[layer.idx] == node.name
+            not isinstance(layer, InputLayer)
+            and self.value_of[layer.idx] == node.name
             and len(node.users) == 1
+            and len(self.aliases[node.name]) == 1
             and isinstance(getattr(layer, "activation_function", None), Linear)
         )
 
@@ -214,6 +235,8 @@ class ShapeAwareVisitor(FXGraphVisitor):
         if visit is None:
             raise TypeError(f"Error: layer {target_name} not supported")
         visit(node, args)
+        if operator.endswith("_"):
+            self._overwrite(node.args[0], node)
 
     def create_linear(self, node: torch.fx.Node, args: dict):
         weights = self._get_tensor(args["weight"]).T
@@ -385,10 +408,10 @@ class ShapeAwareVisitor(FXGraphVisitor):
         )
 
     def create_dropout(self, node: torch.fx.Node, args: dict):
-        self._bypass(node, args["input"])
+        self._view(node, args["input"])
 
     def create_flatten(self, node: torch.fx.Node, args: dict):
-        self._bypass(node, args["self"])
+        self._view(node, args["self"])
 
     def create_max_pool2d(self, node: torch.fx.Node, args: dict):
         input_shape = self.layerdic[args["self"].name][1]
-- 
2.43.0


From f67d9affbb6fe0b0b0a6b14b0bf2a997d65397a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:45 +0000
Subject: [PATCH 48/72] fix: binary files not protected by the check of
 existing files

The names of the binary files (bin_dataset) were not in the list of files
checked before a generation; the flags of a target were added to the lists of
the caller.
---
 src/acetone_nnet/generator/neural_network.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index ce3b50b..46330b4 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -299,7 +299,8 @@ class CodeGenerator(ABC):
                 lambda s, path: s.generate_bin_parameter_file(path) if self.bin_dataset else s.generate_parameter_file(path),
                 lambda s, path: s.generate_train_hook_file(path),
             ]
-            file_names.extend(["inference.c", "inference.h","global_vars.c","parameters.c","train_hook.c"])
+            parameters_file = "parameters.dat" if self.bin_dataset else "parameters.c"
+            file_names.extend(["inference.c", "inference.h","global_vars.c",parameters_file,"train_hook.c"])
 
         if "Makefile" not in custom_generation_functions:
             generation_functions["Makefile"] = [
@@ -308,7 +309,7 @@ class CodeGenerator(ABC):
             file_names.append("Makefile")
 
         if not self.read_ext_input and "TestValues" not in custom_generation_functions:
-            file_names.append("test_dataset.c")
+            file_names.append("test_dataset.dat" if self.bin_dataset else "test_dataset.c")
             generation_functions["TestValues"] = [
                 lambda s, path: s.generate_test_dataset_value_file(path),
             ]
@@ -741,9 +742,9 @@ class CodeGenerator(ABC):
         """Get makefile properties."""
         return {
             "compiler": self.makefile_properties.get("compiler", "gcc"),
-            "linker_flags": self.makefile_properties.get("linker_flags", ["-lm"]),
-            "compiler_flags": self.makefile_properties.get(
-                "compiler_flags", ["-g", "-w"],
+            "linker_flags": list(self.makefile_properties.get("linker_flags", ["-lm"])),
+            "compiler_flags": list(
+                self.makefile_properties.get("compiler_flags", ["-g", "-w"]),
             ),
         }
 
@@ -759,6 +760,9 @@ class CodeGenerator(ABC):
                 source_files.append(filename)
             elif ".h" in filename:
                 header_files.append(filename)
+            elif self.bin_dataset and filename.endswith(".dat"):
+                # Made into the object file of this source
+                source_files.append(filename.replace(".dat", ".c"))
 
         properties = self._get_makefile_properties()
         # Configure Makefile template
-- 
2.43.0


From 071d55e2c13b5275c6a8d222fc6c0adcdad9af3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:54 +0000
Subject: [PATCH 49/72] fix: debug mode: layout of the values shown, choice of
 layers by index, outputs of networks ending with an ignored node

---
 src/acetone_nnet/debug/debug_onnx.py          | 17 +++++++----
 src/acetone_nnet/debug/debug_tools.py         |  2 +-
 src/acetone_nnet/generator/neural_network.py  | 29 +++++++++++--------
 .../templates/template_source_file.c.tpl      |  2 +-
 4 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/acetone_nnet/debug/debug_onnx.py b/src/acetone_nnet/debug/debug_onnx.py
index 0a53e32..f9d7e98 100644
--- a/src/acetone_nnet/debug/debug_onnx.py
+++ b/src/acetone_nnet/debug/debug_onnx.py
@@ -25,6 +25,8 @@ import numpy as np
 import onnx
 import onnxruntime as rt
 
+from acetone_nnet.importers.ONNX_importer.create_layer import unused_layers
+
 
 def clean_inputs(model: onnx.ModelProto) -> None:
     """Remove unused inputs from an ONNX model."""
@@ -45,12 +47,11 @@ def extract_node_outputs(
 ) -> list[str]:
     """Get outputs name of layers of an ONNX model."""
     activation = ["Relu", "Tanh", "Sigmoid", "Clip", "Exp", "Log", "LeakyRelu"]
-    ignored = ["Dropout", "Reshape","Flatten"]
     outputs_name = []
     for node in model.graph.node:
         if optimized_model and (node.op_type in activation):
             outputs_name[-1] = node.output[0]
-        elif node.op_type in ignored:
+        elif node.op_type in unused_layers:
             continue
         else:
             outputs_name.append(node.output[0])
@@ -63,10 +64,12 @@ def extract_targets_indices(
 ) -> list[int]:
     """Extract the indices each layer will have in ACETONE."""
     targets_indices = []
+    # The input is the layer 0, and the nodes without layer have no index
+    nodes = [n for n in model.graph.node if n.op_type not in unused_layers]
     for name in outputs_name:
-        for i in range(len(model.graph.node)):
-            if model.graph.node[i].output[0] == name:
-                targets_indices.append(i)
+        for i in range(len(nodes)):
+            if nodes[i].output[0] == name:
+                targets_indices.append(i + 1)
     return targets_indices
 
 
@@ -130,4 +133,8 @@ def debug_onnx(
     run_model = model if type(model) is str | Path else model.SerializeToString()
     outputs = run_model_onnx(run_model, dataset)
 
+    # The output of the model comes last
+    if model.graph.output[0].name not in inter_layers:
+        outputs.pop()
+
     return model, targets_indices, outputs
diff --git a/src/acetone_nnet/debug/debug_tools.py b/src/acetone_nnet/debug/debug_tools.py
index 71423d4..5873a5a 100644
--- a/src/acetone_nnet/debug/debug_tools.py
+++ b/src/acetone_nnet/debug/debug_tools.py
@@ -142,7 +142,7 @@ def extract_outputs_python(
     targets = []
     for indices in targets_indices:
         for i in range(len(result_python[1])):
-            if indices == int(result_python[1][i][-1]):
+            if indices == int(result_python[1][i].split(" ")[-1]):
                 outputs.append(result_python[0][i])
                 targets.append(result_python[1][i])
 
diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 46330b4..d843bfc 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -573,12 +573,10 @@ class CodeGenerator(ABC):
                         if not isinstance(layer, ConstantLayer):
                             # Add the inference result of the layer to debug_output
                             debug_output.append(layer_output)
-                            if (self.data_format == "channels_last") and hasattr(
-                                layer,
-                                "output_channels",
-                            ):
+                            shape = tensor_shape(layer)
+                            if self.data_format == "channels_last" and shape is not None:
                                 debug_output[-1] = np.transpose(
-                                    debug_output[-1],
+                                    np.reshape(debug_output[-1], shape),
                                     (1, 2, 0),
                                 )
                             debug_output[-1] = debug_output[-1].flatten()
@@ -952,13 +950,20 @@ class CodeGenerator(ABC):
                 layer_hash["name"] = layer.name
                 layer_hash["idx"] = layer.idx
                 layer_hash["to_transpose"] = 0
-                if (self.data_format == "channels_last") and (
-                    hasattr(layer, "output_channels")
-                ):
-                    layer_hash["to_transpose"] = 1
-                    layer_hash["channels"] = layer.output_channels
-                    layer_hash["height"] = layer.output_height
-                    layer_hash["width"] = layer.output_width
+                layer_hash["position"] = "k"
+                shape = tensor_shape(layer)
+                if shape is not None:
+                    channels, height, width = shape
+                    if self.data_format == "channels_last":
+                        layer_hash["to_transpose"] = 1
+                        layer_hash["channels"] = channels
+                        layer_hash["height"] = height
+                        layer_hash["width"] = width
+                    if self.gen_data_format == "channels_last":
+                        # Values are written channel by channel
+                        layer_hash["position"] = (
+                            f"(k % {height * width}) * {channels} + k / {height * width}"
+                        )
 
             if self.debug_mode in ["time"]:
                 layer_hash["time"] = True
diff --git a/src/acetone_nnet/templates/template_source_file.c.tpl b/src/acetone_nnet/templates/template_source_file.c.tpl
index fdb72b9..137f954 100644
--- a/src/acetone_nnet/templates/template_source_file.c.tpl
+++ b/src/acetone_nnet/templates/template_source_file.c.tpl
@@ -100,7 +100,7 @@ int inference(inference_t *ctx, {{data_type}} prediction[{{output_size}}], {{dat
     fprintf(fp, "{{name}} {{idx}} {{to_transpose}} {{channels}} {{height}} {{width}}\n");
     for (k = 0; k < {{size}}; ++k)
     {
-        fprintf(fp,"%.17g ", (double)ctx->output_{{path}}[k]);
+        fprintf(fp,"%.17g ", (double)ctx->output_{{path}}[{{position}}]);
         if (k == {{size}} - 1)
         {
             fprintf(fp, "\n");
-- 
2.43.0


From 70582cbd04b8b32492081ff3d1daba89f4ee9dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 50/72] fix: Gather layer: loops over the dimensions of the
 input

---
 .../generator/layers/gather/GatherDefault.py         | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/gather/GatherDefault.py b/src/acetone_nnet/generator/layers/gather/GatherDefault.py
index bbfd9ba..adf5e92 100644
--- a/src/acetone_nnet/generator/layers/gather/GatherDefault.py
+++ b/src/acetone_nnet/generator/layers/gather/GatherDefault.py
@@ -57,16 +57,16 @@ class GatherDefault(Gather):
 
         if self.axis == 1:
             mustach_hash["channels"] = True
-            mustach_hash["output_height"] = self.output_height
-            mustach_hash["output_width"] = self.output_width
+            mustach_hash["output_height"] = self.input_height
+            mustach_hash["output_width"] = self.input_width
         elif self.axis == 2:
             mustach_hash["heights"] = True
-            mustach_hash["output_channels"] = self.output_channels
-            mustach_hash["output_width"] = self.output_width
+            mustach_hash["output_channels"] = self.input_channels
+            mustach_hash["output_width"] = self.input_width
         elif self.axis == 3:
             mustach_hash["widths"] = True
-            mustach_hash["output_channels"] = self.output_channels
-            mustach_hash["output_height"] = self.output_height
+            mustach_hash["output_channels"] = self.input_channels
+            mustach_hash["output_height"] = self.input_height
 
         with open(self.template_path / "layers" / "template_Gather.c.tpl") as template_file:
             template = template_file.read()
-- 
2.43.0


From 7abb7d157cc3687a38e93e5cb61cdcc5ebe6fb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 51/72] fix: Softmax layer: overflow of the exponentials

---
 .../generator/layers/softmax/Softmax.py       |  7 +++--
 .../layers/softmax/SoftmaxDefault.py          | 13 ++------
 src/acetone_nnet/generator/neural_network.py  |  2 +-
 .../templates/layers/template_Softmax.c.tpl   | 31 +++++++++----------
 4 files changed, 22 insertions(+), 31 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/softmax/Softmax.py b/src/acetone_nnet/generator/layers/softmax/Softmax.py
index 27991cc..aa5c5aa 100644
--- a/src/acetone_nnet/generator/layers/softmax/Softmax.py
+++ b/src/acetone_nnet/generator/layers/softmax/Softmax.py
@@ -108,7 +108,8 @@ class Softmax(Layer):
             input_array = input_array.reshape(1, self.output_channels, self.output_height, self.output_width)
         else:
             input_array = input_array.flatten()
-            self.axis = -1
 
-        exp = np.exp(input_array, dtype=float)
-        return exp / np.sum(exp, keepdims=True, axis=self.axis)
\ No newline at end of file
+        axis = -1 if self.one_dimension else self.axis
+        # The largest value is subtracted to avoid overflows
+        exp = np.exp(input_array - np.max(input_array, keepdims=True, axis=axis), dtype=float)
+        return exp / np.sum(exp, keepdims=True, axis=axis)
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py b/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
index 8434f8e..db60ad7 100644
--- a/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
+++ b/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
@@ -52,33 +52,26 @@ class SoftmaxDefault(Softmax):
         if self.one_dimension:
             mustach_hash["size"] = self.size
         else:
-            mustach_hash["output_channels"] = self.output_channels
-            mustach_hash["output_height"] = self.output_height
-            mustach_hash["output_width"] = self.output_width
-
             if self.axis == 1:
                 mustach_hash["sum_dimension_1"] = self.output_height
                 mustach_hash["sum_dimension_2"] = self.output_width
                 mustach_hash["reduced_dimension"] = self.output_channels
-                mustach_hash["reduced_position_1"] = f"i + {self.output_width}*f"
+                mustach_hash["first_position"] = f"i + {self.output_width}*f"
                 mustach_hash["reduced_position_2"] = f"i + {self.output_width}*(f + {self.output_height}*j)"
-                mustach_hash["softmax_indice"] = f"j + {self.output_width}*i"
 
             elif self.axis == 2:
                 mustach_hash["sum_dimension_1"] = self.output_channels
                 mustach_hash["sum_dimension_2"] = self.output_width
                 mustach_hash["reduced_dimension"] = self.output_height
-                mustach_hash["reduced_position_1"] = f"i + {self.output_width}*f"
+                mustach_hash["first_position"] = f"i + {self.output_width*self.output_height}*f"
                 mustach_hash["reduced_position_2"] = f"i + {self.output_width}*(j + {self.output_height}*f)"
-                mustach_hash["softmax_indice"] = f"j + {self.output_width}*f"
 
             elif self.axis == 3:
                 mustach_hash["sum_dimension_1"] = self.output_channels
                 mustach_hash["sum_dimension_2"] = self.output_height
                 mustach_hash["reduced_dimension"] = self.output_width
-                mustach_hash["reduced_position_1"] = f"i + {self.output_height}*f"
+                mustach_hash["first_position"] = f"{self.output_width}*(i + {self.output_height}*f)"
                 mustach_hash["reduced_position_2"] = f"j + {self.output_width}*(i + {self.output_height}*f)"
-                mustach_hash["softmax_indice"] = f"i + {self.output_height}*f"
 
         mustach_hash["activation_function"] = self.activation_function.write_activation_str(f"ctx->output_{self.path}[j]")
 
diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index d843bfc..f356b76 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -895,7 +895,7 @@ class CodeGenerator(ABC):
         ):
             mustach_hash["is_sum"] = True
 
-        if any(isinstance(i, MaxPooling2D) for i in self.layers):
+        if any(isinstance(i, MaxPooling2D | Softmax) for i in self.layers):
             mustach_hash["is_max"] = True
 
         if any(isinstance(i, AveragePooling2D) for i in self.layers):
diff --git a/src/acetone_nnet/templates/layers/template_Softmax.c.tpl b/src/acetone_nnet/templates/layers/template_Softmax.c.tpl
index 3715fc7..0a752ea 100644
--- a/src/acetone_nnet/templates/layers/template_Softmax.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Softmax.c.tpl
@@ -1,11 +1,15 @@
     // {{name}}_{{idx}} {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
     {{#1D}}
+    max = ctx->{{output_str}}[0];
+    for (i = 1; i < {{size}}; ++i)
+        if (ctx->{{output_str}}[i] > max)
+            max = ctx->{{output_str}}[i];
     sum = 0;
     for (i = 0; i < {{size}}; ++i)
-        sum += exp(ctx->{{output_str}}[i]);
+        sum += exp(ctx->{{output_str}}[i] - max);
     for (j = 0; j < {{size}}; ++j)
     {
-        ctx->output_{{road}}[j] = exp(ctx->{{output_str}}[j])/sum;
+        ctx->output_{{road}}[j] = exp(ctx->{{output_str}}[j] - max)/sum;
         ctx->output_{{road}}[j] = {{{activation_function}}};
     }
     {{/1D}}
@@ -14,22 +18,15 @@
     {
         for (i = 0; i < {{sum_dimension_2}}; ++i)
         {
-            ctx->tensor_temp[{{reduced_position_1}}] = 0;
+            max = ctx->{{output_str}}[{{first_position}}];
+            for (j = 1; j < {{reduced_dimension}}; ++j)
+                if (ctx->{{output_str}}[{{reduced_position_2}}] > max)
+                    max = ctx->{{output_str}}[{{reduced_position_2}}];
+            sum = 0;
             for (j = 0; j < {{reduced_dimension}}; ++j)
-            {
-                ctx->tensor_temp[{{reduced_position_1}}] += exp(ctx->{{output_str}}[{{reduced_position_2}}]);
-            }
-        }
-    }
-
-    for (f = 0; f < {{output_channels}}; ++f)
-    {
-        for (i = 0; i < {{output_height}}; ++i)
-        {
-            for (j = 0; j < {{output_width}}; ++j)
-            {
-                ctx->output_{{road}}[j + {{output_width}}*(i +  {{output_height}}*f)] = exp(ctx->{{output_str}}[j + {{output_width}}*(i +  {{output_height}}*f)])/ctx->tensor_temp[{{softmax_indice}}];
-            }
+                sum += exp(ctx->{{output_str}}[{{reduced_position_2}}] - max);
+            for (j = 0; j < {{reduced_dimension}}; ++j)
+                ctx->output_{{road}}[{{reduced_position_2}}] = exp(ctx->{{output_str}}[{{reduced_position_2}}] - max)/sum;
         }
     }
     {{/1D}}
\ No newline at end of file
-- 
2.43.0


From 6dc940627b188ed8d0bfff67b3a9c26bef150f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 52/72] fix: Transpose layer: refuse the permutations moving
 the batch

---
 src/acetone_nnet/generator/layers/transpose/Transpose.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/acetone_nnet/generator/layers/transpose/Transpose.py b/src/acetone_nnet/generator/layers/transpose/Transpose.py
index cee3d6c..690dd48 100644
--- a/src/acetone_nnet/generator/layers/transpose/Transpose.py
+++ b/src/acetone_nnet/generator/layers/transpose/Transpose.py
@@ -101,6 +101,9 @@ class Transpose(Layer):
                 msg += f"Error: non unicity of perm's values in Transpose {self.perm}"
                 msg += "\n"
             seen.append(indice)
+        if self.perm[0] != 0:
+            msg += f"Error: perm {self.perm} in Transpose moves the batch dimension"
+            msg += "\n"
         if msg:
             raise ValueError(msg)
 
-- 
2.43.0


From 8dcb547b6d662f65f2900a00ac04531b67d957ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 53/72] fix: ONNX constructs outside the supported subset:
 refuse them or compute them

---
 .../generator/layers/resize/Resize.py         |  4 ++
 .../importers/ONNX_importer/create_layer.py   | 38 ++++++++++++++++---
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/resize/Resize.py b/src/acetone_nnet/generator/layers/resize/Resize.py
index df6007b..e7a90ae 100644
--- a/src/acetone_nnet/generator/layers/resize/Resize.py
+++ b/src/acetone_nnet/generator/layers/resize/Resize.py
@@ -117,6 +117,10 @@ class Resize(Layer):
             self.scale[2] = self.output_height / self.input_height
             self.scale[3] = self.output_width / self.input_width
 
+        if self.output_channels != self.input_channels:
+            msg = f"Error: Resize over the channels ({self.input_channels} to {self.output_channels}) not implemented"
+            raise ValueError(msg)
+
         ####### Checking the instantiation#######
 
         ### Checking argument type ###
diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 78c8eea..b8a85bf 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -195,6 +195,19 @@ def get_shape(
     return shape
 
 
+# Find the type of the elements of tensor_name in model
+def get_element_type(tensor_name: str, model: onnx.ModelProto) -> np.dtype:
+    """Return the type of the elements of a tensor (float32 by default)."""
+    elem_type = onnx.TensorProto.FLOAT
+    for info in (*model.graph.value_info, *model.graph.input, *model.graph.output):
+        if info.name == tensor_name:
+            elem_type = info.type.tensor_type.elem_type
+    for initializer in model.graph.initializer:
+        if initializer.name == tensor_name:
+            elem_type = initializer.data_type
+    return onnx.helper.tensor_dtype_to_np_dtype(elem_type)
+
+
 # Return the size of the layer when given the list output_shape
 def find_size(output_shape: list) -> int:
     """Compute the size of a tensor."""
@@ -265,11 +278,16 @@ def create_softmax(
     dict_input[idx] = node.input
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
+    if model.opset_import[0].version < onnx_version_change_implementation:
+        # All the dimensions from the axis on are normalised together
+        axis = attributes.get("axis", 1) % len(input_shape)
+        large = [i for i in range(axis, len(input_shape)) if input_shape[i] != 1]
+        if len(large) > 1 or any(dim != 1 for dim in input_shape[:1]):
+            msg = f"Error: Softmax {node.name} over several axes not implemented"
+            raise ValueError(msg)
+        attributes["axis"] = large[0] if large else axis
     if "axis" not in attributes:
-        if model.opset_import[0].version < onnx_version_change_implementation:
-            attributes["axis"] = 4 + 1 - len(input_shape)
-        else:
-            attributes["axis"] = len(output_shape) - 1
+        attributes["axis"] = len(output_shape) - 1
     elif attributes["axis"] < 0:
         attributes["axis"] = len(output_shape) + attributes["axis"]
     else:
@@ -319,12 +337,14 @@ def create_conv(
         attributes["strides"] = [1, 1]
 
     initializers_length = 2
-    if len(initializers) == initializers_length:
+    if len(initializers) == initializers_length and node.input[2]:
         biases = onnx.numpy_helper.to_array(initializers[1])
     else:
         biases = np.zeros(output_shape[1])
     # Collect weights from ONNX, in the expected FCHW format
     weights = onnx.numpy_helper.to_array(initializers[0])
+    if "kernel_shape" not in attributes:
+        attributes["kernel_shape"] = list(weights.shape[2:])
 
     return Conv2D(
         conv_algorithm="specs",
@@ -427,6 +447,10 @@ def create_resize(
     # Trailing optional inputs may be omitted
     initializers += [[]] * (3 - len(initializers))
     attributes = extract_attributes(node)
+    check_window_attributes(node, attributes, (), exclude_outside=0, antialias=0)
+    if attributes.get("keep_aspect_ratio_policy", b"stretch") != b"stretch" or "axes" in attributes:
+        msg = f"Error: axes or aspect ratio policy of Resize {node.name} not implemented"
+        raise ValueError(msg)
     attributes = resize_set_default_attributes_values(attributes, input_shape)
 
     if initializers[2]:
@@ -1302,6 +1326,9 @@ def create_div(
     model: onnx.ModelProto,
 ) -> Divide:
     """Create a Divide layer."""
+    if np.issubdtype(get_element_type(node.input[0], model), np.integer):
+        msg = f"Error: integer division {node.name} not implemented"
+        raise ValueError(msg)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_output[node.output[0]] = idx
@@ -1569,7 +1596,6 @@ unused_layers = {
     "Unsqueeze": bypass,
     "Reshape": bypass,
     "LRN": bypass,
-    "Shape": bypass,
     "Flatten": bypass,
 }
 
-- 
2.43.0


From 75edd123a4858be398fb521f71d3b54ad4023425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 54/72] fix: ONNX model forms: output of the outmost layer,
 inputs which are not read, missing shapes, operators of other domains

---
 .../importers/ONNX_importer/parser_ONNX.py    | 41 ++++++++++++++-----
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index 61f9db1..4f4b46a 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -60,18 +60,27 @@ def find_data_type(
     return data_type, data_type_py
 
 
-def select_nodes(graph: onnx.GraphProto) -> list[onnx.NodeProto]:
-    """Select the nodes needed to compute the output of the graph."""
-    if len(graph.output) != 1:
-        msg = f"Error: model with {len(graph.output)} outputs not supported"
-        raise ValueError(msg)
-    needed = {graph.output[0].name}
+def select_nodes(graph: onnx.GraphProto) -> tuple[list[onnx.NodeProto], set[str]]:
+    """Select the nodes needed to compute the output of the outmost layer.
+
+    Return the nodes and the names of all the tensors they need.
+    """
+    outputs = {o.name for o in graph.output}
+    needed: set[str] = set()
     selected = []
     for node in reversed(graph.node):
+        if not needed and outputs.intersection(node.output):
+            needed = outputs.intersection(node.output)
+            if node.output[0] not in needed:
+                msg = f"Error: output {needed} of {node.op_type} {node.name} not supported"
+                raise ValueError(msg)
+            needed = {node.output[0]}
         if needed.intersection(node.output):
-            needed.update(name for name in node.input if name)
+            # Only the first operand of a bypassed layer is used
+            operands = node.input[:1] if node.op_type in unused_layers else node.input
+            needed.update(name for name in operands if name)
             selected.insert(0, node)
-    return selected
+    return selected, needed
 
 
 def load_onnx(
@@ -85,7 +94,13 @@ def load_onnx(
         else file_to_parse
     )
 
-    if not model.graph.value_info:
+    # Adding the shapes which are not given by the model
+    described = {
+        info.name
+        for info in (*model.graph.value_info, *model.graph.output)
+        if info.type.tensor_type.HasField("shape")
+    }
+    if any(name not in described for node in model.graph.node for name in node.output):
         model = onnx.shape_inference.infer_shapes(model)
 
     # The list of layers
@@ -103,6 +118,10 @@ def load_onnx(
     initializer_names = {i.name for i in model.graph.initializer}
     network_inputs = [i for i in model.graph.input if i.name not in initializer_names]
 
+    # Only the nodes leading to the output and the input they read are taken into account
+    nodes, needed = select_nodes(model.graph)
+    network_inputs = [i for i in network_inputs if i.name in needed] or network_inputs[:1]
+
     if len(network_inputs) != 1:
         msg = f"Error: model with {len(network_inputs)} inputs not supported"
         raise ValueError(msg)
@@ -124,7 +143,9 @@ def load_onnx(
         idx += 1'''
 
     # Going through all the nodes to create the layers and add them to the list
-    for node in select_nodes(model.graph):
+    for node in nodes:
+        if node.domain not in ("", "ai.onnx"):
+            raise TypeError("Error: layer " + node.domain + "." + node.op_type + " not supported\n")
         if node.op_type in layer_type:
             # If the node is a useful layer, we add it to the list
             layers.append(
-- 
2.43.0


From 36a33dfaced1c2093f74cb2b0be7d45754b61373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:04 +0000
Subject: [PATCH 55/72] fix: PyTorch importer: values the output does not need

---
 .../PYTORCH_importer/parse_pytorch.py         | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index a2e7619..61e263b 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -487,14 +487,30 @@ class ShapeAwareVisitor(FXGraphVisitor):
             if len(outputs) != 1:
                 raise ValueError(f"Error: model with {len(outputs)} outputs not supported")
             outputs = outputs[0]
-        self._get_layer(outputs)
+        self.output_layer = self._get_layer(outputs)
+
+    def get_layers(self) -> List[Layer]:
+        """Give the layers needed to compute the output."""
+        needed: dict[int, Layer] = {}
+        to_visit = [self.output_layer]
+        while to_visit:
+            layer = to_visit.pop()
+            if layer.idx not in needed:
+                needed[layer.idx] = layer
+                to_visit += layer.previous_layer
+        for layer in needed.values():
+            layer.next_layer = [l for l in layer.next_layer if l.idx in needed]
+        layers = [needed[idx] for idx in sorted(needed)]
+        for i, layer in enumerate(layers):
+            layer.idx = i
+        return layers
 
 
 
 def load_pytorch(program : ExportedProgram):
     visitor = ShapeAwareVisitor()
     visitor.visit(program.module())
-    layers, max_road, dict_cst = graph_interpretor.tri_topo([l[0] for l in visitor.layerdic.values()])
+    layers, max_road, dict_cst = graph_interpretor.tri_topo(visitor.get_layers())
     layers = [x.find_output_str(dict_cst) for x in layers]
     print("Finished model initialization.")    
     return layers, visitor.data_type, visitor.data_type_py, visitor.data_format, max_road, dict_cst
-- 
2.43.0


From f7eae6f15b76637fdac926c9bc4c07dbbcb595e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:04 +0000
Subject: [PATCH 56/72] fix: JSON importer: softmax over images, operands of
 different ranks, axes and data formats not supported

---
 src/acetone_nnet/generator/neural_network.py  |  8 ++-
 .../importers/JSON_importer/parser_JSON.py    | 53 +++++++++++++++----
 2 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index f356b76..9059006 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -586,11 +586,9 @@ class CodeGenerator(ABC):
                 nn_output = layer_output
 
                 # Write results in text files to compare prediction.
-                if (
-                    self.data_format == "channels_last"
-                    and tensor_shape(layer) is not None
-                ):
-                    nn_output = np.transpose(nn_output, (1, 2, 0))
+                shape = tensor_shape(layer)
+                if self.data_format == "channels_last" and shape is not None:
+                    nn_output = np.transpose(np.reshape(nn_output, shape), (1, 2, 0))
                 nn_output = np.reshape(nn_output, -1)
 
                 if self.normalize:
diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 9d46ef8..1d4842b 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -90,12 +90,31 @@ def create_resize_obj(
 
 
 def extend_shape(shape: list) -> list:
-    """Complete a shape to four dimensions; apply to each shape of a list."""
-    if any(isinstance(s, list) for s in shape):
-        return [extend_shape(s) for s in shape]
+    """Complete a shape to four dimensions."""
     return [1, *[1] * (4 - len(shape)), *shape[1:]]
 
 
+def extend_shapes(shapes: list[list], data_format: str) -> list[list]:
+    """Complete the shapes of operands, aligned on their last dimensions, to four dimensions."""
+    extended = [extend_shape(shape) for shape in shapes]
+    if data_format == "channels_last" and any(len(shape) == 4 for shape in shapes):
+        # The last dimension of the smaller tensors is the one of the channels
+        extended = [
+            s if len(shape) == 4 else [s[0], s[3], s[1], s[2]]
+            for s, shape in zip(extended, shapes, strict=True)
+        ]
+    return extended
+
+
+def check_data_format(config: dict, data_format: str) -> None:
+    """Refuse the layers whose axes are not those of the model."""
+    if len(config["output_shape"]) != 4 and len(config["input_shape"]) != 4:
+        return
+    if config.get("data_format", data_format) != data_format:
+        msg = f"Error: data format {config['data_format']} of layer {config['name']} not supported"
+        raise ValueError(msg)
+
+
 def get_square_value(config: dict, name: str) -> int:
     """Read an attribute which must be the same in both directions."""
     first, second = config[name]
@@ -150,6 +169,8 @@ def load_json(
         position = layer["config"].get("idx", idx)
         idx = len(layers)
 
+        check_data_format(layer["config"], data_format)
+
         if (
             "activation" in layer["config"]
             and layer["config"]["activation"] == "softmax"
@@ -235,7 +256,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=np.array(extend_shape(layer["config"]["input_shape"])),
+                input_shapes=np.array(extend_shapes(layer["config"]["input_shape"], data_format)),
                 output_shape=extend_shape(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
@@ -245,7 +266,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=np.array(extend_shape(layer["config"]["input_shape"])),
+                input_shapes=np.array(extend_shapes(layer["config"]["input_shape"], data_format)),
                 output_shape=extend_shape(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
@@ -255,7 +276,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=np.array(extend_shape(layer["config"]["input_shape"])),
+                input_shapes=np.array(extend_shapes(layer["config"]["input_shape"], data_format)),
                 output_shape=extend_shape(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
@@ -274,7 +295,7 @@ def load_json(
                 idx=idx,
                 size=layer["config"]["size"],
                 axis=axis,
-                input_shapes=extend_shape(layer["config"]["input_shape"]),
+                input_shapes=extend_shapes(layer["config"]["input_shape"], data_format),
                 output_shape=extend_shape(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
@@ -284,7 +305,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=np.array(extend_shape(layer["config"]["input_shape"])),
+                input_shapes=np.array(extend_shapes(layer["config"]["input_shape"], data_format)),
                 output_shape=extend_shape(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
@@ -294,7 +315,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=np.array(extend_shape(layer["config"]["input_shape"])),
+                input_shapes=np.array(extend_shapes(layer["config"]["input_shape"], data_format)),
                 output_shape=extend_shape(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
@@ -304,7 +325,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=np.array(extend_shape(layer["config"]["input_shape"])),
+                input_shapes=np.array(extend_shapes(layer["config"]["input_shape"], data_format)),
                 output_shape=extend_shape(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
@@ -334,6 +355,12 @@ def load_json(
             )
 
         elif layer["class_name"] == "BatchNormalization":
+            rank = len(layer["config"]["input_shape"])
+            axes = layer["config"].get("axis", [])
+            for axis in [axes] if type(axes) is int else axes:
+                if axis % rank != (rank - 1 if data_format == "channels_last" else 1):
+                    msg = f"Error: axis {axes} of layer {layer['config']['name']} not supported (must be the channels)"
+                    raise ValueError(msg)
             current_layer = BatchNormalization(
                 original_name=layer["config"]["name"],
                 idx=idx,
@@ -372,12 +399,16 @@ def load_json(
 
         # Separated method to generate softmax
         if add_softmax_layer:
+            # Over the last axis of the Keras tensor
+            softmax_axis = None
+            if len(layer["config"]["output_shape"]) == 4:
+                softmax_axis = 1 if data_format == "channels_last" else 3
             current_layer = Softmax(
                 original_name=f"Softmax_{idx+1}",
                 idx=idx + 1,
                 size=l_temp.size,
                 output_shape=layer["config"]["output_shape"],
-                axis=None,
+                axis=softmax_axis,
             )
             l_temp.next_layer.append(current_layer)
             current_layer.previous_layer.append(l_temp)
-- 
2.43.0


From 48d3b7187ff8b9aebdc11bf63bb5a773259d7df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:04 +0000
Subject: [PATCH 57/72] fix: unknown padding modes refused

---
 src/acetone_nnet/ir/layer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/acetone_nnet/ir/layer.py b/src/acetone_nnet/ir/layer.py
index aa345e0..20e6ff6 100644
--- a/src/acetone_nnet/ir/layer.py
+++ b/src/acetone_nnet/ir/layer.py
@@ -153,6 +153,9 @@ class Layer(ABCHasTraits):
                     pad_top = pad_along_height - pad_bottom
                     pad_right = pad_along_width // 2
                     pad_left = pad_along_width - pad_right
+                else:
+                    msg = f"Error: padding {padding} not supported"
+                    raise ValueError(msg)
         else:
             pad_right, pad_left, pad_bottom, pad_top = (
                 padding[3],
-- 
2.43.0


From 770d1196dd26a86e880129504e61a614388ee736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:24 +0000
Subject: [PATCH 58/72] fix: ONNX models of the caller modified by the import

---
 .../importers/ONNX_importer/parser_ONNX.py            | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index 4f4b46a..dd98b38 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -88,11 +88,12 @@ def load_onnx(
 ) -> (list[Layer], str, type, str, int, dict[int, int]):
     """Load an ONNX model and return the corresponding ACETONE representation."""
     # Loading the model and adding value_info if it's not already in it
-    model = (
-        onnx.load(file_to_parse)
-        if isinstance(file_to_parse, (str, Path))
-        else file_to_parse
-    )
+    if isinstance(file_to_parse, (str, Path)):
+        model = onnx.load(file_to_parse)
+    else:
+        # The model of the caller is left unchanged
+        model = onnx.ModelProto()
+        model.CopyFrom(file_to_parse)
 
     # Adding the shapes which are not given by the model
     described = {
-- 
2.43.0


From fa8074847c1f2f02b2de954341b6eb3cd80f9d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:59 +0000
Subject: [PATCH 59/72] fix: the Python reference stores the results of
 quantized layers in their type

---
 src/acetone_nnet/generator/neural_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 9059006..a4bd4ed 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -560,6 +560,9 @@ class CodeGenerator(ABC):
 
                     # Compute layer output
                     layer_output = layer.forward_path_layer(forward_inputs)
+                    if np.issubdtype(self.data_type_py, np.integer):
+                        # Stored in the type of the tensors, as in the C code
+                        layer_output = np.asarray(layer_output).astype(self.data_type_py)
 
                     # Write Layer output into successors' input
                     for successor in layer.next_layer:
-- 
2.43.0


From 3337edd61ea6334cc4543fdec0a1bd413bbc7a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:43 +0000
Subject: [PATCH 60/72] fix: layers fused by the optimisation are quantized
 like the layer they come from

---
 src/acetone_nnet/generator/neural_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index a4bd4ed..b6c2156 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1118,8 +1118,9 @@ class CodeGenerator(ABC):
         if self.target_cfg is not None:
             for l in self.layers:
                 try:
+                    # A fused layer computes in the format of the one it comes from
                     layer_qconf = self.target_cfg["quantization"]["layers"][
-                        l.original_name
+                        l.original_name.split(" fused with ")[0]
                     ]
                     if isinstance(l, ConstantLayer):
                         l.qparam = layer_qconf["out"]
-- 
2.43.0


From 326981ceb5dd246f99591e4dbac501f004ad06b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:56 +0000
Subject: [PATCH 61/72] fix: a product or constant the target description
 leaves out is refused

---
 src/acetone_nnet/generator/neural_network.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index b6c2156..1aa8f89 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1158,14 +1158,19 @@ class CodeGenerator(ABC):
                         )
                         if (constant != l.constant).all():
                             logging.warning("Constant MSB truncated")
-                    l.qin = layer_qconf["in"]
+                    l.qin = layer_qconf.get("in")  # A constant has no input
                     l.qout = layer_qconf["out"]
                     logging.info(f"Quantize {l.name}_{l.idx} format {l.qparam}")
                     l.temp_pydtype = self.target_cfg["quantization"]["temp_pydtype"]
                     l.cdtype = self.target_cfg["quantization"]["dtype"]
 
                 except KeyError:
-                    if hasattr(l, "weights") or hasattr(l, "biases"):
+                    if (
+                        hasattr(l, "weights")
+                        or hasattr(l, "biases")
+                        or getattr(l, "constant", None) is not None
+                        or isinstance(l, MatMul)
+                    ):
                         raise KeyError(
                             f"Cannot quantize layer {l.name}_{l.idx}, missing data in target config",
                         )
-- 
2.43.0


From 6a49bf5819dc34e83623e4e671e18ded15c12e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:05 +0000
Subject: [PATCH 62/72] fix: the comparison tool read decimal values as
 hexadecimal ones

---
 src/acetone_nnet/cli/compare.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/cli/compare.py b/src/acetone_nnet/cli/compare.py
index 3dc3abb..b32086a 100644
--- a/src/acetone_nnet/cli/compare.py
+++ b/src/acetone_nnet/cli/compare.py
@@ -48,7 +48,9 @@ def compare_floats(
 
 def preprocess_line(line: str, precision: str) -> list:
     """Cast a list of str to a list of float."""
-    values: list = [float.fromhex(x) for x in line.split(" ") if x.strip()]
+    values: list = [
+        float.fromhex(x) if "0x" in x.lower() else float(x) for x in line.split()
+    ]
     if precision == "double":
         values = list(map(np.float64, values))
     elif precision == "float":
-- 
2.43.0


From 390af378c5a0e74a90cea57f7ff91eaec5698ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:05 +0000
Subject: [PATCH 63/72] fix: the comparison tool lost NaN, and compared
 infinities and large values wrongly

---
 src/acetone_nnet/cli/compare.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/acetone_nnet/cli/compare.py b/src/acetone_nnet/cli/compare.py
index b32086a..3c38247 100644
--- a/src/acetone_nnet/cli/compare.py
+++ b/src/acetone_nnet/cli/compare.py
@@ -33,10 +33,13 @@ def compare_floats(
     abs_th: float = sys.float_info.min,
 ) -> tuple[bool, float, float]:
     """Compare a-b to abs_th."""
-    diff = abs(a - b)
+    # The sum of two floats may not be one
+    a, b = float(a), float(b)
 
     if a == b:
-        return True, diff, 0.0
+        return True, 0.0, 0.0
+
+    diff = abs(a - b)
 
     norm = min((abs(a) + abs(b)), sys.float_info.max)
     rel_diff = diff / (norm / 2) if norm != 0 else 0.0
@@ -74,8 +77,9 @@ def compare_lines(
     for j in range(length):
         float_comparison, diff, rel_diff = compare_floats(values_f1[j], values_f2[j])
         line_comparison = float_comparison & line_comparison
-        max_diff = max(diff, max_diff)
-        max_rel_diff = max(rel_diff, max_rel_diff)
+        # Unlike max, np.maximum keeps NaN
+        max_diff = np.maximum(diff, max_diff)
+        max_rel_diff = np.maximum(rel_diff, max_rel_diff)
 
     if line_comparison:
         return True, max_diff, max_rel_diff
@@ -108,8 +112,8 @@ def compare_files(
         )
         line_comparison = float_comparison & line_comparison
 
-        max_diff_file = max(max_diff_line, max_diff_file)
-        max_rel_diff_file = max(max_rel_diff_line, max_rel_diff_file)
+        max_diff_file = np.maximum(max_diff_line, max_diff_file)
+        max_rel_diff_file = np.maximum(max_rel_diff_line, max_rel_diff_file)
 
         if line_counter == int(nb_tests):
             break
-- 
2.43.0


From 840475e84a300906c174a734337dce49b9ad702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:05 +0000
Subject: [PATCH 64/72] fix: the comparison tool ignored missing values and
 compared one inference too many

---
 src/acetone_nnet/cli/compare.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/acetone_nnet/cli/compare.py b/src/acetone_nnet/cli/compare.py
index 3c38247..4f08ac8 100644
--- a/src/acetone_nnet/cli/compare.py
+++ b/src/acetone_nnet/cli/compare.py
@@ -74,6 +74,10 @@ def compare_lines(
     length = len(values_f1)
     line_comparison = True
 
+    if len(values_f2) != length:
+        msg = f"Error: comparing {length} values with {len(values_f2)}"
+        raise ValueError(msg)
+
     for j in range(length):
         float_comparison, diff, rel_diff = compare_floats(values_f1[j], values_f2[j])
         line_comparison = float_comparison & line_comparison
@@ -101,12 +105,10 @@ def compare_files(
     max_rel_diff_file = 0.0
     line_comparison = True
 
-    for line_f1, line_f2, line_counter in zip(
-        f1,
-        f2,
-        range(nb_tests + 1),
-        strict=False,
-    ):
+    nb_compared = 0
+    # The range comes first, not to read a line more than the tests to compare
+    for _, line_f1, line_f2 in zip(range(nb_tests), f1, f2, strict=False):
+        nb_compared += 1
         float_comparison, max_diff_line, max_rel_diff_line = (
             compare_lines(line_f1, line_f2, precision)
         )
@@ -115,12 +117,13 @@ def compare_files(
         max_diff_file = np.maximum(max_diff_line, max_diff_file)
         max_rel_diff_file = np.maximum(max_rel_diff_line, max_rel_diff_file)
 
-        if line_counter == int(nb_tests):
-            break
-
     f1.close()
     f2.close()
 
+    if nb_compared < nb_tests:
+        msg = f"Error: {nb_tests} tests to compare, the files hold {nb_compared}"
+        raise ValueError(msg)
+
     if line_comparison:
         return True, max_diff_file, max_rel_diff_file
 
-- 
2.43.0


From 80a93afec285bb63c7595300d69bad18aeb1a6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:15 +0000
Subject: [PATCH 65/72] fix: options of the command line given the value False
 were taken as True

---
 src/acetone_nnet/cli/generate.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/cli/generate.py b/src/acetone_nnet/cli/generate.py
index 6782ee0..7a1fdad 100644
--- a/src/acetone_nnet/cli/generate.py
+++ b/src/acetone_nnet/cli/generate.py
@@ -66,6 +66,18 @@ def cli_acetone(
     net.compute_inference(output_dir)
 
 
+def _boolean(text: str) -> bool:
+    """Read the boolean value of an option."""
+    match text.strip().lower():
+        case "true" | "yes" | "on" | "1":
+            return True
+        case "false" | "no" | "off" | "0" | "":
+            return False
+        case _:
+            msg = f"boolean value expected, got {text!r}"
+            raise argparse.ArgumentTypeError(msg)
+
+
 def acetone_generate() -> None:
     """Generate C code from a neural network model description file."""
     parser = argparse.ArgumentParser(
@@ -116,6 +128,7 @@ def acetone_generate() -> None:
         "--optimization",
         help="Activate model optimization on the internal representation.",
         default=False,
+        type=_boolean,
     )
 
     parser.add_argument(
@@ -134,14 +147,14 @@ def acetone_generate() -> None:
     parser.add_argument(
         "--bin_dataset",
         default=False,
-        type=bool,
+        type=_boolean,
         help="generate dataset as a binary file (not source compiled file)",
     )
 
     parser.add_argument(
         "--verbose",
         default=False,
-        type=bool,
+        type=_boolean,
         help="verbose logging at INFO level else WARNING level",
     )
 
-- 
2.43.0


From 78324ffc68dba5f362db823119fa301e8e50ca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:48 +0000
Subject: [PATCH 66/72] fix: parameters of normalisations and constants were
 not among those of the train hook

---
 src/acetone_nnet/generator/neural_network.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 1aa8f89..9a8016a 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -476,6 +476,13 @@ class CodeGenerator(ABC):
             if hasattr(layer, "biases") and layer.nb_biases > 0:
                 memcpy_names.append(f"biases_{layer.name}_{layer.idx:02d}")
                 sizes.append(layer.nb_biases)
+            if isinstance(layer, BatchNormalization):
+                for parameter in ("mean", "var", "scale"):
+                    memcpy_names.append(f"{parameter}_{layer.name}_{layer.idx:02d}")
+                    sizes.append(layer.output_channels)
+            if isinstance(layer, Broadcast) and layer.constant is not None:
+                memcpy_names.append(f"constant_{layer.name}_{layer.idx:02d}")
+                sizes.append(layer.constant_size)
         mustach_hash["memcpy_params"]=',\n'.join([f"\t{self.data_type} *model_{name}" for name in memcpy_names])
         mustach_hash["memcpy_code"]='\n'.join([f"\tmemcpy({name},model_{name},{size}*sizeof({self.data_type}));" for name,size in list(zip(memcpy_names,sizes))])
         mustach_hash["nb_params"]=[{"param_name":name, "param_size":size, "dtype":self.data_type} for name,size in list(zip(memcpy_names,sizes))]
-- 
2.43.0


From e429eafa590603c33a3baf0429348d6d05672ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:44 +0000
Subject: [PATCH 67/72] fix: Resize nodes without interpolation mode could not
 be imported

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index b8a85bf..7cd475c 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -419,6 +419,8 @@ def resize_set_default_attributes_values(
         attributes["keep_aspect_ratio_policy"] = "stretch"
     if "extrapolation_value" not in attributes:
         attributes["extrapolation_value"] = 0.0
+    if "mode" not in attributes:
+        attributes["mode"] = b"nearest"
     if "nearest_mode" not in attributes:
         attributes["nearest_mode"] = "round_prefer_floor"
     if "cubic_coeff_a" not in attributes:
-- 
2.43.0


From a8231f53327c1479944271ebd74a527fba637606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:35 +0000
Subject: [PATCH 68/72] fix: the Makefile compiled files which are not sources,
 and nothing again when a header changed

---
 src/acetone_nnet/generator/neural_network.py     | 4 ++--
 src/acetone_nnet/templates/template_makefile.tpl | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 9a8016a..dcb062c 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -762,9 +762,9 @@ class CodeGenerator(ABC):
         header_files = []
         source_files = []
         for filename in self.files_to_gen:
-            if ".c" in filename:
+            if filename.endswith(".c"):
                 source_files.append(filename)
-            elif ".h" in filename:
+            elif filename.endswith(".h"):
                 header_files.append(filename)
             elif self.bin_dataset and filename.endswith(".dat"):
                 # Made into the object file of this source
diff --git a/src/acetone_nnet/templates/template_makefile.tpl b/src/acetone_nnet/templates/template_makefile.tpl
index db22a0f..97872c4 100644
--- a/src/acetone_nnet/templates/template_makefile.tpl
+++ b/src/acetone_nnet/templates/template_makefile.tpl
@@ -20,7 +20,7 @@ HEADERS =
 HEADERS += {{.}}
 {{/header_files}}
 
-OBJ = $(SRC:.c=.o) $(HEADERS)
+OBJ = $(SRC:.c=.o)
 EXEC = {{executable_name}}
 
 all: $(EXEC) $(EXEC).so
@@ -34,12 +34,14 @@ parameters.o: parameters.dat
 
 {{/bin_dataset}}
 
+# The sources read the headers
+$(OBJ) $(EXEC).so: $(HEADERS)
 
 $(EXEC): $(OBJ)
 	$(CC) $(CFLAGS) -o $@ $(OBJ) $(LBLIBS) $(LDFLAGS)
 
 $(EXEC).so: inference.c parameters.o train_hook.c global_vars.c
-	$(CC) $(CFLAGS) -fPIC -shared -o $@ $^ $(LBLIBS) $(LDFLAGS)
+	$(CC) $(CFLAGS) -fPIC -shared -o $@ $(filter-out %.h,$^) $(LBLIBS) $(LDFLAGS)
 
 clean:
-	rm -f $(EXEC) *.o
\ No newline at end of file
+	rm -f $(EXEC) $(EXEC).so *.o
\ No newline at end of file
-- 
2.43.0


From 1185409efcf0c4d78f9bb8156a136030cabb91ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:13 +0000
Subject: [PATCH 69/72] fix: an inference on given data changed the number of
 samples of the next generation

---
 src/acetone_nnet/generator/neural_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index dcb062c..121813a 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -185,6 +185,8 @@ class CodeGenerator(ABC):
         self.nb_tests = int(nb_tests)
 
         self.test_dataset = self._initialise_dataset(test_dataset, int(nb_tests))
+        if test_dataset is not None:
+            self.nb_tests = len(self.test_dataset)
 
         self.target = target
         self.target_page_size = target_page_size
@@ -406,10 +408,8 @@ class CodeGenerator(ABC):
                     )
             case np.ndarray() as dataset:
                 d = dataset.astype(self.data_type_py)
-                self.nb_tests = dataset.shape[0]
             case Path() | str() as path:
                 d = self._load_dataset(Path(path), self.data_type_py, nb_tests)
-                self.nb_tests = len(d)
             case _:
                 raise ValueError
         for sample in d:
-- 
2.43.0


From 33e5d75ad8b4a28a647f690e1c53c805d721ff73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:06 +0000
Subject: [PATCH 70/72] fix: sigmoid and tanh were computed in single precision
 in networks of doubles

---
 src/acetone_nnet/generator/activation_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/activation_functions.py b/src/acetone_nnet/generator/activation_functions.py
index 3ee1c29..27d3ec3 100644
--- a/src/acetone_nnet/generator/activation_functions.py
+++ b/src/acetone_nnet/generator/activation_functions.py
@@ -95,7 +95,7 @@ class Sigmoid(ActivationFunctions):
 
     def write_activation_str(self: Self, local_var: str) -> str:
         """Generate the string to print."""
-        return f"({local_var} < 0) ? (expf({local_var}) / (1. + expf({local_var}))) : (1. / (1. + expf(-{local_var})))"
+        return f"({local_var} < 0) ? (exp({local_var}) / (1. + exp({local_var}))) : (1. / (1. + exp(-{local_var})))"
 
 class Silu(ActivationFunctions):
     """Silu layer."""
@@ -182,7 +182,7 @@ class TanH(ActivationFunctions):
 
     def write_activation_str(self: Self, local_var: str) -> str:
         """Generate the string to print."""
-        return f"({local_var} < 0.) ? (expf(2.*{local_var}) - 1.) / (expf(2.*{local_var}) + 1.) : (1. - expf(-2.*{local_var})) / (1. + expf(-2.*{local_var}))"
+        return f"({local_var} < 0.) ? (exp(2.*{local_var}) - 1.) / (exp(2.*{local_var}) + 1.) : (1. - exp(-2.*{local_var})) / (1. + exp(-2.*{local_var}))"
 
 class Linear(ActivationFunctions):
     """Linear layer."""
-- 
2.43.0


From 58c8fae212775c3c6ff8d39d9f82e3995071c4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:17 +0000
Subject: [PATCH 71/72] fix: the blocked convolution ignored the groups of 1x1
 and 3x3 kernels

---
 .../generator/layers/convolution/Conv2Ddirect_block.py   | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
index 9432646..eb810f7 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
@@ -52,8 +52,15 @@ class Conv2Ddirect_block(Conv2D):
         #case depth wise
         if C==1 and K==self.group:
             return layout.transpose(1, 2, 3, 0).copy("C") #CHWK
+        #groups: a filter has null weights for the channels of the other groups
+        if self.group > 1:
+            layout = np.zeros((K, self.input_channels, KH, KW), dtype=self.weights.dtype)
+            for k in range(K):
+                first_channel = (k // (K // self.group)) * C
+                layout[k, first_channel : first_channel + C] = self.weights[k]
+            C = self.input_channels
         #case point wise conv1x1
-        elif layout.shape[2]==1 and layout.shape[3]==1:
+        if layout.shape[2]==1 and layout.shape[3]==1:
             layout = layout.reshape(nb_k, self.block_k, C) #no bloc_c for 1x1 conv
             return layout.transpose(0, 2, 1).copy("C")
         #case winograd 3x3 stride 1
-- 
2.43.0


From abc23b2e3bc225846a932da30d23607a9d34d781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:45:02 +0000
Subject: [PATCH 72/72] fix: the positions of an implementation derived from
 the indirect convolution were declared but not written

---
 src/acetone_nnet/generator/neural_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 121813a..fbbb281 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1254,7 +1254,7 @@ class CodeGenerator(ABC):
                 layer_hash["nb_biases"] = layer.nb_biases
                 layer_hash["biases"] = self.flatten_array_order_c(layer.biases)
 
-            if type(layer) is Conv2DIndirectGemm:
+            if isinstance(layer, Conv2DIndirectGemm):
                 layer_hash["patches_size"] = layer.patches_size
                 layer_hash["patches"] = layer.create_ppatches()
 
-- 
2.43.0

