From bbabcc47fcec8186eca5cb12b1e274f19fc7d744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:25 +0000
Subject: [PATCH 01/22] fix: record min/max with the dimensions of the
 bitwidths

Without keepdims, shared dimensions that are not a prefix (e.g. except_1st) were
recorded with a wrong shape, or broadcast onto the wrong elements.
---
 src/HGQ/quantizer/quantizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HGQ/quantizer/quantizer.py b/src/HGQ/quantizer/quantizer.py
index f6050e4..21a4360 100644
--- a/src/HGQ/quantizer/quantizer.py
+++ b/src/HGQ/quantizer/quantizer.py
@@ -168,8 +168,8 @@ class HGQ:
             return x + delta
         xq = x + delta
         if self.skip_dims:
-            min_xq = tf.reduce_min(xq, axis=self.skip_dims)
-            max_xq = tf.reduce_max(xq, axis=self.skip_dims)
+            min_xq = tf.reduce_min(xq, axis=self.skip_dims, keepdims=True)
+            max_xq = tf.reduce_max(xq, axis=self.skip_dims, keepdims=True)
         else:
             min_xq = max_xq = xq
 
-- 
2.43.0


From 5a50bf818dc34bdd3b7c2bd247d59eaaf9213bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:25 +0000
Subject: [PATCH 02/22] fix: keep the shared dimensions when deriving integer
 bits of a tensor

The integer bits were broadcast onto the wrong elements (or failed) when the shared
dimensions are not a prefix of the tensor dimensions.
---
 src/HGQ/quantizer/quantizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HGQ/quantizer/quantizer.py b/src/HGQ/quantizer/quantizer.py
index 21a4360..94f3d55 100644
--- a/src/HGQ/quantizer/quantizer.py
+++ b/src/HGQ/quantizer/quantizer.py
@@ -227,8 +227,8 @@ class HGQ:
             _ref = tf.abs(_ref)
             int_bits = tf.floor(tf.math.log(_ref) / log2) + 1
             if self.skip_dims:
-                int_bits = tf.reduce_max(int_bits, axis=self.skip_dims)
-                kn = tf.reduce_max(kn, axis=self.skip_dims)
+                int_bits = tf.reduce_max(int_bits, axis=self.skip_dims, keepdims=True)
+                kn = tf.reduce_max(kn, axis=self.skip_dims, keepdims=True)
         else:
             assert self.minmax_record
             if pos_only:
-- 
2.43.0


From db4e9d5d1d3137dd9597595581af4e1f2ae795fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:25 +0000
Subject: [PATCH 03/22] fix: apply bn_beta in the training pass of fused batch
 norm layers

The inference pass adds bn_beta to the fused bias, the training pass did not, so beta was
never trained and both modes disagreed for a non-zero beta.
---
 src/HGQ/layers/conv.py  | 2 +-
 src/HGQ/layers/dense.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HGQ/layers/conv.py b/src/HGQ/layers/conv.py
index a2776bc..d5f3a8a 100644
--- a/src/HGQ/layers/conv.py
+++ b/src/HGQ/layers/conv.py
@@ -383,7 +383,7 @@ class HConvBatchNorm(HConv, HBatchNormBase):
             scale = tf.constant(1.0, dtype=self.dtype)
 
         if self.center:
-            train_fused_bias = self.bias - mean * scale  # type: ignore
+            train_fused_bias = self.bias - mean * scale + self.bn_beta  # type: ignore
             bq = self.paq.bias_forward(train_fused_bias, training, self.channel_loc)  # type: ignore
             z = tf.nn.bias_add(z, bq, data_format=self._tf_data_format)  # type: ignore
 
diff --git a/src/HGQ/layers/dense.py b/src/HGQ/layers/dense.py
index 5fb2147..f7be89b 100644
--- a/src/HGQ/layers/dense.py
+++ b/src/HGQ/layers/dense.py
@@ -201,7 +201,7 @@ class HDenseBatchNorm(HDense, HBatchNormBase):
             scale = tf.constant(1.0, dtype=self.dtype)
 
         if self.center:
-            train_fused_bias = self.bias - mean * scale  # type: ignore
+            train_fused_bias = self.bias - mean * scale + self.bn_beta  # type: ignore
             bq = self.paq.bias_forward(train_fused_bias, training, self.channel_loc)  # type: ignore
             z = tf.nn.bias_add(z, bq)  # type: ignore
 
-- 
2.43.0


From 74dab2ba65f094958944f8dd65f08264e0522c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:25 +0000
Subject: [PATCH 04/22] fix: permute the bitwidths in PPermute

The bitwidths were reshaped, which assigns them to the wrong elements.
---
 src/HGQ/layers/passive_layers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/HGQ/layers/passive_layers.py b/src/HGQ/layers/passive_layers.py
index 28ef324..b6c641b 100644
--- a/src/HGQ/layers/passive_layers.py
+++ b/src/HGQ/layers/passive_layers.py
@@ -179,4 +179,11 @@ class PDropout(PLayerBase, tf.keras.layers.Dropout):
 
 @register_keras_serializable(package="HGQ")
 class PPermute(PLayerBase, tf.keras.layers.Permute):
-    pass
+
+    @property
+    def act_bw(self):
+        return tf.transpose(self.input_bw, (0,) + self.dims)
+
+    @property
+    def act_bw_exact(self) -> np.ndarray:
+        return np.transpose(self.input_bw_exact, (0,) + self.dims)
-- 
2.43.0


From 8dcdaf2d7bcd147ac68fd9c17622e74696ae6c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:25 +0000
Subject: [PATCH 05/22] fix: record in trace_minmax also when rst=False

Without the reset nothing was recorded at all.
---
 src/HGQ/bops/bops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/HGQ/bops/bops.py b/src/HGQ/bops/bops.py
index a681cb3..4097261 100644
--- a/src/HGQ/bops/bops.py
+++ b/src/HGQ/bops/bops.py
@@ -55,11 +55,11 @@ class CalibratedBOPs(tf.keras.callbacks.Callback):
 
 
 def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=False, no_bops_computation=False, rst=True, cover_factor=1.0):
-    if rst:
-        for layer in model.layers:
-            if isinstance(layer, HLayerBase):
+    for layer in model.layers:
+        if isinstance(layer, HLayerBase):
+            if rst:
                 layer.reset_minmax()
-                layer.record_minmax = True
+            layer.record_minmax = True
 
     r = []
     if isinstance(dataset, list):
-- 
2.43.0


From f1913d584cf433f84fb688fa95730cb2ed60c640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:25 +0000
Subject: [PATCH 06/22] fix: do not modify the quantizer config passed to
 HActivation

The dict may be shared with other layers, whose rounding strategy changed with it.
---
 src/HGQ/layers/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HGQ/layers/misc.py b/src/HGQ/layers/misc.py
index b8ea203..24c35a2 100644
--- a/src/HGQ/layers/misc.py
+++ b/src/HGQ/layers/misc.py
@@ -34,7 +34,7 @@ class HActivation(HLayerBase, tf.keras.layers.Activation):
 
     def post_build(self, input_shape):
         if self.paq_config['rnd_strategy'] == 'auto':
-            self.paq_config['rnd_strategy'] = 'standard_round'
+            self.paq_config = {**self.paq_config, 'rnd_strategy': 'standard_round'}
 
         if self.paq_config['rnd_strategy'] not in ('floor', 3):
             # Jit when using standard round. Very unlikely to have errors.
-- 
2.43.0


From c4f261d09184de42ad1cff2e5834f2ffe199ca84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:25 +0000
Subject: [PATCH 07/22] fix: save the batch norm parameters of fused batch norm
 layers

get_config dropped momentum, epsilon, center, scale, the initializers, regularizers and
constraints, and whether the delayed kernel bitwidth adaption was already done, so a
restored layer computed something else.
---
 src/HGQ/layers/batchnorm_base.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/HGQ/layers/batchnorm_base.py b/src/HGQ/layers/batchnorm_base.py
index 6458383..8899de8 100644
--- a/src/HGQ/layers/batchnorm_base.py
+++ b/src/HGQ/layers/batchnorm_base.py
@@ -109,6 +109,25 @@ class HBatchNormBase(HLayerBase):
         scale = self.bn_gamma * tf.math.rsqrt(self.moving_variance + self.epsilon)
         return self.bias - self.moving_mean * scale + self.bn_beta
 
+    def get_config(self):
+        config = super().get_config()
+        config.update(
+            momentum=float(self.momentum),
+            epsilon=float(self.epsilon),
+            center=self.center,
+            scale=self.scale,
+            beta_initializer=tf.keras.initializers.serialize(self.beta_initializer),
+            gamma_initializer=tf.keras.initializers.serialize(self.gamma_initializer),
+            moving_mean_initializer=tf.keras.initializers.serialize(self.moving_mean_initializer),
+            moving_variance_initializer=tf.keras.initializers.serialize(self.moving_variance_initializer),
+            beta_regularizer=tf.keras.regularizers.serialize(self.beta_regularizer),
+            gamma_regularizer=tf.keras.regularizers.serialize(self.gamma_regularizer),
+            beta_constraint=tf.keras.constraints.serialize(self.beta_constraint),
+            gamma_constraint=tf.keras.constraints.serialize(self.gamma_constraint),
+            do_adapt_kernel_bits=self._do_adapt_kernel_bits,
+        )
+        return config
+
     def adapt_fused_bn_kernel_bw_bits(self, x: tf.Tensor):
         """Adapt the bitwidth of the kernel quantizer to the input tensor, such that each input is represented with approximately the same number of bits after fused batchnormalization."""
         if not self.scale:
-- 
2.43.0


From ac1c4755ef22ebdee5369eaecd412960d3de389f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:59 +0000
Subject: [PATCH 08/22] fix: trace the layers of nested models in trace_minmax

They were neither recorded nor counted, and could not be converted afterwards.
---
 src/HGQ/bops/bops.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/HGQ/bops/bops.py b/src/HGQ/bops/bops.py
index 4097261..4df34dc 100644
--- a/src/HGQ/bops/bops.py
+++ b/src/HGQ/bops/bops.py
@@ -54,8 +54,17 @@ class CalibratedBOPs(tf.keras.callbacks.Callback):
         logs['bops'] = bops
 
 
-def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=False, no_bops_computation=False, rst=True, cover_factor=1.0):
+def _flat_layers(model):
+    """All layers of the model, including those of nested models."""
     for layer in model.layers:
+        if isinstance(layer, keras.Model):
+            yield from _flat_layers(layer)
+        else:
+            yield layer
+
+
+def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=False, no_bops_computation=False, rst=True, cover_factor=1.0):
+    for layer in _flat_layers(model):
         if isinstance(layer, HLayerBase):
             if rst:
                 layer.reset_minmax()
@@ -74,7 +83,7 @@ def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=Fal
         assert cover_factor > 0.
         if cover_factor < 1:
             warn(f'cover_factor<1.0 will likely to result in overflows.')
-        for layer in model.layers:
+        for layer in _flat_layers(model):
             if not isinstance(layer, HLayerBase):
                 continue
 
@@ -88,7 +97,7 @@ def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=Fal
             aq._min.assign(aq(tf.constant(_min)))  # type: ignore
             aq._max.assign(aq(tf.constant(_max)))  # type: ignore
 
-    for layer in model.layers:
+    for layer in _flat_layers(model):
         if not hasattr(layer, 'activation'):
             continue
         if not isinstance(layer, HLayerBase):
@@ -113,7 +122,7 @@ def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=Fal
         return -1
 
     bops = 0
-    for layer in model.layers:
+    for layer in _flat_layers(model):
         if isinstance(layer, HLayerBase):
             layer.record_minmax = False
             dbops = layer.compute_exact_bops  # type: ignore
-- 
2.43.0


From 4071beb1d3d0f8741c8559d67fe3420dba3f7267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:59 +0000
Subject: [PATCH 09/22] fix: select the right output of nested models with
 several outputs

The index of the output tensor was ignored in the conversion: consumers of one output
got the list of all of them.
---
 src/HGQ/proxy/convert.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/HGQ/proxy/convert.py b/src/HGQ/proxy/convert.py
index 93a5397..f9696d1 100644
--- a/src/HGQ/proxy/convert.py
+++ b/src/HGQ/proxy/convert.py
@@ -32,23 +32,23 @@ def get_all_nodes(model: keras.Model) -> set[Node]:
 
 
 def solve_dependencies(model: keras.Model):
-    """Given a keras model, return the input nodes, output nodes and a list of (layer, requires, provides) tuples. Requires is a list of nodes that are parents of the layer, provides is the node that is the output of the layer."""
+    """Given a keras model, return the input nodes, (output node, tensor index) pairs and a list of (layer, requires, provides) tuples. Requires is a list of (node, tensor index) pairs that are the inputs of the layer, provides is the node that is the output of the layer."""
     inp_tensors: list[KerasTensor] = model.inputs  # type:ignore
     out_tensors: list[KerasTensor] = model.outputs  # type:ignore
 
     input_nodes: list[Node] = [t.node for t in inp_tensors]  # type:ignore
-    output_nodes: list[Node] = [t.node for t in out_tensors]  # type:ignore
+    output_nodes: list[tuple[Node, int]] = [(t.node, t._keras_history.tensor_index) for t in out_tensors]  # type:ignore
 
     nodes = get_all_nodes(model)
 
-    dependencies_dict: dict[Node, tuple[keras.layers.Layer, list[Node]]] = {}
-    "List of (layer, requires, provides) tuples; requires is a list of nodes, provides is a single node."
+    dependencies_dict: dict[Node, tuple[keras.layers.Layer, list[tuple[Node, int]]]] = {}
+    "List of (layer, requires, provides) tuples; requires is a list of (node, tensor index), provides is a single node."
 
     for node in nodes:
         if node.is_input:
             continue
         layer = node.layer  # layer that is called on the node
-        requires = list(node.parent_nodes)
+        requires = [(t.node, t._keras_history.tensor_index) for t in node.keras_inputs]
         provides = node
         dependencies_dict[provides] = (layer, requires)
     return input_nodes, output_nodes, dependencies_dict
@@ -105,7 +105,7 @@ class Namer:
 
 
 def _get_out_tensor(
-    dependencies_dict: dict[Node, tuple[keras.layers.Layer, list[Node]]],
+    dependencies_dict: dict[Node, tuple[keras.layers.Layer, list[tuple[Node, int]]]],
     satisfied: dict[Node, Any],
     node: Node,
     namer: Namer | None = None,
@@ -119,12 +119,9 @@ def _get_out_tensor(
     namer = namer or Namer()
     layer, requires = dependencies_dict[node]
     inps = []
-    for req in requires:
-        if req in satisfied:
-            inps.append(satisfied[req])
-        else:
-            inp = _get_out_tensor(dependencies_dict, satisfied, req, namer, layer_xformer)
-            inps.append(inp)
+    for req, idx in requires:
+        inp = _get_out_tensor(dependencies_dict, satisfied, req, namer, layer_xformer)
+        inps.append(inp[idx] if isinstance(inp, (list, tuple)) else inp)
     if len(inps) == 1:
         inps = inps[0]
 
@@ -190,7 +187,10 @@ def _(
     input_nodes, output_nodes, dependencies_dict = solve_dependencies(model)
     satisfied = {node: tensor for node, tensor in zip(input_nodes, inp_tensors)}
     get_out_tensor = partial(_get_out_tensor, dependencies_dict, satisfied, namer=namer, layer_xformer=layer_xformer)
-    outs = [get_out_tensor(output_node) for output_node in output_nodes]
+    outs = []
+    for output_node, idx in output_nodes:
+        out = get_out_tensor(output_node)
+        outs.append(out[idx] if isinstance(out, (list, tuple)) else out)
     return outs[0] if len(outs) == 1 else outs
 
 
-- 
2.43.0


From 43dea6b719f857d1e724743c2ef1840435494873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:46 +0000
Subject: [PATCH 10/22] fix: resolve activation names to the functions of
 tf.keras

With tf_keras imported next to keras (qkeras does), keras resolves activation names to the
functions of tf_keras, so that relu, softmax, sigmoid and tanh given by name were not recognized:
the proxy of a layer with activation='relu' had no ReLU at all.
---
 src/HGQ/layers/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HGQ/layers/base.py b/src/HGQ/layers/base.py
index c86464a..607417a 100644
--- a/src/HGQ/layers/base.py
+++ b/src/HGQ/layers/base.py
@@ -56,6 +56,9 @@ class HLayerBase(ABSBaseLayer):
         self._delayed_kernel_bits_adaption = False
 
         activation = kwargs.get('activation', None)
+        if isinstance(activation, str):
+            # Resolve names here: if several keras packages are loaded, keras may return the function of another one, which is then not recognized.
+            kwargs['activation'] = getattr(tf.keras.activations, activation, activation)
         if activation is not None and type(self).__name__ != 'HActivation':
             if isinstance(activation, str):
                 activation = activation.lower()
-- 
2.43.0


From 0cbb6c4f51fde053895f3d53c7da6561ed43e67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:28 +0000
Subject: [PATCH 11/22] fix: apply the bias in the training pass of fused batch
 norm layers without centering

---
 src/HGQ/layers/conv.py  | 3 +++
 src/HGQ/layers/dense.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/HGQ/layers/conv.py b/src/HGQ/layers/conv.py
index d5f3a8a..54d61d9 100644
--- a/src/HGQ/layers/conv.py
+++ b/src/HGQ/layers/conv.py
@@ -386,6 +386,9 @@ class HConvBatchNorm(HConv, HBatchNormBase):
             train_fused_bias = self.bias - mean * scale + self.bn_beta  # type: ignore
             bq = self.paq.bias_forward(train_fused_bias, training, self.channel_loc)  # type: ignore
             z = tf.nn.bias_add(z, bq, data_format=self._tf_data_format)  # type: ignore
+        elif self.use_bias:
+            bq = self.paq.bias_forward(self.bias, training, self.channel_loc)  # type: ignore
+            z = tf.nn.bias_add(z, bq, data_format=self._tf_data_format)  # type: ignore
 
         z = self.paq(z, training, record_minmax)  # type: ignore
         a = self.activation(z)  # type: ignore
diff --git a/src/HGQ/layers/dense.py b/src/HGQ/layers/dense.py
index f7be89b..db476df 100644
--- a/src/HGQ/layers/dense.py
+++ b/src/HGQ/layers/dense.py
@@ -204,6 +204,9 @@ class HDenseBatchNorm(HDense, HBatchNormBase):
             train_fused_bias = self.bias - mean * scale + self.bn_beta  # type: ignore
             bq = self.paq.bias_forward(train_fused_bias, training, self.channel_loc)  # type: ignore
             z = tf.nn.bias_add(z, bq)  # type: ignore
+        elif self.use_bias:
+            bq = self.paq.bias_forward(self.bias, training, self.channel_loc)  # type: ignore
+            z = tf.nn.bias_add(z, bq)  # type: ignore
 
         z = self.paq(z, training, record_minmax)  # type: ignore
         a = self.activation(z)  # type: ignore
-- 
2.43.0


From 2b46b25a3051b1e260c0338d5463db9061271460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:28 +0000
Subject: [PATCH 12/22] fix: do not scale the moving mean of fused batch norm
 layers without scaling

---
 src/HGQ/layers/batchnorm_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HGQ/layers/batchnorm_base.py b/src/HGQ/layers/batchnorm_base.py
index 8899de8..922bd1b 100644
--- a/src/HGQ/layers/batchnorm_base.py
+++ b/src/HGQ/layers/batchnorm_base.py
@@ -106,6 +106,8 @@ class HBatchNormBase(HLayerBase):
     def fused_bias(self):  # type: ignore
         if not self.center:
             return self.bias
+        if not self.scale:
+            return self.bias - self.moving_mean + self.bn_beta
         scale = self.bn_gamma * tf.math.rsqrt(self.moving_variance + self.epsilon)
         return self.bias - self.moving_mean * scale + self.bn_beta
 
-- 
2.43.0


From 2ed547ecaeec20fa6474f0f0e96b13e6fc51988a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:15 +0000
Subject: [PATCH 13/22] fix: cover the bias and the product of the most
 negative values in the precision produced by dense and conv layers

---
 src/HGQ/proxy/precision_derivation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/HGQ/proxy/precision_derivation.py b/src/HGQ/proxy/precision_derivation.py
index 151f21a..8544f62 100644
--- a/src/HGQ/proxy/precision_derivation.py
+++ b/src/HGQ/proxy/precision_derivation.py
@@ -162,8 +162,9 @@ def _(layer: keras.layers.Dense | Conv):
     assert len(kifs) == 1, f'Dense layer {layer.name} has more than one input. This is not supported.'
     k, i, f = kifs[0]
     w_k, w_i, w_f = get_arr_container(layer.kernel.numpy())
+    # The product of the two most negative values needs one more bit.
+    i, f = i + w_i + int(k and w_k), f + w_f
     k = int(k or w_k or np.any(layer.use_bias and layer.bias < 0))  # type: ignore
-    i, f = i + w_i, f + w_f
     if isinstance(layer, Conv):
         div = layer.filters
     else:
@@ -171,6 +172,9 @@ def _(layer: keras.layers.Dense | Conv):
 
     multiplicity = np.prod(layer.kernel.shape) / div
     i += int(np.ceil(np.log2(multiplicity)))
+    if layer.use_bias and np.any(bias := layer.bias.numpy()):
+        _, b_i, b_f = get_arr_container(bias, silent=True)
+        i, f = max(i, b_i) + 1, max(f, b_f)
     return k, i, f
 
 
-- 
2.43.0


From 0bccd634a833514145aab133e06aeb12b4cb10d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:54 +0000
Subject: [PATCH 14/22] fix: reduce heterogeneous bitwidths of quantizers one
 by one, and only as far as no value changes

---
 src/HGQ/proxy/precision_derivation.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/HGQ/proxy/precision_derivation.py b/src/HGQ/proxy/precision_derivation.py
index 8544f62..be79c83 100644
--- a/src/HGQ/proxy/precision_derivation.py
+++ b/src/HGQ/proxy/precision_derivation.py
@@ -91,18 +91,21 @@ def _(layer: FixedPointQuantizer):
     assert len(kifs) == 1, f'Quantizer {layer.name} has more than one input. This is not supported.'
     _ik, _ii, _if = kifs[0]
 
-    # If the quantizer bit width is unnecessarily large, reduce it.
-    ok, oi, of = layer.result_t_kif
-    k, i, f = min(_ik, ok), min(_ii, oi), min(_if, of)
-    if _ii <= oi and _if > f:
-        # May overflow otherwise, like (8,4) & (8,5) should result in (9,4) instead of (8,4) to avoid overflow.
-        i += 1
-    if k != ok or i != oi or f != of:
-        layer.keep_negative.assign(tf.minimum(layer.keep_negative, k))
-        layer.integers.assign(tf.minimum(layer.integers, k + i))
-        layer.bits.assign(tf.minimum(layer.bits, k + i + f))
-
-    return k, i, f
+    # If the quantizer bit width is unnecessarily large, reduce it. Bitwidths may be heterogeneous, so this is done for each of them.
+    ok, ob, oI = (v.numpy().astype(np.int64) for v in (layer.keep_negative, layer.bits, layer.integers))
+    oi, of = oI - ok, ob - oI
+    f = np.minimum(of, _if)
+    # Rounding may carry to the next integer bit, and rounds negative values down to -2^-f.
+    i = np.maximum(_ii + (of < _if), -f)
+    fits = (ok >= _ik) & (oi >= i)  # Will never overflow
+    k, i = np.where(fits, _ik, ok), np.where(fits, i, oi)
+    f = np.where(fits | (layer.SAT.upper() == 'WRAP'), f, of)
+    zeros = ob <= 0
+    layer.keep_negative.assign(np.where(zeros, 0, k))
+    layer.integers.assign(np.where(zeros, 0, k + i))
+    layer.bits.assign(np.where(zeros, 0, k + i + f))
+
+    return layer.result_t_kif
 
 
 @get_produced_kif.register
-- 
2.43.0


From 23cea15c1c712101e6dc5c6ea27d3971ba0af7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:54 +0000
Subject: [PATCH 15/22] fix: produce a signed precision for the difference of
 unsigned values

---
 src/HGQ/proxy/precision_derivation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HGQ/proxy/precision_derivation.py b/src/HGQ/proxy/precision_derivation.py
index be79c83..949c659 100644
--- a/src/HGQ/proxy/precision_derivation.py
+++ b/src/HGQ/proxy/precision_derivation.py
@@ -137,6 +137,8 @@ def _(layer: keras.layers.Add | keras.layers.Subtract):
     k, i, f = np.max(kifs, axis=0)  # type: ignore
     # being lazy here. But this will never overflow.
     i += int(np.ceil(np.log2(len(kifs))))
+    if isinstance(layer, keras.layers.Subtract):
+        k = 1
     return k, i, f
 
 
-- 
2.43.0


From 2c8f3208b8e27b81c457a6e99673bc4cac234984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:54 +0000
Subject: [PATCH 16/22] fix: cover the sum of products in the precision
 produced by dot layers

---
 src/HGQ/proxy/precision_derivation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/HGQ/proxy/precision_derivation.py b/src/HGQ/proxy/precision_derivation.py
index 949c659..ad72f4e 100644
--- a/src/HGQ/proxy/precision_derivation.py
+++ b/src/HGQ/proxy/precision_derivation.py
@@ -149,8 +149,11 @@ def _(layer: keras.layers.Dot):
     k1, i1, f1 = kinfs[0]
     k2, i2, f2 = kinfs[1]
     k = max(k1, k2)
-    i = i1 + i2
+    # The product of the two most negative values needs one more bit.
+    i = i1 + i2 + int(k1 and k2)
     f = f1 + f2
+    axis = layer.axes if isinstance(layer.axes, int) else layer.axes[0]
+    i += int(np.ceil(np.log2(layer.input_shape[0][axis])))
     return k, i, f
 
 
-- 
2.43.0


From 55806a05afc95ff7f916c7b791bd59cef19301ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:23 +0000
Subject: [PATCH 17/22] fix: let MonoL1 be restored from its config

---
 src/HGQ/utils/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/HGQ/utils/utils.py b/src/HGQ/utils/utils.py
index 7902546..30b7b3c 100644
--- a/src/HGQ/utils/utils.py
+++ b/src/HGQ/utils/utils.py
@@ -17,6 +17,10 @@ class MonoL1:
     def get_config(self):
         return {'l1': self.l1}
 
+    @classmethod
+    def from_config(cls, config):
+        return cls(**config)
+
 
 DEFAULT_KERNEL_QUANTIZER_CONFIG = \
     dict(init_bw=2,
-- 
2.43.0


From 7d42e1d1fbedf10d1c6f2d1b89f66899cac2bf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:02 +0000
Subject: [PATCH 18/22] fix: accept a list as the shape Signature is built with

---
 src/HGQ/layers/passive_layers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/HGQ/layers/passive_layers.py b/src/HGQ/layers/passive_layers.py
index b6c641b..0da1ec7 100644
--- a/src/HGQ/layers/passive_layers.py
+++ b/src/HGQ/layers/passive_layers.py
@@ -48,9 +48,9 @@ class Signature(PLayerBase):
 
     def build(self, input_shape):
         self.built = True
-        self.bits = tf.broadcast_to(self.bits, (1,) + input_shape[1:])
-        self.int_bits = tf.broadcast_to(self.int_bits, (1,) + input_shape[1:])
-        self.keep_negative = tf.broadcast_to(self.keep_negative, (1,) + input_shape[1:])
+        self.bits = tf.broadcast_to(self.bits, (1,) + tuple(input_shape[1:]))
+        self.int_bits = tf.broadcast_to(self.int_bits, (1,) + tuple(input_shape[1:]))
+        self.keep_negative = tf.broadcast_to(self.keep_negative, (1,) + tuple(input_shape[1:]))
 
     @tf.function(jit_compile=True)
     def call(self, x, training=None, record_minmax=None):
-- 
2.43.0


From db797db2ef7749ea4ce3b23014fcd64b498e57a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:43 +0000
Subject: [PATCH 19/22] fix: mark HGQ layers as built when they have been built

---
 src/HGQ/layers/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/HGQ/layers/base.py b/src/HGQ/layers/base.py
index 607417a..82879e4 100644
--- a/src/HGQ/layers/base.py
+++ b/src/HGQ/layers/base.py
@@ -71,6 +71,7 @@ class HLayerBase(ABSBaseLayer):
     def build(self, input_shape):
         super().build(input_shape)
         self.post_build(input_shape)
+        self.built = True  # not set by all of the base classes; building again would duplicate the bitwidths.
 
     @property
     def can_bias_cover_rnd(self):
-- 
2.43.0


From 6cd59714779f0eebde0fbd6abcf97a93378a7030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:44 +0000
Subject: [PATCH 20/22] fix: stop recording after trace_minmax without BOPs
 computation

---
 src/HGQ/bops/bops.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/HGQ/bops/bops.py b/src/HGQ/bops/bops.py
index 4df34dc..648227c 100644
--- a/src/HGQ/bops/bops.py
+++ b/src/HGQ/bops/bops.py
@@ -118,13 +118,16 @@ def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=Fal
             aq._min.assign(tf.maximum(aq._min, -tf.ones_like(aq._min)))  # type: ignore
             aq._max.assign(tf.minimum(aq._max, tf.ones_like(aq._max)))  # type: ignore
 
+    for layer in _flat_layers(model):
+        if isinstance(layer, HLayerBase):
+            layer.record_minmax = False
+
     if no_bops_computation:
         return -1
 
     bops = 0
     for layer in _flat_layers(model):
         if isinstance(layer, HLayerBase):
-            layer.record_minmax = False
             dbops = layer.compute_exact_bops  # type: ignore
             bops += dbops
             if verbose:
-- 
2.43.0


From 6499a0126fbf56fbba647c977d5cb8187e12a429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:44 +0000
Subject: [PATCH 21/22] fix: do not convert leaky, bounded or sigmoid
 quantized_relu to a plain one

---
 src/HGQ/proxy/plugins/qkeras.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HGQ/proxy/plugins/qkeras.py b/src/HGQ/proxy/plugins/qkeras.py
index 42022e9..4a7dc83 100644
--- a/src/HGQ/proxy/plugins/qkeras.py
+++ b/src/HGQ/proxy/plugins/qkeras.py
@@ -67,6 +67,9 @@ def _(quantizer: quantizers.quantized_bits, SAT):
 
 @qkeras_quantizer_to_layers.register
 def _(quantizer: quantizers.quantized_relu, SAT):
+    bounded = quantizer.relu_upper_bound and not quantizer.is_quantized_clip
+    if quantizer.negative_slope or quantizer.use_sigmoid or bounded:  # not a plain relu followed by fixed-point quantization
+        return keras.layers.Activation(quantizer),
     i = quantizer.integer
     b = quantizer.bits
     q = FixedPointQuantizer(0, b, i, 'RND_CONV', 'SAT')
-- 
2.43.0


From 1def18f4bfe7ffc103c9fb5450b4ee2c1c189933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:44 +0000
Subject: [PATCH 22/22] fix: copy the weights of converted QKeras separable
 convolutions

---
 src/HGQ/proxy/plugins/qkeras.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/HGQ/proxy/plugins/qkeras.py b/src/HGQ/proxy/plugins/qkeras.py
index 4a7dc83..eb9a86c 100644
--- a/src/HGQ/proxy/plugins/qkeras.py
+++ b/src/HGQ/proxy/plugins/qkeras.py
@@ -123,6 +123,10 @@ def qlayer_to_keras_layer(layer: keras.layers.Layer) -> keras.layers.Layer | Non
     if hasattr(layer, 'kernel'):
         q = layer.kernel_quantizer_internal or (lambda x: x)
         klayer.kernel.assign(q(layer.kernel))
+    for part in ('depthwise', 'pointwise'):  # separable convolutions
+        if hasattr(layer, f'{part}_kernel'):
+            q = getattr(layer, f'{part}_quantizer_internal') or (lambda x: x)
+            getattr(klayer, f'{part}_kernel').assign(q(getattr(layer, f'{part}_kernel')))
     if hasattr(layer, 'bias') and layer.use_bias:
         q = layer.bias_quantizer_internal or (lambda x: x)
         klayer.bias.assign(q(layer.bias))
-- 
2.43.0

