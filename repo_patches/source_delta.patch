From 472541d4c56feee9e1709c5771ca1978e21faaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:17 +0000
Subject: [PATCH 01/39] fix: load networks with h5py versions that removed
 Dataset.value

---
 brainstorm/structure/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index a0f4dbf..88d39b5 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -95,10 +95,10 @@ class Network(Seedable):
             :meth:`.save_as_hdf5`
         """
         with h5py.File(filename, 'r') as f:
-            description = json.loads(f['description'].value.decode())
+            description = json.loads(f['description'][()].decode())
             net = create_from_description(description)
             net.handler.set_from_numpy(net.buffer.parameters,
-                                       f['parameters'].value)
+                                       f['parameters'][()])
         return net
 
     def __init__(self, layers, buffer_manager, architecture, seed=None,
-- 
2.43.0


From 417214a8e5e5c5a9e94269fb72357e59eece86a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:17 +0000
Subject: [PATCH 02/39] fix: clear only the context slices, not the last time
 steps of provided data

---
 brainstorm/structure/buffers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/brainstorm/structure/buffers.py b/brainstorm/structure/buffers.py
index ec773ea..e3d219b 100644
--- a/brainstorm/structure/buffers.py
+++ b/brainstorm/structure/buffers.py
@@ -141,8 +141,7 @@ class BufferManager(object):
         for hub, buf in zip(self.hubs, self.buffers):
             if hub.btype != 2 or not hub.context_size:
                 continue
-            self.handler.fill(
-                buf[self.time_size - hub.context_size:], 0.)
+            self.handler.fill(buf[self.time_size:], 0.)
 
     def clear_backward_buffers(self):
         for h, b in zip(self.hubs, self.buffers):
-- 
2.43.0


From 04915f869b561dcb0204dd31130c993bd133443f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:17 +0000
Subject: [PATCH 03/39] fix: Undivided yields a fresh dict so that wrapping
 iterators cannot alter it

---
 brainstorm/data_iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index aef02db..530d128 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -394,7 +394,7 @@ class Undivided(DataIterator):
         self.total_size = int(sum(d.size for d in self.data.values()))
 
     def __call__(self, handler=None):
-        yield self.data
+        yield dict(self.data)
 
 
 class Minibatches(DataIterator):
-- 
2.43.0


From 63c0e9099841acc288322267124e2783a72aee37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:17 +0000
Subject: [PATCH 04/39] fix: Flip does not modify the data of the wrapped
 iterator in place

---
 brainstorm/data_iterators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 530d128..9095db9 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -179,9 +179,11 @@ class Flip(DataIterator):
         for data in self.iter(handler):
             for name in self.prob_dict.keys():
                 assert isinstance(data[name], np.ndarray)
-                for i in range(data[name].shape[1]):
+                flipped = data[name].copy()
+                for i in range(flipped.shape[1]):
                     if self.rnd.random_sample() < self.prob_dict[name]:
-                        data[name][:, i, ...] = data[name][:, i, :, ::-1, :]
+                        flipped[:, i, ...] = data[name][:, i, :, ::-1, :]
+                data[name] = flipped
             yield data
 
 
-- 
2.43.0


From f24b2fb45062cbe109528f935e1af101d0c13572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:17 +0000
Subject: [PATCH 05/39] fix: Uniform initializers created from a description
 have a random state

---
 brainstorm/initializers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index 7001f56..9c82c33 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -382,9 +382,13 @@ class Uniform(Initializer):
         super(Uniform, self).__init__()
         self.low = low
         self.high = high
-        self.__init_from_description__(None)
+        self._set_range()
 
     def __init_from_description__(self, description):
+        super(Uniform, self).__init_from_description__(description)
+        self._set_range()
+
+    def _set_range(self):
         if self.high is None:
             self.low, self.high = sorted([-self.low, self.low])
         assert self.low < self.high, \
-- 
2.43.0


From cdc4e3f033baa8dc3758ca56dcef87ae73c23b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:17 +0000
Subject: [PATCH 06/39] fix: seed the sub-initializer of sparse initializers

---
 brainstorm/initializers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index 9c82c33..7f29754 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -334,7 +334,8 @@ class SparseInputs(Initializer):
             raise InitializationError("Input dimension to small: {} < {}"
                                       "".format(shape[0], self.connections))
 
-        sub_result = evaluate_initializer(self.sub_initializer, shape)
+        sub_result = evaluate_initializer(self.sub_initializer, shape,
+                                          seed=self.rnd.generate_seed())
         connection_mask = np.zeros(shape)
         connection_mask[:self.connections, :] = 1.
         for i in range(shape[1]):
@@ -363,7 +364,8 @@ class SparseOutputs(Initializer):
         if shape[1] < self.connections:
             raise InitializationError("Output dimension to small: {} < {}"
                                       "".format(shape[1], self.connections))
-        sub_result = evaluate_initializer(self.sub_initializer, shape)
+        sub_result = evaluate_initializer(self.sub_initializer, shape,
+                                          seed=self.rnd.generate_seed())
         connection_mask = np.zeros(shape)
         connection_mask[:, :self.connections] = 1.
         for i in range(shape[0]):
-- 
2.43.0


From eab8ce064abcbd4f5babca390eb5f492f6b01242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:17 +0000
Subject: [PATCH 07/39] fix: MaskValues created from a description has an array
 mask

---
 brainstorm/value_modifiers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/brainstorm/value_modifiers.py b/brainstorm/value_modifiers.py
index 0f91e75..dc6aa7a 100644
--- a/brainstorm/value_modifiers.py
+++ b/brainstorm/value_modifiers.py
@@ -137,6 +137,10 @@ class MaskValues(ValueModifier):
         self.mask = mask
         self.device_mask = None
 
+    def __init_from_description__(self, description):
+        super(MaskValues, self).__init_from_description__(description)
+        self.mask = np.array(self.mask)
+
     def __call__(self, handler, view):
         if (self.device_mask is None or
                 not isinstance(self.device_mask, handler.array_type)):
-- 
2.43.0


From 91cee5aed2122f47c5c26a03a05c4fbbcf09eca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:17 +0000
Subject: [PATCH 08/39] fix: MonitorLayerDeltas logs the input deltas instead
 of raising KeyError

---
 brainstorm/hooks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 7dd32e4..b3e6c21 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -243,9 +243,9 @@ class MonitorLayerDeltas(Hook):
         for key, v in net.buffer[self.layer_name].input_deltas.items():
             key_log = in_deltas_log[key] = OrderedDict()
             v = net.handler.get_numpy_copy(v)
-            key_log[key]['min'] = v.min()
-            key_log[key]['avg'] = v.mean()
-            key_log[key]['max'] = v.max()
+            key_log['min'] = v.min()
+            key_log['avg'] = v.mean()
+            key_log['max'] = v.max()
 
         return log
 
-- 
2.43.0


From 0700a5919dc551920bb8c8d184570c224c287390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:17 +0000
Subject: [PATCH 09/39] fix: ProgressBar does not end a second training run

---
 brainstorm/hooks.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index b3e6c21..5706da3 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -829,6 +829,7 @@ class ProgressBar(Hook):
     def start(self, net, stepper, verbose, named_data_iters):
         assert 'training_data_iter' in named_data_iters
         self.length = named_data_iters['training_data_iter'].length
+        self.bar = None
 
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
         assert epoch_nr == 0 or math.ceil(update_nr / self.length) == epoch_nr
-- 
2.43.0


From bcc1cdd359f71ceaab8eb133aeaf63cd44e33e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:17 +0000
Subject: [PATCH 10/39] fix: ForwardStepper calls the existing get_loss_values

---
 brainstorm/training/steppers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/training/steppers.py b/brainstorm/training/steppers.py
index 286e547..4e0067b 100644
--- a/brainstorm/training/steppers.py
+++ b/brainstorm/training/steppers.py
@@ -40,7 +40,7 @@ class ForwardStepper(TrainingStepper):
 
     def run(self):
         self.net.forward_pass(training_pass=self.use_training_pass)
-        return self.net.get_loss_value()
+        return self.net.get_loss_values()
 
 
 class SgdStepper(TrainingStepper):
-- 
2.43.0


From 537f2ffe19df362130d31e3c1dc2ab3556bfa2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:41 +0000
Subject: [PATCH 11/39] fix: Dropout deltas use the same scaled mask as the
 last forward pass

---
 brainstorm/layers/dropout_layer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/brainstorm/layers/dropout_layer.py b/brainstorm/layers/dropout_layer.py
index 88c0116..4f495f0 100644
--- a/brainstorm/layers/dropout_layer.py
+++ b/brainstorm/layers/dropout_layer.py
@@ -39,11 +39,12 @@ class DropoutLayerImpl(Layer):
         if training_pass:
             _h.generate_probability_mask(buffers.internals.mask,
                                          1 - self.drop_prob)
+            _h.mult_st(1 / (1 - self.drop_prob), buffers.internals.mask,
+                       out=buffers.internals.mask)
             _h.mult_tt(buffers.inputs.default, buffers.internals.mask,
                        out=buffers.outputs.default)
-            _h.mult_st(1 / (1 - self.drop_prob), buffers.outputs.default,
-                       out=buffers.outputs.default)
         else:
+            _h.fill(buffers.internals.mask, 1.0)
             _h.copy_to(buffers.inputs.default, buffers.outputs.default)
 
     def backward_pass(self, buffers):
-- 
2.43.0


From a273d28533ff2725455d490995eb7d4cf382b848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:41 +0000
Subject: [PATCH 12/39] fix: LSTM weight gradients of the first step use the
 context activations

---
 brainstorm/layers/clockwork_lstm_layer.py | 12 ++++++------
 brainstorm/layers/lstm_layer.py           | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/brainstorm/layers/clockwork_lstm_layer.py b/brainstorm/layers/clockwork_lstm_layer.py
index 37819c8..d40da00 100644
--- a/brainstorm/layers/clockwork_lstm_layer.py
+++ b/brainstorm/layers/clockwork_lstm_layer.py
@@ -303,10 +303,10 @@ class ClockworkLstmLayerImpl(Layer):
         _h.dot_add_mm(flat_dOa, flat_outputs, dRo, transa=True)
         _h.dot_add_mm(flat_dZa, flat_outputs, dRz, transa=True)
 
-        _h.dot_add_mm(dIa[0], dy[-1], dRi, transa=True)
-        _h.dot_add_mm(dFa[0], dy[-1], dRf, transa=True)
-        _h.dot_add_mm(dOa[0], dy[-1], dRo, transa=True)
-        _h.dot_add_mm(dZa[0], dy[-1], dRz, transa=True)
+        _h.dot_add_mm(dIa[0], y[-1], dRi, transa=True)
+        _h.dot_add_mm(dFa[0], y[-1], dRf, transa=True)
+        _h.dot_add_mm(dOa[0], y[-1], dRo, transa=True)
+        _h.dot_add_mm(dZa[0], y[-1], dRz, transa=True)
 
         # Other Peephole connections
         dWcif_tmp = _h.allocate(flat_cell.shape)
@@ -318,9 +318,9 @@ class ClockworkLstmLayerImpl(Layer):
         _h.add_tt(dpf, dWc_tmp, dpf)
 
         dWcif_tmp = _h.allocate(dIa[0].shape)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dIa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpi, dWc_tmp, dpi)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dFa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpf, dWc_tmp, dpf)
diff --git a/brainstorm/layers/lstm_layer.py b/brainstorm/layers/lstm_layer.py
index 8433706..972903c 100644
--- a/brainstorm/layers/lstm_layer.py
+++ b/brainstorm/layers/lstm_layer.py
@@ -255,10 +255,10 @@ class LstmLayerImpl(Layer):
         _h.dot_add_mm(flat_dOa, flat_outputs, dRo, transa=True)
         _h.dot_add_mm(flat_dZa, flat_outputs, dRz, transa=True)
 
-        _h.dot_add_mm(dIa[0], dy[-1], dRi, transa=True)
-        _h.dot_add_mm(dFa[0], dy[-1], dRf, transa=True)
-        _h.dot_add_mm(dOa[0], dy[-1], dRo, transa=True)
-        _h.dot_add_mm(dZa[0], dy[-1], dRz, transa=True)
+        _h.dot_add_mm(dIa[0], y[-1], dRi, transa=True)
+        _h.dot_add_mm(dFa[0], y[-1], dRf, transa=True)
+        _h.dot_add_mm(dOa[0], y[-1], dRo, transa=True)
+        _h.dot_add_mm(dZa[0], y[-1], dRz, transa=True)
 
         # Other Peephole connections
         dWcif_tmp = _h.allocate(flat_cell.shape)
@@ -270,9 +270,9 @@ class LstmLayerImpl(Layer):
         _h.add_tt(dpf, dWc_tmp, dpf)
 
         dWcif_tmp = _h.allocate(dIa[0].shape)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dIa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpi, dWc_tmp, dpi)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dFa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpf, dWc_tmp, dpf)
-- 
2.43.0


From ae8fef72c00f5104e464f73621b050cddfc42b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:41 +0000
Subject: [PATCH 13/39] fix: reject architectures with more than one Input
 layer

---
 brainstorm/structure/architecture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brainstorm/structure/architecture.py b/brainstorm/structure/architecture.py
index 722fa3a..628e7b8 100644
--- a/brainstorm/structure/architecture.py
+++ b/brainstorm/structure/architecture.py
@@ -109,8 +109,8 @@ def validate_architecture(architecture):
             'Could not find end layer(s) "{}"'.format(undefined_end_layers))
 
     # has exactly one Input and its called Input
-    if "Input" not in architecture or \
-            architecture['Input']['@type'] != 'Input':
+    if [n for n, l in architecture.items() if l['@type'] == 'Input'] != \
+            ['Input']:
         raise NetworkValidationError(
             'Needs exactly one Input that is called "Input"')
 
-- 
2.43.0


From 9b33d5fef5fd397b30c921a4ceb19006c65d62c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:41 +0000
Subject: [PATCH 14/39] fix: networks that were never initialized can be
 re-created from their description

---
 brainstorm/structure/network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index 88d39b5..a1f54fc 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -70,7 +70,9 @@ class Network(Seedable):
     def __new_from_description__(cls, description):
         net = Network.from_architecture(description['architecture'])
         net.set_handler(create_from_description(description['handler']))
-        net.initialize(create_from_description(description['initializers']))
+        if description['initializers']:
+            net.initialize(
+                create_from_description(description['initializers']))
         net.set_gradient_modifiers(
             create_from_description(description['gradient_modifiers']))
         net.set_weight_modifiers(
-- 
2.43.0


From 2a4b082cd04a86a91cccdd97fc38d76197e03c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:41 +0000
Subject: [PATCH 15/39] fix: Pad accepts a padding size of zero

---
 brainstorm/data_iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 9095db9..8cffdf2 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -320,7 +320,7 @@ class Pad(DataIterator):
                 size = self.size_dict[name]
                 val = self.value_dict.get(name, 0.0)
                 new_data = val * np.ones((t, b, h + 2 * size, w + 2 * size, c))
-                new_data[:, :, size: -size, size: -size, :] = data[name]
+                new_data[:, :, size: size + h, size: size + w, :] = data[name]
                 data[name] = new_data
             yield data
 
-- 
2.43.0


From 74ae2ab27f65aeb0a70b81482434f7cc9b588057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:34 +0000
Subject: [PATCH 16/39] fix: FullyConnected and Convolution2D add to the
 gradients instead of overwriting them

---
 brainstorm/layers/convolution_layer_2d.py  | 7 ++++++-
 brainstorm/layers/fully_connected_layer.py | 6 ++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/brainstorm/layers/convolution_layer_2d.py b/brainstorm/layers/convolution_layer_2d.py
index 533ef90..bb2ad3d 100644
--- a/brainstorm/layers/convolution_layer_2d.py
+++ b/brainstorm/layers/convolution_layer_2d.py
@@ -107,6 +107,11 @@ class Convolution2DLayerImpl(Layer):
         flat_out_deltas = flatten_time(out_deltas)
 
         # calculate in_deltas and gradients
+        dW_tmp = _h.allocate(dW.shape)
+        dbias_tmp = _h.allocate(dbias.shape)
         _h.inplace_act_func_deriv[self.activation](outputs, out_deltas)
         _h.conv2d_backward_batch(flat_inputs, W, self.padding, self.stride,
-                                 flat_in_deltas, flat_out_deltas, dW, dbias)
+                                 flat_in_deltas, flat_out_deltas, dW_tmp,
+                                 dbias_tmp)
+        _h.add_tt(dW, dW_tmp, dW)
+        _h.add_tt(dbias, dbias_tmp, dbias)
diff --git a/brainstorm/layers/fully_connected_layer.py b/brainstorm/layers/fully_connected_layer.py
index 79f46d4..dedaa2e 100644
--- a/brainstorm/layers/fully_connected_layer.py
+++ b/brainstorm/layers/fully_connected_layer.py
@@ -74,5 +74,7 @@ class FullyConnectedLayerImpl(Layer):
         # calculate in_deltas and gradients
         _h.inplace_act_func_deriv[self.activation](outputs, out_deltas)
         _h.dot_add_mm(out_deltas, W, out=in_deltas)
-        _h.dot_mm(out_deltas, inputs, out=dW, transa=True)
-        _h.sum_t(out_deltas, axis=0, out=dbias)
+        _h.dot_add_mm(out_deltas, inputs, out=dW, transa=True)
+        dbias_tmp = _h.allocate(dbias.shape)
+        _h.sum_t(out_deltas, axis=0, out=dbias_tmp)
+        _h.add_tt(dbias, dbias_tmp, dbias)
-- 
2.43.0


From 3e187a08c366f3289b464bef4bdeea12959037e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:15 +0000
Subject: [PATCH 17/39] fix: BinomialCrossEntropy backward pass supports
 multi-dimensional features

---
 brainstorm/layers/binomial_cross_entropy_layer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brainstorm/layers/binomial_cross_entropy_layer.py b/brainstorm/layers/binomial_cross_entropy_layer.py
index 30b6579..dd07e7a 100644
--- a/brainstorm/layers/binomial_cross_entropy_layer.py
+++ b/brainstorm/layers/binomial_cross_entropy_layer.py
@@ -110,7 +110,8 @@ class BinomialCrossEntropyLayerImpl(Layer):
 
         # ceed_sum has only one feature dimension due to summation,
         # so we broadcast to all feature dimensions
-        _h.broadcast_t(ceed_sum, 2, tmp)
+        _h.broadcast_t(flatten_time(ceed_sum), 1,
+                       flatten_time_and_features(tmp))
         _h.mult_tt(ceed, tmp, ceed)
 
         _h.add_tt(ceed, yd, yd)
-- 
2.43.0


From 58d04c5140438cd2f4b10b968030256272082777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:43 +0000
Subject: [PATCH 18/39] fix: Convolution2D rejects geometries that give no
 output

---
 brainstorm/layers/convolution_layer_2d.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/brainstorm/layers/convolution_layer_2d.py b/brainstorm/layers/convolution_layer_2d.py
index bb2ad3d..e30f120 100644
--- a/brainstorm/layers/convolution_layer_2d.py
+++ b/brainstorm/layers/convolution_layer_2d.py
@@ -62,6 +62,9 @@ class Convolution2DLayerImpl(Layer):
                          stride[0]) + 1
         output_width = ((in_shape[1] + 2 * padding - kernel_y) //
                         stride[1]) + 1
+        assert output_height > 0 and output_width > 0, \
+            "Evaluated output height and width must be positive but were " \
+            "({}, {})".format(output_height, output_width)
         out_shape = (output_height, output_width, num_filters)
 
         outputs = OrderedDict()
-- 
2.43.0


From 14136eb2a3c21408e4a180b6ccb26fa1506230f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:20 +0000
Subject: [PATCH 19/39] fix: StopAfterThresholdReached and StopOnNan accept
 logs that do not exist before training

---
 brainstorm/hooks.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 5706da3..8dcce64 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -599,6 +599,11 @@ class StopAfterThresholdReached(Hook):
         self.criterion = criterion
 
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
+        if epoch_nr == 0:
+            try:
+                e = get_by_path(logs, self.log_name)
+            except KeyError:
+                return
         e = get_by_path(logs, self.log_name)
         is_threshold_reached = False
         if self.criterion == 'max' and max(e) >= self.threshold:
@@ -650,7 +655,12 @@ class StopOnNan(Hook):
 
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
         for log_name in self.logs_to_check:
-            log = get_by_path(logs, log_name)
+            try:
+                log = get_by_path(logs, log_name)
+            except KeyError:
+                if epoch_nr == 0:
+                    continue
+                raise
             if not np.all(np.isfinite(log)):
                 self.message("NaN or inf detected in {}!".format(log_name))
                 raise StopIteration()
-- 
2.43.0


From a5cfacac9ca69e525af707af85895cc0a5b38d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:38 +0000
Subject: [PATCH 20/39] fix: RandomCrop accepts the batches that Minibatches
 yields for several time steps

---
 brainstorm/data_iterators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 8cffdf2..c84e191 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -372,7 +372,8 @@ class RandomCrop(DataIterator):
                 row_indices = self.rnd.random_integers(0, max_r, n)
                 col_indices = self.rnd.random_integers(0, max_c, n)
                 cropped = np.zeros((t, n, crop_h, crop_w, c))
-                _crop_images(data[name], crop_h, crop_w, row_indices,
+                images = np.ascontiguousarray(data[name], dtype=cropped.dtype)
+                _crop_images(images, crop_h, crop_w, row_indices,
                              col_indices, cropped)
                 data[name] = cropped
             yield data
-- 
2.43.0


From 69d4829bd5b6b48514a3ed5c862ab921a7ab3730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:38 +0000
Subject: [PATCH 21/39] fix: MultiHot can be iterated without a handler like
 every other iterator

---
 brainstorm/data_iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index c84e191..be70191 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -266,7 +266,7 @@ class MultiHot(DataIterator):
         self.vocab_size_dict = vocab_size_dict
         self.iter = iter
 
-    def __call__(self, handler):
+    def __call__(self, handler=None):
         for data in self.iter(handler):
             for name in self.vocab_size_dict.keys():
                 vocab_size = self.vocab_size_dict[name]
-- 
2.43.0


From 00df22fb2a7c09466601a6d75b42f44d169c92d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:54 +0000
Subject: [PATCH 22/39] fix: iterators that change the shape of data announce
 the shapes they yield

---
 brainstorm/data_iterators.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index be70191..3d382a0 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -207,7 +207,7 @@ class OneHot(DataIterator):
                 Specifies the size of one hot vectors (the vocabulary size)
                 for some named data items.
         """
-        DataIterator.__init__(self, iter.data_shapes, iter.length)
+        DataIterator.__init__(self, dict(iter.data_shapes), iter.length)
         for key in vocab_size_dict.keys():
             if key not in iter.data_shapes:
                 raise IteratorValidationError(
@@ -218,6 +218,7 @@ class OneHot(DataIterator):
             shape = iter.data_shapes[key]
             if not (shape[-1] == 1 and len(shape) == 3):
                 raise IteratorValidationError("Only 3D data is supported")
+            self.data_shapes[key] = shape[:2] + (vocab_size_dict[key],)
         self.vocab_size_dict = vocab_size_dict
         self.iter = iter
 
@@ -252,7 +253,7 @@ class MultiHot(DataIterator):
                 Specifies the size of multi hot vectors (the vocabulary size)
                 for some named data items.
         """
-        DataIterator.__init__(self, iter.data_shapes, iter.length)
+        DataIterator.__init__(self, dict(iter.data_shapes), iter.length)
         for key in vocab_size_dict.keys():
             if key not in iter.data_shapes:
                 raise IteratorValidationError(
@@ -263,6 +264,7 @@ class MultiHot(DataIterator):
             shape = iter.data_shapes[key]
             if not len(shape) == 3:
                 raise IteratorValidationError("Only 3D data is supported")
+            self.data_shapes[key] = shape[:2] + (vocab_size_dict[key],)
         self.vocab_size_dict = vocab_size_dict
         self.iter = iter
 
@@ -295,7 +297,7 @@ class Pad(DataIterator):
             value_dict (dict[str, int]):
                 Specifies the pad values for some named data items.
         """
-        super(Pad, self).__init__(iter.data_shapes, iter.length)
+        super(Pad, self).__init__(dict(iter.data_shapes), iter.length)
         if value_dict is not None:
             if set(size_dict.keys()) != set(value_dict.keys()):
                 raise IteratorValidationError(
@@ -308,6 +310,9 @@ class Pad(DataIterator):
                     "}".format(key, iter.data_shapes.keys()))
             if len(iter.data_shapes[key]) != 5:
                 raise IteratorValidationError("Only 5D data is supported")
+            t, b, h, w, c = iter.data_shapes[key]
+            size = size_dict[key]
+            self.data_shapes[key] = (t, b, h + 2 * size, w + 2 * size, c)
         self.value_dict = {} if value_dict is None else value_dict
         self.size_dict = size_dict
         self.iter = iter
@@ -343,7 +348,7 @@ class RandomCrop(DataIterator):
             shape_dict (dict[str, (int, int)]):
                 Specifies the crop shapes for some named data items.
         """
-        super(RandomCrop, self).__init__(iter.data_shapes, iter.length)
+        super(RandomCrop, self).__init__(dict(iter.data_shapes), iter.length)
         for key, val in shape_dict.items():
             if key not in iter.data_shapes:
                 raise IteratorValidationError(
@@ -358,6 +363,7 @@ class RandomCrop(DataIterator):
                 raise IteratorValidationError("Invalid crop height")
             if val[1] > data_shape[3] or val[1] < 0:
                 raise IteratorValidationError("Invalid crop width")
+            self.data_shapes[key] = data_shape[:2] + val + data_shape[4:]
         self.shape_dict = shape_dict
         self.iter = iter
 
-- 
2.43.0


From 9ed33ae7dc277028a891be1edf274212eab7e0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:07 +0000
Subject: [PATCH 23/39] fix: extract and extract_and_save handle batches of
 different lengths

---
 brainstorm/tools.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/brainstorm/tools.py b/brainstorm/tools.py
index 2b00f63..f2a87d0 100644
--- a/brainstorm/tools.py
+++ b/brainstorm/tools.py
@@ -86,7 +86,8 @@ def extract(network, iter, buffer_names):
     """Apply the network to some data and return the requested buffers.
 
     Batches are returned as a dictionary, with one entry for each
-    requested buffer, with the data in (T, B, ...) order.
+    requested buffer, with the data in (T, B, ...) order. Batches with fewer
+    time steps than the longest one are filled up with zeros.
 
     Args:
         network (brainstorm.structure.Network):
@@ -116,8 +117,14 @@ def extract(network, iter, buffer_names):
             if first_pass:
                 data_shape = (data.shape[0], nr_examples) + data.shape[2:]
                 return_data[buffer_name] = np.zeros(data_shape, data.dtype)
-            return_data[buffer_name][:, nr_items - data.shape[1]:nr_items] = \
-                data
+            extra_steps = data.shape[0] - return_data[buffer_name].shape[0]
+            if extra_steps > 0:
+                return_data[buffer_name] = np.concatenate(
+                    [return_data[buffer_name],
+                     np.zeros((extra_steps, nr_examples) + data.shape[2:],
+                              data.dtype)])
+            return_data[buffer_name][:data.shape[0],
+                                     nr_items - data.shape[1]:nr_items] = data
     return return_data
 
 
@@ -168,12 +175,15 @@ def extract_and_save(network, iter, buffer_names, file_name):
                     nr_items += data.shape[1]
                 if first_pass:
                     ds.append(f.create_dataset(
-                        buffer_name, data.shape, data.dtype, chunks=data.shape,
-                        maxshape=(data.shape[0], None) + data.shape[2:]))
+                        buffer_name, data.shape, data.dtype, chunks=True,
+                        maxshape=(None, None) + data.shape[2:]))
                     ds[-1][:] = data
                 else:
                     ds[num].resize(size=nr_items, axis=1)
-                    ds[num][:, nr_items - data.shape[1]:nr_items, ...] = data
+                    if data.shape[0] > ds[num].shape[0]:
+                        ds[num].resize(size=data.shape[0], axis=0)
+                    ds[num][:data.shape[0],
+                            nr_items - data.shape[1]:nr_items, ...] = data
 
 
 def get_in_out_layers(task_type, in_shape, out_shape, data_name='default',
-- 
2.43.0


From 6ea689f699f95f99d8acf44e6769df97bd0de8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:07 +0000
Subject: [PATCH 24/39] fix: scorers without a targets_name use the one given
 to evaluate

---
 brainstorm/scorers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brainstorm/scorers.py b/brainstorm/scorers.py
index a0c13d4..43f0583 100644
--- a/brainstorm/scorers.py
+++ b/brainstorm/scorers.py
@@ -12,7 +12,7 @@ from brainstorm.describable import Describable
 # ----------------------------- Base Class ---------------------------------- #
 
 class Scorer(Describable):
-    def __init__(self, out_name='', targets_name='targets', mask_name='',
+    def __init__(self, out_name='', targets_name='', mask_name='',
                  name=None):
         self.out_name = out_name
         self.targets_name = targets_name
@@ -75,7 +75,7 @@ class Accuracy(Scorer):
 
 
 class Hamming(Scorer):
-    def __init__(self, threshold=0.5, out_name='', targets_name='targets',
+    def __init__(self, threshold=0.5, out_name='', targets_name='',
                  mask_name='', name=None):
         super(Hamming, self).__init__(out_name, targets_name, mask_name, name)
         self.threshold = threshold
-- 
2.43.0


From a6447e1fde038c348add263a70aefb5a4577e134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:48 +0000
Subject: [PATCH 25/39] fix: the dictionaries passed to initialize and
 set_*_modifiers are not altered

---
 brainstorm/structure/network.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index a1f54fc..6a13130 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -247,7 +247,7 @@ class Network(Seedable):
         all_parameters = {k: v.parameters
                           for k, v in self.buffer.items()
                           if isinstance(v, BufferView) and 'parameters' in v}
-        _replace_lists_with_array_initializers(init_refs)
+        init_refs = _replace_lists_with_array_initializers(init_refs)
         initializers, fallback = resolve_references(all_parameters, init_refs)
         init_rnd = self.rnd.create_random_state(seed)
         for layer_name, views in sorted(all_parameters.items()):
@@ -547,7 +547,7 @@ def _update_references_with_dict(refs, ref_dict):
     if refs is None:
         references = dict()
     elif isinstance(refs, dict):
-        references = refs
+        references = dict(refs)
     else:
         references = {'default': refs}
 
@@ -561,8 +561,12 @@ def _update_references_with_dict(refs, ref_dict):
 
 
 def _replace_lists_with_array_initializers(ref_dict):
+    replaced = {}
     for key, value in ref_dict.items():
         if isinstance(value, dict):
-            _replace_lists_with_array_initializers(value)
+            replaced[key] = _replace_lists_with_array_initializers(value)
         elif isinstance(value, (list, np.ndarray)):
-            ref_dict[key] = ArrayInitializer(value)
+            replaced[key] = ArrayInitializer(value)
+        else:
+            replaced[key] = value
+    return replaced
-- 
2.43.0


From 003174979499f22e667abcf64b72d9c4e4dbe503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:49 +0000
Subject: [PATCH 26/39] fix: a rejected initialization leaves the network as it
 was

---
 brainstorm/structure/network.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index 6a13130..783aead 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -243,13 +243,14 @@ class Network(Seedable):
         >>> net.initialize({'default': bs.Gaussian()}, seed=1234)
         """
         init_refs = _update_references_with_dict(default_or_init_dict, kwargs)
-        self.initializers = get_description(init_refs)
+        init_description = get_description(init_refs)
         all_parameters = {k: v.parameters
                           for k, v in self.buffer.items()
                           if isinstance(v, BufferView) and 'parameters' in v}
         init_refs = _replace_lists_with_array_initializers(init_refs)
         initializers, fallback = resolve_references(all_parameters, init_refs)
         init_rnd = self.rnd.create_random_state(seed)
+        new_values = []
         for layer_name, views in sorted(all_parameters.items()):
             if views is None:
                 continue
@@ -270,10 +271,14 @@ class Network(Seedable):
                             layer_name, view_name, fb))
 
                 fb = fb.pop() if len(fb) else None
-                self.handler.set_from_numpy(
+                new_values.append((
                     view,
                     evaluate_initializer(init.pop(), view.shape, fb,
-                                         seed=init_rnd.generate_seed()))
+                                         seed=init_rnd.generate_seed())))
+
+        for view, value in new_values:
+            self.handler.set_from_numpy(view, value)
+        self.initializers = init_description
 
     def set_weight_modifiers(self, default_or_mod_dict=None, **kwargs):
         """
-- 
2.43.0


From b23f3b4faa478a52e67c0e98ad90e31ec9dc54b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:42 +0000
Subject: [PATCH 27/39] fix: inputs that are not provided never hold arbitrary
 values

---
 brainstorm/structure/network.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index 783aead..9662e3b 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -399,9 +399,14 @@ class Network(Seedable):
                 provided. Defaults to True.
         """
         time_size, batch_size = data[next(iter(data))].shape[: 2]
+        resized = ((time_size, batch_size) !=
+                   (self._buffer_manager.time_size,
+                    self._buffer_manager.batch_size))
         self.buffer = self._buffer_manager.resize(time_size, batch_size)
         for name, buf in self.buffer.Input.outputs.items():
             if name not in data.keys() and all_inputs is False:
+                if resized:  # the buffers hold arbitrary values
+                    self.handler.fill(buf, 0.)
                 continue
             if isinstance(data[name], self.handler.array_type):
                 self.handler.copy_to(data[name], buf)
-- 
2.43.0


From 4c4632b9821ad2ad9a705799fea96d458e002ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:00 +0000
Subject: [PATCH 28/39] fix: descriptions of hooks contain no dynamic
 information

---
 brainstorm/hooks.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 8dcce64..21d5901 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -109,9 +109,14 @@ class SaveBestNetwork(Hook):
             ...                                       filename='best_loss.h5',
         ...                                           criterion='min'))
     """
-    __undescribed__ = {'parameters': None}
+    __undescribed__ = {'parameters': None, 'best_t': None, 'best_so_far': None}
     __default_values__ = {'filename': None}
 
+    def __init_from_description__(self, description):
+        super(SaveBestNetwork, self).__init_from_description__(description)
+        self.best_so_far = np.inf if self.criterion == 'min' else -np.inf
+        self.best_t = None
+
     def __init__(self, log_name, filename=None, criterion='max', name=None,
                  timescale='epoch', interval=1, verbose=None):
         super(SaveBestNetwork, self).__init__(name, timescale,
@@ -355,6 +360,8 @@ class MonitorLoss(Hook):
     Monitor the losses computed by the network on a dataset using a given data
     iterator.
     """
+    __undescribed__ = {'iter'}
+
     def __init__(self, iter_name, name=None, timescale='epoch', interval=1,
                  verbose=None):
         super(MonitorLoss, self).__init__(name, timescale, interval, verbose)
@@ -401,6 +408,8 @@ class MonitorScores(Hook):
         MonitorLoss: monitor the overall loss of the network.
 
     """
+    __undescribed__ = {'iter'}
+
     def __init__(self, iter_name, scorers, name=None, timescale='epoch',
                  interval=1, verbose=None):
 
@@ -831,6 +840,8 @@ else:
 
 class ProgressBar(Hook):
     """ Adds a progress bar to show the training progress. """
+    __undescribed__ = {'length', 'bar'}
+
     def __init__(self):
         super(ProgressBar, self).__init__(None, 'update', 1)
         self.length = None
-- 
2.43.0


From 055b651df7897fccf3bf521d0f9f5ff03511a39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:00 +0000
Subject: [PATCH 29/39] fix: the weights given to FreezeValues are part of its
 description

---
 brainstorm/value_modifiers.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/brainstorm/value_modifiers.py b/brainstorm/value_modifiers.py
index dc6aa7a..236590f 100644
--- a/brainstorm/value_modifiers.py
+++ b/brainstorm/value_modifiers.py
@@ -163,21 +163,30 @@ class FreezeValues(ValueModifier):
     weights to affect.
     """
 
-    __undescribed__ = {'weights', 'device_weights'}
+    __undescribed__ = {'first_weights', 'device_weights'}
 
     def __init__(self, weights=None):
         super(FreezeValues, self).__init__()
         self.weights = weights
+        self.first_weights = None
         self.device_weights = None
 
+    def __init_from_description__(self, description):
+        super(FreezeValues, self).__init_from_description__(description)
+        weights = description.get('weights')
+        self.weights = None if weights is None else np.array(weights)
+
     def __call__(self, handler, view):
-        if self.weights is None:
-            self.weights = handler.get_numpy_copy(view)
+        weights = self.weights
+        if weights is None:
+            if self.first_weights is None:
+                self.first_weights = handler.get_numpy_copy(view)
+            weights = self.first_weights
 
         if (self.device_weights is None or
                 not isinstance(self.device_weights, handler.array_type)):
-            self.device_weights = handler.allocate(self.weights.shape)
-            handler.set_from_numpy(self.device_weights, self.weights)
+            self.device_weights = handler.allocate(weights.shape)
+            handler.set_from_numpy(self.device_weights, weights)
 
         handler.copy_to(self.device_weights, view)
 
-- 
2.43.0


From 44a0d958f77efc8fa4dc9887a6709f8082948c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:24 +0000
Subject: [PATCH 30/39] fix: MonitorLayerDeltas and MonitorLayerInOuts can be
 called before the first update

---
 brainstorm/hooks.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 21d5901..608babe 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -210,6 +210,12 @@ class SaveNetwork(Hook):
 
 # -------------------------------- Monitors --------------------------------- #
 
+def _min_avg_max(v):
+    if v.size == 0:  # no data was provided to the network yet
+        return [('min', np.nan), ('avg', np.nan), ('max', np.nan)]
+    return [('min', v.min()), ('avg', v.mean()), ('max', v.max())]
+
+
 class MonitorLayerDeltas(Hook):
     """
     Monitor some statistics about all the deltas of a layer.
@@ -232,25 +238,19 @@ class MonitorLayerDeltas(Hook):
         for key, v in net.buffer[self.layer_name].internals.items():
             v = net.handler.get_numpy_copy(v)
             log[key] = OrderedDict()
-            log[key]['min'] = v.min()
-            log[key]['avg'] = v.mean()
-            log[key]['max'] = v.max()
+            log[key].update(_min_avg_max(v))
 
         out_deltas_log = log['output_deltas'] = OrderedDict()
         for key, v in net.buffer[self.layer_name].output_deltas.items():
             v = net.handler.get_numpy_copy(v)
             key_log = out_deltas_log[key] = OrderedDict()
-            key_log['min'] = v.min()
-            key_log['avg'] = v.mean()
-            key_log['max'] = v.max()
+            key_log.update(_min_avg_max(v))
 
         in_deltas_log = log['input_deltas'] = OrderedDict()
         for key, v in net.buffer[self.layer_name].input_deltas.items():
             key_log = in_deltas_log[key] = OrderedDict()
             v = net.handler.get_numpy_copy(v)
-            key_log['min'] = v.min()
-            key_log['avg'] = v.mean()
-            key_log['max'] = v.max()
+            key_log.update(_min_avg_max(v))
 
         return log
 
@@ -306,17 +306,13 @@ class MonitorLayerInOuts(Hook):
         for key, v in net.buffer[self.layer_name].inputs.items():
             v = net.handler.get_numpy_copy(v)
             key_log = input_log[key] = OrderedDict()
-            key_log['min'] = v.min()
-            key_log['avg'] = v.mean()
-            key_log['max'] = v.max()
+            key_log.update(_min_avg_max(v))
 
         output_log = log['outputs'] = OrderedDict()
         for key, v in net.buffer[self.layer_name].outputs.items():
             key_log = output_log[key] = OrderedDict()
             v = net.handler.get_numpy_copy(v)
-            key_log['min'] = v.min()
-            key_log['avg'] = v.mean()
-            key_log['max'] = v.max()
+            key_log.update(_min_avg_max(v))
 
         return log
 
-- 
2.43.0


From a3afae0e4364cdcf5bb905fb249f0effda641b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:17 +0000
Subject: [PATCH 31/39] fix: ConstrainL2Norm works with every handler

---
 brainstorm/handlers/debug_handler.py |  3 ++-
 brainstorm/value_modifiers.py        | 10 ++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/brainstorm/handlers/debug_handler.py b/brainstorm/handlers/debug_handler.py
index cbe7437..e5252a7 100644
--- a/brainstorm/handlers/debug_handler.py
+++ b/brainstorm/handlers/debug_handler.py
@@ -59,13 +59,14 @@ def check_for_inf_or_nan(f):
 # ############################# Debug Handler ############################### #
 
 class DebugHandler(Handler):
-    __undescribed__ = {'EMPTY', 'array_type'}
+    __undescribed__ = {'EMPTY', 'array_type', 'dtype'}
 
     def __init__(self, handler):
         super(DebugHandler, self).__init__()
         self.handler = handler
         self.EMPTY = DebugArray(arr=handler.EMPTY)
         self.array_type = DebugArray
+        self.dtype = handler.dtype
 
     def __init_from_description__(self, description):
         self.__init__(self.handler)
diff --git a/brainstorm/value_modifiers.py b/brainstorm/value_modifiers.py
index 236590f..f7c036a 100644
--- a/brainstorm/value_modifiers.py
+++ b/brainstorm/value_modifiers.py
@@ -75,11 +75,13 @@ class ConstrainL2Norm(ValueModifier):
         sq_norm = handler.allocate((view.shape[0], 1))
         divisor = handler.allocate(sq_norm.shape)
 
-        # FIXME: use handler operations for this
-        handler.sum_t(mat * mat, axis=1, out=sq_norm)
-        handler.mult_st(1 / self.limit, sq_norm ** 0.5, out=divisor)
+        squares = handler.allocate(mat.shape)
+        handler.mult_tt(mat, mat, out=squares)
+        handler.sum_t(squares, axis=1, out=sq_norm)
+        handler.sqrt_t(sq_norm, out=sq_norm)
+        handler.mult_st(1 / self.limit, sq_norm, out=divisor)
         handler.clip_t(divisor, a_min=1.0,
-                       a_max=np.finfo(handler.dtype).max, out=divisor)
+                       a_max=float(np.finfo(handler.dtype).max), out=divisor)
         handler.divide_mv(mat, divisor, mat)
 
     def __repr__(self):
-- 
2.43.0


From c2f8d09b5d64979a83d3511b7029ca6fc0e861ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:01 +0000
Subject: [PATCH 32/39] fix: el activation of large inputs is not NaN

---
 brainstorm/handlers/numpy_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/handlers/numpy_handler.py b/brainstorm/handlers/numpy_handler.py
index 64a344f..7e5c442 100644
--- a/brainstorm/handlers/numpy_handler.py
+++ b/brainstorm/handlers/numpy_handler.py
@@ -302,7 +302,7 @@ class NumpyHandler(Handler):
 
     def el(self, x, y):
         # TODO: Optimize this implementation
-        y[:] = x * (x >= 0.) + (np.exp(x) - 1.) * (x < 0.)
+        y[:] = x * (x >= 0.) + (np.exp(np.minimum(x, 0.)) - 1.) * (x < 0.)
 
     def el_deriv(self, x, y, dy, dx):
         # TODO: Optimize this implementation
-- 
2.43.0


From 28ae2b10e336a6a8a996542077c8fa417d4107a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:54 +0000
Subject: [PATCH 33/39] fix: create_net_from_spec connects the first layer to
 the input named data_name

---
 brainstorm/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/tools.py b/brainstorm/tools.py
index f2a87d0..c6bc68c 100644
--- a/brainstorm/tools.py
+++ b/brainstorm/tools.py
@@ -585,7 +585,7 @@ def create_net_from_spec(task_type, in_shape, out_shape, spec,
 
     # spec = re.sub(r'\s', '', spec)  # remove whitespace
 
-    current_layer = inp
+    current_layer = inp - data_name
     for m in re.finditer(ARCH_SPEC, spec):
         layer_type = m.group('layer_type')
         args = re.split(ARG, m.group('args'))[1::2]
-- 
2.43.0


From d6b30ad680f23b58dacbb25c976849e87b0316f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:34 +0000
Subject: [PATCH 34/39] fix: gradients are kept when the buffers are resized

---
 brainstorm/structure/buffers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brainstorm/structure/buffers.py b/brainstorm/structure/buffers.py
index e3d219b..523378f 100644
--- a/brainstorm/structure/buffers.py
+++ b/brainstorm/structure/buffers.py
@@ -82,16 +82,18 @@ class BufferManager(object):
         self.buffers = [self.full_buffer[slices[i]].reshape(shapes[i])
                         for i in range(len(self.hubs))]
 
-        parameters = None
+        parameters = gradients = None
         if self.views is not None:
-            # copy the parameters
+            # copy the parameters and their gradients
             parameters = self.handler.get_numpy_copy(self.views.parameters)
+            gradients = self.handler.get_numpy_copy(self.views.gradients)
 
         self.views = create_buffer_views_from_layout(
             self.layout, self.buffers, self.hubs, existing_view=self.views)
 
         if parameters is not None:
             self.handler.set_from_numpy(self.views.parameters, parameters)
+            self.handler.set_from_numpy(self.views.gradients, gradients)
 
         return self.views
 
-- 
2.43.0


From 86a5fd8bf29d575760769bf786e13f285729252a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:56 +0000
Subject: [PATCH 35/39] fix: pooling of arrays that are not contiguous in
 memory

---
 brainstorm/handlers/numpy_handler.py | 33 +++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/brainstorm/handlers/numpy_handler.py b/brainstorm/handlers/numpy_handler.py
index 7e5c442..c1397c7 100644
--- a/brainstorm/handlers/numpy_handler.py
+++ b/brainstorm/handlers/numpy_handler.py
@@ -88,13 +88,22 @@ class NumpyHandler(Handler):
 
     def avgpool2d_backward_batch(self, inputs, window, outputs, padding,
                                  stride, in_deltas, out_deltas):
+        # the buffers may be strided views of a larger buffer
+        deltas = np.ascontiguousarray(in_deltas)
         brainstorm.handlers._cpuop.avgpool_backward(
-            inputs, window, outputs, padding, stride, in_deltas, out_deltas)
+            np.ascontiguousarray(inputs), window,
+            np.ascontiguousarray(outputs), padding, stride, deltas,
+            np.ascontiguousarray(out_deltas))
+        if deltas is not in_deltas:
+            in_deltas[:] = deltas
 
     def avgpool2d_forward_batch(self, inputs, window, outputs, padding,
                                 stride):
-        brainstorm.handlers._cpuop.avgpool_forward(inputs, window, outputs,
-                                                   padding, stride)
+        out = np.ascontiguousarray(outputs)
+        brainstorm.handlers._cpuop.avgpool_forward(
+            np.ascontiguousarray(inputs), window, out, padding, stride)
+        if out is not outputs:
+            outputs[:] = out
 
     def binarize_v(self, v, out):
         eye = np.eye(out.shape[1], dtype=self.dtype)
@@ -209,14 +218,22 @@ class NumpyHandler(Handler):
 
     def maxpool2d_backward_batch(self, inputs, window, outputs, padding,
                                  stride, argmax, in_deltas, out_deltas):
-        brainstorm.handlers._cpuop.maxpool_backward(inputs, window, outputs,
-                                                    padding, stride, argmax,
-                                                    in_deltas, out_deltas)
+        deltas = np.ascontiguousarray(in_deltas)
+        brainstorm.handlers._cpuop.maxpool_backward(
+            np.ascontiguousarray(inputs), window,
+            np.ascontiguousarray(outputs), padding, stride, argmax, deltas,
+            np.ascontiguousarray(out_deltas))
+        if deltas is not in_deltas:
+            in_deltas[:] = deltas
 
     def maxpool2d_forward_batch(self, inputs, window, outputs, padding,
                                 stride, argmax):
-        brainstorm.handlers._cpuop.maxpool_forward(inputs, window, outputs,
-                                                   padding, stride, argmax)
+        out = np.ascontiguousarray(outputs)
+        brainstorm.handlers._cpuop.maxpool_forward(
+            np.ascontiguousarray(inputs), window, out, padding, stride,
+            argmax)
+        if out is not outputs:
+            outputs[:] = out
 
     def merge_tt(self, a, b, out):
         out_flat = out.reshape(-1, out.shape[-1])
-- 
2.43.0


From 1421542f7695356e4e4256d2a52782a43e5d3bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:48 +0000
Subject: [PATCH 36/39] fix: extract() keeps all batches of a buffer that is
 requested twice

---
 brainstorm/tools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/brainstorm/tools.py b/brainstorm/tools.py
index c6bc68c..8c3a143 100644
--- a/brainstorm/tools.py
+++ b/brainstorm/tools.py
@@ -109,12 +109,11 @@ def extract(network, iter, buffer_names):
     nr_items = 0
     for _ in run_network(network, iterator, all_inputs=False):
         network.forward_pass()
-        first_pass = False if len(return_data) == len(buffer_names) else True
         for num, buffer_name in enumerate(buffer_names):
             data = network.get(buffer_name)
             if num == 0:
                 nr_items += data.shape[1]
-            if first_pass:
+            if buffer_name not in return_data:
                 data_shape = (data.shape[0], nr_examples) + data.shape[2:]
                 return_data[buffer_name] = np.zeros(data_shape, data.dtype)
             extra_steps = data.shape[0] - return_data[buffer_name].shape[0]
-- 
2.43.0


From 3938bfce8835e391cb3896bf9b0e799f0063d1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:20 +0000
Subject: [PATCH 37/39] fix: describe the order of hooks that are shared
 between trainers

---
 brainstorm/training/trainer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/brainstorm/training/trainer.py b/brainstorm/training/trainer.py
index 8467346..2b69c44 100644
--- a/brainstorm/training/trainer.py
+++ b/brainstorm/training/trainer.py
@@ -115,6 +115,14 @@ class Trainer(Describable):
         self._emit_hooks(net, 'update', logs=self.results)
         return self.results
 
+    def __describe__(self):
+        description = super(Trainer, self).__describe__()
+        # The hooks might be shared with other trainers, so record their order
+        # in this one.
+        for priority, name in enumerate(self.hooks, 1):
+            description['hooks'][name]['priority'] = priority
+        return description
+
     def __init_from_description__(self, description):
         # Recover the hooks in order of priority and set their names.
         def get_priority(x):
-- 
2.43.0


From 4b3ffb1b2d05718bee2c6fbc1a32e98c15f2f213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 38/39] fix: progress bar no longer fails after an interrupted
 epoch or with other data

---
 brainstorm/hooks.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 608babe..3bd6106 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -2,7 +2,6 @@
 # coding=utf-8
 from __future__ import division, print_function, unicode_literals
 
-import math
 import signal
 import sys
 from collections import OrderedDict
@@ -836,30 +835,41 @@ else:
 
 class ProgressBar(Hook):
     """ Adds a progress bar to show the training progress. """
-    __undescribed__ = {'length', 'bar'}
+    __undescribed__ = {'length', 'bar', 'epoch_nr', 'epoch_start'}
 
     def __init__(self):
         super(ProgressBar, self).__init__(None, 'update', 1)
         self.length = None
         self.bar = None
+        self.epoch_nr = None
+        self.epoch_start = None
 
     def start(self, net, stepper, verbose, named_data_iters):
         assert 'training_data_iter' in named_data_iters
         self.length = named_data_iters['training_data_iter'].length
         self.bar = None
+        self.epoch_nr = None
 
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
-        assert epoch_nr == 0 or math.ceil(update_nr / self.length) == epoch_nr
-        if update_nr % self.length == 1:
+        if self.epoch_nr is None:  # the call before training
+            self.epoch_nr = epoch_nr
+            return
+        # Earlier runs of the trainer might have been interrupted or might
+        # have used other data, so only count the updates of this epoch.
+        if epoch_nr != self.epoch_nr:
+            self.epoch_nr = epoch_nr
+            self.epoch_start = update_nr - 1
+            if self.length is None:
+                return
             self.bar = progress_bar(self.length)
             print(next(self.bar), end='')
-            sys.stdout.flush()
-        elif update_nr % self.length == 0:
-            if self.bar:
-                print(self.bar.send(self.length))
-        else:
-            print(self.bar.send(update_nr % self.length), end='')
-            sys.stdout.flush()
+        if self.bar is None:
+            return
+        done = update_nr - self.epoch_start
+        print(self.bar.send(done), end='\n' if done == self.length else '')
+        if done == self.length:
+            self.bar = None
+        sys.stdout.flush()
 
 
 # ----------------------------- Miscellaneous ------------------------------- #
-- 
2.43.0


From be4927f5df7b78b934f78c9993e6a6aeb6e533b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 39/39] fix: SaveLogs can store logged strings

---
 brainstorm/hooks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 3bd6106..78a40c5 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -187,7 +187,10 @@ class SaveLogs(Hook):
                 subgroup = group.create_group(name)
                 SaveLogs._save_recursively(subgroup, log)
             else:
-                group.create_dataset(name, data=np.array(log))
+                data = np.array(log)
+                if data.dtype.kind == 'U':  # not supported by HDF5
+                    data = np.char.encode(data, 'utf-8')
+                group.create_dataset(name, data=data)
 
 
 class SaveNetwork(Hook):
-- 
2.43.0

