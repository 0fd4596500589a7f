From 76b519153269dc3c2dd27e268c3c1f7f2350b116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:46 +0000
Subject: [PATCH 01/54] fix: FourierConvolution1d passes its expansion and
 convolution so that it can be built

---
 high_order_layers_torch/FunctionalConvolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/FunctionalConvolution.py b/high_order_layers_torch/FunctionalConvolution.py
index ba7fb13..d244c83 100644
--- a/high_order_layers_torch/FunctionalConvolution.py
+++ b/high_order_layers_torch/FunctionalConvolution.py
@@ -259,7 +259,8 @@ class FourierConvolution1d(FourierConvolution):
             kernel_size=kernel_size,
             length=length,
             rescale_output=rescale_output,
-            conv_wrapper=Conv1d,
+            expansion=Expansion1d,
+            convolution=Conv1d,
             *args,
             **kwargs,
         )
-- 
2.43.0


From fe27ef171cd63937adbc538c9ebde091af0679b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:46 +0000
Subject: [PATCH 02/54] fix: FourierSeriesEmbedding returns the layer it builds

---
 high_order_layers_torch/positional_embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/positional_embeddings.py b/high_order_layers_torch/positional_embeddings.py
index 9bba775..d32f2b5 100644
--- a/high_order_layers_torch/positional_embeddings.py
+++ b/high_order_layers_torch/positional_embeddings.py
@@ -44,7 +44,7 @@ def FourierSeriesEmbedding(
     """
     High order embedding using fourier layer
     """
-    FourierSeries(
+    return FourierSeries(
         n=n, in_features=in_features, out_features=out_features, length=length
     )
 
-- 
2.43.0


From 8c4bb80e4e8869b16c22a2bafce312f1a230564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:46 +0000
Subject: [PATCH 03/54] fix: sinusoidal embedding of dimension 2 no longer
 divides by zero

---
 high_order_layers_torch/positional_embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/positional_embeddings.py b/high_order_layers_torch/positional_embeddings.py
index d32f2b5..cfe1bc3 100644
--- a/high_order_layers_torch/positional_embeddings.py
+++ b/high_order_layers_torch/positional_embeddings.py
@@ -25,7 +25,7 @@ class ClassicSinusoidalEmbedding(nn.Module):
 
     def forward(self, x):
         half_dim = self.dim // 2
-        emb = math.log(10000) / (half_dim - 1)
+        emb = math.log(10000) / max(half_dim - 1, 1)
         emb = torch.exp(torch.arange(half_dim) * -emb)
         emb = x.unsqueeze(-1) * emb.unsqueeze(0)
         emb = torch.cat((emb.sin(), emb.cos()), dim=-1)
-- 
2.43.0


From 3251c56f68e786ab8aa79021f4dd691c1c28aed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:46 +0000
Subject: [PATCH 04/54] fix: HighOrderMLPList builds every layer of the list,
 not only the first

---
 high_order_layers_torch/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index b58eb7f..c7a2a08 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -133,7 +133,7 @@ class HighOrderMLPList(nn.Module):
             periodicity=periodicity,
         )
         layer_list.append(input_layer)
-        for i in range(1, len(layer_list)):
+        for i in range(1, len(layer_type)):
             if normalization is not None and normalization[i] is not None:
                 layer_list.append(normalization[i]())
             if non_linearity is not None and non_linearity[i] is not None:
-- 
2.43.0


From e77843a03beedac61944610585f8711bdea4f06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:12 +0000
Subject: [PATCH 05/54] fix: register the layers inside SumLayer and
 SwitchLayer as sub-modules so they are trained, saved and moved

---
 high_order_layers_torch/layers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/high_order_layers_torch/layers.py b/high_order_layers_torch/layers.py
index 2ecdd52..e30a1a7 100644
--- a/high_order_layers_torch/layers.py
+++ b/high_order_layers_torch/layers.py
@@ -161,7 +161,7 @@ class LinearReluAdapter(nn.Module):
 class SumLayer(nn.Module):
     def __init__(self, *args, layer_list: list[nn.Module], **kwargs):
         super().__init__()
-        self._layer_list = layer_list
+        self._layer_list = nn.ModuleList(layer_list)
 
     def forward(self, x):
         x_all = [layer(x) for layer in self._layer_list]
@@ -192,7 +192,7 @@ class SwitchLayer(Module):
         self._in_features = in_features
         self._out_features = out_features
 
-        self._layers = [
+        self._layers = nn.ModuleList(
             high_order_fc_layers(
                 layer_type=layer_type,
                 n=n,
@@ -205,7 +205,7 @@ class SwitchLayer(Module):
                 device=device,
             )
             for _ in range(num_input_layers)
-        ]
+        )
 
         self._normalization = normalization
 
-- 
2.43.0


From 0b50c6f45c0b25e346158f095b0195bb40f13be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:12 +0000
Subject: [PATCH 06/54] fix: resnet adds the output of the previous layer
 instead of applying that layer a second time

---
 high_order_layers_torch/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index c7a2a08..105c26b 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -257,7 +257,7 @@ class HighOrderMLP(nn.Module):
 
             # This will add the result of the previous layer after normalization
             if resnet is True and i > 0:
-                hidden_layer = SumLayer(layer_list=[hidden_layer, layer_list[-1]])
+                hidden_layer = SumLayer(layer_list=[hidden_layer, nn.Identity()])
 
             layer_list.append(hidden_layer)
 
-- 
2.43.0


From 2ab5243cd6d3b623007a4e3de707a3ae691e43da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:12 +0000
Subject: [PATCH 07/54] fix: piecewise layers and expansions honour length in
 the position of their segments

---
 high_order_layers_torch/Basis.py            |  8 ++++----
 high_order_layers_torch/PolynomialLayers.py | 14 ++++++++------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index 092a2e2..2f58be2 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -132,7 +132,7 @@ class PiecewiseExpand:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class PiecewiseExpand1d:
@@ -214,7 +214,7 @@ class PiecewiseExpand1d:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class PiecewiseDiscontinuousExpand:
@@ -293,7 +293,7 @@ class PiecewiseDiscontinuousExpand:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class PiecewiseDiscontinuousExpand1d:
@@ -375,7 +375,7 @@ class PiecewiseDiscontinuousExpand1d:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class BasisFlat:
diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index b2461fc..502c222 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -231,7 +231,7 @@ class Piecewise(nn.Module):
         If not set, then it defaults to random uniform.
         """
         super().__init__()
-        self._poly = poly(n)
+        self._poly = poly(n, length=length)
         self._n = n
         self._segments = segments
         self.in_features = in_features
@@ -341,7 +341,7 @@ class Piecewise(nn.Module):
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
     def interpolate(
         self,
@@ -462,8 +462,10 @@ class PiecewiseND(torch.nn.Module):
 
     def _eta(self, index: torch.Tensor) -> torch.Tensor:
         return (
-            index.float() / torch.tensor(self.segments, device=self.device).float() * 2
-            - 1
+            index.float()
+            / torch.tensor(self.segments, device=self.device).float()
+            * self._length
+            - self._half
         )
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
@@ -599,7 +601,7 @@ class PiecewiseDiscontinuous(nn.Module):
         super().__init__()
         self._n = n
         self.device = device
-        self._poly = poly(self._n)
+        self._poly = poly(self._n, length=length)
         self._segments = segments
         self.in_features = in_features
         self.out_features = out_features
@@ -694,7 +696,7 @@ class PiecewiseDiscontinuous(nn.Module):
 
     def _eta(self, index: int):
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
     def interpolate(self, layer_out: "PiecewiseDiscontinuous"):
         interpolate_polynomial_layer(layer_in=self, layer_out=layer_out)
-- 
2.43.0


From a17d8bd38b0bf0a12aca51983481f1aa404f3e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:12 +0000
Subject: [PATCH 08/54] fix: PolynomialProd can be built (BasisFlatProd lacked
 num_basis)

---
 high_order_layers_torch/Basis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index 2f58be2..c9c0e10 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -457,6 +457,7 @@ class BasisFlatProd:
         self.n = n
         self.basis = basis
         self.alpha = alpha
+        self.num_basis = basis.num_basis or n
 
     def interpolate(self, x: Tensor, w: Tensor) -> Tensor:
         """
-- 
2.43.0


From 3f0ab32922b4fee9547458a07b7ca43ab0fec79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:12 +0000
Subject: [PATCH 09/54] fix: Product without bias can be evaluated

---
 high_order_layers_torch/ProductLayer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/ProductLayer.py b/high_order_layers_torch/ProductLayer.py
index 1ed315b..bbd06fc 100644
--- a/high_order_layers_torch/ProductLayer.py
+++ b/high_order_layers_torch/ProductLayer.py
@@ -50,6 +50,8 @@ class Product(Module):
         this_sum = torch.sum(assemble, dim=1)
         assemble = assemble + 1.0
         assemble = torch.prod(assemble, dim=1) - (1 - self.alpha) * this_sum
-        assemble = assemble - 1 + self.bias
+        assemble = assemble - 1
+        if self.bias is not None:
+            assemble = assemble + self.bias
 
         return assemble
-- 
2.43.0


From 89312b8b3e3a486a6bbf3b6481677dedae4de48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:12 +0000
Subject: [PATCH 10/54] fix: 1d piecewise expansions accept non contiguous
 inputs

---
 high_order_layers_torch/Basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index c9c0e10..31ba980 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -189,7 +189,7 @@ class PiecewiseExpand1d:
             x.shape[0], x.shape[1], x.shape[2], self._variables, device=device
         )
 
-        wid_min_flat = wid_min.view(-1)
+        wid_min_flat = wid_min.reshape(-1)
 
         wrange = wid_min_flat.unsqueeze(-1) + torch.arange(self._n, device=device).view(
             -1
@@ -350,7 +350,7 @@ class PiecewiseDiscontinuousExpand1d:
             x.shape[0], x.shape[1], x.shape[2], self._variables, device=device
         )
 
-        wid_min_flat = wid_min.view(-1)
+        wid_min_flat = wid_min.reshape(-1)
 
         wrange = wid_min_flat.unsqueeze(-1) + torch.arange(self._n, device=device).view(
             -1
-- 
2.43.0


From 91b19b8cc7bede0347ca04c17ffd6f22ba20af0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:12 +0000
Subject: [PATCH 11/54] fix: piecewise expansions keep the dtype of their input

---
 high_order_layers_torch/Basis.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index 31ba980..87a9d8d 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -103,6 +103,7 @@ class PiecewiseExpand:
             x.shape[3],
             self._variables,
             device=device,
+            dtype=x.dtype,
         )
 
         wid_min_flat = wid_min.reshape(-1)
@@ -186,7 +187,12 @@ class PiecewiseExpand1d:
         out = self._expand(x_in)
 
         mat = torch.zeros(
-            x.shape[0], x.shape[1], x.shape[2], self._variables, device=device
+            x.shape[0],
+            x.shape[1],
+            x.shape[2],
+            self._variables,
+            device=device,
+            dtype=x.dtype,
         )
 
         wid_min_flat = wid_min.reshape(-1)
@@ -268,6 +274,7 @@ class PiecewiseDiscontinuousExpand:
             x.shape[3],
             self._variables,
             device=x.device,
+            dtype=x.dtype,
         )
 
         wid_min_flat = wid_min.reshape(-1)
@@ -347,7 +354,12 @@ class PiecewiseDiscontinuousExpand1d:
         out = self._expand(x_in)
 
         mat = torch.zeros(
-            x.shape[0], x.shape[1], x.shape[2], self._variables, device=device
+            x.shape[0],
+            x.shape[1],
+            x.shape[2],
+            self._variables,
+            device=device,
+            dtype=x.dtype,
         )
 
         wid_min_flat = wid_min.reshape(-1)
-- 
2.43.0


From 50514ebdd0028c46f38e3f1ff2e064830c853ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:12 +0000
Subject: [PATCH 12/54] fix: N dimensional Lagrange basis is +1 at its own node
 (denominator sign was flipped)

---
 high_order_layers_torch/LagrangePolynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/LagrangePolynomial.py b/high_order_layers_torch/LagrangePolynomial.py
index 1248ef6..91f5c76 100644
--- a/high_order_layers_torch/LagrangePolynomial.py
+++ b/high_order_layers_torch/LagrangePolynomial.py
@@ -99,7 +99,7 @@ class LagrangeBasisND:
     def _compute_denominators(self):
         return [
             torch.where(X_diff == 0, torch.tensor(1.0, device=self.device), X_diff)
-            for X_diff in [Xi.unsqueeze(0) - Xi.unsqueeze(1) for Xi in self.X]
+            for X_diff in [Xi.unsqueeze(1) - Xi.unsqueeze(0) for Xi in self.X]
         ]
 
     def _compute_indexes(self):
-- 
2.43.0


From 0fa19207607a4edf55345d028ce61086bf015ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:39 +0000
Subject: [PATCH 13/54] fix: N dimensional polynomial layers accept a single n
 for all dimensions

---
 high_order_layers_torch/LagrangePolynomial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/LagrangePolynomial.py b/high_order_layers_torch/LagrangePolynomial.py
index 91f5c76..a4a6fe8 100644
--- a/high_order_layers_torch/LagrangePolynomial.py
+++ b/high_order_layers_torch/LagrangePolynomial.py
@@ -85,8 +85,9 @@ class LagrangeBasisND:
     Supports different n values for each dimension.
     """
     def __init__(
-        self, n: Union[List[int],int], length: float = 2.0, device: str = "cpu", **kwargs
+        self, n: Union[List[int],int], length: float = 2.0, device: str = "cpu", dimensions: int = 2, **kwargs
     ):
+        n = [n] * dimensions if isinstance(n, int) else n
         self.n = n
         self.dimensions = len(n)
         self.X = [(length / 2.0) * chebyshevLobatto(ni).to(device) for ni in n]
-- 
2.43.0


From 95fd34bf87126f970e8203b69c65b000471a9955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:39 +0000
Subject: [PATCH 14/54] fix: PiecewiseND keeps separate weights for every
 input, output pair and accepts 1 dimension

---
 high_order_layers_torch/PolynomialLayers.py | 25 ++++++---------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 502c222..3581554 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -388,8 +388,6 @@ class PiecewiseND(torch.nn.Module):
                 f"Dimensions of n and segments must match, got {len(self.n)} and {len(self.segments)}"
             )
 
-        print('n', n, 'segments', self.segments)
-
         self.in_features = in_features
         self.out_features = out_features
         self.device = device
@@ -430,13 +428,10 @@ class PiecewiseND(torch.nn.Module):
             * weight_magnitude
             - weight_magnitude
         ) / self.in_features
-        self.w.data = segment_values.repeat_interleave(
-            self.total_segments * self.weights_per_segment
-        )
-        print("self.w.data", self.w)
+        with torch.no_grad():
+            self.w.copy_(segment_values.unsqueeze(2).expand_as(self.w))
 
     def which_segment(self, x: torch.Tensor) -> torch.Tensor:
-        print('segments x', torch.min(x[:,:,0]), torch.max(x[:,:,1]))
         return (
             (
                 (x + self._half)
@@ -515,20 +510,14 @@ class PiecewiseND(torch.nn.Module):
     def _reshape_weights(self, weight_indices):
         # Reshape weights based on weight indices
         batch_size, num_inputs, _ = weight_indices.shape
-        weight_indices = weight_indices.unsqueeze(2).expand(
-            -1, -1, self.out_features, -1
-        )
+        input_indices = torch.arange(num_inputs, device=self.device).view(1, -1, 1)
 
         # Select weights for each input point
-        # selected_weights = self.w[weight_indices]
-
-        # Reshape to [out_features, num_inputs, batch_size, weights_per_segment]
-        reshaped_weights = self.w[weight_indices].view(
-            batch_size, num_inputs, self.out_features, self.weights_per_segment
-        )
+        # [batch_size, num_inputs, weights_per_segment, out_features]
+        selected_weights = self.w[input_indices, :, weight_indices]
 
-        # Permute to get the desired shape [out_features, num_inputs, batch_size, weights_per_segment]
-        return reshaped_weights
+        # Permute to get the desired shape [batch_size, num_inputs, out_features, weights_per_segment]
+        return selected_weights.permute(0, 1, 3, 2)
 
 
 class PiecewisePolynomial(Piecewise):
-- 
2.43.0


From cb10e4183332d9804ce062f2adb93e805849cbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:39 +0000
Subject: [PATCH 15/54] fix: MultiHeadAttention applies each sample its own
 mask (heads are the leading dimension)

---
 high_order_layers_torch/attentions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index cdfc944..353f24f 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -324,7 +324,7 @@ class MultiHeadAttention(nn.Module):
         )  # BNxV_LENxD
 
         if mask is not None:
-            mask = mask.unsqueeze(1).repeat(1, self.num_heads, 1, 1)  # BxNxQ_LENxK_LEN
+            mask = mask.unsqueeze(0).repeat(self.num_heads, 1, 1, 1)  # NxBxQ_LENxK_LEN
 
         context, attn = self.scaled_dot_attn(query, key, value, mask)
 
-- 
2.43.0


From 823df94e3554c1d6fbe168a9eeed50e7e5c485ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:39 +0000
Subject: [PATCH 16/54] fix: MultiHeadLocationAwareAttention weighs the values
 it scored (a second re-view mixed heads and positions)

---
 high_order_layers_torch/attentions.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index 353f24f..f49af6a 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -235,11 +235,6 @@ class MultiHeadLocationAwareAttention(nn.Module):
         ).squeeze(2)
         attn = F.softmax(score, dim=1)
 
-        value = value.view(batch_size, seq_len, self.num_heads, self.dim).permute(
-            0, 2, 1, 3
-        )
-        value = value.contiguous().view(-1, seq_len, self.dim)
-
         context = torch.bmm(attn.unsqueeze(1), value).view(
             batch_size, -1, self.num_heads * self.dim
         )
-- 
2.43.0


From 20b9feb19e4014052e99607d7383aec2a3e5997d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:39 +0000
Subject: [PATCH 17/54] fix: CustomizingAttention can be evaluated and returns
 alignments in the order it takes them back

---
 high_order_layers_torch/attentions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index f49af6a..6044fce 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -504,8 +504,10 @@ class CustomizingAttention(nn.Module):
         query = query.contiguous().view(-1, q_len, self.dim)
         value = value.contiguous().view(-1, v_len, self.dim)
 
-        context, attn = self.scaled_dot_attn(query, value)
-        attn = attn.squeeze()
+        context, attn = self.scaled_dot_attn(query, value, value)
+        # Batch is the leading dimension of last_attn, so return it that way
+        attn = attn.view(self.num_heads, batch_size, q_len, v_len).transpose(0, 1)
+        attn = attn.reshape(-1, q_len, v_len).squeeze(1)
 
         context = context.view(self.num_heads, batch_size, q_len, self.dim).permute(
             1, 2, 0, 3
-- 
2.43.0


From 32ec12a843ad3c36d9fca7640941defe5ab1b2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:39 +0000
Subject: [PATCH 18/54] fix: SparseLion applies weight decay (it decayed a
 temporary copy)

---
 high_order_layers_torch/sparse_optimizers/sparse_lion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/sparse_optimizers/sparse_lion.py b/high_order_layers_torch/sparse_optimizers/sparse_lion.py
index 21bce8f..7900050 100644
--- a/high_order_layers_torch/sparse_optimizers/sparse_lion.py
+++ b/high_order_layers_torch/sparse_optimizers/sparse_lion.py
@@ -16,7 +16,7 @@ def update_fn(p, grad, exp_avg, lr, wd, beta1, beta2, update_indexes: torch.Tens
     :param update_indexes: True/False array indicating which indexes should be updated
     """
 
-    p.data[update_indexes].mul_(1 - lr * wd)
+    p.data[update_indexes] = p.data[update_indexes].mul_(1 - lr * wd)
 
     # weight update
     grad_update = grad[update_indexes]
-- 
2.43.0


From a3d852b39faed1771b94c2b05f16599f9e156dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:39 +0000
Subject: [PATCH 19/54] fix: second axis of every mesh rotation is orthogonal
 to the first

---
 high_order_layers_torch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/utils.py b/high_order_layers_torch/utils.py
index 643468c..b1892d2 100644
--- a/high_order_layers_torch/utils.py
+++ b/high_order_layers_torch/utils.py
@@ -121,7 +121,7 @@ def positions_from_mesh(
         r1_min = torch.min(r1)
         dr1 = r1_max - r1_min
 
-        r2 = rot_x * xv - rot_y * yv
+        r2 = rot_x * yv - rot_y * xv
         r2_max = torch.max(r2)
         r2_min = torch.min(r2)
         dr2 = r2_max - r2_min
-- 
2.43.0


From 61d179b207733d790d313798697d57351a9c37ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:39 +0000
Subject: [PATCH 20/54] fix: TailFocusNetwork.compute_sizes accounts for
 padding and for the default stride

---
 high_order_layers_torch/networks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index 105c26b..c0fa541 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -752,7 +752,10 @@ class HighOrderTailFocusNetwork(nn.Module):
     def compute_sizes(self, input_size: int):
         widths = [input_size]
         for i, val in enumerate(self.kernel_size):
-            nw = math.ceil((widths[i] - self.kernel_size[i] + 1) / self.stride[i])
+            stride = 1 if self.stride is None else self.stride[i]
+            nw = math.ceil(
+                (widths[i] + 2 * self._padding - self.kernel_size[i] + 1) / stride
+            )
             widths.append(nw)
 
         output_sizes = [
-- 
2.43.0


From 95191d9838051bbeb0dd0d3ae8beec1960ce4b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:58 +0000
Subject: [PATCH 21/54] fix: TailFocusNetwork keeps the tail of every level
 when there is no normalization

---
 high_order_layers_torch/networks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index c0fa541..c884c35 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -722,6 +722,8 @@ class HighOrderTailFocusNetwork(nn.Module):
 
         self.layer_list = []
         self.layer_dict = {}
+        # The tail of a level is taken after its last layer.
+        self._tail_prefix = "conv" if normalization is None else "normal"
         for i in range(len(self.channels) - 1):
             layer = high_order_convolution_layers(
                 layer_type=self.layer_type[i],
@@ -770,7 +772,7 @@ class HighOrderTailFocusNetwork(nn.Module):
         count = 1
         for name in self.layer_list:
             x = self.layer_dict[name](x)  # Assuming it only does this move once!
-            if "normal" in name and count < len(self.focus):
+            if name.startswith(self._tail_prefix) and count < len(self.focus):
                 tail = x[:, :, -self.focus[count] :].flatten(1)
                 early.append(tail)
                 count += 1
-- 
2.43.0


From bbf61946ab761468c0a56e78e6e486a6e6ef4290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:58 +0000
Subject: [PATCH 22/54] fix: p refinement works for the product piecewise
 layers

---
 high_order_layers_torch/PolynomialLayers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 3581554..712e969 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -778,10 +778,10 @@ def interpolate_polynomial_layer(
     n_in = poly_in.basis.n
     n_out = poly_out.basis.n
 
-    if isinstance(layer_in, PiecewisePolynomial):
+    if isinstance(layer_in, Piecewise):
         offset = -1
         end = 1
-    elif isinstance(layer_in, PiecewiseDiscontinuousPolynomial):
+    elif isinstance(layer_in, PiecewiseDiscontinuous):
         offset = 0
         end = 0
 
-- 
2.43.0


From 783f07225cd7f56ba3a88d6f7a51341cfb3ae688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:58 +0000
Subject: [PATCH 23/54] fix: high_order networks use n_hidden from the
 configuration for their hidden layers

---
 high_order_layers_torch/modules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/modules.py b/high_order_layers_torch/modules.py
index 664e17b..af266d0 100644
--- a/high_order_layers_torch/modules.py
+++ b/high_order_layers_torch/modules.py
@@ -136,7 +136,7 @@ def select_network(cfg: DictConfig, device: str = None):
             layer_type=cfg.net.layer_type,
             n=cfg.net.n,
             n_in=cfg.net.n_in,
-            n_hidden=cfg.net.n_in,
+            n_hidden=cfg.net.n_hidden,
             n_out=cfg.net.n_out,
             in_width=cfg.net.input.width,
             in_segments=cfg.net.input.segments,
-- 
2.43.0


From bfec2767b02bce875bfcc478ce5c35022391cfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:58 +0000
Subject: [PATCH 24/54] fix: high_order_input networks read the output width
 where the other networks do

---
 high_order_layers_torch/modules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/modules.py b/high_order_layers_torch/modules.py
index af266d0..f24ded7 100644
--- a/high_order_layers_torch/modules.py
+++ b/high_order_layers_torch/modules.py
@@ -118,7 +118,7 @@ def select_network(cfg: DictConfig, device: str = None):
 
         lower_layers = LowOrderMLP(
             in_width=cfg.net.hidden.width,
-            out_width=cfg.output.width,
+            out_width=cfg.net.output.width,
             hidden_width=cfg.net.hidden.width,
             hidden_layers=cfg.net.hidden.layers - 1,
             non_linearity=torch.nn.ReLU(),
-- 
2.43.0


From 052b6f7ed857a8b51d08f998aede7ceff7da8f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:58 +0000
Subject: [PATCH 25/54] fix: plateau scheduler is built without the removed
 verbose argument

---
 high_order_layers_torch/modules.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/high_order_layers_torch/modules.py b/high_order_layers_torch/modules.py
index f24ded7..905102e 100644
--- a/high_order_layers_torch/modules.py
+++ b/high_order_layers_torch/modules.py
@@ -73,7 +73,6 @@ class PredictionNetMixin:
                 optimizer,
                 patience=self.cfg.optimizer.patience,
                 factor=self.cfg.optimizer.factor,
-                verbose=True,
             )
             reduce_on_plateau = True
         elif self.cfg.optimizer.scheduler == "exponential":
-- 
2.43.0


From fe3cf3967cacbd0986a0273dc8cd072e42b8dff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:58 +0000
Subject: [PATCH 26/54] fix: convolutional networks pass the channel count to
 BatchNorm1d instead of using it as eps

---
 high_order_layers_torch/modules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/modules.py b/high_order_layers_torch/modules.py
index 905102e..7a31122 100644
--- a/high_order_layers_torch/modules.py
+++ b/high_order_layers_torch/modules.py
@@ -155,7 +155,7 @@ def select_network(cfg: DictConfig, device: str = None):
             kernel_size=cfg.net.kernel_size,
             rescale_output=False,
             periodicity=cfg.net.periodicity,
-            normalization=torch.nn.LazyBatchNorm1d,
+            normalization=torch.nn.BatchNorm1d,
             stride=cfg.net.stride,
             pooling=None,  # don't add an average pooling layer
         )
@@ -171,7 +171,7 @@ def select_network(cfg: DictConfig, device: str = None):
             kernel_size=cfg.net.kernel_size,
             rescale_output=False,
             periodicity=cfg.net.periodicity,
-            normalization=torch.nn.LazyBatchNorm1d,
+            normalization=torch.nn.BatchNorm1d,
             stride=cfg.net.stride,
             focus=cfg.net.focus,
         )
-- 
2.43.0


From 1ea5e1d610bbbc8856314b7c59f2d6ae573e305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:15 +0000
Subject: [PATCH 27/54] fix: networks and SwitchLayer pass their scale to the
 layers, which call it length

---
 high_order_layers_torch/layers.py   | 1 +
 high_order_layers_torch/networks.py | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/high_order_layers_torch/layers.py b/high_order_layers_torch/layers.py
index e30a1a7..2b6bd24 100644
--- a/high_order_layers_torch/layers.py
+++ b/high_order_layers_torch/layers.py
@@ -201,6 +201,7 @@ class SwitchLayer(Module):
                 segments=segments,
                 rescale_output=False,
                 scale=scale,
+                length=scale,
                 periodicity=None,
                 device=device,
             )
diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index c884c35..f634838 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -130,6 +130,7 @@ class HighOrderMLPList(nn.Module):
             segments=segments[0],
             rescale_output=rescale_output,
             scale=scale,
+            length=scale,
             periodicity=periodicity,
         )
         layer_list.append(input_layer)
@@ -147,6 +148,7 @@ class HighOrderMLPList(nn.Module):
                 segments=segments[i],
                 rescale_output=rescale_output,
                 scale=scale,
+                length=scale,
                 periodicity=periodicity,
             )
             layer_list.append(this_layer)
@@ -227,6 +229,7 @@ class HighOrderMLP(nn.Module):
             segments=in_segments,
             rescale_output=rescale_output,
             scale=scale,
+            length=scale,
             periodicity=periodicity,
             device=device,
             intialization=initialization,
@@ -250,6 +253,7 @@ class HighOrderMLP(nn.Module):
                 segments=hidden_segments,
                 rescale_output=rescale_output,
                 scale=scale,
+                length=scale,
                 periodicity=periodicity,
                 device=device,
                 initialization=initialization,
@@ -277,6 +281,7 @@ class HighOrderMLP(nn.Module):
             segments=out_segments,
             rescale_output=rescale_output,
             scale=scale,
+            length=scale,
             periodicity=periodicity,
             device=device,
             initialization=initialization,
@@ -363,6 +368,7 @@ class HighOrderMultiMLP(nn.Module):
             segments=in_segments,
             rescale_output=rescale_output,
             scale=scale,
+            length=scale,
             periodicity=periodicity,
             device=device,
             intialization=initialization,
@@ -423,6 +429,7 @@ class HighOrderMultiMLP(nn.Module):
             segments=out_segments,
             rescale_output=rescale_output,
             scale=scale,
+            length=scale,
             periodicity=periodicity,
             device=device,
             initialization=initialization,
-- 
2.43.0


From 0bf5974fc0df80e258b2f0a69f07360c6eb463d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:15 +0000
Subject: [PATCH 28/54] fix: HighOrderMultiMLP can be built (replicas are
 HighOrderMLP networks)

---
 high_order_layers_torch/networks.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index f634838..c5e4a0c 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -385,10 +385,9 @@ class HighOrderMultiMLP(nn.Module):
             # need to make a special network or special layer
             # think about it.
 
-            replica_network = HighOrderMultiMLP(
+            replica_network = HighOrderMLP(
                 layer_type=layer_type,
                 n=n,
-                replicas=replicas,
                 in_width=hidden_width,
                 out_width=hidden_width,
                 hidden_layers=hidden_layers,
@@ -436,7 +435,7 @@ class HighOrderMultiMLP(nn.Module):
         )
         self.output_list.append(self.output_layer)
 
-        self.model_in = nn.Sequential(*self.input_list)
+        self.model_in = nn.Sequential(*self.layer_list)
         self.model_out = nn.Sequential(*self.output_list)
 
     def forward(self, x: Tensor) -> Tensor:
-- 
2.43.0


From e08b50c4b0b6e498f28e78a3b1c2db902f06bf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:15 +0000
Subject: [PATCH 29/54] fix: 2d convolutions can be built with groups

---
 high_order_layers_torch/FunctionalConvolution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/high_order_layers_torch/FunctionalConvolution.py b/high_order_layers_torch/FunctionalConvolution.py
index d244c83..f055466 100644
--- a/high_order_layers_torch/FunctionalConvolution.py
+++ b/high_order_layers_torch/FunctionalConvolution.py
@@ -25,6 +25,7 @@ def constant_random_initialization_conv2d(
     device,
 ):
     # Shape is (out_channels, in_channels, kernel_height, kernel_width)
+    in_channels = w.shape[1]  # in_channels // groups
     in_features = kernel_width * kernel_height * in_channels // num_nodes
     random_values = (
         torch.rand(
-- 
2.43.0


From 42ae5de57fea96c18b75c2b2364e4d78b2193d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:11 +0000
Subject: [PATCH 30/54] fix: discontinuous layers with one node per segment can
 be smoothed

---
 high_order_layers_torch/PolynomialLayers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 712e969..3c82667 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -954,10 +954,10 @@ def smooth_discontinuous_layer(layer: PiecewiseDiscontinuous, factor: float):
     # every nth interior node is discontinuous
     with torch.no_grad():
         left = layer.w[:, :, (n - 1) : -1 : n]
-        right = layer.w[:, :, n:-1:n]
+        right = layer.w[:, :, n::n]
         diff = left - right
         layer.w[:, :, (n - 1) : -1 : n] = left - 0.5 * factor * diff
-        layer.w[:, :, n:-1:n] = right + 0.5 * factor * diff
+        layer.w[:, :, n::n] = right + 0.5 * factor * diff
 
 
 def initialize_polynomial_layer(
-- 
2.43.0


From 0d0f09245d0280b7407a4008f85b40c48fbc06b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:49 +0000
Subject: [PATCH 31/54] fix: convolutional networks reject lists whose lengths
 do not match the number of layers

---
 high_order_layers_torch/networks.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index c5e4a0c..1adb0d4 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -509,18 +509,17 @@ class HighOrderFullyConvolutionalNetwork(nn.Module):
 
         print("self.stride", self.stride)
 
-        if (
+        if not (
             len(self.segments)
             == len(self.kernel_size)
             == len(self.layer_type)
             == len(self.n)
-            is False
         ):
             raise ValueError(
                 f"Lists for segments {len(self.segments)}, kernel_size {len(self.kernel_size)}, layer_type {len(self.layer_type)} and n {len(self.n)} must be the same size."
             )
 
-        if len(self.channels) == len(self.n) + 1 is False:
+        if len(self.channels) != len(self.n) + 1:
             raise ValueError(
                 f"Length of channels list {self.channels} should be one more than number of layers."
             )
@@ -599,24 +598,23 @@ class HighOrderFullyDeconvolutionalNetwork(nn.Module):
                 f"Channels list must have at least 2 values [input_channels, output_channels]"
             )
 
-        size = len(self._channels)
+        size = len(self._kernel_size)
         self._layer_type = scalar_to_list(self._layer_type, size)
         self._n = scalar_to_list(self._n, size)
         self._stride = scalar_to_list(self._stride, size)
         self._segments = scalar_to_list(self._segments, size)
 
-        if (
+        if not (
             len(self._segments)
             == len(self._kernel_size)
             == len(self._layer_type)
             == len(self._n)
-            is False
         ):
             raise ValueError(
                 f"Lists for segments {len(self._segments)}, kernel_size {len(self._kernel_size)}, layer_type {len(self._layer_type)} and n {len(self._n)} must be the same size."
             )
 
-        if len(self._channels) == len(self._n) + 1 is False:
+        if len(self._channels) != len(self._n) + 1:
             raise ValueError(
                 f"Length of channels list {self._channels} should be one more than number of layers."
             )
@@ -710,18 +708,17 @@ class HighOrderTailFocusNetwork(nn.Module):
         self.segments = scalar_to_list(self.segments, size)
         self.focus = scalar_to_list(self.focus, size)
 
-        if (
+        if not (
             len(self.segments)
             == len(self.kernel_size)
             == len(self.layer_type)
             == len(self.n)
-            is False
         ):
             raise ValueError(
                 f"Lists for segments {len(self.segments)}, kernel_size {len(self.kernel_size)}, layer_type {len(self.layer_type)} and n {len(self.n)} must be the same size."
             )
 
-        if len(self.channels) == len(self.n) + 1 is False:
+        if len(self.channels) != len(self.n) + 1:
             raise ValueError(
                 f"Length of channels list {self.channels} should be one more than number of layers."
             )
-- 
2.43.0


From 9c7f2a65c9d27ff37c5adc294f983648c5838325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:21 +0000
Subject: [PATCH 32/54] fix: fully connected piecewise layers and the networks
 honour the requested initialization

---
 high_order_layers_torch/PolynomialLayers.py | 12 ++++++++----
 high_order_layers_torch/networks.py         | 10 +++++-----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 3c82667..260e4e8 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -542,7 +542,7 @@ class PiecewisePolynomial(Piecewise):
             weight_magnitude,
             poly=LagrangePoly,
             periodicity=periodicity,
-            device=device,
+            device=device,            **kwargs,
         )
 
 
@@ -568,7 +568,7 @@ class PiecewisePolynomialProd(Piecewise):
             weight_magnitude,
             poly=LagrangePolyProd,
             periodicity=periodicity,
-            device=device,
+            device=device,            **kwargs,
         )
 
 
@@ -604,7 +604,9 @@ class PiecewiseDiscontinuous(nn.Module):
                 self.w, out_features, in_features, weight_magnitude, device
             )
         else:
-            self.w.data.uniform_(-1 / in_features, 1 / in_features)
+            self.w.data.uniform_(
+                -weight_magnitude / in_features, weight_magnitude / in_features
+            )
 
         self._length = length
         self._half = 0.5 * length
@@ -716,7 +718,7 @@ class PiecewiseDiscontinuousPolynomial(PiecewiseDiscontinuous):
             weight_magnitude,
             poly=LagrangePoly,
             periodicity=periodicity,
-            device=device,
+            device=device,            **kwargs,
         )
 
 
@@ -742,6 +744,8 @@ class PiecewiseDiscontinuousPolynomialProd(PiecewiseDiscontinuous):
             weight_magnitude,
             poly=LagrangePolyProd,
             periodicity=periodicity,
+            device=device,
+            **kwargs,
         )
 
 
diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index 1adb0d4..153c848 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -232,7 +232,7 @@ class HighOrderMLP(nn.Module):
             length=scale,
             periodicity=periodicity,
             device=device,
-            intialization=initialization,
+            initialize=initialization,
         )
         layer_list.append(self.input_layer)
         for i in range(hidden_layers):
@@ -256,7 +256,7 @@ class HighOrderMLP(nn.Module):
                 length=scale,
                 periodicity=periodicity,
                 device=device,
-                initialization=initialization,
+                initialize=initialization,
             )
 
             # This will add the result of the previous layer after normalization
@@ -284,7 +284,7 @@ class HighOrderMLP(nn.Module):
             length=scale,
             periodicity=periodicity,
             device=device,
-            initialization=initialization,
+            initialize=initialization,
         )
         layer_list.append(self.output_layer)
         self.model = nn.Sequential(*layer_list)
@@ -371,7 +371,7 @@ class HighOrderMultiMLP(nn.Module):
             length=scale,
             periodicity=periodicity,
             device=device,
-            intialization=initialization,
+            initialize=initialization,
         )
         self.layer_list.append(self.input_layer)
 
@@ -431,7 +431,7 @@ class HighOrderMultiMLP(nn.Module):
             length=scale,
             periodicity=periodicity,
             device=device,
-            initialization=initialization,
+            initialize=initialization,
         )
         self.output_list.append(self.output_layer)
 
-- 
2.43.0


From f32bc0e676c6372e7c907856eac28a94f9d56cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:41 +0000
Subject: [PATCH 33/54] fix: alpha=0 subtracts the linear part of polynomial
 products instead of doubling it

---
 high_order_layers_torch/Basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index 87a9d8d..7e709bd 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -491,7 +491,7 @@ class BasisFlatProd:
         assemble = assemble + 1
 
         # Compute sum and product at output
-        out_prod = torch.prod(assemble, dim=2) - 1 + (1 - self.alpha) * this_sum
+        out_prod = torch.prod(assemble, dim=2) - 1 - (1 - self.alpha) * this_sum
 
         return out_prod
 
@@ -556,6 +556,6 @@ class BasisProd:
         assemble = 1 + assemble
 
         # Compute the product possibly removing the linear term.
-        out_prod = torch.prod(assemble, dim=2) - 1 + (1 - self.alpha) * this_sum
+        out_prod = torch.prod(assemble, dim=2) - 1 - (1 - self.alpha) * this_sum
 
         return out_prod
-- 
2.43.0


From 20707592c61fe46d2a92ad0492a4d2d710a0cd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:54 +0000
Subject: [PATCH 34/54] fix: polynomial product layers honour alpha

---
 high_order_layers_torch/PolynomialLayers.py | 26 ++++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 260e4e8..1ad3642 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -1,4 +1,5 @@
 import random
+from functools import partial
 from typing import Union, Optional
 
 import torch
@@ -173,13 +174,13 @@ class Polynomial5D(PolynomialND):
 
 class PolynomialProd(Function):
     def __init__(
-        self, n: int, in_features: int, out_features: int, length: float = 2.0, **kwargs
+        self, n: int, in_features: int, out_features: int, length: float = 2.0, alpha: float = 1.0, **kwargs
     ):
         return super().__init__(
             n,
             in_features,
             out_features,
-            LagrangePolyFlatProd(n, length=length),
+            LagrangePolyFlatProd(n, length=length, alpha=alpha),
             **kwargs,
         )
 
@@ -542,7 +543,8 @@ class PiecewisePolynomial(Piecewise):
             weight_magnitude,
             poly=LagrangePoly,
             periodicity=periodicity,
-            device=device,            **kwargs,
+            device=device,
+            **kwargs,
         )
 
 
@@ -557,6 +559,7 @@ class PiecewisePolynomialProd(Piecewise):
         weight_magnitude=1.0,
         periodicity: float = None,
         device: str = "cpu",
+        alpha: float = 1.0,
         **kwargs,
     ):
         super().__init__(
@@ -566,9 +569,10 @@ class PiecewisePolynomialProd(Piecewise):
             segments,
             length,
             weight_magnitude,
-            poly=LagrangePolyProd,
+            poly=partial(LagrangePolyProd, alpha=alpha),
             periodicity=periodicity,
-            device=device,            **kwargs,
+            device=device,
+            **kwargs,
         )
 
 
@@ -718,7 +722,8 @@ class PiecewiseDiscontinuousPolynomial(PiecewiseDiscontinuous):
             weight_magnitude,
             poly=LagrangePoly,
             periodicity=periodicity,
-            device=device,            **kwargs,
+            device=device,
+            **kwargs,
         )
 
 
@@ -733,6 +738,7 @@ class PiecewiseDiscontinuousPolynomialProd(PiecewiseDiscontinuous):
         weight_magnitude=1.0,
         periodicity: float = None,
         device: str = "cpu",
+        alpha: float = 1.0,
         **kwargs,
     ):
         super().__init__(
@@ -742,7 +748,7 @@ class PiecewiseDiscontinuousPolynomialProd(PiecewiseDiscontinuous):
             segments,
             length,
             weight_magnitude,
-            poly=LagrangePolyProd,
+            poly=partial(LagrangePolyProd, alpha=alpha),
             periodicity=periodicity,
             device=device,
             **kwargs,
@@ -763,7 +769,8 @@ def interpolate_polynomial_layer(
     """
 
     # TODO don't access "private" add a property instead
-    poly_in = layer_in._poly
+    # The function on each link, whether links are summed or multiplied afterwards
+    poly_in = Basis(layer_in._poly.n, layer_in._poly.basis)
     segments_in = layer_in._segments
     w_in = layer_in.w
 
@@ -894,7 +901,8 @@ def refine_polynomial_layer(
 
     device = layer_in.device
 
-    poly_in = layer_in._poly
+    # The function on each link, whether links are summed or multiplied afterwards
+    poly_in = Basis(layer_in._poly.n, layer_in._poly.basis)
     segments_in = layer_in._segments
     w_in = layer_in.w
 
-- 
2.43.0


From d9a38ad3ff22d93c61a377a3779b14dccbbb04ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:25 +0000
Subject: [PATCH 35/54] fix: the lazily sized layer norm registers its
 parameters up front, so they are optimized, saved and loaded

---
 high_order_layers_torch/layers.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/high_order_layers_torch/layers.py b/high_order_layers_torch/layers.py
index 2b6bd24..a0da83c 100644
--- a/high_order_layers_torch/layers.py
+++ b/high_order_layers_torch/layers.py
@@ -3,6 +3,8 @@ import math
 import torch.nn as nn
 from torch.nn import Linear
 import torch.nn.functional as F
+from torch.nn.modules.lazy import LazyModuleMixin
+from torch.nn.parameter import UninitializedParameter
 
 from .FunctionalConvolution import *
 from .FunctionalConvolutionTranspose import *
@@ -18,25 +20,34 @@ from .utils import (
 )
 
 
-class LazyLayerNormLastDim(nn.Module):
+class LazyLayerNormLastDim(LazyModuleMixin, nn.Module):
     """
     Lazily initialize the layer norm to the last dimension of the input
     variable. Assumes dimension remains constant.
     """
 
+    # Materializing the parameters is all it takes to become usable.
+    cls_to_become = None
+
     def __init__(self, bias=True):
         super().__init__()
-        self.weight = None
-        self.bias = bias
-
-    def forward(self, input):
-        if self.weight is None:
+        self.weight = UninitializedParameter()
+        if bias:
+            self.bias = UninitializedParameter()
+        else:
+            self.register_parameter("bias", None)
+
+    def initialize_parameters(self, input):
+        if self.has_uninitialized_params():
             ndim = input.shape[-1]
-            self.weight = nn.Parameter(torch.ones(ndim)).to(input.device)
-            self.bias = (
-                nn.Parameter(torch.zeros(ndim)).to(input.device) if self.bias else None
-            )
+            with torch.no_grad():
+                self.weight.materialize((ndim,), device=input.device)
+                self.weight.fill_(1.0)
+                if self.bias is not None:
+                    self.bias.materialize((ndim,), device=input.device)
+                    self.bias.zero_()
 
+    def forward(self, input):
         return F.layer_norm(input, self.weight.shape, self.weight, self.bias, 1e-5)
 
 
-- 
2.43.0


From daa9dcae7b357c0e4eaad8cda025d24f1a323ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:53 +0000
Subject: [PATCH 36/54] fix: linear initialization reaches continuous product
 layers like the other piecewise layers

---
 high_order_layers_torch/PolynomialLayers.py | 4 ++--
 high_order_layers_torch/networks.py         | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 1ad3642..be6d7b0 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -988,7 +988,7 @@ def initialize_polynomial_layer(
         max_offset : Maximum mean value or b in ax+b
     """
 
-    if not isinstance(layer_in, (PiecewisePolynomial, PiecewiseDiscontinuous)):
+    if not isinstance(layer_in, (Piecewise, PiecewiseDiscontinuous)):
         return
 
     poly_in = layer_in._poly
@@ -998,7 +998,7 @@ def initialize_polynomial_layer(
     x_in = poly_in.basis.X.reshape(-1, 1)
     n_in = poly_in.basis.n
 
-    if isinstance(layer_in, PiecewisePolynomial):
+    if isinstance(layer_in, Piecewise):
         nodes_per_segment = n_in - 1
         upper_limit = 1
     elif isinstance(layer_in, PiecewiseDiscontinuous):
diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index 153c848..3f04e77 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -18,6 +18,7 @@ from high_order_layers_torch.layers import (
     high_order_fc_layers,
 )
 from high_order_layers_torch.PolynomialLayers import (
+    Piecewise,
     PiecewiseDiscontinuous,
     PiecewiseDiscontinuousPolynomial,
     PiecewisePolynomial,
@@ -1037,7 +1038,7 @@ def initialize_network_polynomial_layers(
     ]
 
     for layer in layers:
-        if isinstance(layer, (PiecewisePolynomial, PiecewiseDiscontinuous)):
+        if isinstance(layer, (Piecewise, PiecewiseDiscontinuous)):
             inputs = layer.in_features
 
             # In the worst case all the inputs have the same slope, so we normalize by number
-- 
2.43.0


From 8b7f967e36ef5277cb67e804fa55939061399da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:02 +0000
Subject: [PATCH 37/54] fix: refining a network carries over the layers that
 are not refined instead of leaving them random

---
 high_order_layers_torch/networks.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index 3f04e77..761f527 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -1085,6 +1085,9 @@ def interpolate_high_order_mlp(
     for l_in, l_out in layer_pairs:
         if hasattr(l_in, "interpolate"):
             l_in.interpolate(l_out)
+        elif not list(l_in.children()):
+            # Not a piecewise layer (linear, normalization...), carry it over
+            l_out.load_state_dict(l_in.state_dict())
 
 
 def hp_refine_high_order_mlp(
@@ -1116,6 +1119,9 @@ def hp_refine_high_order_mlp(
     for l_in, l_out in layer_pairs:
         if hasattr(l_in, "refine"):
             l_in.refine(l_out)
+        elif not list(l_in.children()):
+            # Not a piecewise layer (linear, normalization...), carry it over
+            l_out.load_state_dict(l_in.state_dict())
 
         """
         if isinstance(l_in, PiecewisePolynomial) and isinstance(
-- 
2.43.0


From 9a5ac20c339fa30d8f227308e594cfa1b26cd038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:31 +0000
Subject: [PATCH 38/54] fix: h-refinement of a layer with mirror period shorter
 than its length locates nodes without folding them

---
 high_order_layers_torch/PolynomialLayers.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index be6d7b0..4265dda 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -270,7 +270,12 @@ class Piecewise(nn.Module):
         if self.periodicity is not None:
             x = make_periodic(x, self.periodicity)
 
-        # get the segment index
+        return self._segment_index(x)
+
+    def _segment_index(self, x: torch.Tensor) -> Tensor:
+        """
+        The segment(s) of positions that are not folded by periodicity
+        """
         id_min = (((x + self._half) / self._length) * self._segments).long()
         id_min = id_min.clamp(0, self._segments - 1)
         return id_min
@@ -929,8 +934,9 @@ def refine_polynomial_layer(
                     # compute x in the global space
                     x_global = layer_out.x_global(x_out, j)
 
-                    # figure out which segments these correspond to in the input
-                    index_in = layer_in.which_segment(x_global)
+                    # figure out which segments these correspond to in the input, the
+                    # nodes are part of the layer so periodicity does not fold them
+                    index_in = layer_in._segment_index(x_global)
 
                     # compute the local x value in the input so we can interpolate
                     x_local_in = layer_in.x_local(x_global, index_in)
-- 
2.43.0


From cce70c42229ca3e20edce8ec5b80af1248b85b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:03 +0000
Subject: [PATCH 39/54] fix: max-centre normalization stays in [-1, 1] when the
 mid-range rounds onto an end

---
 high_order_layers_torch/utils.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/high_order_layers_torch/utils.py b/high_order_layers_torch/utils.py
index b1892d2..8805d73 100644
--- a/high_order_layers_torch/utils.py
+++ b/high_order_layers_torch/utils.py
@@ -21,10 +21,10 @@ def max_center_normalization(x: Tensor, eps: float = 1e-6, dim: int = 1):
     max_x = torch.max(x, dim=dim, keepdim=True)[0]
     min_x = torch.min(x, dim=dim, keepdim=True)[0]
 
-    midrange = 0.5 * (max_x + min_x)
-    mag = max_x - midrange
+    # The mid-range itself can round onto one of the ends, so measure from the minimum
+    mag = 0.5 * (max_x - min_x)
 
-    centered = x - midrange
+    centered = (x - min_x) - mag
     return centered / (mag + eps)
 
 
@@ -32,10 +32,10 @@ def max_center_normalization_last(x: Tensor, eps: float = 1e-6):
     max_x = torch.max(x, dim=len(x.shape) - 1, keepdim=True)[0]
     min_x = torch.min(x, dim=len(x.shape) - 1, keepdim=True)[0]
 
-    midrange = 0.5 * (max_x + min_x)
-    mag = max_x - midrange
+    # The mid-range itself can round onto one of the ends, so measure from the minimum
+    mag = 0.5 * (max_x - min_x)
 
-    centered = x - midrange
+    centered = (x - min_x) - mag
     return centered / (mag + eps)
 
 
@@ -46,10 +46,10 @@ def max_center_normalization_nd(x: Tensor, eps: float = 1e-6):
     max_x = torch.max(xn, dim=1, keepdim=True)[0]
     min_x = torch.min(xn, dim=1, keepdim=True)[0]
 
-    midrange = 0.5 * (max_x + min_x)
-    mag = max_x - midrange
+    # The mid-range itself can round onto one of the ends, so measure from the minimum
+    mag = 0.5 * (max_x - min_x)
 
-    centered = xn - midrange
+    centered = (xn - min_x) - mag
     norm = centered / (mag + eps)
     return norm.reshape(shape)
 
-- 
2.43.0


From 20ddc6b1c0755cfb7c14774eb5471389ab5255e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:58 +0000
Subject: [PATCH 40/54] fix: unknown model_type is reported by name instead of
 failing on a missing cfg.model_type

---
 high_order_layers_torch/modules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/modules.py b/high_order_layers_torch/modules.py
index 7a31122..75d51ad 100644
--- a/high_order_layers_torch/modules.py
+++ b/high_order_layers_torch/modules.py
@@ -184,7 +184,7 @@ def select_network(cfg: DictConfig, device: str = None):
 
     else:
         raise ValueError(
-            f"Unrecognized model_type {cfg.model_type} should be high_order, high_order_input or high_order_conv!"
+            f"Unrecognized model_type {cfg.net.model_type} should be high_order, high_order_input or high_order_conv!"
         )
 
     return model
-- 
2.43.0


From 6ba11cd589a24819bd61773f8ee9c6b050cb63e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:58 +0000
Subject: [PATCH 41/54] fix: PiecewiseND rejects n for another number of
 dimensions than requested

---
 high_order_layers_torch/PolynomialLayers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 4265dda..0dab81c 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -389,6 +389,11 @@ class PiecewiseND(torch.nn.Module):
             [segments] * self.dimensions if isinstance(segments, int) else segments
         )
 
+        if len(self.n) != self.dimensions:
+            raise ValueError(
+                f"PiecewiseND has {self.dimensions} dimensions but n is given for {len(self.n)}"
+            )
+
         if len(self.n) != len(self.segments):
             raise ValueError(
                 f"Dimensions of n and segments must match, got {len(self.n)} and {len(self.segments)}"
-- 
2.43.0


From a1b10e05ce49189a811713be20917fdf295a9e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:43 +0000
Subject: [PATCH 42/54] fix: inputs beyond the integer range are in the last
 segment instead of wrapping to the first

---
 high_order_layers_torch/Basis.py            | 10 +++++++---
 high_order_layers_torch/PolynomialLayers.py |  7 ++++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index 7e709bd..d211ba4 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -73,7 +73,8 @@ class PiecewiseExpand:
             Tensor of shape [variables, batch, channels, x, y]
         """
         # get the segment index
-        id_min = (((x + self._half) / self._length) * self._segments).long()
+        id_min = (((x + self._half) / self._length) * self._segments)
+        id_min = id_min.clamp(max=self._segments - 1).long()
         device = x.device
         id_min = torch.where(
             id_min <= self._segments - 1,
@@ -163,7 +164,8 @@ class PiecewiseExpand1d:
             Tensor of shape [variables, batch, channels, x]
         """
         # get the segment index
-        id_min = (((x + self._half) / self._length) * self._segments).long()
+        id_min = (((x + self._half) / self._length) * self._segments)
+        id_min = id_min.clamp(max=self._segments - 1).long()
         device = x.device
         id_min = torch.where(
             id_min <= self._segments - 1,
@@ -250,6 +252,7 @@ class PiecewiseDiscontinuousExpand:
         # get the segment index
         id_min = (
             (((x + self._half) / self._length) * self._segments)
+            .clamp(max=self._segments - 1)
             .long()
             .clamp(0, self._segments - 1)
         )
@@ -330,7 +333,8 @@ class PiecewiseDiscontinuousExpand1d:
             Tensor of shape [variables, batch, channels, x, y]
         """
         # get the segment index
-        id_min = (((x + self._half) / self._length) * self._segments).long()
+        id_min = (((x + self._half) / self._length) * self._segments)
+        id_min = id_min.clamp(max=self._segments - 1).long()
         device = x.device
         id_min = torch.where(
             id_min <= self._segments - 1,
diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 0dab81c..f786943 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -276,7 +276,8 @@ class Piecewise(nn.Module):
         """
         The segment(s) of positions that are not folded by periodicity
         """
-        id_min = (((x + self._half) / self._length) * self._segments).long()
+        id_min = (((x + self._half) / self._length) * self._segments)
+        id_min = id_min.clamp(max=self._segments - 1).long()
         id_min = id_min.clamp(0, self._segments - 1)
         return id_min
 
@@ -304,6 +305,7 @@ class Piecewise(nn.Module):
         # get the segment index
         id_min = (
             (((x + self._half) / self._length) * self._segments)
+            .clamp(max=self._segments - 1)
             .long()
             .clamp(0, self._segments - 1)
         )
@@ -449,6 +451,7 @@ class PiecewiseND(torch.nn.Module):
                 / self._length
                 * torch.tensor(self.segments, device=self.device)
             )
+            .clamp(max=torch.tensor(self.segments, device=self.device) - 1)
             .long()
             .clamp(
                 torch.tensor(0, device=self.device),
@@ -638,6 +641,7 @@ class PiecewiseDiscontinuous(nn.Module):
 
         id_min = (
             (((x + self._half) / self._length) * self._segments)
+            .clamp(max=self._segments - 1)
             .long()
             .clamp(0, self._segments - 1)
         )
@@ -649,6 +653,7 @@ class PiecewiseDiscontinuous(nn.Module):
 
         id_min = (
             (((x + self._half) / self._length) * self._segments)
+            .clamp(max=self._segments - 1)
             .long()
             .clamp(0, self._segments - 1)
         )
-- 
2.43.0


From 32a07c3017d956a6efc02c74c87cdfb40abafafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:09 +0000
Subject: [PATCH 43/54] fix: SumLayer sums any number of layers, not only two

---
 high_order_layers_torch/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/layers.py b/high_order_layers_torch/layers.py
index a0da83c..1d37d0c 100644
--- a/high_order_layers_torch/layers.py
+++ b/high_order_layers_torch/layers.py
@@ -176,7 +176,7 @@ class SumLayer(nn.Module):
 
     def forward(self, x):
         x_all = [layer(x) for layer in self._layer_list]
-        return torch.add(*x_all)
+        return sum(x_all[1:], x_all[0])
 
 
 class SwitchLayer(Module):
-- 
2.43.0


From cca06450ff86d3d4f5866ef9e6d29978d3348c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:25 +0000
Subject: [PATCH 44/54] fix: switch layers multiply out of place, so that
 sub-layers ending in relu can be trained

---
 high_order_layers_torch/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/layers.py b/high_order_layers_torch/layers.py
index 1d37d0c..9bc0345 100644
--- a/high_order_layers_torch/layers.py
+++ b/high_order_layers_torch/layers.py
@@ -234,7 +234,7 @@ class SwitchLayer(Module):
 
         final = outputs[0]
         for i in range(1, len(outputs)):
-            final *= outputs[i]
+            final = final * outputs[i]
 
         if self._normalization is not None:
             final = self._normalization(final)
-- 
2.43.0


From 89f3b6d985655842839a96f1670be9f7f6817a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:25 +0000
Subject: [PATCH 45/54] fix: TailFocusNetwork.compute_sizes accounts for levels
 that are narrower than their focus

---
 high_order_layers_torch/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index 761f527..26160e0 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -765,7 +765,7 @@ class HighOrderTailFocusNetwork(nn.Module):
             widths.append(nw)
 
         output_sizes = [
-            self.channels[i] * focus
+            self.channels[i] * min(focus, widths[i])
             for i, focus in enumerate(self.focus + [widths[-1]])
         ]
 
-- 
2.43.0


From f844504f54423b58d342ea0b8cf630881762ce0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:44 +0000
Subject: [PATCH 46/54] fix: sinusoidal embedding of a single position adds
 only the embedding dimension

---
 high_order_layers_torch/positional_embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/positional_embeddings.py b/high_order_layers_torch/positional_embeddings.py
index cfe1bc3..8d8b2b0 100644
--- a/high_order_layers_torch/positional_embeddings.py
+++ b/high_order_layers_torch/positional_embeddings.py
@@ -27,7 +27,7 @@ class ClassicSinusoidalEmbedding(nn.Module):
         half_dim = self.dim // 2
         emb = math.log(10000) / max(half_dim - 1, 1)
         emb = torch.exp(torch.arange(half_dim) * -emb)
-        emb = x.unsqueeze(-1) * emb.unsqueeze(0)
+        emb = x.unsqueeze(-1) * emb
         emb = torch.cat((emb.sin(), emb.cos()), dim=-1)
         return emb
 
-- 
2.43.0


From 1890d3fdcfa8ffacb23829357cb68700c5fc68ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:58 +0000
Subject: [PATCH 47/54] fix: a tail focus of zero takes no position of its
 level

---
 high_order_layers_torch/networks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index 26160e0..06bcb50 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -772,12 +772,12 @@ class HighOrderTailFocusNetwork(nn.Module):
         return widths, output_sizes
 
     def forward(self, x: Tensor) -> Tensor:
-        early = [x[:, :, -self.focus[0] :].flatten(1)]
+        early = [x[:, :, max(x.shape[2] - self.focus[0], 0) :].flatten(1)]
         count = 1
         for name in self.layer_list:
             x = self.layer_dict[name](x)  # Assuming it only does this move once!
             if name.startswith(self._tail_prefix) and count < len(self.focus):
-                tail = x[:, :, -self.focus[count] :].flatten(1)
+                tail = x[:, :, max(x.shape[2] - self.focus[count], 0) :].flatten(1)
                 early.append(tail)
                 count += 1
 
-- 
2.43.0


From 1c36a40d82a899c080a30f21877d23e967f772e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:58 +0000
Subject: [PATCH 48/54] fix: p refinement of layers in double precision

---
 high_order_layers_torch/PolynomialLayers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index f786943..648f9c9 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -799,7 +799,7 @@ def interpolate_polynomial_layer(
         )
 
     x_in = poly_in.basis.X.reshape(-1, 1)
-    x_out = poly_out.basis.X.reshape(-1, 1)
+    x_out = poly_out.basis.X.reshape(-1, 1).to(w_in.dtype)
 
     n_in = poly_in.basis.n
     n_out = poly_out.basis.n
-- 
2.43.0


From 7318e2b85d39df7eb144a9590e981259b0671606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:58 +0000
Subject: [PATCH 49/54] fix: h refinement of layers in double precision

---
 high_order_layers_torch/PolynomialLayers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 648f9c9..2635e85 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -926,7 +926,7 @@ def refine_polynomial_layer(
     w_out = layer_out.w
 
     x_in = poly_in.basis.X.reshape(-1, 1).to(device)
-    x_out = poly_out.basis.X.reshape(-1, 1).to(device)
+    x_out = poly_out.basis.X.reshape(-1, 1).to(device, w_in.dtype)
 
     n_in = poly_in.basis.n
     n_out = poly_out.basis.n
@@ -953,7 +953,7 @@ def refine_polynomial_layer(
 
                     # Since the segments may not be aligned, modify the weights one by one
                     for index, i in enumerate(index_in):
-                        x = torch.tensor([[x_local_in[index, 0]]], device=device)
+                        x = x_local_in[index].reshape(1, 1)
                         w = (
                             w_in[
                                 inputs,
-- 
2.43.0


From 06dece0038efbba2a088de41fe25454457b6ed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:00 +0000
Subject: [PATCH 50/54] fix: N-dimensional normalizations of an empty batch

---
 high_order_layers_torch/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/utils.py b/high_order_layers_torch/utils.py
index 8805d73..dda9659 100644
--- a/high_order_layers_torch/utils.py
+++ b/high_order_layers_torch/utils.py
@@ -41,7 +41,7 @@ def max_center_normalization_last(x: Tensor, eps: float = 1e-6):
 
 def max_center_normalization_nd(x: Tensor, eps: float = 1e-6):
     shape = x.shape
-    xn = x.reshape(shape[0], -1)
+    xn = x.reshape(shape[0], shape[1:].numel())
 
     max_x = torch.max(xn, dim=1, keepdim=True)[0]
     min_x = torch.min(xn, dim=1, keepdim=True)[0]
@@ -60,7 +60,7 @@ def l2_normalization(x: Tensor, eps: float = 1e-6):
 
 def max_abs_normalization_nd(x: Tensor, eps: float = 1e-6):
     shape = x.shape
-    xn = x.reshape(shape[0], -1)
+    xn = x.reshape(shape[0], shape[1:].numel())
     norm = xn / (max_abs(xn) + eps)
     return norm.reshape(shape)
 
-- 
2.43.0


From d382afd44a083de344be0589b0b336e1962e264c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:00 +0000
Subject: [PATCH 51/54] fix: sampling from a VAE in double precision

---
 high_order_layers_torch/networks.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index 06bcb50..0ab58ad 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -912,7 +912,12 @@ class VanillaVAE(LightningModule):
         Returns :
             (Tensor)
         """
-        z = torch.randn(num_samples, self.latent_dim, device=self.device)
+        z = torch.randn(
+            num_samples,
+            self.latent_dim,
+            device=self.device,
+            dtype=self.decoder_input.weight.dtype,
+        )
 
         samples = self.decode(z)
         return samples
-- 
2.43.0


From 4efa62f46dd3100ded1ccaff448e6c8044b7a2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:05 +0000
Subject: [PATCH 52/54] fix: piecewise expansions of mixed precision inputs

---
 high_order_layers_torch/Basis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index d211ba4..6081739 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -104,7 +104,7 @@ class PiecewiseExpand:
             x.shape[3],
             self._variables,
             device=device,
-            dtype=x.dtype,
+            dtype=out.dtype,
         )
 
         wid_min_flat = wid_min.reshape(-1)
@@ -194,7 +194,7 @@ class PiecewiseExpand1d:
             x.shape[2],
             self._variables,
             device=device,
-            dtype=x.dtype,
+            dtype=out.dtype,
         )
 
         wid_min_flat = wid_min.reshape(-1)
@@ -277,7 +277,7 @@ class PiecewiseDiscontinuousExpand:
             x.shape[3],
             self._variables,
             device=x.device,
-            dtype=x.dtype,
+            dtype=out.dtype,
         )
 
         wid_min_flat = wid_min.reshape(-1)
@@ -363,7 +363,7 @@ class PiecewiseDiscontinuousExpand1d:
             x.shape[2],
             self._variables,
             device=device,
-            dtype=x.dtype,
+            dtype=out.dtype,
         )
 
         wid_min_flat = wid_min.reshape(-1)
-- 
2.43.0


From 90e92b4997bb7cbe37b1994ac0096917d22620c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:59 +0000
Subject: [PATCH 53/54] fix: N-dimensional normalizations can be scripted again

---
 high_order_layers_torch/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/utils.py b/high_order_layers_torch/utils.py
index dda9659..a4d0030 100644
--- a/high_order_layers_torch/utils.py
+++ b/high_order_layers_torch/utils.py
@@ -41,7 +41,7 @@ def max_center_normalization_last(x: Tensor, eps: float = 1e-6):
 
 def max_center_normalization_nd(x: Tensor, eps: float = 1e-6):
     shape = x.shape
-    xn = x.reshape(shape[0], shape[1:].numel())
+    xn = x.unsqueeze(-1).flatten(1)
 
     max_x = torch.max(xn, dim=1, keepdim=True)[0]
     min_x = torch.min(xn, dim=1, keepdim=True)[0]
@@ -60,7 +60,7 @@ def l2_normalization(x: Tensor, eps: float = 1e-6):
 
 def max_abs_normalization_nd(x: Tensor, eps: float = 1e-6):
     shape = x.shape
-    xn = x.reshape(shape[0], shape[1:].numel())
+    xn = x.unsqueeze(-1).flatten(1)
     norm = xn / (max_abs(xn) + eps)
     return norm.reshape(shape)
 
-- 
2.43.0


From 2991cd59de50b85ad21be42e006b056b93aa7bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:53 +0000
Subject: [PATCH 54/54] fix: smoothed location-aware attention of very low
 scores

---
 high_order_layers_torch/attentions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index 6044fce..b26ffba 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -154,8 +154,8 @@ class LocationAwareAttention(nn.Module):
         ).squeeze(dim=-1)
 
         if self.smoothing:
-            score = torch.sigmoid(score)
-            attn = torch.div(score, score.sum(dim=-1).unsqueeze(dim=-1))
+            # Normalized sigmoids, without underflow when all of them are tiny
+            attn = F.softmax(F.logsigmoid(score), dim=-1)
         else:
             attn = F.softmax(score, dim=-1)
 
-- 
2.43.0

