From c209141eaf579a6b072e386206c9163e43b7b5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 001/108] fix: leave recorder and delivery scopes in reverse
 order of entering

Members of a manager that intercept the same function capture each other's
wrapper. Leaving them in entering order put a wrapper back instead of the
original function.
---
 mmrazor/models/task_modules/delivery/delivery_manager.py | 4 +++-
 mmrazor/models/task_modules/recorder/recorder_manager.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/task_modules/delivery/delivery_manager.py b/mmrazor/models/task_modules/delivery/delivery_manager.py
index 592d891..4fab65b 100644
--- a/mmrazor/models/task_modules/delivery/delivery_manager.py
+++ b/mmrazor/models/task_modules/delivery/delivery_manager.py
@@ -109,5 +109,7 @@ class DistillDeliveryManager:
 
     def __exit__(self, exc_type, exc_value, traceback) -> None:
         """Exit the context manager."""
-        for delivery in self.deliveries.values():
+        # Exit in the reverse order of entering, so that deliveries sharing the
+        # same target restore the real original object at last.
+        for delivery in reversed(list(self.deliveries.values())):
             delivery.__exit__(exc_type, exc_value, traceback)
diff --git a/mmrazor/models/task_modules/recorder/recorder_manager.py b/mmrazor/models/task_modules/recorder/recorder_manager.py
index 30fbbb3..c54412f 100644
--- a/mmrazor/models/task_modules/recorder/recorder_manager.py
+++ b/mmrazor/models/task_modules/recorder/recorder_manager.py
@@ -112,5 +112,7 @@ class RecorderManager:
 
     def __exit__(self, exc_type, exc_value, traceback):
         """Exit the context manager."""
-        for recorder in self.recorders.values():
+        # Exit in the reverse order of entering, so that recorders sharing the
+        # same source restore the real original object at last.
+        for recorder in reversed(list(self.recorders.values())):
             recorder.__exit__(exc_type, exc_value, traceback)
-- 
2.43.0


From 200ba9ac55127325b8924633cb9f154faf3ab120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 002/108] fix: intercept the current method when a method scope
 is entered

Method recorders and deliveries wrapped the method seen at construction, so
a second one on the same method silently disabled the first.
---
 .../models/task_modules/delivery/method_outputs_delivery.py    | 3 +++
 .../models/task_modules/recorder/method_outputs_recorder.py    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mmrazor/models/task_modules/delivery/method_outputs_delivery.py b/mmrazor/models/task_modules/delivery/method_outputs_delivery.py
index fa9f6c4..a008e4e 100644
--- a/mmrazor/models/task_modules/delivery/method_outputs_delivery.py
+++ b/mmrazor/models/task_modules/delivery/method_outputs_delivery.py
@@ -125,6 +125,9 @@ class MethodOutputsDelivery(DistillDelivery):
 
         Wrap the origin method.
         """
+        # The method may have been wrapped by another recorder or delivery
+        # since this delivery was built.
+        self.origin_method = getattr(self.imported_cls, self.method_name)
         wrapped_method = self.deliver_wrapper(self.origin_method)
         setattr(self.imported_cls, self.method_name, wrapped_method)
 
diff --git a/mmrazor/models/task_modules/recorder/method_outputs_recorder.py b/mmrazor/models/task_modules/recorder/method_outputs_recorder.py
index 6d3fb65..761020b 100644
--- a/mmrazor/models/task_modules/recorder/method_outputs_recorder.py
+++ b/mmrazor/models/task_modules/recorder/method_outputs_recorder.py
@@ -148,6 +148,9 @@ class MethodOutputsRecorder(BaseRecorder):
         super().__enter__()
 
         imported_cls = self.imported_class
+        # The method may have been wrapped by another recorder or delivery
+        # since this recorder was built.
+        self.origin_method = getattr(imported_cls, self.method_name)
         origin_method = self.origin_method
         # add record wrapper to origin method.
         record_method = self.method_record_wrapper(origin_method,
-- 
2.43.0


From cf7a426357fdaf0cacdc485e09f5ca635a2e7944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:06 +0000
Subject: [PATCH 003/108] fix: strip the subnet prefix as a prefix, not as a
 character set

---
 mmrazor/structures/subnet/fix_subnet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/structures/subnet/fix_subnet.py b/mmrazor/structures/subnet/fix_subnet.py
index 56b33be..6a6246d 100644
--- a/mmrazor/structures/subnet/fix_subnet.py
+++ b/mmrazor/structures/subnet/fix_subnet.py
@@ -78,7 +78,8 @@ def _load_fix_subnet_by_mutable(model: nn.Module,
             chosen = subnet_dict.get(alias, None)
         else:
             if prefix:
-                mutable_name = name.lstrip(prefix)
+                mutable_name = name[len(prefix):] if name.startswith(
+                    prefix) else name
             elif extra_prefix:
                 mutable_name = extra_prefix + name
             else:
-- 
2.43.0


From 81160f9bb03ad280f2eeb069e65b622692ae3563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:06 +0000
Subject: [PATCH 004/108] fix: convert dynamic operators held by a converted
 container

---
 mmrazor/structures/subnet/fix_subnet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/structures/subnet/fix_subnet.py b/mmrazor/structures/subnet/fix_subnet.py
index 6a6246d..25db2b9 100644
--- a/mmrazor/structures/subnet/fix_subnet.py
+++ b/mmrazor/structures/subnet/fix_subnet.py
@@ -17,7 +17,8 @@ def _dynamic_to_static(model: nn.Module) -> None:
     def traverse_children(module: nn.Module) -> None:
         for name, mutable in module.items():
             if isinstance(mutable, DynamicMixin):
-                module[name] = mutable.to_static_op()
+                mutable = mutable.to_static_op()
+                module[name] = mutable
             if hasattr(mutable, '_modules'):
                 traverse_children(mutable._modules)
 
-- 
2.43.0


From 8ae3f68f8d4dcca78e5aad28ca67b7d7d3eed052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 005/108] fix: accept kernel_size as a mutable attribute of
 OFAConv2d

---
 mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py
index 4604ccb..45b01c4 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py
@@ -141,7 +141,7 @@ class OFAConv2d(nn.Conv2d, OFAConvMixin):
             ``accepted_mutable_attrs``.
     """
     mutable_attrs: nn.ModuleDict
-    accepted_mutable_attrs = {'in_channels', 'out_channels'}
+    accepted_mutable_attrs = {'in_channels', 'out_channels', 'kernel_size'}
 
     def __init__(self, *args, **kwargs) -> None:
         super().__init__(*args, **kwargs)
-- 
2.43.0


From c10ab8e9f5e3671542813b9c780803eb1634d61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 006/108] fix: refuse padding modes FuseConv2d does not
 implement

---
 mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py
index 45b01c4..39ecaab 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py
@@ -197,6 +197,7 @@ class FuseConv2d(nn.Conv2d, FuseConvMixin):
 
     def __init__(self, *args, **kwargs) -> None:
         super().__init__(*args, **kwargs)
+        assert self.padding_mode == 'zeros'
         self.mutable_attrs: Dict[str, BaseMutable] = nn.ModuleDict()
 
     @classmethod
-- 
2.43.0


From 8c6331fb0c48366ab9754fb09effa88ddd9dccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 007/108] fix: refuse to export an unfixed
 SwitchableBatchNorm2d

---
 mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
index eb5dd3b..0b434b8 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
@@ -175,6 +175,7 @@ class SwitchableBatchNorm2d(DynamicBatchNorm2d):
 
     def to_static_op(self: _BatchNorm) -> nn.Module:
         """Convert to a normal BatchNorm."""
+        self.check_if_mutables_fixed()
         choice_num = self.activated_channel_num()
         if choice_num == self.num_features:
             return super().to_static_op()
-- 
2.43.0


From 8b27a1622323ee0da8c308b6e562a26c1e2aebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 008/108] fix: keep the process group of a sliced sync batch
 norm

---
 .../models/architectures/dynamic_ops/bricks/dynamic_norm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
index 0b434b8..0556a46 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
@@ -285,6 +285,12 @@ class DynamicSyncBatchNorm(nn.SyncBatchNorm, DynamicBatchNormMixin):
     def static_op_factory(self):
         return nn.SyncBatchNorm
 
+    def to_static_op(self) -> nn.Module:
+        """Convert to a normal SyncBatchNorm."""
+        static_bn = super().to_static_op()
+        static_bn.process_group = self.process_group
+        return static_bn
+
     def forward(self, input: Tensor) -> Tensor:
         # currently only GPU input is supported
         if not input.is_cuda:
-- 
2.43.0


From 8fd7fd89b450837efe91617b0d7de081018e6de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 009/108] fix: keep the full size of a dynamic layer norm in
 forward

---
 .../architectures/dynamic_ops/bricks/dynamic_norm.py       | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
index 0556a46..53f4985 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
@@ -248,11 +248,10 @@ class DynamicLayerNorm(LayerNorm, DynamicLayerNormMixin):
         self._check_input_dim(input)
 
         weight, bias = self.get_dynamic_params()
-        self.normalized_shape = (
-            self.mutable_num_features.activated_channels, )
+        normalized_shape = self.normalized_shape if weight is None else tuple(
+            weight.shape)
 
-        return F.layer_norm(input, self.normalized_shape, weight, bias,
-                            self.eps)
+        return F.layer_norm(input, normalized_shape, weight, bias, self.eps)
 
     def _check_input_dim(self, input: Tensor) -> None:
         """Check if input dimension is valid."""
-- 
2.43.0


From 22b75f57d4b6a503f49f2d747aaf208c63d478e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 010/108] fix: keep max_relative_position in a static relative
 position

---
 .../dynamic_ops/bricks/dynamic_relative_position.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
index 572880a..10cdf7c 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
@@ -82,7 +82,8 @@ class DynamicRelativePosition2D(RelativePosition2D, DynamicChannelMixin):
 
         self.current_head_dim = self.mutable_head_dims.activated_channels
         static_relative_position = self.static_op_factory(
-            self.current_head_dim)
+            self.current_head_dim,
+            max_relative_position=self.max_relative_position)
         static_relative_position.embeddings_table_v = \
             nn.Parameter(
                 self.embeddings_table_v[:, :self.current_head_dim].clone())
-- 
2.43.0


From 927cecfd99567bd91593190ca9cb40e067f3ab9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 011/108] fix: do not use a type as the default size of the
 dynamic resizer

---
 .../models/architectures/dynamic_ops/bricks/dynamic_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_function.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_function.py
index 6e5761e..5bb0803 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_function.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_function.py
@@ -32,7 +32,7 @@ class DynamicInputResizer(InputResizer, DynamicResizeMixin):
 
     def forward(self,
                 x: torch.Tensor,
-                size=Optional[Tuple[int, int]]) -> torch.Tensor:
+                size: Optional[Tuple[int, int]] = None) -> torch.Tensor:
         self._size = self.get_dynamic_shape()
 
         if not self._size:
-- 
2.43.0


From 672bf8ef93b327cf0aa66136202d9cb3e54c032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 012/108] fix: keep the projection settings and norm of a
 dynamic patch embedding

---
 .../dynamic_ops/bricks/dynamic_embed.py       | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py
index f255d24..e997eb5 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py
@@ -106,11 +106,14 @@ class DynamicPatchEmbed(PatchEmbed, DynamicChannelMixin):
         weight, bias = self._get_dynamic_params()
         static_patch_embed = self.static_op_factory(
             img_size=self.img_size,
-            in_channels=3,
-            embed_dims=self.mutable_embed_dims.activated_channels)
+            in_channels=self.projection.in_channels,
+            embed_dims=self.mutable_embed_dims.activated_channels,
+            conv_cfg=self._projection_cfg(self.projection))
 
         static_patch_embed.projection.weight = nn.Parameter(weight.clone())
-        static_patch_embed.projection.bias = nn.Parameter(bias.clone())
+        if bias is not None:
+            static_patch_embed.projection.bias = nn.Parameter(bias.clone())
+        static_patch_embed.norm = self.norm
 
         return static_patch_embed
 
@@ -119,16 +122,26 @@ class DynamicPatchEmbed(PatchEmbed, DynamicChannelMixin):
         """Corresponding Pytorch OP."""
         return PatchEmbed
 
+    @staticmethod
+    def _projection_cfg(projection: nn.Conv2d) -> Dict:
+        """Config of a projection convolution."""
+        return dict(
+            kernel_size=projection.kernel_size,
+            stride=projection.stride,
+            padding=projection.padding,
+            dilation=projection.dilation,
+            bias=projection.bias is not None)
+
     @classmethod
     def convert_from(cls, module) -> nn.Module:
         """Convert a PatchEmbed to a DynamicPatchEmbed."""
 
         dynamic_patch_embed = cls(
             img_size=module.img_size,
-            in_channels=3,
+            in_channels=module.projection.in_channels,
             embed_dims=module.embed_dims,
             norm_cfg=None,
-            conv_cfg=None,
+            conv_cfg=cls._projection_cfg(module.projection),
             init_cfg=None)
 
         # TODO mutable_attr should be inherited from its `__base__` class
@@ -144,7 +157,7 @@ class DynamicPatchEmbed(PatchEmbed, DynamicChannelMixin):
             x,
             weight,
             bias,
-            stride=16,
+            stride=self.projection.stride,
             padding=self.projection.padding,
             dilation=self.projection.dilation).flatten(2).transpose(1, 2)
 
-- 
2.43.0


From 5a6974a199e0d33da9096ff8a48ef9231b2ffd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 013/108] fix: keep bias, scale and dropout settings of dynamic
 attention

---
 .../bricks/dynamic_multi_head_attention.py    | 35 +++++++++++++++----
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
index 8dcd6de..78ea10d 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
@@ -201,20 +201,31 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
             embed_dims=embed_dims,
             num_heads=num_heads,
             input_dims=None,
+            attn_drop_rate=self.attn_drop.p,
+            proj_drop_rate=self.proj_drop.p,
+            out_drop_rate=self.out_drop.p,
             relative_position=self.relative_position,
-            max_relative_position=self.max_relative_position)
+            max_relative_position=self.max_relative_position,
+            qkv_bias=q_b is not None,
+            qk_scale=self.scale,
+            proj_bias=proj_b is not None,
+            v_shortcut=self.v_shortcut)
 
         static_mha.w_qs.weight = nn.Parameter(q_w.clone())
-        static_mha.w_qs.bias = nn.Parameter(q_b.clone())
+        if q_b is not None:
+            static_mha.w_qs.bias = nn.Parameter(q_b.clone())
 
         static_mha.w_ks.weight = nn.Parameter(k_w.clone())
-        static_mha.w_ks.bias = nn.Parameter(k_b.clone())
+        if k_b is not None:
+            static_mha.w_ks.bias = nn.Parameter(k_b.clone())
 
         static_mha.w_vs.weight = nn.Parameter(v_w.clone())
-        static_mha.w_vs.bias = nn.Parameter(v_b.clone())
+        if v_b is not None:
+            static_mha.w_vs.bias = nn.Parameter(v_b.clone())
 
         static_mha.proj.weight = nn.Parameter(proj_w.clone())
-        static_mha.proj.bias = nn.Parameter(proj_b.clone())
+        if proj_b is not None:
+            static_mha.proj.bias = nn.Parameter(proj_b.clone())
 
         if self.relative_position:
             static_mha.rel_pos_embed_k = self.rel_pos_embed_k.to_static_op()
@@ -228,6 +239,16 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         dynamic_mha = cls(
             embed_dims=module.embed_dims,
             num_heads=module.num_heads,
+            input_dims=module.input_dims,
+            attn_drop_rate=module.attn_drop.p,
+            proj_drop_rate=module.proj_drop.p,
+            out_drop_rate=module.out_drop.p,
+            relative_position=module.relative_position,
+            max_relative_position=module.max_relative_position,
+            qkv_bias=module.w_qs.bias is not None,
+            qk_scale=module.scale,
+            proj_bias=module.proj.bias is not None,
+            v_shortcut=module.v_shortcut,
         )
         return dynamic_mha
 
@@ -275,5 +296,7 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         # proj
         weight, bias = self._get_dynamic_proj_params(self.proj)
         x = F.linear(x, weight, bias)
-        x = self.proj_drop(x)
+        x = self.out_drop(self.proj_drop(x))
+        if self.v_shortcut:
+            x = v.squeeze(1) + x
         return x
-- 
2.43.0


From d4ea704fec49b2b0d4337df72e247028a07dfc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:16 +0000
Subject: [PATCH 014/108] fix: do not share default candidates between one-shot
 mutable channels

---
 .../mutables/mutable_channel/oneshot_mutable_channel.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
index 3265b79..533bf75 100644
--- a/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
@@ -23,10 +23,10 @@ class OneShotMutableChannel(SquentialMutableChannel):
                  choice_mode='number',
                  **kwargs):
         super().__init__(num_channels, choice_mode, **kwargs)
-        candidate_choices.sort()
-        self.candidate_choices = candidate_choices
+        candidate_choices = sorted(candidate_choices)
         if candidate_choices == []:
             candidate_choices.append(num_channels if self.is_num_mode else 1.0)
+        self.candidate_choices = candidate_choices
 
     @property
     def current_choice(self) -> Union[int, float]:
-- 
2.43.0


From 28d4d77d1dcf715af095f2744c6ee2042f8f2a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:16 +0000
Subject: [PATCH 015/108] fix: let a one-shot mutable channel load the choice
 it dumps

---
 .../mutables/mutable_channel/oneshot_mutable_channel.py  | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
index 533bf75..c57a5b9 100644
--- a/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
@@ -36,7 +36,14 @@ class OneShotMutableChannel(SquentialMutableChannel):
     @current_choice.setter
     def current_choice(self, choice: Union[int, float]):
         """Set current choice."""
-        assert choice in self.candidate_choices
+        if isinstance(choice, int) and not self.is_num_mode:
+            # the dumped form of a choice is a number of channels
+            legal_choices = [
+                self._ratio2num(c) for c in self.candidate_choices
+            ]
+        else:
+            legal_choices = self.candidate_choices
+        assert choice in legal_choices
         SquentialMutableChannel.current_choice.fset(  # type: ignore
             self,  # type: ignore
             choice)  # type: ignore
-- 
2.43.0


From 77dc2bc3cfae5a8d0c0983b8c569e9888ee049ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:16 +0000
Subject: [PATCH 016/108] fix: do not change the choice of a fixed mutable
 channel

---
 .../models/mutables/mutable_channel/base_mutable_channel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/base_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/base_mutable_channel.py
index 65d5a44..a3b2f4e 100644
--- a/mmrazor/models/mutables/mutable_channel/base_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/base_mutable_channel.py
@@ -50,14 +50,14 @@ class BaseMutableChannel(BaseMutable, DerivedMethodMixin):
 
     def fix_chosen(self, chosen=None):
         """Fix the mutable  with chosen."""
-        if chosen is not None:
-            self.current_choice = chosen
-
         if self.is_fixed:
             raise AttributeError(
                 'The mode of current MUTABLE is `fixed`. '
                 'Please do not call `fix_chosen` function again.')
 
+        if chosen is not None:
+            self.current_choice = chosen
+
         self.is_fixed = True
 
     def dump_chosen(self) -> DumpChosen:
-- 
2.43.0


From 1dc975f32c1d7164553ae9ccaebba01cc92ccdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:37 +0000
Subject: [PATCH 017/108] fix: a refused second fixing must not change a fixed
 choice route

---
 mmrazor/models/mutables/mutable_module/diff_mutable_module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
index e524ec6..c86301b 100644
--- a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
@@ -496,13 +496,13 @@ class DiffChoiceRoute(DiffMutableModule):
         Args:
             chosen (list(str)): the chosen key in ``MUTABLE``.
         """
-        self._unfixed_choices = self.choices
-
         if self.is_fixed:
             raise AttributeError(
                 'The mode of current MUTABLE is `fixed`. '
                 'Please do not call `fix_chosen` function again.')
 
+        self._unfixed_choices = self.choices
+
         for c in self.choices:
             if c not in chosen:
                 self._candidates.pop(c)
-- 
2.43.0


From 396789233237e0d73f7f38b4909ddcee97e77324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:37 +0000
Subject: [PATCH 018/108] fix: fix a one-hot operator to its most probable
 candidate

---
 .../models/mutables/mutable_module/diff_mutable_module.py  | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
index c86301b..04d5bbb 100644
--- a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
@@ -312,10 +312,9 @@ class OneHotMutableOP(DiffMutableOP):
         if not self.is_fixed:
             self.arch_weights = self.sample_weights(arch_param, probs)
             sorted_param = torch.topk(probs, 2)
-            index = (
-                sorted_param[0][0] - sorted_param[0][1] >= self.fix_threshold)
-            if index:
-                self.fix_chosen(self.choices[index])
+            if (sorted_param[0][0] - sorted_param[0][1] >=
+                    self.fix_threshold):
+                self.fix_chosen(self.choices[sorted_param[1][0]])
 
         if self.is_fixed:
             index = self.choices.index(self._chosen[0])
-- 
2.43.0


From fb4173fd47d952fb487f15f227b679594901df0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:37 +0000
Subject: [PATCH 019/108] fix: refuse to fix an operator to something that is
 no candidate

---
 .../models/mutables/mutable_module/diff_mutable_module.py   | 6 ++++++
 .../mutables/mutable_module/one_shot_mutable_module.py      | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
index 04d5bbb..308150f 100644
--- a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
@@ -221,6 +221,9 @@ class DiffMutableOP(DiffMutableModule):
         if isinstance(chosen, str):
             chosen = [chosen]
 
+        assert set(chosen).issubset(self.choices), \
+            f'Expected choices in: {self.choices}, but got: {chosen}'
+
         for c in self.choices:
             if c not in chosen:
                 self._candidates.pop(c)
@@ -502,6 +505,9 @@ class DiffChoiceRoute(DiffMutableModule):
 
         self._unfixed_choices = self.choices
 
+        assert set(chosen).issubset(self.choices), \
+            f'Expected choices in: {self.choices}, but got: {chosen}'
+
         for c in self.choices:
             if c not in chosen:
                 self._candidates.pop(c)
diff --git a/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py b/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
index 434b050..e4929dc 100644
--- a/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
@@ -231,6 +231,9 @@ class OneShotMutableOP(OneShotMutableModule):
                 'The mode of current MUTABLE is `fixed`. '
                 'Please do not call `fix_chosen` function again.')
 
+        assert chosen in self.choices, \
+            f'Expected choice in: {self.choices}, but got: {chosen}'
+
         for c in self.choices:
             if c != chosen:
                 self._candidates.pop(c)
-- 
2.43.0


From d54bd006ffc83c0811ff95bfee6033b6073956e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:37 +0000
Subject: [PATCH 020/108] fix: fill unregistered leading channels of a
 container

---
 .../mutables/mutable_channel/mutable_channel_container.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py b/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
index 5706d07..f9eeecc 100644
--- a/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
+++ b/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
@@ -115,7 +115,7 @@ class MutableChannelContainer(BaseMutableChannel):
         for start, end in copy.copy(self.mutable_channels):
             if last_end < start:
                 self.register_mutable(
-                    SimpleMutableChannel(last_end - start), last_end, start)
+                    SimpleMutableChannel(start - last_end), last_end, start)
             last_end = end
         if last_end < self.num_channels:
             self.register_mutable(
-- 
2.43.0


From 5f3aeb771ce86f4875d5fd7d5038702bce6a4c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:03 +0000
Subject: [PATCH 021/108] fix: divide mask and choice of a derived mutable by
 the same divisor

---
 mmrazor/models/mutables/derived_mutable.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/derived_mutable.py b/mmrazor/models/mutables/derived_mutable.py
index ac8a8c6..8512c48 100644
--- a/mmrazor/models/mutables/derived_mutable.py
+++ b/mmrazor/models/mutables/derived_mutable.py
@@ -183,10 +183,14 @@ class DerivedMethodMixin:
             current_ratio = ratio
         elif isinstance(ratio, float):
             current_ratio = int(ratio)
-            choice_fn = _divide_choice_fn(self, ratio=current_ratio, divisor=1)
+            divisor = 1
+            choice_fn = _divide_choice_fn(
+                self, ratio=current_ratio, divisor=divisor)
         elif isinstance(ratio, BaseMutable):
             current_ratio = int(ratio.current_choice)
-            choice_fn = _divide_choice_fn(self, ratio=current_ratio, divisor=1)
+            divisor = 1
+            choice_fn = _divide_choice_fn(
+                self, ratio=current_ratio, divisor=divisor)
         else:
             raise NotImplementedError(
                 f'Not support type of ratio: {type(ratio)}')
-- 
2.43.0


From 91d66778fc8a2091120c850a994a67f4b4d46788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:03 +0000
Subject: [PATCH 022/108] fix: derive from a searchable ratio instead of its
 value at that time

---
 mmrazor/models/mutables/derived_mutable.py | 46 +++++++++++++++-------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/mmrazor/models/mutables/derived_mutable.py b/mmrazor/models/mutables/derived_mutable.py
index 8512c48..0e1ab3a 100644
--- a/mmrazor/models/mutables/derived_mutable.py
+++ b/mmrazor/models/mutables/derived_mutable.py
@@ -42,19 +42,28 @@ class MutableChannelProtocol(MutableProtocol):  # pragma: no cover
         """Current mask."""
 
 
-def _expand_choice_fn(mutable: MutableProtocol,
-                      expand_ratio: Union[int, float]) -> Callable:
+def _current_ratio(ratio: Any) -> Any:
+    """Current value of a ratio that may itself be searchable."""
+    if isinstance(ratio, BaseMutable):
+        return ratio.current_choice
+    return ratio
+
+
+def _expand_choice_fn(
+        mutable: MutableProtocol,
+        expand_ratio: Union[int, float, BaseMutable]) -> Callable:
     """Helper function to build `choice_fn` for expand derived mutable."""
 
     def fn():
-        return int(mutable.current_choice * expand_ratio)
+        return int(mutable.current_choice * _current_ratio(expand_ratio))
 
     return fn
 
 
 def _expand_mask_fn(
         mutable: MutableProtocol,
-        expand_ratio: Union[int, float]) -> Callable:  # pragma: no cover
+        expand_ratio: Union[int, float, BaseMutable]
+) -> Callable:  # pragma: no cover
     """Helper function to build `mask_fn` for expand derived mutable."""
     if not hasattr(mutable, 'current_mask'):
         raise ValueError('mutable must have attribute `currnet_mask`')
@@ -64,6 +73,11 @@ def _expand_mask_fn(
         if isinstance(expand_ratio, int):
             expand_num_channels = mask.size(0) * expand_ratio
             expand_choice = mutable.current_choice * expand_ratio
+        elif isinstance(expand_ratio, BaseMutable):
+            max_ratio = max(expand_ratio.choices)
+            expand_num_channels = int(mask.size(0) * max_ratio)
+            expand_choice = int(mutable.current_choice *
+                                _current_ratio(expand_ratio))
         elif isinstance(expand_ratio, float):
             expand_num_channels = int(mask.size(0) * expand_ratio)
             expand_choice = int(mutable.current_choice * expand_ratio)
@@ -86,18 +100,19 @@ def _divide_and_divise(x: int, ratio: int, divisor: int = 8) -> int:
 
 
 def _divide_choice_fn(mutable: MutableProtocol,
-                      ratio: int,
+                      ratio: Union[int, BaseMutable],
                       divisor: int = 8) -> Callable:
     """Helper function to build `choice_fn` for divide derived mutable."""
 
     def fn():
-        return _divide_and_divise(mutable.current_choice, ratio, divisor)
+        return _divide_and_divise(mutable.current_choice,
+                                  int(_current_ratio(ratio)), divisor)
 
     return fn
 
 
 def _divide_mask_fn(mutable: MutableProtocol,
-                    ratio: int,
+                    ratio: Union[int, BaseMutable],
                     divisor: int = 8) -> Callable:  # pragma: no cover
     """Helper function to build `mask_fn` for divide derived mutable."""
     if not hasattr(mutable, 'current_mask'):
@@ -105,9 +120,13 @@ def _divide_mask_fn(mutable: MutableProtocol,
 
     def fn():
         mask = mutable.current_mask
-        divide_num_channels = _divide_and_divise(mask.size(0), ratio, divisor)
-        divide_choice = _divide_and_divise(mutable.current_choice, ratio,
-                                           divisor)
+        min_ratio = ratio
+        if isinstance(ratio, BaseMutable):
+            min_ratio = int(min(ratio.choices))
+        divide_num_channels = _divide_and_divise(
+            mask.size(0), min_ratio, divisor)
+        divide_choice = _divide_and_divise(mutable.current_choice,
+                                           int(_current_ratio(ratio)), divisor)
         divide_mask = torch.zeros(divide_num_channels).bool()
         divide_mask[:divide_choice] = True
 
@@ -151,8 +170,7 @@ class DerivedMethodMixin:
         elif isinstance(expand_ratio, float):
             choice_fn = _expand_choice_fn(self, expand_ratio=expand_ratio)
         elif isinstance(expand_ratio, BaseMutable):
-            current_ratio = expand_ratio.current_choice
-            choice_fn = _expand_choice_fn(self, expand_ratio=current_ratio)
+            choice_fn = _expand_choice_fn(self, expand_ratio=expand_ratio)
         else:
             raise NotImplementedError(
                 f'Not support type of ratio: {type(expand_ratio)}')
@@ -164,7 +182,7 @@ class DerivedMethodMixin:
             elif isinstance(expand_ratio, float):
                 mask_fn = _expand_mask_fn(self, expand_ratio=expand_ratio)
             elif isinstance(expand_ratio, BaseMutable):
-                mask_fn = _expand_mask_fn(self, expand_ratio=current_ratio)
+                mask_fn = _expand_mask_fn(self, expand_ratio=expand_ratio)
             else:
                 raise NotImplementedError(
                     f'Not support type of ratio: {type(expand_ratio)}')
@@ -187,7 +205,7 @@ class DerivedMethodMixin:
             choice_fn = _divide_choice_fn(
                 self, ratio=current_ratio, divisor=divisor)
         elif isinstance(ratio, BaseMutable):
-            current_ratio = int(ratio.current_choice)
+            current_ratio = ratio
             divisor = 1
             choice_fn = _divide_choice_fn(
                 self, ratio=current_ratio, divisor=divisor)
-- 
2.43.0


From e2b1b4161c3962071e06760d20651d5e7bf450d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:03 +0000
Subject: [PATCH 023/108] fix: follow the searchable ratio a mutable channel is
 divided by

---
 .../mutables/mutable_channel/sequential_mutable_channel.py     | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
index c2b4f92..5bdcd77 100644
--- a/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
@@ -120,8 +120,7 @@ class SquentialMutableChannel(SimpleMutableChannel):
 
         from ..mutable_value import OneShotMutableValue
         if isinstance(other, OneShotMutableValue):
-            ratio = other.current_choice
-            return self.derive_divide_mutable(ratio)
+            return self.derive_divide_mutable(other)
 
         raise TypeError(f'Unsupported type {type(other)} for div!')
 
-- 
2.43.0


From fdf58a83fc1e0663f70a89ea3ae10291a5bfe086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:21 +0000
Subject: [PATCH 024/108] fix: custom groups may end with an alias

---
 mmrazor/models/mutators/group_mixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/mutators/group_mixin.py b/mmrazor/models/mutators/group_mixin.py
index 569f01e..58eb57c 100644
--- a/mmrazor/models/mutators/group_mixin.py
+++ b/mmrazor/models/mutators/group_mixin.py
@@ -160,7 +160,7 @@ class GroupMixin():
                     grouped_mutable_names.append(item)
 
             # TODO: fix prefix when constructing custom groups.
-            prefix = name2mutable[item].mutable_prefix
+            prefix = group_mutables[-1].mutable_prefix
             group_name = prefix + '_' + str(current_group_nums)
             search_groups[group_name] = group_mutables
             current_group_nums += 1
-- 
2.43.0


From 8d3d1c564abfc67354861008e78f99dc4442e1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:21 +0000
Subject: [PATCH 025/108] fix: a searchable value shared by derived mutables
 was put into several groups

---
 mmrazor/models/mutators/group_mixin.py | 74 +++++++++++++-------------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/mmrazor/models/mutators/group_mixin.py b/mmrazor/models/mutators/group_mixin.py
index 58eb57c..71f097c 100644
--- a/mmrazor/models/mutators/group_mixin.py
+++ b/mmrazor/models/mutators/group_mixin.py
@@ -70,17 +70,35 @@ class GroupMixin():
                 return True
         return False
 
-    def _build_name_mutable_mapping(
-            self, supernet: Module) -> Dict[str, MUTABLE_TYPE]:
-        """Mapping module name to mutable."""
-        name2mutable: Dict[str, MUTABLE_TYPE] = dict()
+    def _named_mutables(self, supernet: Module) -> Dict[str, MUTABLE_TYPE]:
+        """Name every supported mutable exactly once.
+
+        A source of derived mutables that is no submodule itself is named after
+        the first module deriving from it.
+        """
+        named: Dict[str, MUTABLE_TYPE] = dict()
+        seen = [
+            m for m in supernet.modules() if self.is_supported_mutable(m)
+        ]
         for name, module in supernet.named_modules():
             if self.is_supported_mutable(module):
-                name2mutable[name] = module
+                named[name] = module
             elif hasattr(module, 'source_mutables'):
-                for each_mutable in module.source_mutables:
-                    if self.is_supported_mutable(each_mutable):
-                        name2mutable[name] = each_mutable
+                for mutable in module.source_mutables:
+                    if not self.is_supported_mutable(mutable) or any(
+                            mutable is m for m in seen):
+                        continue
+                    seen.append(mutable)
+                    key, idx = name, 1
+                    while key in named:
+                        key, idx = f'{name}.{idx}', idx + 1
+                    named[key] = mutable
+        return named
+
+    def _build_name_mutable_mapping(
+            self, supernet: Module) -> Dict[str, MUTABLE_TYPE]:
+        """Mapping module name to mutable."""
+        name2mutable = self._named_mutables(supernet)
 
         self._name2mutable = name2mutable
 
@@ -97,16 +115,9 @@ class GroupMixin():
             else:
                 dict[key].append(name)
 
-        for name, module in supernet.named_modules():
-            if self.is_supported_mutable(module):
-                if module.alias is not None:
-                    _append(module.alias, alias2mutable_names, name)
-            elif hasattr(module, 'source_mutables'):
-                for each_mutable in module.source_mutables:
-                    if self.is_supported_mutable(each_mutable):
-                        if each_mutable.alias is not None:
-                            _append(each_mutable.alias, alias2mutable_names,
-                                    name)
+        for name, mutable in self._named_mutables(supernet).items():
+            if mutable.alias is not None:
+                _append(mutable.alias, alias2mutable_names, name)
 
         return alias2mutable_names
 
@@ -187,25 +198,14 @@ class GroupMixin():
                     current_group_nums += 1
 
         # check whether all the mutable objects are in the search_groups
-        for name, module in supernet.named_modules():
-            if self.is_supported_mutable(module):
-                if name in grouped_mutable_names:
-                    continue
-                else:
-                    prefix = module.mutable_prefix
-                    group_name = prefix + '_' + str(current_group_nums)
-                    search_groups[group_name] = [module]
-                    current_group_nums += 1
-            elif hasattr(module, 'source_mutables'):
-                for each_mutable in module.source_mutables:
-                    if self.is_supported_mutable(each_mutable):
-                        if name in grouped_mutable_names:
-                            continue
-                        else:
-                            prefix = each_mutable.mutable_prefix
-                            group_name = prefix + '_' + str(current_group_nums)
-                            search_groups[group_name] = [each_mutable]
-                            current_group_nums += 1
+        for name, mutable in name2mutable.items():
+            if name in grouped_mutable_names:
+                continue
+            else:
+                prefix = mutable.mutable_prefix
+                group_name = prefix + '_' + str(current_group_nums)
+                search_groups[group_name] = [mutable]
+                current_group_nums += 1
 
         grouped_counter = Counter(grouped_mutable_names)
 
-- 
2.43.0


From 93dd9e2514657534173c43a1d7e9eadb5cefc2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:21 +0000
Subject: [PATCH 026/108] fix: unit_predefined only reached the first
 predefined unit

---
 mmrazor/models/mutators/channel_mutator/channel_mutator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/mutators/channel_mutator/channel_mutator.py b/mmrazor/models/mutators/channel_mutator/channel_mutator.py
index 910992e..128f08d 100644
--- a/mmrazor/models/mutators/channel_mutator/channel_mutator.py
+++ b/mmrazor/models/mutators/channel_mutator/channel_mutator.py
@@ -369,6 +369,6 @@ class ChannelMutator(BaseMutator, Generic[ChannelUnitType]):
         units = self.unit_class.init_from_predefined_model(model)
 
         for unit in units:
-            unit.unit_predefined = self.unit_default_args.pop(
+            unit.unit_predefined = self.unit_default_args.get(
                 'unit_predefined', False)
         return units
-- 
2.43.0


From 60dc58f07d01463e691874e6890fd0a061d689f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:32 +0000
Subject: [PATCH 027/108] fix: keep a divisible choice within the channels of
 the unit

---
 .../mutable_channel/units/sequential_mutable_channel_unit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
index d32c5fe..3c4969f 100644
--- a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
@@ -134,8 +134,9 @@ class SequentialMutableChannelUnit(MutableChannelUnit):
     def _make_divisible(self, choice_int: int):
         """Make the choice divisible."""
         from mmrazor.models.utils import make_divisible
-        return make_divisible(choice_int, self.divisor, self.min_value,
-                              self.min_ratio)
+        choice_int = make_divisible(choice_int, self.divisor, self.min_value,
+                                    self.min_ratio)
+        return min(choice_int, self.num_channels)
 
     def _num2ratio(self, choice: Union[int, float]) -> float:
         """Convert the a number choice to a ratio choice."""
-- 
2.43.0


From 582452accaeae7b870be4d436bc8a6d3a4e8f706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:32 +0000
Subject: [PATCH 028/108] fix: rebuild a GroupFisherChannelUnit from its own
 config template

---
 .../pruning/group_fisher/unit.py              | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/unit.py b/mmrazor/implementations/pruning/group_fisher/unit.py
index 1c9128b..cde5c23 100644
--- a/mmrazor/implementations/pruning/group_fisher/unit.py
+++ b/mmrazor/implementations/pruning/group_fisher/unit.py
@@ -1,5 +1,5 @@
 # Copyright (c) OpenMMLab. All rights reserved.
-from typing import List
+from typing import Dict, List
 
 import torch
 import torch.nn as nn
@@ -32,8 +32,9 @@ class GroupFisherChannelUnit(L1MutableChannelUnit):
                  num_channels: int,
                  normalization_type: str = 'flops',
                  mutate_linear=False,
-                 *args) -> None:
-        super().__init__(num_channels, *args)
+                 *args,
+                 **kwargs) -> None:
+        super().__init__(num_channels, *args, **kwargs)
         normalized_fisher_info = torch.zeros([self.num_channels])
         self.register_buffer('normalized_fisher_info', normalized_fisher_info)
         self.normalized_fisher_info: torch.Tensor
@@ -44,6 +45,18 @@ class GroupFisherChannelUnit(L1MutableChannelUnit):
 
         self.mutate_linear = mutate_linear
 
+    def config_template(self,
+                        with_init_args=False,
+                        with_channels=False) -> Dict:
+        """Template of config."""
+        config = super().config_template(with_init_args, with_channels)
+        if with_init_args:
+            config['init_args'].update(
+                dict(
+                    normalization_type=self.delta_type,
+                    mutate_linear=self.mutate_linear))
+        return config
+
     def prepare_for_pruning(self, model: nn.Module) -> None:
         """Prepare for pruning, including register mutable channels.
 
-- 
2.43.0


From b08491fcde31c162a1018ebd548af0b838b1899b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:32 +0000
Subject: [PATCH 029/108] fix: detect ranges that enclose an existed index in
 IndexDict

---
 mmrazor/utils/index_dict.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmrazor/utils/index_dict.py b/mmrazor/utils/index_dict.py
index a053024..e2add71 100644
--- a/mmrazor/utils/index_dict.py
+++ b/mmrazor/utils/index_dict.py
@@ -48,8 +48,7 @@ class IndexDict(OrderedDict):
             start, end = __o
             existed = False
             for s, e in self.keys():
-                existed = (s <= start < e or s < end < e or
-                           (s < start and end < e)) or existed
+                existed = (start < e and s < end) or existed
 
             return existed
 
-- 
2.43.0


From f06f9dfa92cb4510c98f090ff838db0bddeea9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:50 +0000
Subject: [PATCH 030/108] fix: resume the evolution search on every rank

---
 mmrazor/engine/runner/evolution_search_loop.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/mmrazor/engine/runner/evolution_search_loop.py b/mmrazor/engine/runner/evolution_search_loop.py
index 644385e..2595b4b 100644
--- a/mmrazor/engine/runner/evolution_search_loop.py
+++ b/mmrazor/engine/runner/evolution_search_loop.py
@@ -298,15 +298,14 @@ class EvolutionSearchLoop(EpochBasedTrainLoop, CalibrateBNMixin):
 
     def _resume(self):
         """Resume searching."""
-        if self.runner.rank == 0:
-            searcher_resume = fileio.load(self.resume_from)
-            for k in searcher_resume.keys():
-                setattr(self, k, searcher_resume[k])
-            epoch_start = int(searcher_resume['_epoch'])
-            self._max_epochs = self._max_epochs - epoch_start
-            self.runner.logger.info('#' * 100)
-            self.runner.logger.info(f'Resume from epoch: {epoch_start}')
-            self.runner.logger.info('#' * 100)
+        searcher_resume = fileio.load(self.resume_from)
+        for k in searcher_resume.keys():
+            setattr(self, k, searcher_resume[k])
+        epoch_start = int(searcher_resume['_epoch'])
+        self._max_epochs = self._max_epochs - epoch_start
+        self.runner.logger.info('#' * 100)
+        self.runner.logger.info(f'Resume from epoch: {epoch_start}')
+        self.runner.logger.info('#' * 100)
 
     def _save_best_fix_subnet(self):
         """Save best subnet in searched top-k candidates."""
-- 
2.43.0


From b64ae72f4b29674ba7f52da7649eec1800208a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:50 +0000
Subject: [PATCH 031/108] fix: do not slice a dict batch when calibrating bn
 statistics

---
 mmrazor/engine/runner/utils/calibrate_bn_mixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
index 3e0fe49..6af2796 100644
--- a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
+++ b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
@@ -76,9 +76,9 @@ class CalibrateBNMixin:
             f'Total sample number for calibration: {calibrate_sample_num}')
         remaining = calibrate_sample_num
         for data_batch in dataloader:
-            if len(data_batch) >= remaining:
-                data_batch = data_batch[:remaining]
             if isinstance(data_batch, torch.Tensor):
+                if len(data_batch) >= remaining:
+                    data_batch = data_batch[:remaining]
                 data_batch_nums = len(data_batch)
             else:
                 data_batch_nums = len(data_batch['inputs'])
-- 
2.43.0


From 522045995785ada1c56bb5aba6058a1d564627d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:58 +0000
Subject: [PATCH 032/108] fix: keep the subnet of the last step when the greedy
 search is resumed

---
 mmrazor/engine/runner/autoslim_greedy_search_loop.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mmrazor/engine/runner/autoslim_greedy_search_loop.py b/mmrazor/engine/runner/autoslim_greedy_search_loop.py
index cf9752c..9bc33a1 100644
--- a/mmrazor/engine/runner/autoslim_greedy_search_loop.py
+++ b/mmrazor/engine/runner/autoslim_greedy_search_loop.py
@@ -95,10 +95,8 @@ class AutoSlimGreedySearchLoop(TestLoop):
         if self.resume_from:
             self._resume()
 
-        for target in self.target_flops:
-            if self.resume_from and self.current_flops <= target:
-                continue
-
+        # targets whose subnets have been found before are skipped
+        for target in self.target_flops[len(self.searched_subnet):]:
             if self.current_flops <= target:
                 self.searched_subnet.append(self.current_subnet)
                 self.searched_subnet_flops.append(self.current_flops)
-- 
2.43.0


From 95a387052491ec1e4817c33dc2507e185197a647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:54 +0000
Subject: [PATCH 033/108] fix: ItePruneValLoop saves the subnet on the main
 process only

---
 mmrazor/engine/runner/iteprune_val_loop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmrazor/engine/runner/iteprune_val_loop.py b/mmrazor/engine/runner/iteprune_val_loop.py
index 2a627f3..a04f29f 100644
--- a/mmrazor/engine/runner/iteprune_val_loop.py
+++ b/mmrazor/engine/runner/iteprune_val_loop.py
@@ -3,6 +3,7 @@ import json
 import os.path as osp
 
 import torch
+from mmengine.dist import master_only
 from mmengine.runner import ValLoop
 
 from mmrazor.registry import LOOPS
@@ -37,6 +38,7 @@ class ItePruneValLoop(ValLoop):
         self.runner.call_hook('after_val')
         return metrics
 
+    @master_only
     def _save_fix_subnet(self):
         """Save model subnet config."""
         model = self.runner.model.module \
-- 
2.43.0


From c8289c86078ec26b37089cd3b6e140fd0a56849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:54 +0000
Subject: [PATCH 034/108] fix: GreedySamplerTrainLoop saves candidates on the
 main process only

---
 mmrazor/engine/runner/subnet_sampler_loop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmrazor/engine/runner/subnet_sampler_loop.py b/mmrazor/engine/runner/subnet_sampler_loop.py
index 4f26ee7..8451d0b 100644
--- a/mmrazor/engine/runner/subnet_sampler_loop.py
+++ b/mmrazor/engine/runner/subnet_sampler_loop.py
@@ -7,6 +7,7 @@ from typing import Any, Dict, List, Optional, Sequence, Tuple, Union
 
 import torch
 from mmengine import fileio
+from mmengine.dist import master_only
 from mmengine.evaluator import Evaluator
 from mmengine.runner import IterBasedTrainLoop
 from mmengine.utils import is_list_of
@@ -330,6 +331,7 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
 
         return is_pass, results
 
+    @master_only
     def _save_candidates(self) -> None:
         """Save the candidates to init the next searching."""
         save_path = os.path.join(self.runner.work_dir, 'candidates.pkl')
-- 
2.43.0


From 78f87e2651d263a005617725367d4825772edc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:54 +0000
Subject: [PATCH 035/108] fix: DMCPSubnetHook saves subnets on the main process
 only

---
 mmrazor/engine/hooks/dmcp_subnet_hook.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmrazor/engine/hooks/dmcp_subnet_hook.py b/mmrazor/engine/hooks/dmcp_subnet_hook.py
index 5c3186f..eaea838 100644
--- a/mmrazor/engine/hooks/dmcp_subnet_hook.py
+++ b/mmrazor/engine/hooks/dmcp_subnet_hook.py
@@ -2,6 +2,7 @@
 import json
 import os
 
+from mmengine.dist import master_only
 from mmengine.hooks import Hook
 from mmengine.registry import HOOKS
 
@@ -24,6 +25,7 @@ class DMCPSubnetHook(Hook):
     def __init__(self, subnet_sample_num: int = 10, **kwargs) -> None:
         self.subnet_sample_num = subnet_sample_num
 
+    @master_only
     def _save_subnet(self, model, runner, save_path):
         """Save the sampled sub-network config."""
         fix_subnet, _ = export_fix_subnet(
@@ -51,8 +53,7 @@ class DMCPSubnetHook(Hook):
         root_dir = os.path.join(runner.work_dir, 'model_sample')
         target_flops = model.target_flops * 1e6
 
-        if not os.path.exists(root_dir):
-            os.makedirs(root_dir)
+        os.makedirs(root_dir, exist_ok=True)
 
         for i in range(num_sample + 1):
             cur_flops = target_flops * 10
-- 
2.43.0


From 8871360328799d543fe7d2228ccb1c79ce6b5682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:54 +0000
Subject: [PATCH 036/108] fix: DumpSubnetHook samples the subnet on every
 process

---
 mmrazor/engine/hooks/dump_subnet_hook.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/mmrazor/engine/hooks/dump_subnet_hook.py b/mmrazor/engine/hooks/dump_subnet_hook.py
index 1aaeaba..7847f2a 100644
--- a/mmrazor/engine/hooks/dump_subnet_hook.py
+++ b/mmrazor/engine/hooks/dump_subnet_hook.py
@@ -2,7 +2,7 @@
 import copy
 import os.path as osp
 from pathlib import Path
-from typing import Optional, Sequence, Union
+from typing import Dict, Optional, Sequence, Union
 
 from mmengine.dist import master_only
 from mmengine.fileio import FileClient, dump
@@ -105,12 +105,25 @@ class DumpSubnetHook(Hook):
             runner.logger.info(f'Saving subnet at {runner.epoch + 1} epochs')
             self._save_subnet(runner)
 
-    @master_only
     def _save_subnet(self, runner) -> None:
-        """Save the current best subnet.
+        """Sample and save a subnet.
+
+        Args:
+            runner (Runner): The runner of the training process.
+        """
+        model = runner.model.module if runner.distributed else runner.model
+
+        # All processes take part in sampling. Otherwise their random states,
+        # from which the following subnets are sampled, would diverge.
+        self._dump_subnet(runner, model.mutator.sample_choices())
+
+    @master_only
+    def _dump_subnet(self, runner, choices: Dict) -> None:
+        """Save the subnet of the given choices.
 
         Args:
             runner (Runner): The runner of the training process.
+            choices (Dict): The choices of the subnet.
         """
         model = runner.model.module if runner.distributed else runner.model
 
@@ -122,7 +135,7 @@ class DumpSubnetHook(Hook):
                     delattr(module, 'arch_weights')
 
         copied_model = copy.deepcopy(model)
-        copied_model.mutator.set_choices(copied_model.mutator.sample_choices())
+        copied_model.mutator.set_choices(choices)
 
         subnet_dict = export_fix_subnet(copied_model)[0]
         subnet_dict = convert_fix_subnet(subnet_dict)
-- 
2.43.0


From 493adb4cba0e63fb571b98f3bbba56749d5a9423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:48 +0000
Subject: [PATCH 037/108] fix: DSNAS enters the finetune stage without a
 process group

---
 mmrazor/models/algorithms/nas/dsnas.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index e5937ba..709772f 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -132,8 +132,9 @@ class DSNAS(BaseAlgorithm):
 
             if cur_epoch == self.finetune_epochs and self.is_supernet:
                 # synchronize arch params to start the finetune stage.
-                for k, v in self.mutator.arch_params.items():
-                    dist.broadcast(v, src=0)
+                if dist.is_available() and dist.is_initialized():
+                    for k, v in self.mutator.arch_params.items():
+                        dist.broadcast(v, src=0)
                 self._fix_archtecture()
                 self.is_supernet = False
 
-- 
2.43.0


From 5d773490b12271cd7e963291b63d34f0d27eec5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:36 +0000
Subject: [PATCH 038/108] fix: the greedy sampler trains the supernet in eval
 mode

Scoring the candidates puts the model in eval mode right before the
training step of the same iteration; return to train mode.
---
 mmrazor/engine/runner/subnet_sampler_loop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmrazor/engine/runner/subnet_sampler_loop.py b/mmrazor/engine/runner/subnet_sampler_loop.py
index 8451d0b..e02cd5e 100644
--- a/mmrazor/engine/runner/subnet_sampler_loop.py
+++ b/mmrazor/engine/runner/subnet_sampler_loop.py
@@ -228,6 +228,8 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
             self.candidates.extend(sampled_candidates)
 
             self.update_candidates_scores()
+            # the scores are measured in eval mode
+            self.runner.model.train()
 
             self.candidates.sort_by(key_indicator='score', reverse=True)
             self.candidates = Candidates(
-- 
2.43.0


From 2c5fed9a5feeae7535156ce82eb954970b9635a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:36 +0000
Subject: [PATCH 039/108] fix: the greedy sampler never samples a second subnet

top_k_candidates was never consumed, so every iteration trained the very
first subnet. Take the candidates one by one as documented.
---
 mmrazor/engine/runner/subnet_sampler_loop.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mmrazor/engine/runner/subnet_sampler_loop.py b/mmrazor/engine/runner/subnet_sampler_loop.py
index e02cd5e..b84224d 100644
--- a/mmrazor/engine/runner/subnet_sampler_loop.py
+++ b/mmrazor/engine/runner/subnet_sampler_loop.py
@@ -219,6 +219,10 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
             2. Pop from the `top_k_candidates` one by one to train
             the supernet.
         """
+        if len(self.top_k_candidates) > 0:
+            # the first one has been trained by the previous iteration
+            self.top_k_candidates.pop(0)
+
         if len(self.top_k_candidates) == 0:
             self.update_cur_prob(cur_iter=self._iter)
 
-- 
2.43.0


From aab78f351b77870913f524db845b7dbd7d8023c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 040/108] fix: the look-ahead step of DARTS never moves the
 weights

---
 mmrazor/models/algorithms/nas/darts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/darts.py b/mmrazor/models/algorithms/nas/darts.py
index b110f47..74b7b03 100644
--- a/mmrazor/models/algorithms/nas/darts.py
+++ b/mmrazor/models/algorithms/nas/darts.py
@@ -220,7 +220,7 @@ class Darts(BaseAlgorithm):
         with torch.no_grad():
             for w, g in zip(self.architecture.parameters(), gradients):
                 m = optim_wrapper.optimizer.state[w].get('momentum_buffer', 0.)
-                w = w - lr * (momentum * m + g + weight_decay * w)
+                w -= lr * (momentum * m + g + weight_decay * w)
 
     def _restore_weights(self, backup_params):
         """restore weight from backup params."""
@@ -471,7 +471,7 @@ class DartsDDP(MMDistributedDataParallel):
         with torch.no_grad():
             for w, g in zip(self.module.architecture.parameters(), gradients):
                 m = optim_wrapper.optimizer.state[w].get('momentum_buffer', 0.)
-                w = w - lr * (momentum * m + g + weight_decay * w)
+                w -= lr * (momentum * m + g + weight_decay * w)
 
     def _restore_weights(self, backup_params):
         """restore weight from backup params."""
-- 
2.43.0


From 99d9345276adf72cff3e1fe3b35101ff9ed8507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 041/108] fix: the second order gradients of DARTS are read
 from accumulated ones

---
 mmrazor/models/algorithms/nas/darts.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/darts.py b/mmrazor/models/algorithms/nas/darts.py
index 74b7b03..3cdde85 100644
--- a/mmrazor/models/algorithms/nas/darts.py
+++ b/mmrazor/models/algorithms/nas/darts.py
@@ -17,6 +17,13 @@ from ..base import BaseAlgorithm
 VALID_MUTATOR_TYPE = Union[NasMutator, Dict]
 
 
+def _clear_grads(*models: nn.Module) -> None:
+    """Drop the gradients of all parameters of ``models``."""
+    for model in models:
+        for param in model.parameters():
+            param.grad = None
+
+
 @MODELS.register_module()
 class Darts(BaseAlgorithm):
     """Implementation of `DARTS <https://arxiv.org/abs/1806.09055>`_
@@ -172,6 +179,7 @@ class Darts(BaseAlgorithm):
                                     optim_wrapper['architecture'])
 
         # Calculate unrolled loss on validation data
+        _clear_grads(self.architecture, self.mutator)
         # Keep gradients for model here for compute hessian
         pseudo_data = self.data_preprocessor(mutator_data, True)
         mutator_batch_inputs = pseudo_data['inputs']
@@ -206,7 +214,7 @@ class Darts(BaseAlgorithm):
     def _compute_virtual_model(self, supernet_data, lr, momentum, weight_decay,
                                optim_wrapper):
         """Compute unrolled weights w`"""
-        # don't need zero_grad, using autograd to calculate gradients
+        _clear_grads(self.architecture, self.mutator)
         pseudo_data = self.data_preprocessor(supernet_data, True)
         supernet_batch_inputs = pseudo_data['inputs']
         supernet_data_samples = pseudo_data['data_samples']
@@ -254,6 +262,9 @@ class Darts(BaseAlgorithm):
                 for p, d in zip(self.architecture.parameters(), dw):
                     p += e * d
 
+            # each gradient below is of its own loss only
+            _clear_grads(self.architecture, self.mutator)
+
             pseudo_data = self.data_preprocessor(supernet_data, True)
             supernet_batch_inputs = pseudo_data['inputs']
             supernet_data_samples = pseudo_data['data_samples']
@@ -418,6 +429,7 @@ class DartsDDP(MMDistributedDataParallel):
                                     optim_wrapper['architecture'])
 
         # calculate unrolled loss on validation data
+        _clear_grads(self.module.architecture, self.module.mutator)
         # keep gradients for model here for compute hessian
         pseudo_data = self.module.data_preprocessor(mutator_data, True)
         mutator_batch_inputs = pseudo_data['inputs']
@@ -455,7 +467,7 @@ class DartsDDP(MMDistributedDataParallel):
     def _compute_virtual_model(self, supernet_data, lr, momentum, weight_decay,
                                optim_wrapper):
         """Compute unrolled weights w`"""
-        # don't need zero_grad, using autograd to calculate gradients
+        _clear_grads(self.module.architecture, self.module.mutator)
         pseudo_data = self.module.data_preprocessor(supernet_data, True)
         supernet_batch_inputs = pseudo_data['inputs']
         supernet_data_samples = pseudo_data['data_samples']
@@ -505,6 +517,9 @@ class DartsDDP(MMDistributedDataParallel):
                 for p, d in zip(self.module.architecture.parameters(), dw):
                     p += e * d
 
+            # each gradient below is of its own loss only
+            _clear_grads(self.module.architecture, self.module.mutator)
+
             pseudo_data = self.module.data_preprocessor(supernet_data, True)
             supernet_batch_inputs = pseudo_data['inputs']
             supernet_data_samples = pseudo_data['data_samples']
-- 
2.43.0


From 67e56e83966dbd8732fbbdcdf2a20e68f22a942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 042/108] fix: DARTS steps the weights on gradients of the
 validation loss

---
 mmrazor/models/algorithms/nas/darts.py | 28 ++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/mmrazor/models/algorithms/nas/darts.py b/mmrazor/models/algorithms/nas/darts.py
index 3cdde85..ee83b39 100644
--- a/mmrazor/models/algorithms/nas/darts.py
+++ b/mmrazor/models/algorithms/nas/darts.py
@@ -24,6 +24,20 @@ def _clear_grads(*models: nn.Module) -> None:
             param.grad = None
 
 
+def _take_grads(model: nn.Module) -> List[Optional[torch.Tensor]]:
+    """Put the gradients of ``model`` aside."""
+    grads = [param.grad for param in model.parameters()]
+    _clear_grads(model)
+    return grads
+
+
+def _give_grads(model: nn.Module,
+                grads: List[Optional[torch.Tensor]]) -> None:
+    """Replace the gradients of ``model`` by those put aside."""
+    for param, grad in zip(model.parameters(), grads):
+        param.grad = grad
+
+
 @MODELS.register_module()
 class Darts(BaseAlgorithm):
     """Implementation of `DARTS <https://arxiv.org/abs/1806.09055>`_
@@ -121,6 +135,9 @@ class Darts(BaseAlgorithm):
 
             log_vars = dict()
 
+            # The gradients of the validation loss are for the mutator only
+            weight_grads = _take_grads(self.architecture)
+
             # Update the parameter of mutator
             if self.unroll:
                 with optim_wrapper['mutator'].optim_context(self):
@@ -143,6 +160,9 @@ class Darts(BaseAlgorithm):
                 optim_wrapper['mutator'].update_params(mutator_losses)
                 log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
+            _give_grads(self.architecture, weight_grads)
+            arch_grads = _take_grads(self.mutator)
+
             # Update the parameter of supernet
             with optim_wrapper['architecture'].optim_context(self):
                 pseudo_data = self.data_preprocessor(supernet_data, True)
@@ -154,6 +174,7 @@ class Darts(BaseAlgorithm):
                 supernet_loss)
             optim_wrapper['architecture'].update_params(supernet_losses)
             log_vars.update(add_prefix(supernet_log_vars, 'supernet'))
+            _give_grads(self.mutator, arch_grads)
 
         else:
             # Enable automatic mixed precision training context.
@@ -364,6 +385,9 @@ class DartsDDP(MMDistributedDataParallel):
 
             log_vars = dict()
 
+            # The gradients of the validation loss are for the mutator only
+            weight_grads = _take_grads(self.module.architecture)
+
             # Update the parameter of mutator
             if self.module.unroll:
                 with optim_wrapper['mutator'].optim_context(self):
@@ -388,6 +412,9 @@ class DartsDDP(MMDistributedDataParallel):
                     optim_wrapper['mutator'].update_params(mutator_losses)
                     log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
+            _give_grads(self.module.architecture, weight_grads)
+            arch_grads = _take_grads(self.module.mutator)
+
             # Update the parameter of supernet
             with optim_wrapper['architecture'].optim_context(self):
                 pseudo_data = self.module.data_preprocessor(
@@ -402,6 +429,7 @@ class DartsDDP(MMDistributedDataParallel):
 
                 optim_wrapper['architecture'].update_params(supernet_losses)
                 log_vars.update(add_prefix(supernet_log_vars, 'supernet'))
+            _give_grads(self.module.mutator, arch_grads)
 
         else:
             # Enable automatic mixed precision training context.
-- 
2.43.0


From 5ffa4c5b9acb3df66cc1a57efeda0a63ce858048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 043/108] fix: DSNAS scales the architecture gradients after
 they are used

---
 mmrazor/models/algorithms/nas/dsnas.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index 709772f..139f680 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -160,10 +160,12 @@ class DSNAS(BaseAlgorithm):
                     mutator_loss = self.compute_mutator_loss()
                 mutator_losses, mutator_log_vars = \
                     self.parse_losses(mutator_loss)
-                optim_wrapper['mutator'].update_params(mutator_losses)
-                log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
+                optim_wrapper['mutator'].backward(mutator_losses)
                 # handle the grad of arch params & weights
                 self.handle_grads()
+                optim_wrapper['mutator'].step()
+                optim_wrapper['mutator'].zero_grad()
+                log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
         else:
             # Enable automatic mixed precision training context.
@@ -315,10 +317,12 @@ class DSNASDDP(MMDistributedDataParallel):
                     mutator_loss = self.module.compute_mutator_loss()
                 mutator_losses, mutator_log_vars = \
                     self.module.parse_losses(mutator_loss)
-                optim_wrapper['mutator'].update_params(mutator_losses)
-                log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
+                optim_wrapper['mutator'].backward(mutator_losses)
                 # handle the grad of arch params & weights
                 self.module.handle_grads()
+                optim_wrapper['mutator'].step()
+                optim_wrapper['mutator'].zero_grad()
+                log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
         else:
             # Enable automatic mixed precision training context.
-- 
2.43.0


From 7bc6864c9b7b1f873c0f5d771cdb25ac9ca356c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 044/108] fix: the iteration based DARTS loop ends with the
 shorter dataloader

---
 mmrazor/engine/runner/darts_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/engine/runner/darts_loop.py b/mmrazor/engine/runner/darts_loop.py
index 65e4611..3c3762c 100644
--- a/mmrazor/engine/runner/darts_loop.py
+++ b/mmrazor/engine/runner/darts_loop.py
@@ -171,7 +171,7 @@ class IterMultiLoader:
             for loader in self._dataloaders:
                 if hasattr(loader.sampler, 'set_epoch'):
                     loader.sampler.set_epoch(self._epoch)
-            self.iter_loader = [iter(loader) for loader in self._dataloaders]
+            self.iter_loaders = [iter(loader) for loader in self._dataloaders]
             data = tuple([next(loader) for loader in self.iter_loaders])
 
         return data
-- 
2.43.0


From 64a06b5482509d7d3fdb3c05c4fbe6ee2995e45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:42 +0000
Subject: [PATCH 045/108] fix: parse_linear leaves the linear layer on the path
 of its sibling branches

---
 mmrazor/models/task_modules/tracer/parsers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmrazor/models/task_modules/tracer/parsers.py b/mmrazor/models/task_modules/tracer/parsers.py
index c342da7..9b440fc 100644
--- a/mmrazor/models/task_modules/tracer/parsers.py
+++ b/mmrazor/models/task_modules/tracer/parsers.py
@@ -99,6 +99,7 @@ def parse_linear(tracer, grad_fn, module2name, param2module, cur_path,
         visited[name] = True
         tracer.backward_trace(parent, module2name, param2module, cur_path,
                               result_paths, visited, shared_module)
+    cur_path.pop(-1)
 
 
 def parse_cat(tracer, grad_fn, module2name, param2module, cur_path,
-- 
2.43.0


From f4d3f33f2679271fd0c8142b54ecd7f291d7492b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:42 +0000
Subject: [PATCH 046/108] fix: unrelated concat operations are merged when the
 ids of their inputs are reused

---
 mmrazor/models/task_modules/tracer/parsers.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mmrazor/models/task_modules/tracer/parsers.py b/mmrazor/models/task_modules/tracer/parsers.py
index 9b440fc..95c8cc1 100644
--- a/mmrazor/models/task_modules/tracer/parsers.py
+++ b/mmrazor/models/task_modules/tracer/parsers.py
@@ -119,13 +119,11 @@ def parse_cat(tracer, grad_fn, module2name, param2module, cur_path,
         >>> # ``out`` is obtained by concatenating two tensors
     """
     parents = grad_fn.next_functions
-    concat_id = '_'.join([str(id(p)) for p in parents])
-    concat_id_list = [str(id(p)) for p in parents]
-    concat_id_list.sort()
-    concat_id = '_'.join(concat_id_list)
-    name = f'concat_{concat_id}'
+    # The id only identifies this concat operation as long as ``grad_fn`` is
+    # alive, so ``visited`` keeps a reference to it.
+    name = f'concat_{id(grad_fn)}'
 
-    visited[name] = True
+    visited[name] = grad_fn
     sub_path_lists = list()
     for _, parent in enumerate(parents):
         sub_path_list = PathList()
-- 
2.43.0


From 21c5125c9713469956c6d582bae9a69be0303f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:10 +0000
Subject: [PATCH 047/108] fix: use the exact target structure at the last
 pruning step

---
 mmrazor/models/algorithms/pruning/ite_prune_algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/algorithms/pruning/ite_prune_algorithm.py b/mmrazor/models/algorithms/pruning/ite_prune_algorithm.py
index 937aaa1..76ff8e5 100644
--- a/mmrazor/models/algorithms/pruning/ite_prune_algorithm.py
+++ b/mmrazor/models/algorithms/pruning/ite_prune_algorithm.py
@@ -63,7 +63,7 @@ class ItePruneConfigManager:
         ratio = times / self.prune_times
 
         for key in self.target:
-            if self.linear_schedule:
+            if self.linear_schedule and times < self.prune_times:
                 # TO DO: add scheduler for more pruning rate schedule
                 prune_current[key] = (self.target[key] - self.supernet[key]
                                       ) * ratio + self.supernet[key]
-- 
2.43.0


From a672fa8a0d1ef256ab27cfe209587d8159d8c7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:32 +0000
Subject: [PATCH 048/108] fix: compare DMCP's expected flops with its target in
 the same unit

---
 mmrazor/models/algorithms/pruning/dmcp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/algorithms/pruning/dmcp.py b/mmrazor/models/algorithms/pruning/dmcp.py
index 043cf9a..6da30ff 100644
--- a/mmrazor/models/algorithms/pruning/dmcp.py
+++ b/mmrazor/models/algorithms/pruning/dmcp.py
@@ -269,10 +269,10 @@ class DMCP(BaseAlgorithm):
             else:
                 ratio = 1.0
             # piecewise log function
-            lower_flops = self.target_flops * 0.95
+            lower_flops = self.target_flops * 1e6 * 0.95
             if expected_flops < lower_flops:
                 floss = torch.log(ratio * abs(flops_error))
-            elif (lower_flops <= expected_flops < self.target_flops):
+            elif (lower_flops <= expected_flops < self.target_flops * 1e6):
                 floss = expected_flops * 0
             else:
                 floss = (
-- 
2.43.0


From 3798e4c401148337ecc492582fb6ebee86c4f5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 049/108] fix: choose the least important unit however large
 importance is

---
 mmrazor/implementations/pruning/group_fisher/mutator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/mutator.py b/mmrazor/implementations/pruning/group_fisher/mutator.py
index d9e521a..b7b7ff3 100644
--- a/mmrazor/implementations/pruning/group_fisher/mutator.py
+++ b/mmrazor/implementations/pruning/group_fisher/mutator.py
@@ -56,7 +56,7 @@ class GroupFisherChannelMutator(ChannelMutator[GroupFisherChannelUnit]):
     def try_prune(self) -> None:
         """Prune the channel with the minimum fisher unless it is the last
         channel of the current layer."""
-        min_imp = 1e5
+        min_imp = float('inf')
         min_unit = self.mutable_units[0]
         for unit in self.mutable_units:
             if unit.mutable_channel.activated_channels > 1:
-- 
2.43.0


From 8f64b0bd10020f4e126cf8f4149bd422176dea99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 050/108] fix: record the gradient of the input, not of the
 bias, of a linear layer

---
 mmrazor/implementations/pruning/group_fisher/ops.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/ops.py b/mmrazor/implementations/pruning/group_fisher/ops.py
index 35dbbd7..4e674e3 100644
--- a/mmrazor/implementations/pruning/group_fisher/ops.py
+++ b/mmrazor/implementations/pruning/group_fisher/ops.py
@@ -31,10 +31,16 @@ class GroupFisherMixin:
         """Wrap the hook used in backward."""
 
         def backward_hook(module: GroupFisherMixin, grad_in, grad_out):
-            module.recorded_grad.insert(0, grad_in[0])
+            module.recorded_grad.insert(0, grad_in[module.grad_in_index])
 
         return backward_hook
 
+    @property
+    def grad_in_index(self) -> int:
+        """Position of the gradient of the input in what a backward hook of
+        the module receives."""
+        return 0
+
     def start_record(self: torch.nn.Module) -> None:
         """Start recording information during forward and backward."""
         self.end_record()  # ensure to run start_record only once
@@ -132,6 +138,11 @@ class GroupFisherLinear(DynamicLinear, GroupFisherMixin):
         super().__init__(*args, **kwargs)
         self._init()
 
+    @property
+    def grad_in_index(self) -> int:
+        """``addmm`` takes the bias before the input."""
+        return 0 if self.bias is None else 1
+
     @property
     def delta_flop_of_a_out_channel(self):
         """Calculate the summation of flops when prune an out_channel."""
-- 
2.43.0


From 76acda0421b0ed34ec9515ec61d2c4da5dde36bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 051/108] fix: synchronize gradients in distributed group
 fisher pruning

---
 .../pruning/group_fisher/algorithm.py                | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/algorithm.py b/mmrazor/implementations/pruning/group_fisher/algorithm.py
index a90b406..828024e 100644
--- a/mmrazor/implementations/pruning/group_fisher/algorithm.py
+++ b/mmrazor/implementations/pruning/group_fisher/algorithm.py
@@ -60,10 +60,14 @@ class GroupFisherAlgorithm(BaseAlgorithm):
                    optim_wrapper) -> Dict[str, torch.Tensor]:
         return self._train_step(data, optim_wrapper)
 
-    def _train_step(self, data: Union[dict, tuple, list], optim_wrapper):
+    def _train_step(self,
+                    data: Union[dict, tuple, list],
+                    optim_wrapper,
+                    train_step=None):
         """Train step function for GroupFisherAlgorithm and GroupFisherDDP."""
         self.mutator.start_record_info()
-        res = super().train_step(data, optim_wrapper)
+        train_step = train_step or super().train_step
+        res = train_step(data, optim_wrapper)
         self.mutator.end_record_info()
 
         self.mutator.update_imp()
@@ -83,4 +87,6 @@ class GroupFisherDDP(MMDistributedDataParallel):
     def train_step(self, data: Union[dict, tuple, list],
                    optim_wrapper) -> Dict[str, torch.Tensor]:
         algorithm = self.module
-        return GroupFisherAlgorithm._train_step(algorithm, data, optim_wrapper)
+        # run the wrapped step, which synchronizes gradients
+        return GroupFisherAlgorithm._train_step(algorithm, data, optim_wrapper,
+                                                super().train_step)
-- 
2.43.0


From c44d7eaac0681132f06007e1bd8a8c873ae3b3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 052/108] fix: count the flops of a linear layer without
 mutable out_channels

---
 mmrazor/implementations/pruning/group_fisher/ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/ops.py b/mmrazor/implementations/pruning/group_fisher/ops.py
index 4e674e3..b6617c9 100644
--- a/mmrazor/implementations/pruning/group_fisher/ops.py
+++ b/mmrazor/implementations/pruning/group_fisher/ops.py
@@ -152,8 +152,8 @@ class GroupFisherLinear(DynamicLinear, GroupFisherMixin):
     @property
     def delta_flop_of_a_in_channel(self):
         """Calculate the summation of flops when prune an in_channel."""
-        out_c = self.mutable_attrs['out_channels'].current_mask.float().sum()
-        return out_c * len(self.recorded_out_shape)
+        # the last layer of a model has no mutable out_channels
+        return sum(shape[-1] for shape in self.recorded_out_shape)
 
     @property
     def delta_memory_of_a_out_channel(self):
-- 
2.43.0


From 725d966406076ed4af3344c6ae9f7d984d78258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:12 +0000
Subject: [PATCH 053/108] fix: count the bias of a transposed convolution at
 every output position

---
 .../estimators/counters/op_counters/deconv_layer_counter.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py
index 0426fbb..646365a 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py
@@ -32,7 +32,7 @@ class ConvTranspose2dCounter(BaseCounter):
         bias_flops = 0
         if module.bias is not None:
             output_height, output_width = output.shape[2:]
-            bias_flops = out_channels * batch_size * output_height * output_height  # noqa: E501
+            bias_flops = out_channels * batch_size * output_height * output_width  # noqa: E501
         overall_flops = overall_conv_flops + bias_flops
 
         module.__flops__ += int(overall_flops)
-- 
2.43.0


From fae2f25f77402f0faee0b0dda204b46f21225ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:12 +0000
Subject: [PATCH 054/108] fix: count upsampling for every sample of the batch

---
 .../estimators/counters/op_counters/upsample_layer_counter.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
index 12958b6..30a0a9a 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
@@ -11,7 +11,7 @@ class UpsampleCounter(BaseCounter):
     @staticmethod
     def add_count_hook(module, input, output):
         """Calculate FLOPs and params based on the size of input & output."""
-        output_size = output[0]
+        output_size = output
         batch_size = output_size.shape[0]
         output_elements_count = batch_size
         for val in output_size.shape[1:]:
-- 
2.43.0


From 9ddc12833241e47cb5f6126f3fde8beef2797f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:42 +0000
Subject: [PATCH 055/108] fix: count UpsamplingNearest2d and
 UpsamplingBilinear2d

---
 .../estimators/counters/op_counters/__init__.py      |  7 +++++--
 .../counters/op_counters/upsample_layer_counter.py   | 12 ++++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/__init__.py b/mmrazor/models/task_modules/estimators/counters/op_counters/__init__.py
index 5226a70..7035bd7 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/__init__.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/__init__.py
@@ -12,7 +12,9 @@ from .norm_layer_counter import (BatchNorm1dCounter, BatchNorm2dCounter,
                                  InstanceNorm2dCounter, InstanceNorm3dCounter,
                                  LayerNormCounter)
 from .pooling_layer_counter import *  # noqa: F403, F405, F401
-from .upsample_layer_counter import UpsampleCounter
+from .upsample_layer_counter import (UpsampleCounter,
+                                     UpsamplingBilinear2dCounter,
+                                     UpsamplingNearest2dCounter)
 
 __all__ = [
     'ReLUCounter', 'PReLUCounter', 'ELUCounter', 'LeakyReLUCounter',
@@ -21,5 +23,6 @@ __all__ = [
     'ConvTranspose2dCounter', 'UpsampleCounter', 'LinearCounter',
     'GroupNormCounter', 'InstanceNorm1dCounter', 'InstanceNorm2dCounter',
     'InstanceNorm3dCounter', 'LayerNormCounter', 'BaseCounter',
-    'DMCPBatchNorm2dCounter', 'DynamicConv2dCounter', 'DynamicLinearCounter'
+    'DMCPBatchNorm2dCounter', 'DynamicConv2dCounter', 'DynamicLinearCounter',
+    'UpsamplingNearest2dCounter', 'UpsamplingBilinear2dCounter'
 ]
diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
index 30a0a9a..7171ac1 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
@@ -18,3 +18,15 @@ class UpsampleCounter(BaseCounter):
             output_elements_count *= val
         module.__flops__ += int(output_elements_count)
         module.__params__ += get_model_parameters_number(module)
+
+
+@TASK_UTILS.register_module()
+class UpsamplingNearest2dCounter(UpsampleCounter):
+    """FLOPs/params counter for UpsamplingNearest2d module."""
+    pass
+
+
+@TASK_UTILS.register_module()
+class UpsamplingBilinear2dCounter(UpsampleCounter):
+    """FLOPs/params counter for UpsamplingBilinear2d module."""
+    pass
-- 
2.43.0


From 80058dd6657e31150fa94f5c7dca6cdf8a4faa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:42 +0000
Subject: [PATCH 056/108] fix: count a dynamic depthwise convolution on its
 active channels

---
 .../estimators/counters/op_counters/conv_layer_counter.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
index d410e39..926f388 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
@@ -93,6 +93,9 @@ class DynamicConv2dCounter(ConvCounter):
             in_channels = module.in_channels
 
         groups = module.groups
+        if groups == module.in_channels == module.out_channels:
+            # a depthwise convolution stays depthwise on the active channels
+            groups = in_channels
 
         filters_per_channel = out_channels / groups
         conv_per_position_flops = \
-- 
2.43.0


From 812c170458d1b8990885e27ef9d49ee1b6efa35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:42 +0000
Subject: [PATCH 057/108] fix: count every kind of dynamic convolution on its
 active slice

---
 .../op_counters/conv_layer_counter.py         | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
index 926f388..bc21bcb 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
@@ -75,6 +75,10 @@ class DynamicConv2dCounter(ConvCounter):
         output_dims = list(output.shape[2:])
 
         kernel_dims = list(module.kernel_size)
+        if 'kernel_size' in module.mutable_attrs:
+            kernel_size = module.get_current_choice(
+                module.mutable_attrs['kernel_size'])
+            kernel_dims = [kernel_size] * len(kernel_dims)
 
         if 'out_channels' in module.mutable_attrs:
             out_channels = module.mutable_attrs[
@@ -116,3 +120,27 @@ class DynamicConv2dCounter(ConvCounter):
 
         module.__flops__ += overall_flops
         module.__params__ += int(overall_params)
+
+
+@TASK_UTILS.register_module()
+class BigNasConv2dCounter(DynamicConv2dCounter):
+    """FLOPs/params counter for BigNasConv2d module."""
+    pass
+
+
+@TASK_UTILS.register_module()
+class OFAConv2dCounter(DynamicConv2dCounter):
+    """FLOPs/params counter for OFAConv2d module."""
+    pass
+
+
+@TASK_UTILS.register_module()
+class FuseConv2dCounter(DynamicConv2dCounter):
+    """FLOPs/params counter for FuseConv2d module."""
+    pass
+
+
+@TASK_UTILS.register_module()
+class DynamicConv2dAdaptivePaddingCounter(DynamicConv2dCounter):
+    """FLOPs/params counter for DynamicConv2dAdaptivePadding module."""
+    pass
-- 
2.43.0


From 595fc9654159debf7fdcd80fb33a8dd9bbc63099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:42 +0000
Subject: [PATCH 058/108] fix: count the parameters of a dynamic linear layer
 on its active features

---
 .../counters/op_counters/linear_layer_counter.py     | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/linear_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/linear_layer_counter.py
index 80c024c..26fb200 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/linear_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/linear_layer_counter.py
@@ -22,4 +22,14 @@ class LinearCounter(BaseCounter):
 
 @TASK_UTILS.register_module()
 class DynamicLinearCounter(LinearCounter):
-    pass
+    """FLOPs/params counter for DynamicLinear module."""
+
+    @staticmethod
+    def add_count_hook(module, input, output):
+        """Calculate FLOPs and params based on the active features."""
+        in_features = input[0].shape[-1]
+        out_features = output.shape[-1]
+        module.__flops__ += int(np.prod(input[0].shape) * out_features)
+        module.__params__ += in_features * out_features
+        if module.bias is not None:
+            module.__params__ += out_features
-- 
2.43.0


From e6e50c95131876e0723f7beeb8a7085a27ef8799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:42 +0000
Subject: [PATCH 059/108] fix: estimate with the settings of the estimator when
 none are given

---
 .../models/task_modules/estimators/resource_estimator.py    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/task_modules/estimators/resource_estimator.py b/mmrazor/models/task_modules/estimators/resource_estimator.py
index ac5292d..9e40311 100644
--- a/mmrazor/models/task_modules/estimators/resource_estimator.py
+++ b/mmrazor/models/task_modules/estimators/resource_estimator.py
@@ -123,7 +123,8 @@ class ResourceEstimator(BaseEstimator):
             flops_params_cfg = self._set_default_resource_params(
                 flops_params_cfg)
         else:
-            flops_params_cfg = self.flops_params_cfg
+            flops_params_cfg = self._set_default_resource_params(
+                {**self.flops_params_cfg})
 
         if latency_cfg:
             latency_cfg = {**self.latency_cfg, **latency_cfg}
@@ -168,7 +169,8 @@ class ResourceEstimator(BaseEstimator):
             flops_params_cfg = self._set_default_resource_params(
                 flops_params_cfg)
         else:
-            flops_params_cfg = self.flops_params_cfg
+            flops_params_cfg = self._set_default_resource_params(
+                {**self.flops_params_cfg})
         flops_params_cfg['seperate_return'] = True
 
         assert len(flops_params_cfg['spec_modules']), (
-- 
2.43.0


From 1c6ada323d88151cfbe02806bfc8e2db670192e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:42 +0000
Subject: [PATCH 060/108] fix: pass the unit of latency under the name
 get_model_latency expects

---
 mmrazor/models/task_modules/estimators/resource_estimator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmrazor/models/task_modules/estimators/resource_estimator.py b/mmrazor/models/task_modules/estimators/resource_estimator.py
index 9e40311..17c63e5 100644
--- a/mmrazor/models/task_modules/estimators/resource_estimator.py
+++ b/mmrazor/models/task_modules/estimators/resource_estimator.py
@@ -130,6 +130,8 @@ class ResourceEstimator(BaseEstimator):
             latency_cfg = {**self.latency_cfg, **latency_cfg}
             self._check_latency_cfg(latency_cfg)
             latency_cfg = self._set_default_resource_params(latency_cfg)
+            units = latency_cfg.pop('units')
+            latency_cfg.setdefault('unit', units.get('latency', 'ms'))
         else:
             latency_cfg = self.latency_cfg
 
-- 
2.43.0


From c356ef96fd8da9cebc969e26afdc8d65e536c10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:42 +0000
Subject: [PATCH 061/108] fix: accumulate the resources of a shared module once

---
 .../estimators/counters/flops_params_counter.py             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
index 4a3e44d..7b25854 100644
--- a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
@@ -334,9 +334,9 @@ def accumulate_sub_module_flops_params(model, units=None):
                 sum += accumulate_flops(m)
             return sum
 
-    for module in model.modules():
-        _flops = accumulate_flops(module)
-        _params = accumulate_params(module)
+    resources = [(module, accumulate_flops(module), accumulate_params(module))
+                 for module in model.modules()]
+    for module, _flops, _params in resources:
         module.__flops__ = _flops
         module.__params__ = _params
         if units is not None:
-- 
2.43.0


From bf88ff756dc2e7759b06d9da4955e5bc29a3cc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 062/108] fix: count the parameters of a dynamic layer norm on
 its active channels

---
 .../counters/op_counters/norm_layer_counter.py      | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py
index 54f3f26..6fb4a48 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py
@@ -62,6 +62,19 @@ class LayerNormCounter(BNCounter):
     pass
 
 
+@TASK_UTILS.register_module()
+class DynamicLayerNormCounter(LayerNormCounter):
+    """FLOPs/params counter for DynamicLayerNorm module."""
+
+    @staticmethod
+    def add_count_hook(module, input, output):
+        """Calculate FLOPs and params based on the active channels."""
+        module.__flops__ += int(np.prod(input[0].shape))
+        for param in module.get_dynamic_params():
+            if param is not None:
+                module.__params__ += param.numel()
+
+
 @TASK_UTILS.register_module()
 class GroupNormCounter(BNCounter):
     """FLOPs/params counter for GroupNorm module."""
-- 
2.43.0


From aa0ce0e4ce257d506e249278906f72bd64f6f6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:16 +0000
Subject: [PATCH 063/108] fix: restore the training mode of the estimated model

---
 mmrazor/models/task_modules/estimators/resource_estimator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mmrazor/models/task_modules/estimators/resource_estimator.py b/mmrazor/models/task_modules/estimators/resource_estimator.py
index 17c63e5..cb580af 100644
--- a/mmrazor/models/task_modules/estimators/resource_estimator.py
+++ b/mmrazor/models/task_modules/estimators/resource_estimator.py
@@ -135,6 +135,7 @@ class ResourceEstimator(BaseEstimator):
         else:
             latency_cfg = self.latency_cfg
 
+        training = model.training
         model.eval()
         flops, params = get_model_flops_params(model, **flops_params_cfg)
         if measure_latency:
@@ -142,6 +143,8 @@ class ResourceEstimator(BaseEstimator):
         else:
             latency = '0.0 ms' if self.as_strings else 0.0  # type: ignore
 
+        model.train(training)
+
         resource_metrics.update({
             'flops': flops,
             'params': params,
@@ -179,9 +182,11 @@ class ResourceEstimator(BaseEstimator):
             'spec_modules can not be empty when calling '
             f'`estimate_separation_modules` of {self.__class__.__name__} ')
 
+        training = model.training
         model.eval()
         spec_modules_resources = get_model_flops_params(
             model, **flops_params_cfg)
+        model.train(training)
         return spec_modules_resources
 
     def _check_flops_params_cfg(self, flops_params_cfg: dict) -> None:
-- 
2.43.0


From 636f6e03fade4d1a025bb3c80e8f05ade1eb302e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:07 +0000
Subject: [PATCH 064/108] fix: apply the loss weight of CRDLoss

---
 mmrazor/models/losses/crd_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/losses/crd_loss.py b/mmrazor/models/losses/crd_loss.py
index 4ca81aa..f99db84 100644
--- a/mmrazor/models/losses/crd_loss.py
+++ b/mmrazor/models/losses/crd_loss.py
@@ -62,7 +62,7 @@ class CRDLoss(nn.Module):
         s_loss = self.criterion_s_t(out_s)
         t_loss = self.criterion_s_t(out_t)
         loss = s_loss + t_loss
-        return loss
+        return self.loss_weight * loss
 
 
 class ContrastLoss(nn.Module):
-- 
2.43.0


From 6a52f0bbc4e1253ead1079791a96fd50d35ceeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:07 +0000
Subject: [PATCH 065/108] fix: reject a reduction the L1 loss cannot apply

---
 mmrazor/models/losses/l1_loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/losses/l1_loss.py b/mmrazor/models/losses/l1_loss.py
index 4a220bc..f423245 100644
--- a/mmrazor/models/losses/l1_loss.py
+++ b/mmrazor/models/losses/l1_loss.py
@@ -47,9 +47,9 @@ class L1Loss(nn.Module):
         self.size_average = size_average
         self.reduce = reduce
 
-        accept_reduction = {'none', 'batchmean', 'sum', 'mean'}
+        accept_reduction = {'none', 'sum', 'mean'}
         assert reduction in accept_reduction, \
-            f'KLDivergence supports reduction {accept_reduction}, ' \
+            f'L1Loss supports reduction {accept_reduction}, ' \
             f'but gets {reduction}.'
         self.reduction = reduction
 
-- 
2.43.0


From 2284755328836a2da0ffb0002a6f27a22cf8fa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:07 +0000
Subject: [PATCH 066/108] fix: reduce the decoupled distillation loss as
 configured

---
 mmrazor/models/losses/decoupled_kd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/losses/decoupled_kd.py b/mmrazor/models/losses/decoupled_kd.py
index 2aeff6a..db02ccf 100644
--- a/mmrazor/models/losses/decoupled_kd.py
+++ b/mmrazor/models/losses/decoupled_kd.py
@@ -105,7 +105,7 @@ class DKDLoss(nn.Module):
     ) -> torch.Tensor:
         """Calculate the KL Divergence."""
         kl_loss = F.kl_div(
-            preds_S, preds_T, size_average=False,
+            preds_S, preds_T,
             reduction=self.reduction) * self.tau**2
         return kl_loss
 
-- 
2.43.0


From a3db52e84d42cc28e502e0611dd8a2e22a359cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:07 +0000
Subject: [PATCH 067/108] fix: accept no reduction in the soft cross entropy
 loss

---
 mmrazor/models/losses/kd_soft_ce_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/losses/kd_soft_ce_loss.py b/mmrazor/models/losses/kd_soft_ce_loss.py
index 8ef8c23..d5ebb3b 100644
--- a/mmrazor/models/losses/kd_soft_ce_loss.py
+++ b/mmrazor/models/losses/kd_soft_ce_loss.py
@@ -51,7 +51,7 @@ class KDSoftCELoss(nn.Module):
         assert reduction in accept_reduction, \
             f'KLDivergence supports reduction {accept_reduction}, ' \
             f'but gets {reduction}.'
-        self.reduction = reduction
+        self.reduction = 'none' if reduction is None else reduction
 
     def forward(
         self,
-- 
2.43.0


From c451fe1c6fe03f80f958a1fb72e252eafc78734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:38 +0000
Subject: [PATCH 068/108] fix: reject a reduction the decoupled distillation
 loss cannot apply

---
 mmrazor/models/losses/decoupled_kd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/losses/decoupled_kd.py b/mmrazor/models/losses/decoupled_kd.py
index db02ccf..07d7f3d 100644
--- a/mmrazor/models/losses/decoupled_kd.py
+++ b/mmrazor/models/losses/decoupled_kd.py
@@ -40,7 +40,7 @@ class DKDLoss(nn.Module):
     ) -> None:
         super(DKDLoss, self).__init__()
         self.tau = tau
-        accept_reduction = {'none', 'batchmean', 'sum', 'mean'}
+        accept_reduction = {'batchmean', 'sum', 'mean'}
         assert reduction in accept_reduction, \
             f'KLDivergence supports reduction {accept_reduction}, ' \
             f'but gets {reduction}.'
-- 
2.43.0


From dce4a8614ac7a1ebb02233716e2f610bf5d3dda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 069/108] fix: enter the validation epoch of a distiller once

---
 mmrazor/engine/runner/distill_val_loop.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mmrazor/engine/runner/distill_val_loop.py b/mmrazor/engine/runner/distill_val_loop.py
index 0a86bbf..de794ef 100644
--- a/mmrazor/engine/runner/distill_val_loop.py
+++ b/mmrazor/engine/runner/distill_val_loop.py
@@ -53,7 +53,6 @@ class SingleTeacherDistillValLoop(ValLoop):
         # compute student metrics
         metrics = self.evaluator.evaluate(len(self.dataloader.dataset))
 
-        self.runner.call_hook('before_val_epoch')
         for idx, data_batch in enumerate(self.dataloader):
             self.run_iter_teacher(idx, data_batch)
         # compute teacher metrics
-- 
2.43.0


From 3ac5dbe7eae6be97255169e20b8284ad1d3afe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 070/108] fix: enter the validation epoch of slimmable networks
 once

---
 mmrazor/engine/runner/slimmable_val_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/engine/runner/slimmable_val_loop.py b/mmrazor/engine/runner/slimmable_val_loop.py
index d3f5e2a..16e51d7 100644
--- a/mmrazor/engine/runner/slimmable_val_loop.py
+++ b/mmrazor/engine/runner/slimmable_val_loop.py
@@ -43,8 +43,8 @@ class SlimmableValLoop(ValLoop):
         self.runner.call_hook('before_val')
 
         all_metrics = dict()
+        self.runner.call_hook('before_val_epoch')
         for subnet_idx, subnet in enumerate(self._model.mutator.subnets):
-            self.runner.call_hook('before_val_epoch')
             self.runner.model.eval()
             self._model.mutator.set_choices(subnet)
             for idx, data_batch in enumerate(self.dataloader):
-- 
2.43.0


From 7e54ef3c422612ea5a05565dc869f064ff943cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 071/108] fix: return the metrics of the validation loops

---
 mmrazor/engine/runner/distill_val_loop.py   | 2 ++
 mmrazor/engine/runner/slimmable_val_loop.py | 1 +
 mmrazor/engine/runner/subnet_val_loop.py    | 1 +
 3 files changed, 4 insertions(+)

diff --git a/mmrazor/engine/runner/distill_val_loop.py b/mmrazor/engine/runner/distill_val_loop.py
index de794ef..6f0f999 100644
--- a/mmrazor/engine/runner/distill_val_loop.py
+++ b/mmrazor/engine/runner/distill_val_loop.py
@@ -63,6 +63,7 @@ class SingleTeacherDistillValLoop(ValLoop):
 
         self.runner.call_hook('after_val_epoch', metrics=metrics)
         self.runner.call_hook('after_val')
+        return metrics
 
     @torch.no_grad()
     def run_iter_teacher(self, idx, data_batch: Sequence[dict]):
@@ -124,3 +125,4 @@ class SelfDistillValLoop(ValLoop):
 
         self.runner.call_hook('after_val_epoch', metrics=student_metrics)
         self.runner.call_hook('after_val')
+        return student_metrics
diff --git a/mmrazor/engine/runner/slimmable_val_loop.py b/mmrazor/engine/runner/slimmable_val_loop.py
index 16e51d7..ec0505b 100644
--- a/mmrazor/engine/runner/slimmable_val_loop.py
+++ b/mmrazor/engine/runner/slimmable_val_loop.py
@@ -56,3 +56,4 @@ class SlimmableValLoop(ValLoop):
         self.runner.call_hook('after_val_epoch', metrics=all_metrics)
 
         self.runner.call_hook('after_val')
+        return all_metrics
diff --git a/mmrazor/engine/runner/subnet_val_loop.py b/mmrazor/engine/runner/subnet_val_loop.py
index d61e274..4385ca2 100644
--- a/mmrazor/engine/runner/subnet_val_loop.py
+++ b/mmrazor/engine/runner/subnet_val_loop.py
@@ -80,6 +80,7 @@ class SubnetValLoop(ValLoop, CalibrateBNMixin):
 
         self.runner.call_hook('after_val_epoch', metrics=all_metrics)
         self.runner.call_hook('after_val')
+        return all_metrics
 
     def _evaluate_once(self) -> Dict:
         """Evaluate a subnet once with BN re-calibration."""
-- 
2.43.0


From ab2299f5418b5f117a9d97f8cf778cdd1ef96630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 072/108] fix: return the metrics of the quantized model as
 well

---
 mmrazor/engine/runner/quantization_loops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmrazor/engine/runner/quantization_loops.py b/mmrazor/engine/runner/quantization_loops.py
index 58d91cf..e8e2fda 100644
--- a/mmrazor/engine/runner/quantization_loops.py
+++ b/mmrazor/engine/runner/quantization_loops.py
@@ -272,17 +272,17 @@ class QATValLoop(ValLoop):
 
         # compute metrics
         metrics = self.evaluator.evaluate(len(self.dataloader.dataset))
-        qat_metrics = dict()
+        ori_metrics = dict()
         for key, value in metrics.items():
             qat_key = 'qat.' + key
             ori_key = 'original.' + key
-            qat_metrics[ori_key] = value
+            ori_metrics[ori_key] = value
             self.runner.message_hub.log_scalars.pop(f'val/{qat_key}', None)
 
-        self.runner.call_hook('after_val_epoch', metrics=qat_metrics)
+        self.runner.call_hook('after_val_epoch', metrics=ori_metrics)
 
         self.runner.call_hook('after_val')
-        return qat_metrics
+        return {**qat_metrics, **ori_metrics}
 
     @torch.no_grad()
     def run_iter(self, idx, data_batch: Sequence[dict], model):
-- 
2.43.0


From b796cfb0361ca39e3d1203b490cf14f7067f1a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 073/108] fix: keep the learned scales of a resumed LSQ run

---
 mmrazor/engine/runner/quantization_loops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmrazor/engine/runner/quantization_loops.py b/mmrazor/engine/runner/quantization_loops.py
index e8e2fda..8c2e06e 100644
--- a/mmrazor/engine/runner/quantization_loops.py
+++ b/mmrazor/engine/runner/quantization_loops.py
@@ -184,6 +184,8 @@ class LSQEpochBasedLoop(QATEpochBasedLoop):
         """Iterate one epoch."""
         self.runner.call_hook('before_train_epoch')
         self.runner.model.train()
+        # a resumed run has initialized its quantizers already
+        self.is_first_batch = self.is_first_batch and self._iter == 0
 
         for idx, data_batch in enumerate(self.dataloader):
             if self.is_first_batch:
-- 
2.43.0


From 40e7591119f0d2112e9b3f03df76c3952b9e67a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 074/108] fix: do not edit the estimator_cfg that is given

---
 mmrazor/engine/hooks/estimate_resources_hook.py      | 2 +-
 mmrazor/engine/runner/autoslim_greedy_search_loop.py | 2 +-
 mmrazor/engine/runner/evolution_search_loop.py       | 2 +-
 mmrazor/engine/runner/subnet_sampler_loop.py         | 2 +-
 mmrazor/models/algorithms/nas/dsnas.py               | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/mmrazor/engine/hooks/estimate_resources_hook.py b/mmrazor/engine/hooks/estimate_resources_hook.py
index 28f381a..d693433 100644
--- a/mmrazor/engine/hooks/estimate_resources_hook.py
+++ b/mmrazor/engine/hooks/estimate_resources_hook.py
@@ -45,7 +45,7 @@ class EstimateResourcesHook(Hook):
                  **kwargs) -> None:
         self.interval = interval
         self.by_epoch = by_epoch
-        estimator_cfg = dict() if estimator_cfg is None else estimator_cfg
+        estimator_cfg = estimator_cfg.copy() if estimator_cfg else dict()
         if 'type' not in estimator_cfg:
             estimator_cfg['type'] = 'mmrazor.ResourceEstimator'
         self.estimator = TASK_UTILS.build(estimator_cfg)
diff --git a/mmrazor/engine/runner/autoslim_greedy_search_loop.py b/mmrazor/engine/runner/autoslim_greedy_search_loop.py
index 9bc33a1..3e1e842 100644
--- a/mmrazor/engine/runner/autoslim_greedy_search_loop.py
+++ b/mmrazor/engine/runner/autoslim_greedy_search_loop.py
@@ -57,7 +57,7 @@ class AutoSlimGreedySearchLoop(TestLoop):
         self.resume_from = resume_from
 
         # initialize estimator
-        estimator_cfg = dict() if estimator_cfg is None else estimator_cfg
+        estimator_cfg = estimator_cfg.copy() if estimator_cfg else dict()
         if 'type' not in estimator_cfg:
             estimator_cfg['type'] = 'mmrazor.ResourceEstimator'
         self.estimator = TASK_UTILS.build(estimator_cfg)
diff --git a/mmrazor/engine/runner/evolution_search_loop.py b/mmrazor/engine/runner/evolution_search_loop.py
index 2595b4b..140404f 100644
--- a/mmrazor/engine/runner/evolution_search_loop.py
+++ b/mmrazor/engine/runner/evolution_search_loop.py
@@ -120,7 +120,7 @@ class EvolutionSearchLoop(EpochBasedTrainLoop, CalibrateBNMixin):
             self.model = runner.model
 
         # initialize estimator
-        estimator_cfg = dict() if estimator_cfg is None else estimator_cfg
+        estimator_cfg = estimator_cfg.copy() if estimator_cfg else dict()
         if 'type' not in estimator_cfg:
             estimator_cfg['type'] = 'mmrazor.ResourceEstimator'
         self.estimator = TASK_UTILS.build(estimator_cfg)
diff --git a/mmrazor/engine/runner/subnet_sampler_loop.py b/mmrazor/engine/runner/subnet_sampler_loop.py
index b84224d..5ec3259 100644
--- a/mmrazor/engine/runner/subnet_sampler_loop.py
+++ b/mmrazor/engine/runner/subnet_sampler_loop.py
@@ -176,7 +176,7 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
         self.top_k_candidates = Candidates()
 
         # initialize estimator
-        estimator_cfg = dict() if estimator_cfg is None else estimator_cfg
+        estimator_cfg = estimator_cfg.copy() if estimator_cfg else dict()
         if 'type' not in estimator_cfg:
             estimator_cfg['type'] = 'mmrazor.ResourceEstimator'
         self.estimator = TASK_UTILS.build(estimator_cfg)
diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index 139f680..86af50c 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -66,7 +66,7 @@ class DSNAS(BaseAlgorithm):
         super().__init__(architecture, data_preprocessor, init_cfg)
 
         # initialize estimator
-        estimator_cfg = dict() if estimator_cfg is None else estimator_cfg
+        estimator_cfg = estimator_cfg.copy() if estimator_cfg else dict()
         if 'type' not in estimator_cfg:
             estimator_cfg['type'] = 'mmrazor.ResourceEstimator'
         self.estimator = TASK_UTILS.build(estimator_cfg)
-- 
2.43.0


From 2adbc1f5a4342120805e49942c96b121d8391316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 075/108] fix: do not edit the predictor_cfg that is given

---
 mmrazor/engine/runner/evolution_search_loop.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmrazor/engine/runner/evolution_search_loop.py b/mmrazor/engine/runner/evolution_search_loop.py
index 140404f..556e082 100644
--- a/mmrazor/engine/runner/evolution_search_loop.py
+++ b/mmrazor/engine/runner/evolution_search_loop.py
@@ -129,6 +129,7 @@ class EvolutionSearchLoop(EpochBasedTrainLoop, CalibrateBNMixin):
         self.use_predictor = False
         self.predictor_cfg = predictor_cfg
         if self.predictor_cfg is not None:
+            self.predictor_cfg = self.predictor_cfg.copy()
             self.predictor_cfg['score_key'] = self.score_key
             self.predictor_cfg['search_groups'] = \
                 self.model.mutator.search_groups
-- 
2.43.0


From 21e8335f8d03cc8b839261f94f598a9a8fb25e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 076/108] fix: do not extend the function records of the
 deploy_cfg

---
 mmrazor/models/algorithms/quantization/mm_architecture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/algorithms/quantization/mm_architecture.py b/mmrazor/models/algorithms/quantization/mm_architecture.py
index ce6d926..6d20f3c 100644
--- a/mmrazor/models/algorithms/quantization/mm_architecture.py
+++ b/mmrazor/models/algorithms/quantization/mm_architecture.py
@@ -247,8 +247,8 @@ class MMArchitectureQuant(BaseAlgorithm):
                 mmdeploy.
         """
         skipped_methods = getattr(self.quantizer.tracer, 'skipped_methods', [])
-        function_record_to_pop = self.deploy_cfg.get('function_record_to_pop',
-                                                     [])
+        function_record_to_pop = list(
+            self.deploy_cfg.get('function_record_to_pop', []))
         function_record_to_pop.extend(skipped_methods)
         return pop_rewriter_function_record(rewriter_context,
                                             function_record_to_pop)
-- 
2.43.0


From 0fa8635e640ea9f89249659b2cba2da3676dc742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 077/108] fix: do not edit the configs a darts Node is given

---
 mmrazor/models/architectures/backbones/darts_backbone.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmrazor/models/architectures/backbones/darts_backbone.py b/mmrazor/models/architectures/backbones/darts_backbone.py
index a2c4f06..40e4416 100644
--- a/mmrazor/models/architectures/backbones/darts_backbone.py
+++ b/mmrazor/models/architectures/backbones/darts_backbone.py
@@ -123,6 +123,7 @@ class Node(nn.Module):
                  num_downsample_nodes: int, mutable_cfg: Dict,
                  route_cfg: Dict) -> None:
         super().__init__()
+        mutable_cfg, route_cfg = mutable_cfg.copy(), route_cfg.copy()
         edges = nn.ModuleDict()
         for i in range(num_prev_nodes):
             stride = 2 if i < num_downsample_nodes else 1
-- 
2.43.0


From 1e23d0c4aaacb68d264fcd795e2594f439c25d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 078/108] fix: do not pop from the act_cfg_list that is given

---
 .../models/architectures/backbones/searchable_mobilenet_v3.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/architectures/backbones/searchable_mobilenet_v3.py b/mmrazor/models/architectures/backbones/searchable_mobilenet_v3.py
index b5fe373..d1c9986 100644
--- a/mmrazor/models/architectures/backbones/searchable_mobilenet_v3.py
+++ b/mmrazor/models/architectures/backbones/searchable_mobilenet_v3.py
@@ -110,7 +110,7 @@ class AttentiveMobileNetV3(BaseBackbone):
         self.fine_grained_mode = fine_grained_mode
         self.with_attentive_shortcut = with_attentive_shortcut
 
-        self.act_cfg_list = act_cfg_list if act_cfg_list \
+        self.act_cfg_list = list(act_cfg_list) if act_cfg_list \
             else ['Swish'] * 9
         self.stride_list = stride_list if stride_list \
             else [1, 2, 2, 2, 1, 2, 1]
-- 
2.43.0


From cfb647fbc5d23327205dc4b9e00cb4dabcc0f910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 079/108] fix: do not write to the args (or their default) of a
 channel unit

---
 mmrazor/models/mutables/mutable_channel/units/channel_unit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/mutable_channel/units/channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/channel_unit.py
index e730245..bf58ca4 100644
--- a/mmrazor/models/mutables/mutable_channel/units/channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/channel_unit.py
@@ -171,7 +171,7 @@ class ChannelUnit(BaseModule):
                                unit: 'ChannelUnit',
                                args: Dict = {}) -> 'ChannelUnit':
         """Initial a object of current class from a ChannelUnit object."""
-        args['num_channels'] = unit.num_channels
+        args = dict(args, num_channels=unit.num_channels)
         mutable_unit = cls(**args)
         mutable_unit.input_related = unit.input_related
         mutable_unit.output_related = unit.output_related
-- 
2.43.0


From 9039d22657ba3b76d01f96c163ef65dcd5a62f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 080/108] fix: do not write module_kwargs into the given
 candidates

---
 mmrazor/models/mutables/mutable_module/diff_mutable_module.py    | 1 +
 .../models/mutables/mutable_module/one_shot_mutable_module.py    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
index 308150f..141dbcf 100644
--- a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
@@ -148,6 +148,7 @@ class DiffMutableOP(DiffMutableModule):
         for name, op_cfg in candidates.items():
             assert name not in ops
             if module_kwargs is not None:
+                op_cfg = op_cfg.copy()
                 op_cfg.update(module_kwargs)
             ops[name] = MODELS.build(op_cfg)
         return ops
diff --git a/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py b/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
index e4929dc..304723c 100644
--- a/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
@@ -173,6 +173,7 @@ class OneShotMutableOP(OneShotMutableModule):
         for name, op_cfg in candidates.items():
             assert name not in ops
             if module_kwargs is not None:
+                op_cfg = op_cfg.copy()
                 op_cfg.update(module_kwargs)
             ops[name] = MODELS.build(op_cfg)
         return ops
-- 
2.43.0


From 0b192bfdf67c6ad5d580ee38cb8b9aca18b45f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 081/108] fix: keep _return_architecture_ in the config that is
 built

---
 mmrazor/registry/registry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmrazor/registry/registry.py b/mmrazor/registry/registry.py
index 7f915ee..18dacc6 100644
--- a/mmrazor/registry/registry.py
+++ b/mmrazor/registry/registry.py
@@ -45,6 +45,7 @@ def build_razor_model_from_cfg(
 
     return_architecture = False
     if cfg.get('_return_architecture_', None):
+        cfg = cfg.copy()
         return_architecture = cfg.pop('_return_architecture_')
     razor_model = build_from_cfg(cfg, registry, default_args)
     if return_architecture:
-- 
2.43.0


From 68c4ed1b3d3c39411ef8f2f85aec36ecf3bb55f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 082/108] fix: do not edit the unit and parse configs of a
 channel mutator

---
 .../mutators/channel_mutator/channel_mutator.py      | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/mmrazor/models/mutators/channel_mutator/channel_mutator.py b/mmrazor/models/mutators/channel_mutator/channel_mutator.py
index 128f08d..233ce54 100644
--- a/mmrazor/models/mutators/channel_mutator/channel_mutator.py
+++ b/mmrazor/models/mutators/channel_mutator/channel_mutator.py
@@ -288,8 +288,8 @@ class ChannelMutator(BaseMutator, Generic[ChannelUnitType]):
             default_unit_args = channel_unit_cfg[
                 'default_args'] if 'default_args' in channel_unit_cfg else {}
 
-            unit_init_cfg = channel_unit_cfg[
-                'units'] if 'units' in channel_unit_cfg else {}
+            unit_init_cfg = copy.deepcopy(
+                channel_unit_cfg.get('units', {}))
             if isinstance(unit_init_cfg, str):
                 # load config file
                 unit_init_cfg = fileio.load(unit_init_cfg)
@@ -323,14 +323,12 @@ class ChannelMutator(BaseMutator, Generic[ChannelUnitType]):
         """Initialize units using config dict."""
         assert isinstance(self.channel_unit_cfg, dict)
         assert 'units' in self.channel_unit_cfg
-        config = self.channel_unit_cfg['units']
-        if isinstance(config, str):
-            config = fileio.load(config)
         assert isinstance(config, dict)
 
         if 'Analyzer' in self.parse_cfg['type']:
-            self.parse_cfg.pop('from_cfg')
-            tracer = TASK_UTILS.build(self.parse_cfg)
+            parse_cfg = self.parse_cfg.copy()
+            parse_cfg.pop('from_cfg')
+            tracer = TASK_UTILS.build(parse_cfg)
             unit_configs = tracer.analyze(model)
 
         units = []
-- 
2.43.0


From d368067c2156d6a383559482a8abeb4ba60b7c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 083/108] fix: find all fake quantizers to remove before
 removing any

---
 .../task_modules/tracer/fx/graph_utils.py     | 60 +++++++++----------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/mmrazor/models/task_modules/tracer/fx/graph_utils.py b/mmrazor/models/task_modules/tracer/fx/graph_utils.py
index ca12917..5845963 100644
--- a/mmrazor/models/task_modules/tracer/fx/graph_utils.py
+++ b/mmrazor/models/task_modules/tracer/fx/graph_utils.py
@@ -94,18 +94,18 @@ def del_fakequant_before_op(prepared_model,
     if not inplace:
         prepared_model = copy.deepcopy(prepared_model)
     new_graph = copy.deepcopy(prepared_model.graph)
+    nodes_to_erase: List[Node] = []
     for node in new_graph.nodes:
         if node.op in target_ops:
-            nodes_to_erase: List[Node] = recursive_find_erased_nodes(
-                node, prepared_model)
-            for to_erase in nodes_to_erase:
-                assert to_erase.op == 'call_module' and isinstance(
-                    _get_attrs(prepared_model, to_erase.target),
-                    FakeQuantizeBase) and len(to_erase.args) == 1
-                to_erase.replace_all_uses_with(to_erase.args[0])
-                new_graph.erase_node(to_erase)
-                delattr(prepared_model, to_erase.target)
-
+            nodes_to_erase.extend(
+                recursive_find_erased_nodes(node, prepared_model))
+    for to_erase in dict.fromkeys(nodes_to_erase):
+        assert to_erase.op == 'call_module' and isinstance(
+            _get_attrs(prepared_model, to_erase.target),
+            FakeQuantizeBase) and len(to_erase.args) == 1
+        to_erase.replace_all_uses_with(to_erase.args[0])
+        new_graph.erase_node(to_erase)
+        delattr(prepared_model, to_erase.target)
     new_graph.lint()
     prepared_model.graph = new_graph
     return prepared_model
@@ -172,18 +172,18 @@ def del_fakequant_before_method(prepared_model,
     if not inplace:
         prepared_model = copy.deepcopy(prepared_model)
     new_graph = copy.deepcopy(prepared_model.graph)
+    nodes_to_erase: List[Node] = []
     for node in new_graph.nodes:
         if node.op == 'call_method' and node.target in method_patterns:
-            nodes_to_erase: List[Node] = recursive_find_erased_nodes(
-                node, prepared_model)
-            for to_erase in nodes_to_erase:
-                assert to_erase.op == 'call_module' and isinstance(
-                    _get_attrs(prepared_model, to_erase.target),
-                    FakeQuantizeBase) and len(to_erase.args) == 1
-                to_erase.replace_all_uses_with(to_erase.args[0])
-                new_graph.erase_node(to_erase)
-                delattr(prepared_model, to_erase.target)
-
+            nodes_to_erase.extend(
+                recursive_find_erased_nodes(node, prepared_model))
+    for to_erase in dict.fromkeys(nodes_to_erase):
+        assert to_erase.op == 'call_module' and isinstance(
+            _get_attrs(prepared_model, to_erase.target),
+            FakeQuantizeBase) and len(to_erase.args) == 1
+        to_erase.replace_all_uses_with(to_erase.args[0])
+        new_graph.erase_node(to_erase)
+        delattr(prepared_model, to_erase.target)
     new_graph.lint()
     prepared_model.graph = new_graph
     return prepared_model
@@ -251,18 +251,18 @@ def del_fakequant_before_function(prepared_model,
     if not inplace:
         prepared_model = copy.deepcopy(prepared_model)
     new_graph = copy.deepcopy(prepared_model.graph)
+    nodes_to_erase: List[Node] = []
     for node in new_graph.nodes:
         if node.op == 'call_function' and node.target in function_patterns:
-            nodes_to_erase: List[Node] = recursive_find_erased_nodes(
-                node, prepared_model)
-            for to_erase in nodes_to_erase:
-                assert to_erase.op == 'call_module' and isinstance(
-                    _get_attrs(prepared_model, to_erase.target),
-                    FakeQuantizeBase) and len(to_erase.args) == 1
-                to_erase.replace_all_uses_with(to_erase.args[0])
-                new_graph.erase_node(to_erase)
-                delattr(prepared_model, to_erase.target)
-
+            nodes_to_erase.extend(
+                recursive_find_erased_nodes(node, prepared_model))
+    for to_erase in dict.fromkeys(nodes_to_erase):
+        assert to_erase.op == 'call_module' and isinstance(
+            _get_attrs(prepared_model, to_erase.target),
+            FakeQuantizeBase) and len(to_erase.args) == 1
+        to_erase.replace_all_uses_with(to_erase.args[0])
+        new_graph.erase_node(to_erase)
+        delattr(prepared_model, to_erase.target)
     new_graph.lint()
     prepared_model.graph = new_graph
     return prepared_model
-- 
2.43.0


From 55aac84e498dc207c8fa62c2744075272e0123ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 084/108] fix: skip empty submodules in sync_qparams

---
 mmrazor/models/algorithms/quantization/mm_architecture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/algorithms/quantization/mm_architecture.py b/mmrazor/models/algorithms/quantization/mm_architecture.py
index 6d20f3c..20756ff 100644
--- a/mmrazor/models/algorithms/quantization/mm_architecture.py
+++ b/mmrazor/models/algorithms/quantization/mm_architecture.py
@@ -123,7 +123,7 @@ class MMArchitectureQuant(BaseAlgorithm):
 
         def traverse(module, prefix):
             for name, child in module._modules.items():
-                if module is None:
+                if child is None:
                     continue
                 child_name = f'{prefix}{name}'
                 if isinstance(child, FakeQuantizeBase):
-- 
2.43.0


From 5350d67f438406073e706f5897eae0fded960626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 085/108] fix: do not synchronize cuda when quantizing on cpu

---
 mmrazor/implementations/quantization/gptq/gptq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/implementations/quantization/gptq/gptq.py b/mmrazor/implementations/quantization/gptq/gptq.py
index 84cfd3a..6679daf 100644
--- a/mmrazor/implementations/quantization/gptq/gptq.py
+++ b/mmrazor/implementations/quantization/gptq/gptq.py
@@ -290,7 +290,8 @@ class GPTQMixIn(ModuleProtocol):
 
                 W[:, i2:] -= Err1.matmul(Hinv[i1:i2, i2:])
 
-            torch.cuda.synchronize()
+            if W.device.type == 'cuda':
+                torch.cuda.synchronize()
             error = torch.sum(Losses).item()
 
             groupsize = groupsize if groupsize != -1 else self.columns
-- 
2.43.0


From a108f3e44f7f8d44254ff13c4323a64555f0f707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 086/108] fix: keep weights and hessian if a layer cannot be
 quantized

---
 mmrazor/implementations/quantization/gptq/gptq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/implementations/quantization/gptq/gptq.py b/mmrazor/implementations/quantization/gptq/gptq.py
index 6679daf..395f729 100644
--- a/mmrazor/implementations/quantization/gptq/gptq.py
+++ b/mmrazor/implementations/quantization/gptq/gptq.py
@@ -219,12 +219,12 @@ class GPTQMixIn(ModuleProtocol):
         """The implementation for GPTQ."""
         with torch_setting(dtype=torch.float):
             assert self.hessian is not None
-            W: torch.Tensor = self.weight_matrix.float()  # out in
+            W: torch.Tensor = self.weight_matrix.float().clone()  # out in
 
             if not quantizer.ready():
                 quantizer.find_params(W, weight=True)
 
-            H = self.hessian.float().to(W.device)
+            H = self.hessian.float().to(W.device).clone()
             dead = torch.diag(H) == 0
             H[dead, dead] = 1
             W[:, dead] = 0
-- 
2.43.0


From fa49ed05617901ad2e30f5c155ce53e8915bb5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 087/108] fix: keep weights and hessian if a layer cannot be
 pruned

---
 mmrazor/implementations/pruning/sparse_gpt/ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/implementations/pruning/sparse_gpt/ops.py b/mmrazor/implementations/pruning/sparse_gpt/ops.py
index 0f11b17..f2840ff 100644
--- a/mmrazor/implementations/pruning/sparse_gpt/ops.py
+++ b/mmrazor/implementations/pruning/sparse_gpt/ops.py
@@ -141,9 +141,9 @@ class SparseGptMixIn(ModuleProtocol):
             # Converted from https://github.com/ist-daslab/sparsegpt
 
             assert self.hessian is not None
-            W: torch.Tensor = self.weight_matrix.float()  # out in
+            W: torch.Tensor = self.weight_matrix.float().clone()  # out in
 
-            H = self.hessian.float().to(W.device)
+            H = self.hessian.float().to(W.device).clone()
 
             dead = torch.diag(H) == 0
             H[dead, dead] = 1
-- 
2.43.0


From 2b87c0febecce8cd381e1aeaedf14c6f38ca4c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 088/108] fix: restart the sample count in init_hessian of gptq

---
 mmrazor/implementations/quantization/gptq/gptq.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmrazor/implementations/quantization/gptq/gptq.py b/mmrazor/implementations/quantization/gptq/gptq.py
index 395f729..797c415 100644
--- a/mmrazor/implementations/quantization/gptq/gptq.py
+++ b/mmrazor/implementations/quantization/gptq/gptq.py
@@ -142,6 +142,7 @@ class GPTQMixIn(ModuleProtocol):
 
     def init_hessian(self, device=None):
         """Init hessian."""
+        self.hessian_batch = 0
         if dist.is_initialized():
             if dist.get_rank() == 0:
                 self._hessian = torch.zeros([self.columns, self.columns],
-- 
2.43.0


From 7bb150632e555f4244e42f9a6be7dcbba09545a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 089/108] fix: restart the sample count in init_hessian of
 sparse_gpt

---
 mmrazor/implementations/pruning/sparse_gpt/ops.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmrazor/implementations/pruning/sparse_gpt/ops.py b/mmrazor/implementations/pruning/sparse_gpt/ops.py
index f2840ff..953004a 100644
--- a/mmrazor/implementations/pruning/sparse_gpt/ops.py
+++ b/mmrazor/implementations/pruning/sparse_gpt/ops.py
@@ -120,6 +120,7 @@ class SparseGptMixIn(ModuleProtocol):
 
     def init_hessian(self, device=None):
         """Init hessian."""
+        self.hessian_batch = 0
         if dist.is_initialized():
             if dist.get_rank() == 0:
                 self._hessian = torch.zeros([self.columns, self.columns],
-- 
2.43.0


From 0ffab9ac76c654e67cdac3619fcfb7997740cbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 090/108] fix: unfold inputs of gptq convs with their dilation

---
 mmrazor/implementations/quantization/gptq/ops.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmrazor/implementations/quantization/gptq/ops.py b/mmrazor/implementations/quantization/gptq/ops.py
index b8c1394..5853f94 100644
--- a/mmrazor/implementations/quantization/gptq/ops.py
+++ b/mmrazor/implementations/quantization/gptq/ops.py
@@ -561,6 +561,9 @@ class GPTQConv2d(DynamicConv2d, GPTQMixIn):
         """Format input shape."""
         # input B C H W
         input = F.unfold(
-            input, self.kernel_size, padding=self.padding,
+            input,
+            self.kernel_size,
+            dilation=self.dilation,
+            padding=self.padding,
             stride=self.stride)  # B C D
         return input.transpose(-1, -2)
-- 
2.43.0


From 516f1e76558a81ca077a77b5794a0dce406120d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 091/108] fix: unfold inputs of sparse_gpt convs with their
 dilation

---
 mmrazor/implementations/pruning/sparse_gpt/ops.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmrazor/implementations/pruning/sparse_gpt/ops.py b/mmrazor/implementations/pruning/sparse_gpt/ops.py
index 953004a..e599ce8 100644
--- a/mmrazor/implementations/pruning/sparse_gpt/ops.py
+++ b/mmrazor/implementations/pruning/sparse_gpt/ops.py
@@ -274,6 +274,9 @@ class SparseGptConv2d(DynamicConv2d, SparseGptMixIn):
         """Format input shape."""
         # input B C H W
         input = F.unfold(
-            input, self.kernel_size, padding=self.padding,
+            input,
+            self.kernel_size,
+            dilation=self.dilation,
+            padding=self.padding,
             stride=self.stride)  # B C D
         return input.transpose(-1, -2)
-- 
2.43.0


From 05a5697ab0d6b13124797df722cc0ef3549d0f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 092/108] fix: drop the calibration meters of layers that did
 not run

---
 mmrazor/engine/runner/utils/calibrate_bn_mixin.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
index 6af2796..19c9807 100644
--- a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
+++ b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
@@ -102,6 +102,8 @@ class CalibrateBNMixin:
             if isinstance(module, _BatchNorm):
                 mean_average_meter = module.__mean_average_meter__
                 var_average_meter = module.__var_average_meter__
+                del module.__mean_average_meter__
+                del module.__var_average_meter__
                 if mean_average_meter.count == 0 or \
                         var_average_meter.count == 0:
                     assert mean_average_meter.count == 0 and \
@@ -132,9 +134,6 @@ class CalibrateBNMixin:
                 module.running_mean[:feature_dim].copy_(calibrated_bn_mean)
                 module.running_var[:feature_dim].copy_(calibrated_bn_var)
 
-                del module.__mean_average_meter__
-                del module.__var_average_meter__
-
         self.runner.logger.debug('Remove all hooks for calibration')
         self.runner.logger.info('Calibrate batch norm statistics done')
         for handle in hook_handles:
-- 
2.43.0


From 3a179d16259504b5319c75ee91a6e49b396b129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 093/108] fix: drop accumulate_params after printing the model
 statistics

---
 .../task_modules/estimators/counters/flops_params_counter.py    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
index 7b25854..0b9587d 100644
--- a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
@@ -297,6 +297,8 @@ def print_model_with_flops_params(model,
             del m.original_extra_repr
         if hasattr(m, 'accumulate_flops'):
             del m.accumulate_flops
+        if hasattr(m, 'accumulate_params'):
+            del m.accumulate_params
 
     model.apply(add_extra_repr)
     print(model, file=ost, flush=flush)
-- 
2.43.0


From fe2b0ece471648ab8e8fb87c5242c537bd212488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 094/108] fix: expand batch norm layers without affine
 parameters

---
 mmrazor/models/utils/expandable_utils/ops.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/utils/expandable_utils/ops.py b/mmrazor/models/utils/expandable_utils/ops.py
index f2bc2b0..3530879 100644
--- a/mmrazor/models/utils/expandable_utils/ops.py
+++ b/mmrazor/models/utils/expandable_utils/ops.py
@@ -233,6 +233,8 @@ class ExpandableBatchNorm2d(dynamic_ops.DynamicBatchNorm2d, ExpandableMixin):
         if module.running_var is not None:
             module.running_var.data = self.expand_bias(module.running_var,
                                                        self.running_var)
-        module.weight.data = self.expand_bias(module.weight, self.weight)
-        module.bias.data = self.expand_bias(module.bias, self.bias)
+        if module.weight is not None:
+            module.weight.data = self.expand_bias(module.weight, self.weight)
+        if module.bias is not None:
+            module.bias.data = self.expand_bias(module.bias, self.bias)
         return module
-- 
2.43.0


From d2882e9b765b855c09d3494ed952979e06c35c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:37 +0000
Subject: [PATCH 095/108] fix: allow classes of different size in CRDDataset

---
 mmrazor/datasets/crd_dataset_wrapper.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/mmrazor/datasets/crd_dataset_wrapper.py b/mmrazor/datasets/crd_dataset_wrapper.py
index aa62f38..929c287 100644
--- a/mmrazor/datasets/crd_dataset_wrapper.py
+++ b/mmrazor/datasets/crd_dataset_wrapper.py
@@ -112,9 +112,6 @@ class CRDDataset:
                     for i in range(num_classes)  # type: ignore
                 ]
 
-            self.cls_positive = np.asarray(self.cls_positive)
-            self.cls_negative = np.asarray(self.cls_negative)
-
     @property
     def metainfo(self) -> dict:
         """Get the meta information of the repeated dataset.
-- 
2.43.0


From 6ab7fd556f841748b5865cf5ca72c8637ae428bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:37 +0000
Subject: [PATCH 096/108] fix: keep the meta information of every packed CRD
 sample

---
 mmrazor/datasets/transforms/formatting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/datasets/transforms/formatting.py b/mmrazor/datasets/transforms/formatting.py
index d2ba63d..412d909 100644
--- a/mmrazor/datasets/transforms/formatting.py
+++ b/mmrazor/datasets/transforms/formatting.py
@@ -9,7 +9,7 @@ except ImportError:
     ClsDataSample = get_placeholder('mmcls')
 
 import warnings
-from typing import Any, Dict, Generator
+from typing import Dict
 
 import numpy as np
 import torch
@@ -53,7 +53,7 @@ class PackCRDClsInputs(PackClsInputs):
 
         if 'sample_idx' in results:
             # transfer `sample_idx` to Tensor
-            self.meta_keys: Generator[Any, None, None] = (
+            self.meta_keys = tuple(
                 key for key in self.meta_keys if key != 'sample_idx')
             value = results['sample_idx']
             if isinstance(value, int):
-- 
2.43.0


From 70c09ca4ed85ccf886b1e361d961c2d9e2a30484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 097/108] fix: encode architectures with numpy versions without
 np.int

---
 mmrazor/models/task_modules/predictor/metric_predictor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/task_modules/predictor/metric_predictor.py b/mmrazor/models/task_modules/predictor/metric_predictor.py
index 796c3ac..fba9fcf 100644
--- a/mmrazor/models/task_modules/predictor/metric_predictor.py
+++ b/mmrazor/models/task_modules/predictor/metric_predictor.py
@@ -106,7 +106,7 @@ class MetricPredictor:
                     f'`DumpChosen.meta` of current {key} should not be None '
                     'when converting the search space.')
                 onehot = np.zeros(
-                    len(choice.meta['all_choices']), dtype=np.int)
+                    len(choice.meta['all_choices']), dtype=int)
                 _chosen_index = choice.meta['all_choices'].index(choice.chosen)
             else:
                 if key is not None:
@@ -119,7 +119,7 @@ class MetricPredictor:
                 else:
                     assert len(self.search_groups[index]) == 1
                     choices = self.search_groups[index][0].choices
-                onehot = np.zeros(len(choices), dtype=np.int)
+                onehot = np.zeros(len(choices), dtype=int)
                 _chosen_index = choices.index(choice)
             onehot[_chosen_index] = 1
 
-- 
2.43.0


From 74e85a3f378e874ac0d9c9acd0cd38a25ad8b657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 098/108] fix: predict from the encoding the predictor was
 trained on

---
 .../models/task_modules/predictor/metric_predictor.py  | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/task_modules/predictor/metric_predictor.py b/mmrazor/models/task_modules/predictor/metric_predictor.py
index fba9fcf..afb8504 100644
--- a/mmrazor/models/task_modules/predictor/metric_predictor.py
+++ b/mmrazor/models/task_modules/predictor/metric_predictor.py
@@ -10,7 +10,6 @@ except ImportError:
     stats = get_placeholder('scipy')
 
 from mmrazor.registry import TASK_UTILS
-from mmrazor.structures import export_fix_subnet
 from mmrazor.utils.typing import DumpChosen
 from .handler import RBFHandler
 
@@ -73,8 +72,13 @@ class MetricPredictor:
             'cause the model of handler in predictor needs to be initialized.')
 
         if self.initialize:
-            model, _ = export_fix_subnet(model)
-            data = self.preprocess(np.array([self.model2vector(model)]))
+            # Encode the choices of the search groups, as for the training
+            # samples: exporting names and orders them by module instead.
+            choices = {
+                name: mutables[0].current_choice
+                for name, mutables in self.search_groups.items()
+            }
+            data = self.preprocess(np.array([self.model2vector(choices)]))
             score = float(np.squeeze(self.handler.predict(data)))
             if metric.get(self.score_key_list[0], None):
                 metric.update({self.score_key_list[1]: score})
-- 
2.43.0


From 9bbbf7442b95787ae3c3727b6ec18bf5f58b1c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 099/108] fix: load MLP predictors whose input layer was
 adapted in training

---
 .../models/task_modules/predictor/handler/mlp_handler.py  | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/task_modules/predictor/handler/mlp_handler.py b/mmrazor/models/task_modules/predictor/handler/mlp_handler.py
index e1bd797..b3bc127 100644
--- a/mmrazor/models/task_modules/predictor/handler/mlp_handler.py
+++ b/mmrazor/models/task_modules/predictor/handler/mlp_handler.py
@@ -132,8 +132,12 @@ class MLPHandler(BaseHandler):
 
     def load(self, path: str) -> None:
         """Load predictor's pretrained weights."""
-        self.model.load_state_dict(
-            torch.load(path, map_location='cpu')['state_dict'])
+        state_dict = torch.load(path, map_location='cpu')['state_dict']
+        in_features = state_dict['fc1.weight'].shape[1]
+        if in_features != self.model.fc1.in_features:
+            self.model.fc1 = nn.Linear(in_features,
+                                       self.model.fc1.out_features)
+        self.model.load_state_dict(state_dict)
 
     def save(self, path: str) -> str:
         """Save predictor and return saved path for diff suffix."""
-- 
2.43.0


From 9316e100acd5112c0137bb23affbe992ee4130b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 100/108] fix: score candidates with a predictor loaded from a
 checkpoint

---
 mmrazor/engine/runner/evolution_search_loop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/engine/runner/evolution_search_loop.py b/mmrazor/engine/runner/evolution_search_loop.py
index 556e082..cf3924f 100644
--- a/mmrazor/engine/runner/evolution_search_loop.py
+++ b/mmrazor/engine/runner/evolution_search_loop.py
@@ -439,5 +439,5 @@ class EvolutionSearchLoop(EpochBasedTrainLoop, CalibrateBNMixin):
                     osp.join(self.runner.work_dir, 'predictor'))
                 self.runner.logger.info(
                     f'Predictor pre-trained, saved in {predictor_dir}.')
-            self.use_predictor = True
-            self.candidates = Candidates()
+        self.use_predictor = True
+        self.candidates = Candidates()
-- 
2.43.0


From 4e09b2f10cbc611e39327c54582e05afe510916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:03 +0000
Subject: [PATCH 101/108] fix: decode vectors of one component

---
 mmrazor/models/task_modules/predictor/metric_predictor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/task_modules/predictor/metric_predictor.py b/mmrazor/models/task_modules/predictor/metric_predictor.py
index afb8504..f5813b6 100644
--- a/mmrazor/models/task_modules/predictor/metric_predictor.py
+++ b/mmrazor/models/task_modules/predictor/metric_predictor.py
@@ -146,7 +146,7 @@ class MetricPredictor:
 
         start = 0
         model = {}
-        vector = np.squeeze(vector)
+        vector = np.ravel(vector)
         for name, mutables in self.search_groups.items():
             if isinstance(mutables[0], OneShotMutableChannelUnit):
                 choices = mutables[0].candidate_choices
-- 
2.43.0


From 91d73c7d82e15065e6491d6c0f78c8830e8d7201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 102/108] fix: collect the constants of all symbolic nodes once

---
 mmrazor/models/quantizers/exporters/base_quantize_exporter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmrazor/models/quantizers/exporters/base_quantize_exporter.py b/mmrazor/models/quantizers/exporters/base_quantize_exporter.py
index 6527d32..a34a2c8 100644
--- a/mmrazor/models/quantizers/exporters/base_quantize_exporter.py
+++ b/mmrazor/models/quantizers/exporters/base_quantize_exporter.py
@@ -131,8 +131,7 @@ class BaseQuantizeExportor():
         collected_constant_names = set()
         constant_inputs = list()
         for node in symbolic_nodes:
-            constant_inputs = self._get_constant_inputs(node)
-            for constant in constant_inputs:
+            for constant in self._get_constant_inputs(node):
                 if constant.name in collected_constant_names:
                     continue
                 constant_inputs.append(constant)
-- 
2.43.0


From 62ea8e655b2aba2036643c7252ae0265819ff9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 103/108] fix: export graphs with omitted optional inputs

---
 mmrazor/models/quantizers/exporters/optim_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/quantizers/exporters/optim_utils.py b/mmrazor/models/quantizers/exporters/optim_utils.py
index f4adc5e..16ccf62 100644
--- a/mmrazor/models/quantizers/exporters/optim_utils.py
+++ b/mmrazor/models/quantizers/exporters/optim_utils.py
@@ -203,7 +203,7 @@ class ONNXOptimUtils():
         # Build graph
         for i, node in enumerate(_onnx_model.graph.node):
             for input_name in node.input:
-                if input_name not in initializers:
+                if input_name and input_name not in initializers:
                     indegree[node.name] += 1
                     prev_node = output_name2node[input_name]
                     graph[prev_node.name].append(node)
-- 
2.43.0


From 347924aa03f08973b2dd3da36b2a2b03b263ab36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 104/108] fix: keep nodes that compute an output of the
 exported graph

---
 mmrazor/models/quantizers/exporters/optim_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/quantizers/exporters/optim_utils.py b/mmrazor/models/quantizers/exporters/optim_utils.py
index 16ccf62..13af0b2 100644
--- a/mmrazor/models/quantizers/exporters/optim_utils.py
+++ b/mmrazor/models/quantizers/exporters/optim_utils.py
@@ -116,13 +116,15 @@ class ONNXOptimUtils():
         if output2node is None:
             output2node = cls.map_output_and_node(onnx_model)
 
+        graph_outputs = {output.name for output in onnx_model.graph.output}
+
         def _is_standalone_node(node, input2node, output2node):
             for input_name in node.input:
                 if input_name in output2node:
                     return False
 
             for out_node in node.output:
-                if out_node in input2node:
+                if out_node in input2node or out_node in graph_outputs:
                     return False
 
             return True
-- 
2.43.0


From 8e5762f5977d636dabcc8e2ad030f791fcbe27e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 105/108] fix: export graphs with computed pads or ending in a
 pad

---
 mmrazor/models/quantizers/exporters/optim_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/quantizers/exporters/optim_utils.py b/mmrazor/models/quantizers/exporters/optim_utils.py
index 13af0b2..e9b21d0 100644
--- a/mmrazor/models/quantizers/exporters/optim_utils.py
+++ b/mmrazor/models/quantizers/exporters/optim_utils.py
@@ -83,9 +83,12 @@ class ONNXOptimUtils():
     @classmethod
     def remove_fake_pad_op(cls, onnx_model, name2data, inp2node, out2node):
         nodes_to_be_removed = []
+        graph_outputs = {output.name for output in onnx_model.graph.output}
         for idx, node in enumerate(onnx_model.graph.node):
             if node.op_type == 'Pad':
-                pads = name2data[node.input[1]]
+                pads = name2data.get(node.input[1])
+                if pads is None or node.output[0] in graph_outputs:
+                    continue
                 if all([x == 0 for x in pads]):
                     print_log(f'Remove pad op: <{node.name}>.')
                     next_nodes = inp2node[node.output[0]]
-- 
2.43.0


From 8238dee14c8532863ad7d4eda061f4b34530701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:58 +0000
Subject: [PATCH 106/108] fix: keep the ranges of every quantizer of a shared
 tensor

---
 .../models/quantizers/exporters/openvino_quantize_exporter.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py b/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py
index e706251..00a48d8 100644
--- a/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py
+++ b/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py
@@ -41,7 +41,7 @@ class OpenVinoQuantizeExportor(BaseQuantizeExportor):
         output_name = node.output[0]
         # Create a node (FakeQuantize)
         keys = ['input_min', 'input_max', 'output_min', 'output_max']
-        input_names = [f'{tensor_name}_{key}' for key in keys]
+        input_names = [f'{output_name}_{key}' for key in keys]
         backend_node = helper.make_node(
             'FakeQuantize',  # node name
             [tensor_name, *input_names],  # inputs
-- 
2.43.0


From 15ea9615a5b16c85e07e8b465174fc0e2f04469f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:58 +0000
Subject: [PATCH 107/108] fix: export the channel axis of per-channel
 quantizers

---
 .../models/quantizers/exporters/base_quantize_exporter.py  | 7 +++++++
 .../quantizers/exporters/tensorrt_quantize_exporter.py     | 6 ++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/quantizers/exporters/base_quantize_exporter.py b/mmrazor/models/quantizers/exporters/base_quantize_exporter.py
index a34a2c8..af0cdf6 100644
--- a/mmrazor/models/quantizers/exporters/base_quantize_exporter.py
+++ b/mmrazor/models/quantizers/exporters/base_quantize_exporter.py
@@ -105,6 +105,13 @@ class BaseQuantizeExportor():
             qmax = qmin = None
         return tensor_name, scale, zero_point, qmin, qmax
 
+    def parse_channel_axis(self, node: onnx.NodeProto):
+        """Parse the channel axis of a per-channel symbolic node, None for
+        other nodes."""
+        if node.op_type in PERCHANNEL_FAKEQUANTIZER and len(node.input) > 5:
+            return int(self.name2data[node.input[3]])
+        return None
+
     def collect_symbolic_nodes(self, onnx_model: onnx.ModelProto):
         """Collect all the fakequant nodes from a onnx model."""
         symbolic_nodes = list()
diff --git a/mmrazor/models/quantizers/exporters/tensorrt_quantize_exporter.py b/mmrazor/models/quantizers/exporters/tensorrt_quantize_exporter.py
index cde430b..ba2f2a4 100644
--- a/mmrazor/models/quantizers/exporters/tensorrt_quantize_exporter.py
+++ b/mmrazor/models/quantizers/exporters/tensorrt_quantize_exporter.py
@@ -16,13 +16,15 @@ class TensorRTExplicitExporter(BaseQuantizeExportor):
         super().__init__(onnx_model, export_path)
 
     def _build_backend_node_from_symbolic(self, node):
+        axis = self.parse_channel_axis(node)
+        attrs = dict() if axis is None else dict(axis=axis)
         quantize_linear_node = onnx.helper.make_node(
             'QuantizeLinear', node.input[:3], [node.name + '_quantized_out'],
-            node.name + '_quantized')
+            node.name + '_quantized', **attrs)
         dequantize_linear_node = onnx.helper.make_node(
             'DequantizeLinear',
             [node.name + '_quantized_out'] + quantize_linear_node.input[1:3],
-            node.output, node.name + '_dequantized')
+            node.output, node.name + '_dequantized', **attrs)
         return [quantize_linear_node, dequantize_linear_node]
 
     def build_backend_nodes(self, symbolic_nodes):
-- 
2.43.0


From 772ea43062a3946f3e8af465fef57977301580d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:58 +0000
Subject: [PATCH 108/108] fix: lay out per-channel ranges along the channel
 axis of their weight

---
 .../exporters/openvino_quantize_exporter.py       | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py b/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py
index 00a48d8..0515607 100644
--- a/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py
+++ b/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py
@@ -100,16 +100,11 @@ class OpenVinoQuantizeExportor(BaseQuantizeExportor):
             backend_nodes.append(new_node)
 
             try:
-                # If the successor node (such as a conv node) has weight,
-                # we need get the length of the weight's shape. And ensure
-                # the length of the weight's shape and the new node's
-                # input shape (such as input_low and input_high) is the same.
-                next_node = self.input2node[node.output[0]][0][0]
-                # node for save weights
-                fake_node = self.output2node[next_node.input[1]]
-                tensor = self.name2data[fake_node.input[0]]
-                shape_length = len(tensor.shape)
-                new_shape = [-1] + [1] * (shape_length - 1)
+                # The ranges of a per-channel quantizer (such as input_low
+                # and input_high) vary along the channel axis of the weight
+                # it quantizes, which is not always the weight of a conv.
+                new_shape = [1] * len(self.name2data[tensor_name].shape)
+                new_shape[self.parse_channel_axis(node)] = -1
             except Exception:
                 new_shape = [-1]
 
-- 
2.43.0

