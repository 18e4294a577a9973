From 6d371223e8f0cb0ad28dab2c1ccc9758df635057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:03 +0000
Subject: [PATCH 01/42] fix: restore the enclosing call_mode context when a
 nested one exits

---
 continual/module.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index c64accf..794818e 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -75,18 +75,20 @@ class _CallModeContext(object):
     def __init__(self):
         self.cur = _callmode("forward")
         self.prev = None
+        self._outer = []
 
     def __call__(self, value: Union[str, int, torch.Tensor]):
+        value = _callmode(value)
+        self._outer.append((self.cur, self.prev))
         self.prev = self.cur
-        self.cur = _callmode(value)
+        self.cur = value
         return self
 
     def __enter__(self):
         pass
 
     def __exit__(self, *args, **kwargs):
-        self.cur = self.prev
-        self.prev = None
+        self.cur, self.prev = self._outer.pop()
 
 
 call_mode = _CallModeContext()
-- 
2.43.0


From 6a003578a6630726aeea6ae07a2a7ff5a994a22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:03 +0000
Subject: [PATCH 02/42] fix: restore temporary parameters when the with-block
 raises

---
 continual/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/continual/utils.py b/continual/utils.py
index 0136b5e..fccdcae 100644
--- a/continual/utils.py
+++ b/continual/utils.py
@@ -50,12 +50,13 @@ def temporary_parameter(obj, attr: str, val):
 
     rsetattr(obj, attr, val)
 
-    yield obj
-
-    if do_del:
-        delattr(obj, attr)
-    else:
-        rsetattr(obj, attr, prev_val)
+    try:
+        yield obj
+    finally:
+        if do_del:
+            delattr(obj, attr)
+        else:
+            rsetattr(obj, attr, prev_val)
 
 
 class _FlatStateDict(object):
-- 
2.43.0


From 0d03b9ca4a350d711bf1292c83afcccfbd83f1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:45 +0000
Subject: [PATCH 03/42] fix: dispatch on the value of the call mode rather than
 on tensor identity

---
 continual/module.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index 794818e..54d740d 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -50,7 +50,7 @@ def _callmode(cm) -> torch.Tensor:
     if isinstance(cm, str):
         cm = CALL_MODES[cm.lower()]
     elif isinstance(cm, int):
-        cm = torch.tensor(int)
+        cm = torch.tensor(cm)
     return cm
 
 
@@ -348,11 +348,11 @@ class CoModule(ABC):
         """
         _call_mode = call_mode.cur if call_mode.prev is not None else self.call_mode
         forward_call = {
-            (True, _callmode("forward")): self._slow_forward,
-            (False, _callmode("forward")): self.forward,
-            (False, _callmode("forward_steps")): self.forward_steps,
-            (False, _callmode("forward_step")): self.forward_step,
-        }[(bool(torch._C._get_tracing_state()), _call_mode)]
+            (True, int(_callmode("forward"))): self._slow_forward,
+            (False, int(_callmode("forward"))): self.forward,
+            (False, int(_callmode("forward_steps"))): self.forward_steps,
+            (False, int(_callmode("forward_step"))): self.forward_step,
+        }[(bool(torch._C._get_tracing_state()), int(_call_mode))]
 
         # If we don't have any hooks, we want to skip the rest of the logic in
         # this function, and just call forward.
-- 
2.43.0


From 39c75f10fccfe3e2fdea9033bf345e062911dd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:45 +0000
Subject: [PATCH 04/42] fix: continue end-padding from the state after the
 given steps

---
 continual/module.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index 54d740d..2ea4109 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -277,9 +277,8 @@ class CoModule(ABC):
 
         if pad_end:
             # Don't save state for the end-padding
-            opt_state = self.get_state()
-            if opt_state is not None:
-                state = _clone_first(opt_state)
+            if state is not None:
+                state = _clone_first(state)
 
             for t, i in enumerate(
                 [self._make_padding(input[:, :, -1]) for _ in range(self.padding[0])]
-- 
2.43.0


From f7735b450e7655ff4972792c84a3911d38414210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 05/42] fix: keep the stride phase of strided convs with
 temporal kernel size 1

---
 continual/conv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/continual/conv.py b/continual/conv.py
index 697d445..65ad85b 100644
--- a/continual/conv.py
+++ b/continual/conv.py
@@ -160,7 +160,8 @@ class _ConvCoNd(CoModule, _ConvNd):
         self.stride_index = torch.tensor(0)
 
     def get_state(self) -> Optional[State]:
-        if len(self.state_buffer) > 0:
+        # NB: The buffer of a strided kernel_size=1 conv has zero entries
+        if self.state_buffer.dim() > 1:
             return (self.state_buffer, self.state_index, self.stride_index)
         return None
 
-- 
2.43.0


From c547ef896bad96df7538d40188f6a248a14b1806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 06/42] fix: pass pad_end and update_state on to the branches
 of Conditional

---
 continual/container.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 9960a5b..1b2a9d5 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1047,9 +1047,9 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
 
     def forward_step(self, input: Tensor, update_state=True) -> Tensor:
         if self.predicate(self, input):
-            return self._modules["0"].forward_step(input, update_state)
+            return self._modules["0"].forward_step(input, update_state=update_state)
         elif "1" in self._modules:
-            return self._modules["1"].forward_step(input, update_state)
+            return self._modules["1"].forward_step(input, update_state=update_state)
         return input
 
     def _forward_step(
@@ -1064,9 +1064,13 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
 
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
         if self.predicate(self, input):
-            return self._modules["0"].forward_steps(input)
+            return self._modules["0"].forward_steps(
+                input, pad_end=pad_end, update_state=update_state
+            )
         elif "1" in self._modules:
-            return self._modules["1"].forward_steps(input)
+            return self._modules["1"].forward_steps(
+                input, pad_end=pad_end, update_state=update_state
+            )
         return input
 
     @property
-- 
2.43.0


From 7055d69069cb6deae96bebeedbc877c58d1bdb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 07/42] fix: return the state of both branches from the
 functional step of Conditional

---
 continual/container.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 1b2a9d5..387d90c 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1055,12 +1055,18 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
     def _forward_step(
         self, input: Tensor, prev_state: Optional[State] = None
     ) -> Tuple[Tensor, Optional[State]]:
-        prev_state = prev_state or [None, None]
+        prev_state = prev_state or [None for _ in self._modules]
+        next_state = list(prev_state)
+        output = input
         if self.predicate(self, input):
-            return self._modules["0"]._forward_step(input, prev_state[0])
+            output, next_state[0] = self._modules["0"]._forward_step(
+                input, prev_state=prev_state[0]
+            )
         elif "1" in self._modules:
-            return self._modules["1"]._forward_step(input, prev_state[1])
-        return input, prev_state
+            output, next_state[1] = self._modules["1"]._forward_step(
+                input, prev_state=prev_state[1]
+            )
+        return output, next_state
 
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
         if self.predicate(self, input):
-- 
2.43.0


From 726238e92a4869dbef477548f7e8bde8209edf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 08/42] fix: clean the branches of Conditional in clean_state

---
 continual/container.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/continual/container.py b/continual/container.py
index 387d90c..cc8ae66 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1095,5 +1095,10 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
     def receptive_field(self) -> int:
         return self._receptive_field
 
+    def clean_state(self):
+        for m in self._modules.values():
+            if hasattr(m, "clean_state"):
+                m.clean_state()
+
     def extra_repr(self):
         return f"predicate={function_repr(self.predicate)}"
-- 
2.43.0


From 8bfd3baed90f1d0c45473d002ab119a85f6f471b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 09/42] fix: treat auto_shrink="centered" as auto_shrink=True
 in Delay steps

---
 continual/delay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/delay.py b/continual/delay.py
index 69aea83..f67ec52 100644
--- a/continual/delay.py
+++ b/continual/delay.py
@@ -70,7 +70,7 @@ class Delay(CoModule, torch.nn.Module):
         state_buffer = torch.stack([padding for _ in range(self.delay)], dim=0)
         state_index = torch.tensor(
             -2 * self.delay
-            if self.auto_shrink and isinstance(self.auto_shrink, bool)
+            if self.auto_shrink in {True, "centered"}
             else -self.delay
         )
         return state_buffer, state_index
-- 
2.43.0


From 5498c10ddab13434cb5b5a122c9ef552c3ebeefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 10/42] fix: do not end-pad a shrinking Delay

---
 continual/delay.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/continual/delay.py b/continual/delay.py
index f67ec52..a00cd6a 100644
--- a/continual/delay.py
+++ b/continual/delay.py
@@ -120,7 +120,9 @@ class Delay(CoModule, torch.nn.Module):
         if self._delay == 0:
             return input
 
-        with temporary_parameter(self, "padding", (self.delay,)):
+        # A shrinking delay cuts the end off instead of padding it
+        padding = (0 if self.auto_shrink else self.delay,)
+        with temporary_parameter(self, "padding", padding):
             output = CoModule.forward_steps(self, input, pad_end, update_state)
 
         return output
-- 
2.43.0


From 7dc6e734cc357eb2a2a380c8b8c809bea6ce9890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 11/42] fix: let RecyclingPositionalEncoding expose its state
 and keep it in functional steps

---
 continual/positional_encoding.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/continual/positional_encoding.py b/continual/positional_encoding.py
index b55bfd5..7d4c19b 100644
--- a/continual/positional_encoding.py
+++ b/continual/positional_encoding.py
@@ -189,8 +189,13 @@ class RecyclingPositionalEncoding(co.CoModule, nn.Module):
         return output, (state_index,)
 
     def init_state(self) -> State:
-        self.state_index = torch.tensor(0)
+        return (torch.tensor(0),)
+
+    def get_state(self) -> State:
         return (self.state_index,)
 
+    def set_state(self, state: State):
+        self.state_index = state[0]
+
     def clean_state(self):
         self.state_index = torch.tensor(0)
-- 
2.43.0


From c3e325a443880a691ecd281dd956ebf23639dd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 12/42] fix: do not modify the previous stride index of
 attention modules in place

---
 continual/multihead_attention/mha_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/multihead_attention/mha_base.py b/continual/multihead_attention/mha_base.py
index f65cf8c..fbe97ec 100644
--- a/continual/multihead_attention/mha_base.py
+++ b/continual/multihead_attention/mha_base.py
@@ -418,7 +418,7 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
         )
         stride_index = prev_state[-1]
         if stride_index < 0:
-            stride_index += 1
+            stride_index = stride_index + 1
 
         new_state = (*new_state, stride_index)
 
-- 
2.43.0


From 562a639427996ac5fe56d637cb022847b57ec62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 13/42] fix: support update_state=False on attention modules
 without prior state

---
 continual/multihead_attention/mha_base.py | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/continual/multihead_attention/mha_base.py b/continual/multihead_attention/mha_base.py
index fbe97ec..57eed5c 100644
--- a/continual/multihead_attention/mha_base.py
+++ b/continual/multihead_attention/mha_base.py
@@ -11,10 +11,6 @@ from continual.module import CoModule
 State = List[Tensor]
 
 
-def _clone_state(state):
-    return [s.clone() if isinstance(s, torch.Tensor) else s for s in state]
-
-
 # Copy of torch.nn impl
 def multi_head_attention_forward_step(  # noqa: C901
     scaled_dot_product_attention_step: Callable,
@@ -460,9 +456,6 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
 
         tmp_state = self.get_state()
 
-        if not update_state and tmp_state:
-            backup_state = _clone_state(tmp_state)
-
         o, tmp_state = MultiheadAttentionBase._forward_step(
             self, query, key, value, tmp_state
         )
@@ -472,8 +465,6 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
 
         if update_state:
             self.set_state(tmp_state)
-        elif tmp_state is not None:
-            self.set_state(backup_state)
 
         return o
 
@@ -514,9 +505,6 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
 
         tmp_state = self.get_state()
 
-        if not update_state and tmp_state:
-            backup_state = _clone_state(tmp_state)
-
         T = query.shape[0]
         assert T == key.shape[0]
         assert T == value.shape[0]
@@ -533,8 +521,6 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
 
         if update_state:
             self.set_state(tmp_state)
-        elif backup_state is not None:
-            self.set_state(backup_state)
 
         if len(outs) == 0:
             return o
-- 
2.43.0


From 34d4287d55d007f06677acf03b1b72fad85bef67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 14/42] fix: use the separate projection weights of attention
 modules in step modes

---
 continual/multihead_attention/mha_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/continual/multihead_attention/mha_base.py b/continual/multihead_attention/mha_base.py
index 57eed5c..f389b9d 100644
--- a/continual/multihead_attention/mha_base.py
+++ b/continual/multihead_attention/mha_base.py
@@ -411,6 +411,10 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
             self.out_proj.weight,
             self.out_proj.bias,
             training=self.training,
+            use_separate_proj_weight=not self._qkv_same_embed_dim,
+            q_proj_weight=self.q_proj_weight,
+            k_proj_weight=self.k_proj_weight,
+            v_proj_weight=self.v_proj_weight,
         )
         stride_index = prev_state[-1]
         if stride_index < 0:
-- 
2.43.0


From 49843d0cc421de6a249dba6e8a47562d6437058a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:03 +0000
Subject: [PATCH 15/42] fix: use GELU when the encoder layer factory is given
 activation="gelu"

---
 continual/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 21dcc4f..07fc391 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -472,7 +472,7 @@ def TransformerEncoderLayerFactory(
     if activation in {"relu", "gelu"}:
         activation = {
             "relu": nn.functional.relu,
-            "gelu": nn.functional.relu,
+            "gelu": nn.functional.gelu,
         }[activation]
 
     def TransformerEncoderLayer(mha_type: MhaType):
-- 
2.43.0


From fefaf309886f27ca4227f9f3a921e3da6ea45ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:03 +0000
Subject: [PATCH 16/42] fix: accept built-in activation functions in
 single-output encoder layers

---
 continual/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 07fc391..fadc1ae 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -244,7 +244,7 @@ def SingleOutputTransformerEncoderLayer(
                 ),
                 (
                     "activation",
-                    activation,
+                    Lambda(activation, takes_time=True),
                 ),
                 (
                     "dropout",
-- 
2.43.0


From 95352aca3c74229b4d81461cc056c94c23891915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:03 +0000
Subject: [PATCH 17/42] fix: delay the residual of single-output encoder layers
 like their attention

---
 continual/transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index fadc1ae..3de55be 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -8,7 +8,7 @@ from torch import Tensor, nn
 
 from continual.delay import State as DelayState
 
-from .closure import Identity, Lambda
+from .closure import Lambda
 from .container import BroadcastReduce, Residual, Sequential
 from .delay import Delay, PaddingMode
 from .linear import Linear
@@ -270,7 +270,7 @@ def SingleOutputTransformerEncoderLayer(
                         "residual",
                         SelectOrDelay(mha.delay)
                         if single_output_forward
-                        else Identity(),
+                        else Delay(mha.delay),
                     ),
                     (
                         "self_attn",
-- 
2.43.0


From 311e6272fba9389a695842c3a837cd14a80a290b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:03 +0000
Subject: [PATCH 18/42] fix: wrap the index of RetroactiveUnity at the length
 of its buffer

---
 continual/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 3de55be..c649128 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -91,7 +91,7 @@ class RetroactiveUnity(Delay):
         buffer[index % (self.delay + 1)] = input
         new_index = index + 1
         if new_index > 0:
-            new_index = new_index % self.delay
+            new_index = new_index % (self.delay + 1)
 
         # Get output
         output = None
-- 
2.43.0


From fa56a89cfcbbcf4cad4173dca74da6e5a77dc9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:03 +0000
Subject: [PATCH 19/42] fix: pass keyword arguments on to forward of
 forward_stepping modules

---
 continual/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/convert.py b/continual/convert.py
index 8e80149..fde95c8 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -106,7 +106,7 @@ def forward_stepping(module: nn.Module, dim: int = 2):
             else getattr(module, "call_mode", _callmode("forward"))
         )
         if _call_mode == _callmode("forward"):
-            return orig_forward(*args, *kwargs)
+            return orig_forward(*args, **kwargs)
         return CoModule._call_impl(module, *args, **kwargs)
 
     module.forward = forward_with_callmode
-- 
2.43.0


From 81403c412c2fa6190f3ad5b896b0ac710bd0cfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:03 +0000
Subject: [PATCH 20/42] fix: leave already converted modules as they are in
 continual

---
 continual/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/convert.py b/continual/convert.py
index fde95c8..57bb6c4 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -224,7 +224,7 @@ def continual(module: nn.Module) -> CoModule:
         ))
 
     """
-    if isinstance(module, CoModule):
+    if isinstance(module, CoModule) or CoModule.is_valid(module):
         return module
 
     if type(module) in NAIVE_MAPPING:
-- 
2.43.0


From 2701cb9815b0cce2345711184c2b08ff41b3b9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:03 +0000
Subject: [PATCH 21/42] fix: convert nn.Dropout1d

---
 continual/convert.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/continual/convert.py b/continual/convert.py
index 57bb6c4..fb35622 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -154,6 +154,7 @@ NAIVE_MAPPING = {
     nn.GroupNorm,
     # >> Dropout modules
     nn.Dropout,
+    nn.Dropout1d,
     nn.Dropout2d,
     nn.Dropout3d,
     nn.AlphaDropout,
-- 
2.43.0


From 99a1c3f094834c8f2fe4a85495a804c52cef650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:03 +0000
Subject: [PATCH 22/42] fix: account for dilation in the ring index and
 receptive field of pooling modules

---
 continual/pooling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index 215a761..1a475a4 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -191,7 +191,7 @@ class _PoolNd(CoModule, nn.Module):
         buffer[index] = pooled_frame
 
         next_buffer = buffer  # .clone() if self.training else buffer.detach()
-        next_index = (index + 1) % self.kernel_size[0]
+        next_index = (index + 1) % len(buffer)
         next_stride_index = stride_index + 1
         if next_stride_index > 0:
             next_stride_index = next_stride_index % self.stride[0]
@@ -220,7 +220,7 @@ class _PoolNd(CoModule, nn.Module):
 
     @property
     def receptive_field(self) -> int:
-        return self.dilation[0] * self.kernel_size[0]
+        return self.dilation[0] * (self.kernel_size[0] - 1) + 1
 
 
 class AvgPool1d(nn.AvgPool1d, _PoolNd):
-- 
2.43.0


From 6155ae32f3695d9c47d8a598941f2fe2e1d04a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:03 +0000
Subject: [PATCH 23/42] fix: pad max pooling modules with negative infinity by
 default

---
 continual/pooling.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index 1a475a4..46fcc4f 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -659,7 +659,7 @@ class MaxPool1d(nn.MaxPool1d, _PoolNd):
     @staticmethod
     def build_from(
         module: nn.MaxPool1d,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
         **kwargs,
     ) -> "MaxPool1d":
         return MaxPool1d(
@@ -749,7 +749,7 @@ class MaxPool2d(nn.MaxPool2d, _PoolNd):
         dilation: _size_2_t = 1,
         # return_indices: bool = False, # Not supported
         ceil_mode: bool = False,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
     ) -> None:
         self.kernel_size = _pair(kernel_size)
         self.stride = _pair(stride if (stride is not None) else kernel_size)
@@ -780,7 +780,7 @@ class MaxPool2d(nn.MaxPool2d, _PoolNd):
 
     @staticmethod
     def build_from(
-        module: nn.MaxPool2d, temporal_fill: PaddingMode = "zeros", **kwargs
+        module: nn.MaxPool2d, temporal_fill: PaddingMode = "neg_inf", **kwargs
     ) -> "MaxPool2d":
         return MaxPool2d(
             **{
@@ -873,7 +873,7 @@ class MaxPool3d(nn.MaxPool3d, _PoolNd):
         dilation: _size_3_t = 1,
         # return_indices: bool = False, # Not supported
         ceil_mode: bool = False,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
     ) -> None:
         self.kernel_size = _triple(kernel_size)
         self.stride = _triple(stride if (stride is not None) else kernel_size)
@@ -904,7 +904,7 @@ class MaxPool3d(nn.MaxPool3d, _PoolNd):
 
     @staticmethod
     def build_from(
-        module: nn.MaxPool3d, temporal_fill: PaddingMode = "zeros", **kwargs
+        module: nn.MaxPool3d, temporal_fill: PaddingMode = "neg_inf", **kwargs
     ) -> "MaxPool3d":
         return MaxPool3d(
             **{
@@ -1110,7 +1110,7 @@ class AdaptiveMaxPool2d(nn.AdaptiveMaxPool2d, _PoolNd):
         stride: int = 1,
         padding: int = 0,
         dilation: int = 1,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
     ) -> None:
         self.output_size = _pair(output_size)
         self.return_indices = False
@@ -1139,7 +1139,7 @@ class AdaptiveMaxPool2d(nn.AdaptiveMaxPool2d, _PoolNd):
         stride: int = 1,
         padding: int = 0,
         dilation: int = 1,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
         output_size: _size_2_t = None,
     ) -> "AdaptiveMaxPool2d":
         return AdaptiveMaxPool2d(
@@ -1189,7 +1189,7 @@ class AdaptiveMaxPool3d(nn.AdaptiveMaxPool3d, _PoolNd):
         stride: int = 1,
         padding: int = 0,
         dilation: int = 1,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
     ) -> None:
         self.output_size = _triple(output_size)
         self.return_indices = False
@@ -1218,7 +1218,7 @@ class AdaptiveMaxPool3d(nn.AdaptiveMaxPool3d, _PoolNd):
         stride: int = 1,
         padding: int = 0,
         dilation: int = 1,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
         output_size: _size_3_t = None,
     ) -> "AdaptiveMaxPool3d":
         return AdaptiveMaxPool3d(
-- 
2.43.0


From 64cc0df737c24f9fa2beded93c8f856fd0c05342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:03 +0000
Subject: [PATCH 24/42] fix: support onnx export without explicit input and
 output names

---
 continual/onnx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/continual/onnx.py b/continual/onnx.py
index fb5d37d..9f1c693 100644
--- a/continual/onnx.py
+++ b/continual/onnx.py
@@ -208,6 +208,8 @@ def export(
     assert isinstance(
         model, CoModule
     ), f"The passed model of type {type(model)} should be a CoModule"
+    input_names = list(input_names or ["input"])
+    output_names = list(output_names or ["output"])
     omodel = OnnxWrapper(model)
     torch.onnx.export(
         model=omodel,
-- 
2.43.0


From ee30d02ef35209defd1c5735b59633e70c37ff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:00 +0000
Subject: [PATCH 25/42] fix: restore the enclosing flat_state_dict context when
 a nested one exits

---
 continual/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/continual/utils.py b/continual/utils.py
index fccdcae..801f247 100644
--- a/continual/utils.py
+++ b/continual/utils.py
@@ -64,12 +64,14 @@ class _FlatStateDict(object):
 
     def __init__(self):
         self.flatten = False
+        self._outer = []
 
     def __enter__(self):
+        self._outer.append(self.flatten)
         self.flatten = True
 
     def __exit__(self, *args, **kwargs):
-        self.flatten = False
+        self.flatten = self._outer.pop()
 
 
 flat_state_dict = _FlatStateDict()
-- 
2.43.0


From a35f2a65a2b394e25d9ac233d64b8c112590c367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:00 +0000
Subject: [PATCH 26/42] fix: reject bidirectional modules in the conversion of
 recurrent modules

---
 continual/rnn.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/continual/rnn.py b/continual/rnn.py
index 905cc51..66dec33 100644
--- a/continual/rnn.py
+++ b/continual/rnn.py
@@ -154,6 +154,9 @@ class RNN(CoModule, nn.RNN):
 
     @staticmethod
     def build_from(module: nn.RNN, **kwargs) -> "RNN":
+        assert (
+            not module.bidirectional
+        ), "`bidirectional == True` is not supported for a Continual module"
         comodule = RNN(
             **{
                 **dict(
@@ -370,6 +373,9 @@ class GRU(CoModule, nn.GRU):
 
     @staticmethod
     def build_from(module: nn.GRU, **kwargs) -> "GRU":
+        assert (
+            not module.bidirectional
+        ), "`bidirectional == True` is not supported for a Continual module"
         comodule = GRU(
             **{
                 **dict(
@@ -626,6 +632,9 @@ class LSTM(CoModule, nn.LSTM):
 
     @staticmethod
     def build_from(module: nn.LSTM, **kwargs) -> "LSTM":
+        assert (
+            not module.bidirectional
+        ), "`bidirectional == True` is not supported for a Continual module"
         comodule = LSTM(
             **{
                 **dict(
-- 
2.43.0


From 85b9a54bd286f80fd9598545424106b2ca383403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:13 +0000
Subject: [PATCH 27/42] fix: drop the query dimension of time-first
 single-output attention clips

---
 continual/multihead_attention/single_output_mha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/multihead_attention/single_output_mha.py b/continual/multihead_attention/single_output_mha.py
index 819b09a..1739ab5 100644
--- a/continual/multihead_attention/single_output_mha.py
+++ b/continual/multihead_attention/single_output_mha.py
@@ -393,7 +393,7 @@ class SingleOutputMultiheadAttention(MultiheadAttentionBase):
         )
 
         if isinstance(o, Tensor):
-            o = o.squeeze(2)
+            o = o.squeeze(2 if self.batch_first else 1)
             if self.embed_dim_second:
                 o = o.transpose(1, 2)  # N T E -> N E T
 
-- 
2.43.0


From 3cee2c5abaf5cfe12ceb7f5844e379fa3d55ca2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:59 +0000
Subject: [PATCH 28/42] fix: accept call mode names on forward_stepping modules

---
 continual/convert.py | 4 ++--
 continual/module.py  | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/continual/convert.py b/continual/convert.py
index fb35622..6d722f8 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -100,10 +100,10 @@ def forward_stepping(module: nn.Module, dim: int = 2):
     module.call_mode = _callmode("forward")
 
     def forward_with_callmode(*args, **kwargs):
-        _call_mode = (
+        _call_mode = _callmode(
             call_mode.cur
             if call_mode.prev is not None
-            else getattr(module, "call_mode", _callmode("forward"))
+            else getattr(module, "call_mode", "forward")
         )
         if _call_mode == _callmode("forward"):
             return orig_forward(*args, **kwargs)
diff --git a/continual/module.py b/continual/module.py
index 2ea4109..e4d5e18 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -345,7 +345,9 @@ class CoModule(ABC):
         Returns:
             [type]: [description]
         """
-        _call_mode = call_mode.cur if call_mode.prev is not None else self.call_mode
+        _call_mode = _callmode(
+            call_mode.cur if call_mode.prev is not None else self.call_mode
+        )
         forward_call = {
             (True, int(_callmode("forward"))): self._slow_forward,
             (False, int(_callmode("forward"))): self.forward,
-- 
2.43.0


From 843dc5dfe7c98da2e02ac6aadc859dd811a14697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:08 +0000
Subject: [PATCH 29/42] fix: run the hooks of forward_stepping modules once per
 call

---
 continual/convert.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/continual/convert.py b/continual/convert.py
index 6d722f8..ce33577 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -105,9 +105,13 @@ def forward_stepping(module: nn.Module, dim: int = 2):
             if call_mode.prev is not None
             else getattr(module, "call_mode", "forward")
         )
-        if _call_mode == _callmode("forward"):
-            return orig_forward(*args, **kwargs)
-        return CoModule._call_impl(module, *args, **kwargs)
+        # NB: hooks are already handled in the enclosing nn.Module.__call__
+        forward_call = {
+            int(_callmode("forward")): orig_forward,
+            int(_callmode("forward_steps")): module.forward_steps,
+            int(_callmode("forward_step")): module.forward_step,
+        }[int(_call_mode)]
+        return forward_call(*args, **kwargs)
 
     module.forward = forward_with_callmode
 
-- 
2.43.0


From a2afbebdcc20ae2850948112445813bea12618b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:31 +0000
Subject: [PATCH 30/42] fix: report temporal stride and padding of Conditional
 branches

---
 continual/container.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/continual/container.py b/continual/container.py
index cc8ae66..07a34cc 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1095,6 +1095,14 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
     def receptive_field(self) -> int:
         return self._receptive_field
 
+    @property
+    def stride(self) -> Tuple[int]:
+        return getattr(next(iter(self._modules.values())), "stride", (1,))
+
+    @property
+    def padding(self) -> Tuple[int]:
+        return (max(getattr(m, "padding", (0,))[0] for m in self._modules.values()),)
+
     def clean_state(self):
         for m in self._modules.values():
             if hasattr(m, "clean_state"):
-- 
2.43.0


From dbc392441c2b46fafd089ebf74aa777b8d687802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:05 +0000
Subject: [PATCH 31/42] fix: hand the state to attention modules by name in
 OnnxWrapper

---
 continual/onnx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/onnx.py b/continual/onnx.py
index 9f1c693..82982c6 100644
--- a/continual/onnx.py
+++ b/continual/onnx.py
@@ -260,7 +260,7 @@ class OnnxWrapper(torch.nn.Module):
     def forward(self, x: torch.Tensor, *states: torch.Tensor):
         shaped_state, _ = _shape_list(states, self.model._state_shape)
 
-        out, next_states = self.model._forward_step(x, shaped_state)
+        out, next_states = self.model._forward_step(x, prev_state=shaped_state)
         return (out, *flatten(next_states, remove_none=False))
 
     @staticmethod
-- 
2.43.0


From 02ec2f2d9b1fa272ab30236e494b1b197299b331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:37 +0000
Subject: [PATCH 32/42] fix: convert plain modules before aligning delays in
 BroadcastReduce and Parallel

---
 continual/container.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 07a34cc..cb55348 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -132,14 +132,17 @@ class FlattenableStateDict:
         return load_state_dict(self, state_dict, strict, flatten)
 
 
-def co_add_module(self, name: str, module: Optional["nn.Module"]) -> None:
+def co_convert(module: "nn.Module") -> CoModule:
     if not CoModule.is_valid(module):
         # Attempt automatic conversion
         from continual.convert import continual  # break cyclical import
 
         module = continual(module)
+    return module
+
 
-    nn.Module.add_module(self, name, module)
+def co_add_module(self, name: str, module: Optional["nn.Module"]) -> None:
+    nn.Module.add_module(self, name, co_convert(module))
 
 
 class Broadcast(CoModule, nn.Module):
@@ -268,6 +271,8 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
         else:
             modules = [(str(idx), module) for idx, module in enumerate(args)]
 
+        modules = [(key, co_convert(module)) for key, module in modules]
+
         if auto_delay:
             # If there is a delay mismatch, automatically add delay to match the longest
             max_delay = max([m.delay for _, m in modules])
@@ -806,6 +811,8 @@ class BroadcastReduce(Sequential):
             len(modules) > 1
         ), "You should pass at least two modules for the map-reduce operation to make sense."
 
+        modules = [(key, co_convert(module)) for key, module in modules]
+
         if auto_delay:
             # If there is a delay mismatch, automatically add delay to match the longest
             max_delay = max([m.delay for _, m in modules])
-- 
2.43.0


From 90e3480ba281dd4addd17f55bbd43b918594524b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:31 +0000
Subject: [PATCH 33/42] fix: align delayed branches with temporal stride in
 BroadcastReduce and Parallel

---
 continual/container.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index cb55348..94f130e 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -106,6 +106,14 @@ def nonempty(fn: ReductionFunc) -> ReductionFunc:
     return wrapped
 
 
+def delayed(module: CoModule, delay: int) -> "Sequential":
+    """Delay a module by a number of (input) frames"""
+    stages = [("0", module), ("1", Delay(delay))]
+    if num_from(getattr(module, "stride", 1)) > 1:
+        stages.reverse()  # Behind a strided module, the delay would count outputs
+    return Sequential(OrderedDict(stages))
+
+
 class FlattenableStateDict:
     """Mixes in the ability to flatten state dicts.
     It is assumed that classes that inherit this module also inherit from nn.Module
@@ -280,7 +288,7 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
                 (
                     key,
                     (
-                        Sequential(module, Delay(max_delay - module.delay))
+                        delayed(module, max_delay - module.delay)
                         if module.delay < max_delay
                         else module
                     ),
@@ -820,7 +828,7 @@ class BroadcastReduce(Sequential):
                 (
                     key,
                     (
-                        Sequential(module, Delay(max_delay - module.delay))
+                        delayed(module, max_delay - module.delay)
                         if module.delay < max_delay
                         else module
                     ),
-- 
2.43.0


From f5780e9fb5dbe5fa8668b53be8c287e4b41e69a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:42 +0000
Subject: [PATCH 34/42] fix: retroactive attention over a window of one frame

---
 continual/multihead_attention/retroactive_mha.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/continual/multihead_attention/retroactive_mha.py b/continual/multihead_attention/retroactive_mha.py
index 415f45b..70fbcc9 100644
--- a/continual/multihead_attention/retroactive_mha.py
+++ b/continual/multihead_attention/retroactive_mha.py
@@ -99,7 +99,8 @@ def _scaled_dot_product_attention_step(
 
     # Update Q_mem and K_mem
     Q_mem_new = torch.roll(Q_mem, shifts=-1, dims=(1,))
-    Q_mem_new[:, -1] = q_step
+    if Q_mem.shape[1] > 0:
+        Q_mem_new[:, -1] = q_step
 
     K_T_mem_new = torch.roll(K_T_mem, shifts=-1, dims=(2,))
     K_T_mem_new[:, :, -1] = k_step
-- 
2.43.0


From 81b1497a0109f19fa276d2538f6d397a92fb5514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:20 +0000
Subject: [PATCH 35/42] fix: retroactive transformer layer over a window of one
 frame

---
 continual/transformer.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/continual/transformer.py b/continual/transformer.py
index c649128..68ba5a9 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -12,6 +12,7 @@ from .closure import Lambda
 from .container import BroadcastReduce, Residual, Sequential
 from .delay import Delay, PaddingMode
 from .linear import Linear
+from .module import CoModule
 from .multihead_attention import (
     RetroactiveMultiheadAttention,
     SingleOutputMultiheadAttention,
@@ -79,6 +80,15 @@ class RetroactiveUnity(Delay):
         state_index = torch.tensor(-self.delay)
         return state_buffer, state_index
 
+    def forward_step(self, input: Tensor, update_state=True) -> Optional[Tensor]:
+        # A window of one frame still has a window dimension
+        return CoModule.forward_step(self, input, update_state)
+
+    def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
+        if self._delay == 0:
+            return CoModule.forward_steps(self, input, pad_end, update_state)
+        return Delay.forward_steps(self, input, pad_end, update_state)
+
     def _forward_step(
         self, input: Tensor, prev_state: DelayState
     ) -> Tuple[Tensor, DelayState]:
-- 
2.43.0


From 061048f7e676d866dcd68ef161368f3862533d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:35 +0000
Subject: [PATCH 36/42] fix: average pooling steps honour divisor_override

---
 continual/pooling.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index 46fcc4f..12ba119 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -35,6 +35,10 @@ def unity(x: Tensor) -> Tensor:
     return x
 
 
+def scaled_sum_pool2d(input: Tensor, scale: float, **kwargs) -> Tensor:
+    return scale * F.avg_pool2d(input, divisor_override=1, **kwargs)
+
+
 class PoolType(Enum):
     AVG = "avg"
     MAX = "max"
@@ -413,6 +417,15 @@ class AvgPool2d(nn.AvgPool2d, _PoolNd):
                 padding=self.padding[1:],
                 ceil_mode=self.ceil_mode,
                 count_include_pad=self.count_include_pad,
+            )
+            if divisor_override is None
+            else partial(  # The temporal average divides by kernel_size[0]
+                scaled_sum_pool2d,
+                scale=self.kernel_size[0] / divisor_override,
+                kernel_size=(1, *self.kernel_size[1:]),
+                stride=(1, *self.stride[1:]),
+                padding=(0, *self.padding[1:]),
+                ceil_mode=self.ceil_mode,
             ),
             num_input_dims=2,
             kernel_size=self.kernel_size,
@@ -543,7 +556,15 @@ class AvgPool3d(nn.AvgPool3d, _PoolNd):
                 padding=self.padding[1:],
                 ceil_mode=self.ceil_mode,
                 count_include_pad=self.count_include_pad,
-                divisor_override=self.divisor_override,
+            )
+            if divisor_override is None
+            else partial(  # The temporal average divides by kernel_size[0]
+                scaled_sum_pool2d,
+                scale=self.kernel_size[0] / divisor_override,
+                kernel_size=self.kernel_size[1:],
+                stride=self.stride[1:],
+                padding=self.padding[1:],
+                ceil_mode=self.ceil_mode,
             ),
             num_input_dims=3,
             kernel_size=self.kernel_size,
-- 
2.43.0


From bfeb0b2a03c201ac6b8b81b84861de94e1af1864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:57 +0000
Subject: [PATCH 37/42] fix: converted convolutions keep the device and dtype
 of the original

---
 continual/conv.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/continual/conv.py b/continual/conv.py
index 65ad85b..1d20a70 100644
--- a/continual/conv.py
+++ b/continual/conv.py
@@ -418,6 +418,8 @@ class Conv1d(_ConvCoNd):
                     groups=module.groups,
                     bias=module.bias is not None,
                     padding_mode=module.padding_mode,
+                    device=module.weight.device,
+                    dtype=module.weight.dtype,
                     temporal_fill=temporal_fill or module.padding_mode,
                 ),
                 **kwargs,
@@ -518,6 +520,8 @@ class Conv2d(_ConvCoNd):
                     groups=module.groups,
                     bias=module.bias is not None,
                     padding_mode=module.padding_mode,
+                    device=module.weight.device,
+                    dtype=module.weight.dtype,
                     temporal_fill=temporal_fill or module.padding_mode,
                 ),
                 **kwargs,
@@ -618,6 +622,8 @@ class Conv3d(_ConvCoNd):
                     groups=module.groups,
                     bias=module.bias is not None,
                     padding_mode=module.padding_mode,
+                    device=module.weight.device,
+                    dtype=module.weight.dtype,
                     temporal_fill=temporal_fill or module.padding_mode,
                 ),
                 **kwargs,
-- 
2.43.0


From 304f6726a7346ec4e864590844e4415737156f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:41 +0000
Subject: [PATCH 38/42] fix: refuse a query_index outside of the attention
 window

---
 continual/multihead_attention/single_output_mha.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/continual/multihead_attention/single_output_mha.py b/continual/multihead_attention/single_output_mha.py
index 1739ab5..89278e4 100644
--- a/continual/multihead_attention/single_output_mha.py
+++ b/continual/multihead_attention/single_output_mha.py
@@ -225,7 +225,9 @@ class SingleOutputMultiheadAttention(MultiheadAttentionBase):
             forward_returns_attn_mask,
             embed_dim_second,
         )
-        assert query_index < sequence_len
+        assert (
+            -sequence_len <= query_index < sequence_len
+        ), f"query_index={query_index} should select a position within sequence_len={sequence_len}"
         self.query_index = query_index
         self.single_output_forward = single_output_forward
         self.register_buffer("Q_mem", torch.tensor([]), persistent=False)
-- 
2.43.0


From 311be537d9dbe4b3f072f3ef6577720ffa87d5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:41 +0000
Subject: [PATCH 39/42] fix: refuse retroactive attention over an empty window

---
 continual/multihead_attention/retroactive_mha.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/continual/multihead_attention/retroactive_mha.py b/continual/multihead_attention/retroactive_mha.py
index 70fbcc9..0e12628 100644
--- a/continual/multihead_attention/retroactive_mha.py
+++ b/continual/multihead_attention/retroactive_mha.py
@@ -248,6 +248,7 @@ class RetroactiveMultiheadAttention(MultiheadAttentionBase):
             forward_returns_attn_mask,
             embed_dim_second,
         )
+        assert sequence_len > 0, "sequence_len should be positive"
         self.register_buffer("d_mem", torch.tensor([]), persistent=False)
         self.register_buffer("AV_mem", torch.tensor([]), persistent=False)
         self.register_buffer("Q_mem", torch.tensor([]), persistent=False)
-- 
2.43.0


From 9be0f1e5cd08793d4236e1c680b945a899fb2b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:50 +0000
Subject: [PATCH 40/42] fix: warm_up of modules without delay and of attention
 with the embedding last

---
 continual/module.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index e4d5e18..0325869 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -323,9 +323,9 @@ class CoModule(ABC):
         Args:
             step_shape (Sequence[int]): input shape with which to warm the model up, including batch size.
         """
-        step_shape = (*step_shape[:2], self.delay, *step_shape[2:])
-        dummy = self._make_padding(torch.zeros(step_shape, dtype=torch.float))
-        self.forward_steps(dummy)
+        dummy = self._make_padding(torch.zeros(tuple(step_shape), dtype=torch.float))
+        for _ in range(self.delay):
+            self.forward_step(dummy)
 
     @property
     def call_mode(self) -> torch.Tensor:
-- 
2.43.0


From 818ecd8f7a5fd166fe72543014ce0776ba1e573c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:50 +0000
Subject: [PATCH 41/42] fix: RetroactiveLambda.build_from passed takes_time as
 the forward function

---
 continual/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 68ba5a9..9b099e0 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -142,7 +142,7 @@ class RetroactiveLambda(Lambda):
     def build_from(
         fn: Callable[[Tensor], Tensor], takes_time=False
     ) -> "RetroactiveLambda":
-        return RetroactiveLambda(fn, takes_time)
+        return RetroactiveLambda(fn, takes_time=takes_time)
 
 
 class NaiveResidual(nn.Module):
-- 
2.43.0


From 6b2219d703db85ba611a06b91aeba17f8d0631ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:50 +0000
Subject: [PATCH 42/42] fix: TransformerEncoder.build_from silently converted
 norm_first encoders to post-norm

---
 continual/transformer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/continual/transformer.py b/continual/transformer.py
index 9b099e0..888bd65 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -592,6 +592,9 @@ class TransformerEncoder(Sequential):
 
         # Create model
         tel = trans_enc.layers[0]
+        assert not getattr(
+            tel, "norm_first", False
+        ), "Encoder layers with norm_first=True are not supported."
         layer_factory = TransformerEncoderLayerFactory(
             d_model=tel.self_attn.embed_dim,
             nhead=tel.self_attn.num_heads,
-- 
2.43.0

