From 73930035168115de7c4be4beea5e64d3bae776bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:25 +0000
Subject: [PATCH 01/78] fix: record every queued task result before multi-GPU
 trailing phase

The progress thread stopped as soon as the workers were done, discarding
results still in the completion queue: their tasks were executed again on
the main thread, or targets were never delivered.
---
 mergekit/multigpu_executor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mergekit/multigpu_executor.py b/mergekit/multigpu_executor.py
index 64e2bfa..2853f16 100644
--- a/mergekit/multigpu_executor.py
+++ b/mergekit/multigpu_executor.py
@@ -151,7 +151,10 @@ class MultiGPUExecutor:
             results_snapshot = dict(self.results)
 
             def update_progress():
-                while not self.done_event.is_set():
+                # keep going until every queued result has been recorded
+                while not (
+                    self.done_event.is_set() and self.task_completion_queue.empty()
+                ):
                     try:
                         task_idx, result = self.task_completion_queue.get(timeout=0.1)
                         task_handle = TaskHandle(self.universe, task_idx)
-- 
2.43.0


From 40926c6f67bf7ba010d9007f556c5a5dae80202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:20 +0000
Subject: [PATCH 02/78] fix: remove stale index or single-file checkpoint when
 finalizing into a reused directory

A previous run's model.safetensors.index.json (or model.safetensors) shadowed
the newly written checkpoint, so readers silently got the old weights.
---
 mergekit/io/tensor_writer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mergekit/io/tensor_writer.py b/mergekit/io/tensor_writer.py
index 06b6d46..85db37c 100644
--- a/mergekit/io/tensor_writer.py
+++ b/mergekit/io/tensor_writer.py
@@ -162,6 +162,15 @@ class TensorWriter:
                     )
                     name_remap[old_name] = new_name
 
+            # a file or index left by an earlier run must not shadow this output
+            stale_files = [f"{prefix}.{extension}.index.json"]
+            if total_shards > 1:
+                stale_files.append(f"{prefix}.{extension}")
+            for stale_name in stale_files:
+                stale_path = os.path.join(self.out_path, stale_name)
+                if os.path.exists(stale_path):
+                    os.remove(stale_path)
+
             for old_name, new_name in name_remap.items():
                 old_path = os.path.join(self.out_path, old_name)
                 new_path = os.path.join(self.out_path, new_name)
-- 
2.43.0


From 7900fbde12ee0306b4e01ff8f4f6f56d81fb9463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:40 +0000
Subject: [PATCH 03/78] fix: lazy unpickler reads strided, scalar and bool
 tensors correctly

Only numel elements were read for a strided view, so a non-contiguous slice
came back with garbage; 0-dim and bool tensors raised.
---
 mergekit/io/lazy_unpickle.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mergekit/io/lazy_unpickle.py b/mergekit/io/lazy_unpickle.py
index be26d86..b7ad590 100644
--- a/mergekit/io/lazy_unpickle.py
+++ b/mergekit/io/lazy_unpickle.py
@@ -71,7 +71,13 @@ class DeferredLoad(BaseModel, arbitrary_types_allowed=True):
         reader: "TorchArchiveReader",
         map_location: Any = None,
     ) -> torch.Tensor:
-        total_params = reduce(operator.mul, self.shape)
+        # number of stored elements spanned by the (possibly strided) tensor
+        if reduce(operator.mul, self.shape, 1) > 0:
+            total_params = 1 + sum(
+                (dim - 1) * step for dim, step in zip(self.shape, self.stride)
+            )
+        else:
+            total_params = 0
         total_bytes = total_params * dtype_bytes(self.dtype)
 
         f = reader.open_file(file_name=self.name, offset=self.file_offset)
@@ -180,6 +186,8 @@ def torch_lazy_load():
 
 def dtype_bytes(dtype: torch.dtype) -> int:
     """Return the number of bytes used to store a single instance of `dtype`."""
+    if dtype == torch.bool:
+        return 1
     if dtype.is_floating_point:
         ti = torch.finfo(dtype)
     else:
-- 
2.43.0


From e8c9cc0ec60a145ff315f6e1326df0b3bad614f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:40 +0000
Subject: [PATCH 04/78] fix: load tensors from checkpoints wrapped in a
 state_dict entry

The index looked inside state_dict, the shard loaders did not, so every
lookup in such a file raised KeyError.
---
 mergekit/io/loader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mergekit/io/loader.py b/mergekit/io/loader.py
index 3f8bff4..ba5ceb9 100644
--- a/mergekit/io/loader.py
+++ b/mergekit/io/loader.py
@@ -53,6 +53,8 @@ class LazyPickleLoader(TensorLoader):
         self.device = device
         with torch_lazy_load():
             self.index = torch.load(path, pickle_module=LazyUnpickleModule)
+        if "state_dict" in self.index:
+            self.index = self.index["state_dict"]
 
     def get_tensor(self, key: str) -> torch.Tensor:
         if key not in self.index:
@@ -71,6 +73,8 @@ class DumbPytorchLoader(TensorLoader):
 
     def __init__(self, path: str, device: Optional[str] = None):
         self.tensors = torch.load(path, map_location=device, weights_only=True)
+        if "state_dict" in self.tensors:
+            self.tensors = self.tensors["state_dict"]
 
     def get_tensor(self, key: str) -> torch.Tensor:
         return self.tensors[key]
-- 
2.43.0


From 0cc92ee57b4e65f13f675a67dbb10be71d3c6365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:53 +0000
Subject: [PATCH 05/78] fix: merge all sources of the last slice into the
 model's trailing weights

The trailing (post-layer) weights are taken from the last slice, but the
input list was sized by the first slice, so surplus models were silently
dropped from the merge of the final norm and output head.
---
 mergekit/plan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index dcf01fc..addc15f 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -323,7 +323,7 @@ class MergePlanner:
         for weight_info in module_arch.post_weights():
             self.plan_tensor(
                 weight_info,
-                [weight_info] * len(definition.slices[0].sources),
+                [weight_info] * len(definition.slices[-1].sources),
                 [s.model for s in definition.slices[-1].sources],
                 config_reader.for_tensor(tensor_name=weight_info.name).for_out_slice(
                     definition.slices[-1]
-- 
2.43.0


From bb9110093f37beb33b1a271e657251d437cfda30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:53 +0000
Subject: [PATCH 06/78] fix: evaluate a single conditional parameter setting

ParameterSetting allows a bare {value, filter} mapping, but evaluating one
raised 'Unexpected setting value'.
---
 mergekit/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mergekit/config.py b/mergekit/config.py
index 3114015..3e73e8e 100644
--- a/mergekit/config.py
+++ b/mergekit/config.py
@@ -26,6 +26,8 @@ ParameterSetting: TypeAlias = Union[
 def evaluate_setting(
     tensor_name: str, setting: ParameterSetting, t: float = 0
 ) -> Optional[float]:
+    if isinstance(setting, ConditionalParameter):
+        setting = [setting]
     if isinstance(setting, (float, int, bool, str)):
         return setting
     elif isinstance(setting, list):
-- 
2.43.0


From e61a9d611314dc23ab26e2643dac5170b10d97ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:24 +0000
Subject: [PATCH 07/78] fix: list referenced models in configuration order

The order came from a set of string-hashed objects and so changed from run
to run; without a base model it decides which model supplies the output
config, the tokenizer and the copied files.
---
 mergekit/config.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mergekit/config.py b/mergekit/config.py
index 3e73e8e..813227d 100644
--- a/mergekit/config.py
+++ b/mergekit/config.py
@@ -101,25 +101,26 @@ class MergeConfiguration(BaseModel):
     parameters: Optional[Dict[str, ParameterSetting]] = None
 
     def referenced_models(self) -> List[ModelReference]:
-        models = set()
+        # dict rather than set, so that the order is that of the configuration
+        models = {}
         if self.base_model:
-            models.add(self.base_model)
+            models[self.base_model] = None
         if self.models:
             for model_in in self.models:
-                models.add(model_in.model)
+                models[model_in.model] = None
         if self.slices:
             for s in self.slices:
                 for src in s.sources:
-                    models.add(src.model)
+                    models[src.model] = None
         if self.modules:
             for m in self.modules.values():
                 if m.models:
                     for model_in in m.models:
-                        models.add(model_in.model)
+                        models[model_in.model] = None
                 if m.slices:
                     for s in m.slices:
                         for src in s.sources:
-                            models.add(src.model)
+                            models[src.model] = None
         return list(models)
 
     @model_validator(mode="after")
-- 
2.43.0


From a88a5b096370a089176d4bb0390bbf505f24c602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:24 +0000
Subject: [PATCH 08/78] fix: give new tokens of a union tokenizer reproducible
 ids

Fast tokenizers return their vocabulary in random order, so two runs of the
same merge numbered the added tokens differently.
---
 mergekit/tokenizer/build.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index 91a0c61..3520b8f 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -120,8 +120,9 @@ def build_union_tokenizer(
         )
         added_tokens = tokenizer.added_tokens_decoder
 
+        # get_vocab() comes in no particular order: go by token id
         vocab = tokenizer.get_vocab()
-        for tok, idx in vocab.items():
+        for tok, idx in sorted(vocab.items(), key=lambda e: e[1]):
             if idx >= vocab_size:
                 LOG.warning(
                     f"Token {repr(tok)} present in {str(model)} tokenizer but >= vocab_size"
-- 
2.43.0


From d266e165cbd3831291cac4e3e6b423d7296336e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:24 +0000
Subject: [PATCH 09/78] fix: treat tokens beyond a model's vocabulary as
 missing from it

Such a token was left out of the permutation altogether, and building the
embeddings failed with a KeyError.
---
 mergekit/tokenizer/build.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index 3520b8f..9c85a32 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -263,6 +263,7 @@ def build_tokenizer(
                 LOG.warning(
                     f"{model} token {repr(tok)} has index {orig_idx}>{vocab_size - 1} (padding?)"
                 )
+                p[new_idx] = -1
                 continue
 
             p[new_idx] = orig_idx
-- 
2.43.0


From b77b99c7218ec4b18035b581adc9f502792a5132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:24 +0000
Subject: [PATCH 10/78] fix: support zero embeddings in tokenizer configuration

A token configured with 'kind: zero', or present in no model at all, made
the merge fail instead of getting a zero embedding.
---
 mergekit/tokenizer/embed.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mergekit/tokenizer/embed.py b/mergekit/tokenizer/embed.py
index 74dc93b..c0c8f24 100644
--- a/mergekit/tokenizer/embed.py
+++ b/mergekit/tokenizer/embed.py
@@ -130,7 +130,9 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
                 continue
 
             if num_present == 0:
-                token_configs[token] = TokenEmbeddingConfig(source=ZeroEmbedding())
+                token_configs[token] = TokenEmbeddingConfig(
+                    source=ZeroEmbedding(kind="zero")
+                )
                 logging.warning(f"Token {repr(token)} not found in any model")
                 continue
 
@@ -152,7 +154,7 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
         cfg: TokenEmbeddingConfig,
     ) -> torch.Tensor:
         if isinstance(cfg.source, ZeroEmbedding):
-            pass
+            embed = torch.zeros_like(next(iter(tensors.values()))[0])
         elif isinstance(cfg.source, ModelTokenEmbedding):
             model = cfg.source.model
             assert (
-- 
2.43.0


From 2a8899065ec2c85dc9d22efd378a2fc55a95b9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:24 +0000
Subject: [PATCH 11/78] fix: keep input model order when permuting embeddings

The models went through a set, so order-dependent merge methods combined
embedding matrices in a different order from run to run.
---
 mergekit/tokenizer/embed.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mergekit/tokenizer/embed.py b/mergekit/tokenizer/embed.py
index c0c8f24..f21f1d0 100644
--- a/mergekit/tokenizer/embed.py
+++ b/mergekit/tokenizer/embed.py
@@ -33,10 +33,10 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
         tokenizer = tokenizer_info.tokenizer
         permutations = tokenizer_info.permutations
 
-        models = set(tensors.keys())
-        if self.base_model:
-            models.add(self.base_model)
-        models = list(models)
+        # keep the order of the inputs: some merge methods depend on it
+        models = list(tensors.keys())
+        if self.base_model and self.base_model not in models:
+            models.append(self.base_model)
 
         vocab = tokenizer.get_vocab()
         vocab_size = len(vocab)
-- 
2.43.0


From e6bb5a78a6e9aed5eebe74d56d141f63280dcc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:24 +0000
Subject: [PATCH 12/78] fix: apply the default embedding rules to tokens listed
 without a source

'source' is optional in the token configuration, but leaving it out raised
NotImplementedError.
---
 mergekit/tokenizer/embed.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mergekit/tokenizer/embed.py b/mergekit/tokenizer/embed.py
index f21f1d0..379a935 100644
--- a/mergekit/tokenizer/embed.py
+++ b/mergekit/tokenizer/embed.py
@@ -119,26 +119,31 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
         tokens_to_average = set()
         # find tokens that are only present in one model
         for token, token_id in vocab.items():
+            force = False
             if token in token_configs:
-                continue
+                if token_configs[token].source is not None:
+                    continue
+                force = token_configs[token].force
 
             has_token = [p[token_id] >= 0 for p in permutation_list]
             num_present = sum(int(x) for x in has_token)
             if num_present == 1:
                 donor_model = models[has_token.index(True)]
-                token_configs[token] = TokenEmbeddingConfig(source=donor_model)
+                token_configs[token] = TokenEmbeddingConfig(source=donor_model, force=force)
                 continue
 
             if num_present == 0:
                 token_configs[token] = TokenEmbeddingConfig(
-                    source=ZeroEmbedding(kind="zero")
+                    source=ZeroEmbedding(kind="zero"), force=force
                 )
                 logging.warning(f"Token {repr(token)} not found in any model")
                 continue
 
             if num_present > 0 and self.base_model is not None:
                 if permutations[self.base_model][token_id] >= 0:
-                    token_configs[token] = TokenEmbeddingConfig(source=self.base_model)
+                    token_configs[token] = TokenEmbeddingConfig(
+                        source=self.base_model, force=force
+                    )
                     continue
 
             tokens_to_average.add(token)
-- 
2.43.0


From 5a646a9db4c06863ec1be76d77fcef24b89b1c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:39 +0000
Subject: [PATCH 13/78] fix: do not treat newly configured tokens as part of
 the base model

With the tokenizer source 'base' the output tokenizer is the base model's
own object, so tokens added to it looked like tokens the base model already
had: its padding rows were used instead of the configured embedding.
---
 mergekit/tokenizer/build.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index 9c85a32..3a01e26 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -214,6 +214,9 @@ def build_tokenizer(
             continue
         tokenizers[model] = model_tok
 
+    # tokens added to the output below must not count as the models' own
+    original_vocabs = {model: tok.get_vocab() for model, tok in tokenizers.items()}
+
     LOG.info("Building output tokenizer")
     # build final vocabulary
     if isinstance(tokenizer_source, ModelReference):
@@ -242,10 +245,10 @@ def build_tokenizer(
     for model in (
         pbar := tqdm.tqdm(referenced_models, desc="Building tokenizer permutations")
     ):
-        if model in tokenizers:
-            model_vocab = tokenizers[model].get_vocab()
+        if model in original_vocabs:
+            model_vocab = original_vocabs[model]
         else:
-            model_vocab = tokenizers[base_model].get_vocab()
+            model_vocab = original_vocabs[base_model]
 
         vocab_size = get_vocab_size(model.model, trust_remote_code=trust_remote_code)
         if vocab_size is None:
@@ -275,7 +278,7 @@ def build_tokenizer(
     return TokenizerInfo(
         tokenizer=tokenizer_out,
         permutations=permutations,
-        original_vocabs={model: tok.get_vocab() for model, tok in tokenizers.items()},
+        original_vocabs=original_vocabs,
     )
 
 
-- 
2.43.0


From 1d65b1e492c3668c6ecd8ea049b5c1dc0e36cfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:25 +0000
Subject: [PATCH 14/78] fix: keep all but the smallest values when breadcrumbs
 removes no outliers

---
 mergekit/sparsify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/sparsify.py b/mergekit/sparsify.py
index 13789e1..8e3140c 100644
--- a/mergekit/sparsify.py
+++ b/mergekit/sparsify.py
@@ -110,7 +110,7 @@ def magnitude_outliers(
     indices = torch.sort(w, descending=False).indices
     mask = torch.zeros_like(tensor)
 
-    mask.view(-1)[indices[n_bot:-n_top]] = 1
+    mask.view(-1)[indices[n_bot : num_elems - n_top]] = 1
 
     res = rescaled_masked_tensor(tensor, mask, rescale_norm)
     return res
-- 
2.43.0


From a4074fcccef8f9bc398760cc79bc3870a22c658b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:48 +0000
Subject: [PATCH 15/78] fix: sce keeps the tensor shape when no element is
 selected

---
 mergekit/merge_methods/sce.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mergekit/merge_methods/sce.py b/mergekit/merge_methods/sce.py
index 477e118..9a8d5d1 100644
--- a/mergekit/merge_methods/sce.py
+++ b/mergekit/merge_methods/sce.py
@@ -56,15 +56,15 @@ def sce_mask(
     tvs: torch.Tensor, density: float, mask_dtype: Optional[torch.dtype] = None
 ):
     if density <= 0:
-        return torch.zeros_like(tvs, dtype=mask_dtype)
+        return torch.zeros_like(tvs[0], dtype=mask_dtype)
     if density >= 1:
-        return torch.ones_like(tvs, dtype=mask_dtype)
+        return torch.ones_like(tvs[0], dtype=mask_dtype)
 
     var = torch.var(tvs, dim=0, unbiased=False)
     nonzero = torch.count_nonzero(var)
     k = int(nonzero * density)
     if k == 0:
-        return torch.zeros_like(tvs, dtype=mask_dtype)
+        return torch.zeros_like(tvs[0], dtype=mask_dtype)
 
     _, indices = torch.topk(var.abs().view(-1), k=k, largest=True)
     mask = torch.zeros_like(var, dtype=mask_dtype)
-- 
2.43.0


From 13751d22e1ab26bcfea8eec0c80e510178c70780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:30 +0000
Subject: [PATCH 16/78] fix: karcher trims embeddings of every model to their
 common rows

---
 mergekit/merge_methods/karcher.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mergekit/merge_methods/karcher.py b/mergekit/merge_methods/karcher.py
index e15cc1c..95486ad 100644
--- a/mergekit/merge_methods/karcher.py
+++ b/mergekit/merge_methods/karcher.py
@@ -45,8 +45,7 @@ class KarcherTask(Task[torch.Tensor]):
         model_tensors = list(tensors.values())
 
         # Ensure all tensors have compatible shapes
-        for i in range(1, len(model_tensors)):
-            rectify_embed_sizes(self.weight_info, [model_tensors[0], model_tensors[i]])
+        rectify_embed_sizes(self.weight_info, model_tensors)
 
         # Calculate weights (equal by default)
         alphas = [1.0 / len(model_tensors)] * len(model_tensors)
-- 
2.43.0


From fa9e60363a402c9ed4dfbd89762acde49f404158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:46 +0000
Subject: [PATCH 17/78] fix: plan optional weights that have aliases

---
 mergekit/plan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index addc15f..8629ec8 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -169,7 +169,7 @@ class MergePlanner:
                 index = LoaderCache().get(model).index
                 if any(
                     name in index.tensor_paths
-                    for name in [w_in.name] + (w_in.aliases or [])
+                    for name in [w_in.name] + list(w_in.aliases or [])
                 ):
                     any_weight = True
                     break
-- 
2.43.0


From 2775062ab6eec4b8f520a58d229835f7b2f0e9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:46 +0000
Subject: [PATCH 18/78] fix: merge the query and key norms of OLMo 2

---
 mergekit/_data/architectures/olmo2.json | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mergekit/_data/architectures/olmo2.json b/mergekit/_data/architectures/olmo2.json
index 1360496..ee649be 100644
--- a/mergekit/_data/architectures/olmo2.json
+++ b/mergekit/_data/architectures/olmo2.json
@@ -15,6 +15,12 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_norm.weight"
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
-- 
2.43.0


From 6a30e78df7afb4218deb6837772f0b80d6035a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:46 +0000
Subject: [PATCH 19/78] fix: weight prefix of the Whisper decoder

---
 mergekit/_data/architectures/whisper.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/_data/architectures/whisper.json b/mergekit/_data/architectures/whisper.json
index 82ac444..fdb8cd7 100644
--- a/mergekit/_data/architectures/whisper.json
+++ b/mergekit/_data/architectures/whisper.json
@@ -10,7 +10,7 @@
     ],
     "modules": {
         "decoder": {
-            "weight_prefix": "model.decoder",
+            "weight_prefix": "model.decoder.",
             "architecture": {
                 "model_type": "",
                 "architectures": [],
-- 
2.43.0


From 88816e5a10ce9343f596e22d097fe2c31c1a52db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:46 +0000
Subject: [PATCH 20/78] fix: query and key norms are optional in Cohere models

---
 mergekit/_data/architectures/cohere.json | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mergekit/_data/architectures/cohere.json b/mergekit/_data/architectures/cohere.json
index 7b36cab..d69dfd2 100644
--- a/mergekit/_data/architectures/cohere.json
+++ b/mergekit/_data/architectures/cohere.json
@@ -35,13 +35,15 @@
                 "name": "model.layers.${layer_index}.mlp.up_proj.weight"
             },
             {
-                "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
+                "name": "model.layers.${layer_index}.self_attn.q_norm.weight",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
             {
-                "name": "model.layers.${layer_index}.self_attn.k_norm.weight"
+                "name": "model.layers.${layer_index}.self_attn.k_norm.weight",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
-- 
2.43.0


From dced2903764296f4b543e0f5d8736ab1dd5d3589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:46 +0000
Subject: [PATCH 21/78] fix: attention buffers are optional in GPT-NeoX
 checkpoints

---
 mergekit/_data/architectures/gpt-neox.json | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mergekit/_data/architectures/gpt-neox.json b/mergekit/_data/architectures/gpt-neox.json
index e8bf29a..ea61721 100644
--- a/mergekit/_data/architectures/gpt-neox.json
+++ b/mergekit/_data/architectures/gpt-neox.json
@@ -61,13 +61,16 @@
                 "name": "gpt_neox.layers.${layer_index}.post_attention_layernorm.bias"
             },
             {
-                "name": "gpt_neox.layers.${layer_index}.attention.bias"
+                "name": "gpt_neox.layers.${layer_index}.attention.bias",
+                "optional": true
             },
             {
-                "name": "gpt_neox.layers.${layer_index}.attention.masked_bias"
+                "name": "gpt_neox.layers.${layer_index}.attention.masked_bias",
+                "optional": true
             },
             {
-                "name": "gpt_neox.layers.${layer_index}.attention.rotary_emb.inv_freq"
+                "name": "gpt_neox.layers.${layer_index}.attention.rotary_emb.inv_freq",
+                "optional": true
             }
         ]
     }
-- 
2.43.0


From e4facfc96cd70a68bb0c2bdddaa8800e56fc2491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:46 +0000
Subject: [PATCH 22/78] fix: layer count key of Qwen2-VL

---
 mergekit/_data/architectures/qwen2_vl.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/_data/architectures/qwen2_vl.json b/mergekit/_data/architectures/qwen2_vl.json
index 7e5ee74..724c195 100644
--- a/mergekit/_data/architectures/qwen2_vl.json
+++ b/mergekit/_data/architectures/qwen2_vl.json
@@ -17,7 +17,7 @@
                     "Qwen2ForCausalLM"
                 ],
                 "model_type": "qwen2",
-                "num_layers_config_key": "num_hidden_layers",
+                "num_layers_config_key": "text_config.num_hidden_layers",
                 "pre_weights": [
                     {
                         "name": "model.embed_tokens.weight",
-- 
2.43.0


From d01ae4e07461a774278b414b62f38f327e97605c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:46 +0000
Subject: [PATCH 23/78] fix: keep the prediction head of BERT masked language
 models

---
 .../_data/architectures/bert-masked-lm.json   | 29 +++++++++++++++++--
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/mergekit/_data/architectures/bert-masked-lm.json b/mergekit/_data/architectures/bert-masked-lm.json
index d6430e4..4209d7d 100644
--- a/mergekit/_data/architectures/bert-masked-lm.json
+++ b/mergekit/_data/architectures/bert-masked-lm.json
@@ -34,13 +34,36 @@
     ],
     "post_weights": [
         {
-            "name": "bert.pooler.dense.weight"
+            "name": "bert.pooler.dense.weight",
+            "optional": true
         },
         {
-            "name": "bert.pooler.dense.bias"
+            "name": "bert.pooler.dense.bias",
+            "optional": true
         },
         {
-            "name": "cls.predictions.bias"
+            "name": "cls.predictions.transform.dense.weight"
+        },
+        {
+            "name": "cls.predictions.transform.dense.bias"
+        },
+        {
+            "name": "cls.predictions.transform.LayerNorm.weight",
+            "aliases": [
+                "cls.predictions.transform.LayerNorm.gamma"
+            ]
+        },
+        {
+            "name": "cls.predictions.transform.LayerNorm.bias",
+            "aliases": [
+                "cls.predictions.transform.LayerNorm.beta"
+            ]
+        },
+        {
+            "name": "cls.predictions.bias",
+            "aliases": [
+                "cls.predictions.decoder.bias"
+            ]
         },
         {
             "name": "cls.predictions.decoder.weight",
-- 
2.43.0


From 8efc096b09974c4178450c869e956d3a42bdd678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:34 +0000
Subject: [PATCH 24/78] fix: keep optional attention and MLP biases

---
 mergekit/_data/architectures/arcee.json       | 24 ++++++++++++++++
 mergekit/_data/architectures/cohere.json      | 16 +++++++++++
 mergekit/_data/architectures/cohere2.json     | 16 +++++++++++
 mergekit/_data/architectures/gemma.json       | 16 +++++++++++
 mergekit/_data/architectures/gemma2.json      | 16 +++++++++++
 mergekit/_data/architectures/gemma3.json      | 16 +++++++++++
 .../architectures/granite4moehybrid.json      | 16 +++++++++++
 mergekit/_data/architectures/llama.json       | 28 +++++++++++++++++++
 mergekit/_data/architectures/olmo2.json       | 16 +++++++++++
 mergekit/_data/architectures/qwen3.json       | 16 +++++++++++
 mergekit/_data/architectures/qwen3_moe.json   | 16 +++++++++++
 11 files changed, 196 insertions(+)

diff --git a/mergekit/_data/architectures/arcee.json b/mergekit/_data/architectures/arcee.json
index 2a1088a..cae4ffb 100644
--- a/mergekit/_data/architectures/arcee.json
+++ b/mergekit/_data/architectures/arcee.json
@@ -31,6 +31,14 @@
             {
                 "name": "model.layers.${layer_index}.mlp.down_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.mlp.up_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.mlp.down_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mlp.up_proj.weight"
             },
@@ -43,6 +51,22 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
diff --git a/mergekit/_data/architectures/cohere.json b/mergekit/_data/architectures/cohere.json
index d69dfd2..6db807e 100644
--- a/mergekit/_data/architectures/cohere.json
+++ b/mergekit/_data/architectures/cohere.json
@@ -53,6 +53,22 @@
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
             }
         ]
     }
diff --git a/mergekit/_data/architectures/cohere2.json b/mergekit/_data/architectures/cohere2.json
index 755e7db..33508ee 100644
--- a/mergekit/_data/architectures/cohere2.json
+++ b/mergekit/_data/architectures/cohere2.json
@@ -34,6 +34,22 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mlp.gate_proj.weight"
             },
diff --git a/mergekit/_data/architectures/gemma.json b/mergekit/_data/architectures/gemma.json
index 43dbe27..ea722bc 100644
--- a/mergekit/_data/architectures/gemma.json
+++ b/mergekit/_data/architectures/gemma.json
@@ -37,6 +37,22 @@
                 "input_space": "attn_v_${layer_index}",
                 "output_space": "post_attn_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight",
                 "input_space": "h_a_${layer_index}"
diff --git a/mergekit/_data/architectures/gemma2.json b/mergekit/_data/architectures/gemma2.json
index 5250524..2571f04 100644
--- a/mergekit/_data/architectures/gemma2.json
+++ b/mergekit/_data/architectures/gemma2.json
@@ -27,6 +27,22 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
             },
diff --git a/mergekit/_data/architectures/gemma3.json b/mergekit/_data/architectures/gemma3.json
index 787fd04..638915f 100644
--- a/mergekit/_data/architectures/gemma3.json
+++ b/mergekit/_data/architectures/gemma3.json
@@ -33,6 +33,22 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
             },
diff --git a/mergekit/_data/architectures/granite4moehybrid.json b/mergekit/_data/architectures/granite4moehybrid.json
index 1ef6c64..99eee26 100644
--- a/mergekit/_data/architectures/granite4moehybrid.json
+++ b/mergekit/_data/architectures/granite4moehybrid.json
@@ -54,6 +54,22 @@
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight",
                 "optional": true
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight",
                 "optional": true
diff --git a/mergekit/_data/architectures/llama.json b/mergekit/_data/architectures/llama.json
index 00918a2..9624982 100644
--- a/mergekit/_data/architectures/llama.json
+++ b/mergekit/_data/architectures/llama.json
@@ -44,6 +44,22 @@
                 "output_space": "running_residual",
                 "head_split": "input"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight",
                 "input_space": "running_residual"
@@ -62,6 +78,18 @@
                 "name": "model.layers.${layer_index}.mlp.down_proj.weight",
                 "input_space": "up_${layer_index}",
                 "output_space": "running_residual"
+            },
+            {
+                "name": "model.layers.${layer_index}.mlp.gate_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.mlp.up_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.mlp.down_proj.bias",
+                "optional": true
             }
         ]
     },
diff --git a/mergekit/_data/architectures/olmo2.json b/mergekit/_data/architectures/olmo2.json
index ee649be..209c90a 100644
--- a/mergekit/_data/architectures/olmo2.json
+++ b/mergekit/_data/architectures/olmo2.json
@@ -30,6 +30,22 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
             },
diff --git a/mergekit/_data/architectures/qwen3.json b/mergekit/_data/architectures/qwen3.json
index 917f287..138081c 100644
--- a/mergekit/_data/architectures/qwen3.json
+++ b/mergekit/_data/architectures/qwen3.json
@@ -57,6 +57,22 @@
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
             }
         ]
     }
diff --git a/mergekit/_data/architectures/qwen3_moe.json b/mergekit/_data/architectures/qwen3_moe.json
index 1c7d849..1c79c4c 100644
--- a/mergekit/_data/architectures/qwen3_moe.json
+++ b/mergekit/_data/architectures/qwen3_moe.json
@@ -57,6 +57,22 @@
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
             }
         ]
     }
-- 
2.43.0


From 2f7eee35a863f548e4c548e9021af9fe82e05e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:34 +0000
Subject: [PATCH 25/78] fix: keep optional Lfm2, Mamba and Phi-2 layer tensors

---
 mergekit/_data/architectures/lfm2.json  | 12 ++++++++++++
 mergekit/_data/architectures/mamba.json | 11 ++++++++++-
 mergekit/_data/architectures/phi2.json  | 16 ++++++++++++++++
 3 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/mergekit/_data/architectures/lfm2.json b/mergekit/_data/architectures/lfm2.json
index d383d93..896a39c 100644
--- a/mergekit/_data/architectures/lfm2.json
+++ b/mergekit/_data/architectures/lfm2.json
@@ -51,6 +51,18 @@
                 "name": "model.layers.${layer_index}.conv.out_proj.weight",
                 "optional": true
             },
+            {
+                "name": "model.layers.${layer_index}.conv.conv.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.conv.in_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.conv.out_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_layernorm.weight",
                 "optional": true
diff --git a/mergekit/_data/architectures/mamba.json b/mergekit/_data/architectures/mamba.json
index 1c47353..5b2cd30 100644
--- a/mergekit/_data/architectures/mamba.json
+++ b/mergekit/_data/architectures/mamba.json
@@ -29,7 +29,8 @@
                 "name": "backbone.layers.${layer_index}.mixer.A_log"
             },
             {
-                "name": "backbone.layers.${layer_index}.mixer.conv1d.bias"
+                "name": "backbone.layers.${layer_index}.mixer.conv1d.bias",
+                "optional": true
             },
             {
                 "name": "backbone.layers.${layer_index}.mixer.conv1d.weight"
@@ -49,6 +50,14 @@
             {
                 "name": "backbone.layers.${layer_index}.mixer.out_proj.weight"
             },
+            {
+                "name": "backbone.layers.${layer_index}.mixer.in_proj.bias",
+                "optional": true
+            },
+            {
+                "name": "backbone.layers.${layer_index}.mixer.out_proj.bias",
+                "optional": true
+            },
             {
                 "name": "backbone.layers.${layer_index}.mixer.x_proj.weight"
             },
diff --git a/mergekit/_data/architectures/phi2.json b/mergekit/_data/architectures/phi2.json
index f509e51..a166844 100644
--- a/mergekit/_data/architectures/phi2.json
+++ b/mergekit/_data/architectures/phi2.json
@@ -57,6 +57,22 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_layernorm.weight",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_layernorm.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_layernorm.weight",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_layernorm.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mlp.fc1.bias"
             },
-- 
2.43.0


From cfb83763bc5960082c6fb3d26f967aa00f41e13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:08 +0000
Subject: [PATCH 26/78] fix: keep optional weights that exist only in converted
 form

---
 mergekit/plan.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index 8629ec8..57a370e 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -12,6 +12,7 @@ from mergekit.architecture import (
     WeightInfo,
 )
 from mergekit.architecture.base import ConfiguredModelArchitecture
+from mergekit.architecture.conversion import can_convert_checkpoint_keys
 from mergekit.common import ImmutableMap, ModelReference
 from mergekit.config import (
     ConfigReader,
@@ -167,8 +168,9 @@ class MergePlanner:
             any_weight = False
             for model, w_in in zip(models, weights_in):
                 index = LoaderCache().get(model).index
+                model_type = self._model_arch(model).config.model_type
                 if any(
-                    name in index.tensor_paths
+                    can_convert_checkpoint_keys(model_type, index.tensor_paths, name)
                     for name in [w_in.name] + list(w_in.aliases or [])
                 ):
                     any_weight = True
-- 
2.43.0


From b8426991d9f2e3c201957ab3dab41cd0a1fe36d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:09 +0000
Subject: [PATCH 27/78] fix: keep a separate output matrix of Gemma models

---
 mergekit/_data/architectures/gemma.json | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mergekit/_data/architectures/gemma.json b/mergekit/_data/architectures/gemma.json
index ea722bc..d275b12 100644
--- a/mergekit/_data/architectures/gemma.json
+++ b/mergekit/_data/architectures/gemma.json
@@ -96,6 +96,14 @@
         {
             "name": "model.norm.weight",
             "input_space": "h_${num_layers}"
+        },
+        {
+            "name": "lm_head.weight",
+            "is_embed": true,
+            "optional": true,
+            "tied_names": [
+                "model.embed_tokens.weight"
+            ]
         }
     ]
 }
-- 
2.43.0


From 2c0cfc64058aeff445efac7c088ea9baf2eb4070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:24 +0000
Subject: [PATCH 28/78] fix: infer architectures of models Transformers cannot
 fully describe

---
 mergekit/architecture/auto.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index 019e20a..86caecd 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -93,8 +93,11 @@ def get_transformers_info(model: ModelReference, options: MergeOptions) -> tuple
         ignore_on_save = set(ignore_on_save)
 
     embed_names = set()
-    _embed_out = model_obj.get_output_embeddings()
-    _embed_in = model_obj.get_input_embeddings()
+    try:
+        _embed_out = model_obj.get_output_embeddings()
+        _embed_in = model_obj.get_input_embeddings()
+    except NotImplementedError:
+        _embed_out = _embed_in = None
     for name, module in model_obj.named_modules():
         if (
             isinstance(module, torch.nn.Embedding)
@@ -249,8 +252,8 @@ def infer_architecture_info(
             tied_keys is not None
             and any(re.search(pat, full_name) for pat in tied_keys)
         )
-        is_embed = (full_name in embed_names) or any(
-            re.search(pat, full_name) for pat in tied_keys
+        is_embed = (full_name in (embed_names or ())) or any(
+            re.search(pat, full_name) for pat in (tied_keys or ())
         )  # strictly speaking you can have tied non-embedding/lm-head weights
         # but i've never seen it so let's not worry about it until this breaks something
         return WeightInfo(
-- 
2.43.0


From 4bf3aa940d8d81600649bc4342b3ee91e39fcb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:07 +0000
Subject: [PATCH 29/78] fix: keep checkpoint tensors outside the Transformers
 layout

---
 mergekit/architecture/auto.py       | 15 ++++++++++++++-
 mergekit/architecture/conversion.py | 20 ++++++++++++++++++++
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index 86caecd..13ace1c 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -15,7 +15,10 @@ from mergekit.architecture.base import (
     ModuleDefinition,
     WeightInfo,
 )
-from mergekit.architecture.conversion import can_convert_checkpoint_keys
+from mergekit.architecture.conversion import (
+    can_convert_checkpoint_keys,
+    is_converted_checkpoint_key,
+)
 from mergekit.architecture.json_definitions import (
     JsonLayerTemplates,
     JsonModuleArchDef,
@@ -182,6 +185,16 @@ def infer_architecture_info(
             model: model.config(trust_remote_code=options.trust_remote_code).model_type
             for model in model_tensor_names
         }
+        # keep tensors that are not part of the Transformers layout as they are
+        target_names = frozenset(transformer_tensor_names)
+        all_tensor_names |= {
+            name
+            for model, names in model_tensor_names.items()
+            for name in names
+            if not is_converted_checkpoint_key(
+                model_types[model], name, target_names
+            )
+        }
     else:
         all_tensor_names = raw_tensor_names
         model_types = {}
diff --git a/mergekit/architecture/conversion.py b/mergekit/architecture/conversion.py
index e9da6c7..4556ac7 100644
--- a/mergekit/architecture/conversion.py
+++ b/mergekit/architecture/conversion.py
@@ -125,6 +125,26 @@ def convert_checkpoint_tensors(
     return tensor if isinstance(tensor, torch.Tensor) else None
 
 
+def is_converted_checkpoint_key(
+    model_type: Optional[str],
+    source_key: str,
+    target_keys: set[str],
+) -> bool:
+    """Return whether a source checkpoint key ends up in any of the target model keys."""
+    names = {source_key}
+    for transform in get_checkpoint_conversion_mapping(model_type) or []:
+        for match in list(
+            _iter_transform_matches(transform, {name: name for name in names})
+        ):
+            if isinstance(transform, WeightRenaming):
+                names.add(match.renamed_key)
+            else:
+                names |= _expanded_target_keys(
+                    match.renamed_key, transform.target_patterns
+                )
+    return not names.isdisjoint(target_keys)
+
+
 def can_convert_checkpoint_keys(
     model_type: Optional[str],
     source_keys: set[str],
-- 
2.43.0


From f4ffdd622433456453175e82502ee5735b085e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:19 +0000
Subject: [PATCH 30/78] fix: keep full names of loose weights in inferred
 modules

---
 mergekit/architecture/auto.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index 13ace1c..dedf98c 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -234,7 +234,7 @@ def infer_architecture_info(
             continue
         for prefix in module_prefixes:
             if tensor_name.startswith(prefix):
-                module_loose_weights[prefix].add(tensor_name[len(prefix) :])
+                module_loose_weights[prefix].add(tensor_name)
                 break
 
     if "" in module_prefixes and not (module_loose_weights[""] or module_templates[""]):
-- 
2.43.0


From d40b0fdcc2161432dd818f6c66571394e150f9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:53 +0000
Subject: [PATCH 31/78] fix: linear merges of integer tensors with fractional
 weights

---
 mergekit/merge_methods/linear.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mergekit/merge_methods/linear.py b/mergekit/merge_methods/linear.py
index efe2a7f..f24952b 100644
--- a/mergekit/merge_methods/linear.py
+++ b/mergekit/merge_methods/linear.py
@@ -46,6 +46,10 @@ class LinearMergeTask(Task[torch.Tensor]):
             )
 
         tensors = torch.stack(tensors, dim=0)
+        out_dtype = tensors.dtype
+        if not out_dtype.is_floating_point:
+            # e.g. position ids; weights would be truncated to whole numbers
+            tensors = tensors.float()
         weights = torch.tensor(weights, dtype=tensors.dtype, device=tensors.device)
         while len(weights.shape) < len(tensors.shape):
             weights.unsqueeze_(-1)
@@ -53,6 +57,8 @@ class LinearMergeTask(Task[torch.Tensor]):
         res = (weights * tensors).sum(dim=0)
         if self.normalize:
             res = res / weights.sum(dim=0)
+        if not out_dtype.is_floating_point:
+            res = res.round().to(out_dtype)
 
         return res
 
-- 
2.43.0


From 49b9ae5c3241abefb963b67f7be9c15b5d785719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:22 +0000
Subject: [PATCH 32/78] fix: keep cross attention of GPT-2 models

---
 mergekit/_data/architectures/gpt2.json | 56 ++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/mergekit/_data/architectures/gpt2.json b/mergekit/_data/architectures/gpt2.json
index fc7a320..56da967 100644
--- a/mergekit/_data/architectures/gpt2.json
+++ b/mergekit/_data/architectures/gpt2.json
@@ -115,6 +115,62 @@
                 "aliases": [
                     "h.${layer_index}.mlp.c_fc.bias"
                 ]
+            },
+            {
+                "name": "transformer.h.${layer_index}.crossattention.c_attn.weight",
+                "optional": true,
+                "aliases": [
+                    "h.${layer_index}.crossattention.c_attn.weight"
+                ]
+            },
+            {
+                "name": "transformer.h.${layer_index}.crossattention.c_attn.bias",
+                "optional": true,
+                "aliases": [
+                    "h.${layer_index}.crossattention.c_attn.bias"
+                ]
+            },
+            {
+                "name": "transformer.h.${layer_index}.crossattention.q_attn.weight",
+                "optional": true,
+                "aliases": [
+                    "h.${layer_index}.crossattention.q_attn.weight"
+                ]
+            },
+            {
+                "name": "transformer.h.${layer_index}.crossattention.q_attn.bias",
+                "optional": true,
+                "aliases": [
+                    "h.${layer_index}.crossattention.q_attn.bias"
+                ]
+            },
+            {
+                "name": "transformer.h.${layer_index}.crossattention.c_proj.weight",
+                "optional": true,
+                "aliases": [
+                    "h.${layer_index}.crossattention.c_proj.weight"
+                ]
+            },
+            {
+                "name": "transformer.h.${layer_index}.crossattention.c_proj.bias",
+                "optional": true,
+                "aliases": [
+                    "h.${layer_index}.crossattention.c_proj.bias"
+                ]
+            },
+            {
+                "name": "transformer.h.${layer_index}.ln_cross_attn.weight",
+                "optional": true,
+                "aliases": [
+                    "h.${layer_index}.ln_cross_attn.weight"
+                ]
+            },
+            {
+                "name": "transformer.h.${layer_index}.ln_cross_attn.bias",
+                "optional": true,
+                "aliases": [
+                    "h.${layer_index}.ln_cross_attn.bias"
+                ]
             }
         ]
     }
-- 
2.43.0


From bd51c6d291f48549974c668aaf8de020055eb5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:41 +0000
Subject: [PATCH 33/78] fix: drop merges that produce a stripped token

---
 mergekit/tokenizer/build.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index 3a01e26..beaa4ca 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -91,7 +91,7 @@ def get_stripped_tokenizer(
             toks = m
         else:
             raise RuntimeError(f"Unexpected merge format: {repr(m)} ({type(m)})")
-        for tok in toks:
+        for tok in toks + ["".join(toks)]:
             if tok in unused_toks:
                 return False
         return True
-- 
2.43.0


From 1d315f25c60c6b79e711d58006ae439456f2b07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:41 +0000
Subject: [PATCH 34/78] fix: load shared experts that are not routed experts as
 well

---
 mergekit/moe/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mergekit/moe/common.py b/mergekit/moe/common.py
index 2b1ea00..22d6c8d 100644
--- a/mergekit/moe/common.py
+++ b/mergekit/moe/common.py
@@ -23,8 +23,9 @@ def initialize_io(
 ) -> Tuple[Dict[ModelReference, LazyTensorLoader], LazyTensorLoader, TensorWriter]:
     base_model = config.base_model
     loaders: Dict[ModelReference, LazyTensorLoader] = {}
+    experts = config.experts + (config.shared_experts or [])
     for model in tqdm.tqdm(
-        [base_model] + [e.source_model for e in config.experts], desc="Warm up loaders"
+        [base_model] + [e.source_model for e in experts], desc="Warm up loaders"
     ):
         loaders[model] = model.lazy_loader(
             cache_dir=merge_options.transformers_cache,
-- 
2.43.0


From 550e092489014c19c2dba530e23e9cf08ef77e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:41 +0000
Subject: [PATCH 35/78] fix: create the output directory of a DeepSeek MoE

---
 mergekit/moe/deepseek.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mergekit/moe/deepseek.py b/mergekit/moe/deepseek.py
index 03ff072..a877e58 100644
--- a/mergekit/moe/deepseek.py
+++ b/mergekit/moe/deepseek.py
@@ -118,6 +118,7 @@ class DeepseekMoE(MoEOutputArchitecture):
         )
         if out_dtype is not None:
             out_cfg["torch_dtype"] = str(out_dtype).removeprefix("torch.")
+        os.makedirs(out_path, exist_ok=True)
         with open(os.path.join(out_path, "config.json"), "w", encoding="utf-8") as f:
             json.dump(out_cfg, f, indent=4)
 
-- 
2.43.0


From 6760c8b6255a422f6a41b0784cc3ab8eef07fd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:08 +0000
Subject: [PATCH 36/78] fix: zero and unspecified parameters in raw PyTorch
 merges

---
 mergekit/scripts/merge_raw_pytorch.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 70d3578..e6a7b21 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -189,14 +189,11 @@ def construct_param_dicts(
         for model_def in config.models:
             mr = ModelReference.model_validate({"model": {"path": model_def.model}})
             tensor_params[mr] = tensor_params.get(mr, {})
-            if value := evaluate_setting(
-                tensor_name, model_def.parameters.get(param_def.name, [])
-            ):
-                tensor_params[mr][param_def.name] = value
-            elif value := evaluate_setting(
-                tensor_name,
-                config.parameters.get(param_def.name, []) if config.parameters else [],
-            ):
+            value = None
+            for parameters in (model_def.parameters, config.parameters):
+                if value is None and parameters and param_def.name in parameters:
+                    value = evaluate_setting(tensor_name, parameters[param_def.name])
+            if value is not None:
                 tensor_params[mr][param_def.name] = value
             elif param_def.required:
                 raise RuntimeError(
-- 
2.43.0


From 136ba6250a63ebd1d7e285aa083a47bb65f92c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:17 +0000
Subject: [PATCH 37/78] fix: merge tensors only some raw PyTorch inputs have

---
 mergekit/merge_methods/base.py        | 6 +++++-
 mergekit/scripts/merge_raw_pytorch.py | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/mergekit/merge_methods/base.py b/mergekit/merge_methods/base.py
index 03b2284..27c156f 100644
--- a/mergekit/merge_methods/base.py
+++ b/mergekit/merge_methods/base.py
@@ -27,7 +27,11 @@ class TensorDictWrapper(Task[Dict[ModelReference, torch.Tensor]]):
         }
 
     def execute(self, **kwargs) -> Dict[ModelReference, torch.Tensor]:
-        return {ModelReference.model_validate_json(k): v for k, v in kwargs.items()}
+        return {
+            ModelReference.model_validate_json(k): v
+            for k, v in kwargs.items()
+            if v is not None
+        }
 
 
 MergeTensorInput: TypeAlias = Union[
diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index e6a7b21..2c8c4b4 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -64,7 +64,9 @@ class SimpleLoadTensor(Task[torch.Tensor]):
 
     def execute(self) -> torch.Tensor:
         loader = SimpleLoaderCache().get(self.model)
-        tensor = loader.get_tensor(self.tensor_name, device=self.device or "cpu")
+        tensor = loader.get_tensor(
+            self.tensor_name, device=self.device or "cpu", raise_on_missing=False
+        )
         if tensor is None:
             return None
         if dt := dtype_from_name(self.dtype):
-- 
2.43.0


From c14511a141f003264dd5588f3355121635c1cccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:17 +0000
Subject: [PATCH 38/78] fix: pass tensors to custom merge methods in order,
 base first

---
 mergekit/merge_methods/easy_define.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/mergekit/merge_methods/easy_define.py b/mergekit/merge_methods/easy_define.py
index a0bdcb8..ac49e1a 100644
--- a/mergekit/merge_methods/easy_define.py
+++ b/mergekit/merge_methods/easy_define.py
@@ -110,10 +110,9 @@ def __merge_method(
 
     tt_fields = {}
     tt_fields["gather_tensors"] = (MergeTensorInput, Field(...))
-    if ("base_model" in used_kwargs) or use_base_tensor_arg:
-        bm_ty = ModelReference if require_base_tensor else Optional[ModelReference]
-        field_kwargs = {"default": None} if not require_base_tensor else {}
-        tt_fields["base_model"] = (bm_ty, Field(**field_kwargs))
+    bm_ty = ModelReference if require_base_tensor else Optional[ModelReference]
+    field_kwargs = {"default": None} if not require_base_tensor else {}
+    tt_fields["base_model"] = (bm_ty, Field(**field_kwargs))
     if "output_weight" in used_kwargs:
         tt_fields["output_weight"] = (WeightInfo, Field(...))
     if parameters:
@@ -140,14 +139,12 @@ def __merge_method(
     tt_fields["uses_accelerator"] = _uses_accelerator
 
     def _execute(self, tensors: Dict[ModelReference, torch.Tensor], **_kwargs):
-        model_refs = set(tensors.keys())
-        base_model = getattr(self, "base_model", None)
-        if base_model and base_model in model_refs:
+        model_refs = list(tensors.keys())
+        base_model = self.base_model
+        if base_model in model_refs:
             model_refs.remove(base_model)
             if not use_base_tensor_arg:
-                model_refs = [base_model] + list(model_refs)
-            else:
-                model_refs = list(model_refs)
+                model_refs.insert(0, base_model)
         base_tensor = tensors.get(base_model, None)
         tensors = [tensors[key] for key in model_refs]
         inner_kwargs = {}
@@ -182,9 +179,7 @@ def __merge_method(
         base_model: Optional[ModelReference],
         **_kwargs,
     ) -> Task:
-        tt_kwargs = {"gather_tensors": tensors}
-        if "base_model" in tt_fields:
-            tt_kwargs["base_model"] = base_model
+        tt_kwargs = {"gather_tensors": tensors, "base_model": base_model}
         if "output_weight" in tt_fields:
             tt_kwargs["output_weight"] = output_weight
         if "parameters" in tt_fields:
-- 
2.43.0


From 15b310356d6f7618804924224d56024f69b0ad6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:12 +0000
Subject: [PATCH 39/78] fix: keep the order of models in raw PyTorch merges

---
 mergekit/scripts/merge_raw_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 2c8c4b4..3911126 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -142,7 +142,7 @@ def plan_flat_merge(
 
         tensor_task = merge_method.make_task(
             output_weight=WeightInfo(name=tensor_name),
-            tensors=TensorDictWrapper(tensors=inputs),
+            tensors=TensorDictWrapper(tensors=ImmutableMap(inputs)),
             parameters=ImmutableMap(global_params),
             tensor_parameters=ImmutableMap(
                 data={
-- 
2.43.0


From dcce75ad8af20e2a962e06bdba37f2d4d1350ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:31 +0000
Subject: [PATCH 40/78] fix: consider tensors only the base of a raw PyTorch
 merge has

---
 mergekit/scripts/merge_raw_pytorch.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 3911126..ba5b275 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -86,8 +86,11 @@ def plan_flat_merge(
     loaders = SimpleLoaderCache()
     loaders.lazy_unpickle = options.lazy_unpickle
     all_tensor_names = set()
-    for model_def in tqdm.tqdm(config.models, desc="Preparing model loaders"):
-        loader = loaders.get(model_def.model)
+    model_paths = [model_def.model for model_def in config.models]
+    if config.base_model is not None:
+        model_paths.append(config.base_model)
+    for model_path in tqdm.tqdm(model_paths, desc="Preparing model loaders"):
+        loader = loaders.get(model_path)
         all_tensor_names.update(loader.index.tensor_paths.keys())
 
     writer_task = TensorWriterTask(
-- 
2.43.0


From 5cca9232fea2a463fc908208dd59e39115d4e48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:14 +0000
Subject: [PATCH 41/78] fix: serialize model references with spaces, quotes, +
 or @ in a path

---
 mergekit/common.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index 1bc6339..628571e 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -210,8 +210,12 @@ class ModelReference(BaseModel, frozen=True):
                 "override_architecture": self.override_architecture,
             }
         res = str(self)
-        if '"' in res or " " in res:
-            return self
+        try:
+            unambiguous = ModelReference.parse(res) == self
+        except RuntimeError:
+            unambiguous = False
+        if not unambiguous:
+            return {"model": self.model, "lora": self.lora}
         return res
 
     @classmethod
-- 
2.43.0


From af08db46f6ea8408be86f072d90e5407fbf94240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:47 +0000
Subject: [PATCH 42/78] fix: write model cards of local models when the hub is
 out of reach

---
 mergekit/card.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mergekit/card.py b/mergekit/card.py
index aab595c..7c361d9 100644
--- a/mergekit/card.py
+++ b/mergekit/card.py
@@ -6,7 +6,6 @@ from typing import Generator, List, Optional
 
 import huggingface_hub
 import yaml
-from huggingface_hub.utils import HFValidationError
 from yaml.nodes import SequenceNode as SequenceNode
 
 from mergekit import merge_methods
@@ -72,7 +71,8 @@ def is_hf(path: str) -> bool:
         return True  # If path doesn't exist locally, it must be a HF repo
     try:
         return huggingface_hub.repo_exists(path, repo_type="model", token=False)
-    except HFValidationError:
+    except Exception:
+        # not a repository name, or the hub is out of reach
         return False
 
 
-- 
2.43.0


From f908f9103fe023d8e6f1a8810336eff5d65f0bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:50 +0000
Subject: [PATCH 43/78] fix: accept token sources in models with a revision and
 an adapter revision

---
 mergekit/tokenizer/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mergekit/tokenizer/config.py b/mergekit/tokenizer/config.py
index ae35c10..d84e2c1 100644
--- a/mergekit/tokenizer/config.py
+++ b/mergekit/tokenizer/config.py
@@ -30,7 +30,9 @@ class ZeroEmbedding(BaseModel, frozen=True):
 
 
 class TokenEmbeddingConfig(BaseModel, frozen=True):
-    source: Union[ModelTokenEmbedding, ZeroEmbedding, ModelReference, None] = None
+    source: Union[ModelTokenEmbedding, ZeroEmbedding, ModelReference, None] = (
+        pydantic.Field(default=None, union_mode="left_to_right")
+    )
     force: bool = False
 
 
-- 
2.43.0


From 0a8bd5e93a747c93aded2443be1bbae24d5d92ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:46 +0000
Subject: [PATCH 44/78] fix: copy every file of the donor's tokenizer

---
 mergekit/merge.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index 5c3a7ea..eaaccc2 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -254,6 +254,7 @@ def _copy_tokenizer(
             "tokenizer.json",
             "tokenizer.model",
             "added_tokens.json",
+            "vocab.json",
             "merges.txt",
             "chat_template.jinja",
             "generation_config.json",
@@ -266,6 +267,15 @@ def _copy_tokenizer(
                     os.path.join(out_path, file_name),
                 )
 
+        # named chat templates other than the default one
+        extra_templates = os.path.join(donor_local_path, "additional_chat_templates")
+        if os.path.isdir(extra_templates):
+            shutil.copytree(
+                extra_templates,
+                os.path.join(out_path, "additional_chat_templates"),
+                dirs_exist_ok=True,
+            )
+
         return
 
     # fallback: try actually loading the tokenizer and saving it
-- 
2.43.0


From 944b8f03e1beba970907feca096dbed44f3356dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:42 +0000
Subject: [PATCH 45/78] fix: write the configuration of a merged model last

---
 mergekit/merge.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index eaaccc2..529e01a 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -93,9 +93,6 @@ def run_merge(
             cfg_out, arch_info, tokenizer, pad_to_multiple_of=pad_to_multiple_of
         )
 
-    LOG.info("Saving config")
-    cfg_out.save_pretrained(out_path)
-
     if options.write_model_card:
         if not config_source:
             config_source = merge_config.to_yaml()
@@ -138,6 +135,10 @@ def run_merge(
         options=options,
     )
 
+    # written last: a directory with weights and a config is a complete merge
+    LOG.info("Saving config")
+    cfg_out.save_pretrained(out_path)
+
     if getattr(arch_info, "post_fill_parameters", False):
         from mergekit.scripts.fill_missing_params import copy_and_fill_missing_params
 
-- 
2.43.0


From 08ca4cf620164431e2f78e0f40f34a7ec861edec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:32 +0000
Subject: [PATCH 46/78] fix: replace only model references by the outputs of
 earlier merges

---
 mergekit/scripts/multimerge.py | 54 +++++++++++++++-------------------
 1 file changed, 23 insertions(+), 31 deletions(-)

diff --git a/mergekit/scripts/multimerge.py b/mergekit/scripts/multimerge.py
index 1735d4c..b645306 100644
--- a/mergekit/scripts/multimerge.py
+++ b/mergekit/scripts/multimerge.py
@@ -3,10 +3,11 @@
 
 import logging
 import os
-from typing import Dict, Optional, Set, Tuple, Union
+from typing import Dict, Optional, Set, Tuple
 
 import click
 import yaml
+from pydantic import BaseModel
 
 from mergekit.common import ImmutableMap, ModelReference
 from mergekit.config import MergeConfiguration
@@ -133,39 +134,30 @@ def patched_config(config: MergeConfiguration, merge_names: Set[str], working_di
     """
     used = set()
 
-    def _patch_mr(value: Union[dict, list, str, int, None]):
-        nonlocal used
-        if isinstance(value, list):
-            return [_patch_mr(x) for x in value]
-        elif isinstance(value, dict):
-            if set(value.keys()) == {"model", "lora", "override_architecture"}:
-                # is a ModelReference
-                base = value["model"]["path"]
-                if base in merge_names:
-                    value["model"] = value["model"].copy()
-                    value["model"]["path"] = os.path.join(working_dir, base)
-                    used.add(base)
+    def _patch(value):
+        if isinstance(value, ModelReference):
+            name = value.model.path
+            if name not in merge_names:
                 return value
-            return {k: _patch_mr(v) for k, v in value.items()}
-        elif isinstance(value, str):
-            try:
-                mr = ModelReference.model_validate(value)
-                if mr.model.path in merge_names:
-                    used.add(mr.model.path)
-                    return ModelReference(
-                        model={
-                            "path": os.path.join(working_dir, mr.model.path),
-                            "revision": mr.model.revision,
-                        },
-                        lora=mr.lora,
-                        override_architecture=mr.override_architecture,
-                    ).model_dump()
-            except ValueError:
-                pass
+            used.add(name)
+            path = value.model.model_copy(
+                update={"path": os.path.join(working_dir, name)}
+            )
+            return value.model_copy(update={"model": path})
+        elif isinstance(value, BaseModel):
+            return value.model_copy(
+                update={
+                    field: _patch(getattr(value, field))
+                    for field in value.model_fields_set
+                }
+            )
+        elif isinstance(value, list):
+            return [_patch(x) for x in value]
+        elif isinstance(value, dict):
+            return {k: _patch(v) for k, v in value.items()}
         return value
 
-    new_dict = _patch_mr(config.model_dump())
-    return MergeConfiguration.model_validate(new_dict), used
+    return _patch(config), used
 
 
 def make_tasks(
-- 
2.43.0


From d102bc4508babadcfd17bfc31d692a0121cd946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:07 +0000
Subject: [PATCH 47/78] fix: read models anew in each merge of a process

---
 mergekit/io/tasks.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mergekit/io/tasks.py b/mergekit/io/tasks.py
index 4e32cf5..d219668 100644
--- a/mergekit/io/tasks.py
+++ b/mergekit/io/tasks.py
@@ -34,22 +34,25 @@ class LoaderCache:
         return cls._instance.value
 
     def get(self, model: ModelReference) -> LazyTensorLoader:
-        if model not in self.loaders:
+        loaders = self.loaders
+        if model not in loaders:
             merged = model.merged(
                 cache_dir=self.lora_cache_dir,
                 trust_remote_code=self.trust_remote_code,
                 lora_merge_dtype=self.lora_merge_dtype,
             )
-            self.loaders[model] = merged.lazy_loader(
+            loaders[model] = merged.lazy_loader(
                 cache_dir=self.hf_cache_dir, lazy_unpickle=self.lazy_unpickle
             )
-        return self.loaders[model]
+        return loaders[model]
 
     def flush_all(self):
         for loader in self.loaders.values():
             loader.flush()
 
     def setup(self, options: MergeOptions):
+        # loaders of an earlier merge may hold other contents or settings
+        LoaderCache.loaders = {}
         self.lora_cache_dir = options.lora_merge_cache
         self.hf_cache_dir = options.transformers_cache
         self.lazy_unpickle = options.lazy_unpickle
-- 
2.43.0


From 59928eb0f7c872388f382c3bd20d47dccf25a49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:58 +0000
Subject: [PATCH 48/78] fix: reproducible random numbers in raw PyTorch merges

---
 mergekit/scripts/merge_raw_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index ba5b275..152281c 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -102,7 +102,7 @@ def plan_flat_merge(
     )
 
     save_tasks = []
-    for tensor_name in tqdm.tqdm(list(all_tensor_names), desc="Planning operations"):
+    for tensor_name in tqdm.tqdm(sorted(all_tensor_names), desc="Planning operations"):
         inputs = {
             model_def.model: SimpleLoadTensor(
                 model=model_def.model, tensor_name=tensor_name, dtype=config.dtype
-- 
2.43.0


From 3ed4dae4649a5caa4b193681672010832d70e3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:58 +0000
Subject: [PATCH 49/78] fix: read checkpoints anew in each raw PyTorch merge

---
 mergekit/scripts/merge_raw_pytorch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 152281c..010802e 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -84,6 +84,7 @@ def plan_flat_merge(
     merge_method = merge_methods.get(config.merge_method)
 
     loaders = SimpleLoaderCache()
+    loaders.loaders = {}  # those of an earlier merge may hold other contents
     loaders.lazy_unpickle = options.lazy_unpickle
     all_tensor_names = set()
     model_paths = [model_def.model for model_def in config.models]
-- 
2.43.0


From 0d1e2ff9b4f45911b1501209bbd9e7ba283399bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:19 +0000
Subject: [PATCH 50/78] fix: extract LoRAs with --save-module

---
 mergekit/scripts/extract_lora.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 0b32233..d443eaa 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -115,8 +115,7 @@ def main(
 ):
     merge_options.apply_global_options()
 
-    if not modules_to_save:
-        modules_to_save = []
+    modules_to_save = list(modules_to_save or [])
 
     base_model_ref = ModelReference.model_validate(base_model)
     model_ref = ModelReference.model_validate(model)
-- 
2.43.0


From f7459698a188e026a9693caabb13e6255c5f05f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:19 +0000
Subject: [PATCH 51/78] fix: extract LoRAs of models without optional weights

---
 mergekit/scripts/extract_lora.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index d443eaa..7776f57 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -158,7 +158,7 @@ def main(
 
     module_real_ranks = {}
     for task, result in executor.run():
-        if isinstance(task, TaskVectorDecompositionTask):
+        if isinstance(task, TaskVectorDecompositionTask) and result[0] is not None:
             module_real_ranks[task.weight_info.name.removesuffix(".weight")] = result[
                 0
             ].shape[0]
@@ -228,7 +228,11 @@ class TaskVectorDecompositionTask(Task[Tuple[torch.Tensor, torch.Tensor]]):
     def arguments(self) -> Dict[str, Any]:
         return {"task_vector": self.input_task}
 
-    def execute(self, task_vector: torch.Tensor) -> Tuple[torch.Tensor, torch.Tensor]:
+    def execute(
+        self, task_vector: Optional[torch.Tensor]
+    ) -> Tuple[Optional[torch.Tensor], Optional[torch.Tensor]]:
+        if task_vector is None:
+            return None, None
         if self.transpose:
             task_vector = task_vector.T
         out_dtype = task_vector.dtype
@@ -258,14 +262,19 @@ class TaskVectorDecompositionTask(Task[Tuple[torch.Tensor, torch.Tensor]]):
         return True
 
 
-class TaskVectorTask(Task[torch.Tensor]):
+class TaskVectorTask(Task[Optional[torch.Tensor]]):
     base_tensor: Task
     model_tensor: Task
 
     def arguments(self) -> Dict[str, Any]:
         return {"base": self.base_tensor, "model": self.model_tensor}
 
-    def execute(self, base: torch.Tensor, model: torch.Tensor) -> torch.Tensor:
+    def execute(
+        self, base: Optional[torch.Tensor], model: Optional[torch.Tensor]
+    ) -> Optional[torch.Tensor]:
+        if base is None or model is None:
+            # optional weight that is not present in both models
+            return None
         return model - base
 
     def group_label(self):
-- 
2.43.0


From 3f9ec91b9683e7960db52f1db852f3dcaa1544c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:45 +0000
Subject: [PATCH 52/78] fix: extract biases of decomposed modules as PEFT loads
 them

---
 mergekit/scripts/extract_lora.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 7776f57..90b78ce 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -515,17 +515,13 @@ def plan_lora_module(
         )
     )
     if bias_wi is not None:
-        base_bias_load_task = _wi_load(base_model_ref, bias_wi)
-        model_bias_load_task = _wi_load(model_ref, bias_wi)
-        tv_bias_task = TaskVectorTask(
-            base_tensor=base_bias_load_task, model_tensor=model_bias_load_task
-        )
+        # saved in full, as PEFT does for the biases of adapted layers
+        bias_load_task = _wi_load(model_ref, bias_wi)
         base_bias_name = bias_wi.name.removesuffix(".bias")
-        name_out = f"base_model.model.{base_bias_name}.lora_B.bias"
         targets.append(
             SaveTensor(
-                tensor_name=name_out,
-                tensor_task=tv_bias_task,
+                tensor_name=f"base_model.model.{base_bias_name}.base_layer.bias",
+                tensor_task=bias_load_task,
                 writer_task=writer_task,
                 optional=bias_wi.optional,
                 clone=False,
-- 
2.43.0


From ae29432762727b71257626c433851795f9ff799a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:45 +0000
Subject: [PATCH 53/78] fix: extract LoRAs of models with tied embeddings

---
 mergekit/scripts/extract_lora.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 90b78ce..186ea27 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -394,6 +394,13 @@ def plan_extraction(
         embed_lora = False
     del dummy_base
 
+    embeds_tied = embed_out is not None and embed_out.weight is embed_in.weight
+    if embeds_tied and embed_lora:
+        LOG.warning(
+            "Input and output embeddings are tied - enforcing embeddings in modules_to_save, embed_lora=False"
+        )
+        embed_lora = False
+
     warned_modules = set()
 
     def _should_extract(name: str) -> bool:
@@ -421,6 +428,18 @@ def plan_extraction(
             else:
                 continue
 
+        if embeds_tied and module == embed_out and not wi.tied_names:
+            # the checkpoint may only have the input embeddings
+            wi = wi.model_copy(
+                update={
+                    "tied_names": tuple(
+                        f"{other_name}.weight"
+                        for other_name, other in dummy_model.named_modules()
+                        if other == embed_in
+                    )
+                }
+            )
+
         if (
             (not embed_lora)
             and (
-- 
2.43.0


From 093e3459b876ee005a63491a63d49de8fe70ee25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:45 +0000
Subject: [PATCH 54/78] fix: extract LoRAs of unchanged modules with
 --sv-epsilon

---
 mergekit/scripts/extract_lora.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 186ea27..dd6ae92 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -241,7 +241,8 @@ class TaskVectorDecompositionTask(Task[Tuple[torch.Tensor, torch.Tensor]]):
         )
         rank = min(self.max_rank, s.shape[0])
         if self.sv_epsilon > 0:
-            rank = min((s > self.sv_epsilon).sum().item(), rank)
+            # PEFT has no adapters of rank zero
+            rank = max(1, min((s > self.sv_epsilon).sum().item(), rank))
         if self.distribute_scale:
             sqrt_s = torch.diag(torch.sqrt(s[:rank]))
             scale_a = sqrt_s
-- 
2.43.0


From bbb9b44382280c5a0f4def37d51445c9687c9ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:50 +0000
Subject: [PATCH 55/78] fix: extract LoRAs deciding per module which ones are
 saved in full

---
 mergekit/scripts/extract_lora.py | 35 ++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index dd6ae92..a6e2630 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -403,6 +403,9 @@ def plan_extraction(
         embed_lora = False
 
     warned_modules = set()
+    requested_modules = list(modules_to_save)
+    modules_to_save.clear()
+    saved_modules = []
 
     def _should_extract(name: str) -> bool:
         if include_regexes and not any(re.search(r, name) for r in include_regexes):
@@ -441,7 +444,9 @@ def plan_extraction(
                 }
             )
 
-        if (
+        # If embeddings are not explicitly excluded but embed_lora is False,
+        # save them at full rank instead of decomposing
+        embed_full_rank = (
             (not embed_lora)
             and (
                 module == embed_in
@@ -449,16 +454,15 @@ def plan_extraction(
                 or isinstance(module, nn.Embedding)
             )
             and not any(re.search(r, name) for r in exclude_regexes or [])
+        )
+
+        if (
+            embed_full_rank
+            or name in requested_modules
+            or name.split(".")[-1] in requested_modules
         ):
-            # If embeddings are not explicitly excluded but embed_lora is False,
-            # save them at full rank instead of decomposing
-            key = name.split(".")[-1]
-            if key not in modules_to_save:
-                LOG.warning(f"Adding {key} to modules_to_save")
-                modules_to_save.append(key)
-
-        if name in modules_to_save or (name.split(".")[-1] in modules_to_save):
             LOG.info(f"Planning to save {name} at full rank")
+            saved_modules.append(name)
             targets.extend(plan_module_to_save(model_ref, writer_task, wi, bias_wi))
         elif _should_extract(name):
             if isinstance(module, (nn.Linear, nn.Conv1d, nn.Conv2d, nn.Embedding)):
@@ -484,8 +488,7 @@ def plan_extraction(
                 )
                 if not skip_undecomposable:
                     # into modules_to_save it goes
-                    if key not in modules_to_save:
-                        modules_to_save.append(key)
+                    saved_modules.append(name)
                     targets.extend(
                         plan_module_to_save(model_ref, writer_task, wi, bias_wi)
                     )
@@ -493,6 +496,16 @@ def plan_extraction(
                     LOG.warning(message)
                     warned_modules.add(key)
 
+    # PEFT expects weights for every module whose name ends with an entry
+    all_names = [name for name, _ in dummy_model.named_modules()]
+    for name in saved_modules:
+        key = name.split(".")[-1]
+        if any(n.endswith(key) and n not in saved_modules for n in all_names):
+            key = name
+        if key not in modules_to_save:
+            LOG.warning(f"Adding {key} to modules_to_save")
+            modules_to_save.append(key)
+
     save_tasks = [t for t in targets if isinstance(t, (SaveTensor, LoRAModuleSaveTask))]
     finalize = FinalizeModel(tensor_save_tasks=save_tasks, writer_task=writer_task)
     return PlanResults(
-- 
2.43.0


From 63271eda2b62d388a44585754817bb49245dbac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:11 +0000
Subject: [PATCH 56/78] fix: never use an adapter merge that was interrupted

---
 mergekit/common.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index 628571e..1c33b63 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -5,6 +5,7 @@ import binascii
 import logging
 import os
 import os.path
+import shutil
 from typing import (
     Any,
     Callable,
@@ -116,8 +117,6 @@ class ModelReference(BaseModel, frozen=True):
         )
 
         if not os.path.exists(out_path):
-            os.makedirs(out_path, exist_ok=True)
-
             config = self.config(trust_remote_code)
             auto_cls = get_auto_cls(config.architectures[0])
 
@@ -134,7 +133,12 @@ class ModelReference(BaseModel, frozen=True):
             )
             logging.info(f"Merging {self.lora} into {self.model}")
             model = model.merge_and_unload()
-            model.save_pretrained(out_path, safe_serialization=True)
+            # only a complete model may appear at out_path
+            partial_path = out_path + ".partial"
+            shutil.rmtree(partial_path, ignore_errors=True)
+            os.makedirs(partial_path)
+            model.save_pretrained(partial_path, safe_serialization=True)
+            os.rename(partial_path, out_path)
             del model
 
         return ModelReference(model=ModelPath(path=out_path))
-- 
2.43.0


From ac2b111ae4a97e37d82f6a8c4610076f59b6a83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:11 +0000
Subject: [PATCH 57/78] fix: cache adapter merges separately for each dtype

---
 mergekit/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index 1c33b63..a36fd83 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -113,7 +113,10 @@ class ModelReference(BaseModel, frozen=True):
 
         out_path = os.path.join(
             cache_dir,
-            self.model._unique_id() + "_" + self.lora._unique_id(),
+            self.model._unique_id()
+            + "_"
+            + self.lora._unique_id()
+            + (f"_{lora_merge_dtype}" if lora_merge_dtype else ""),
         )
 
         if not os.path.exists(out_path):
-- 
2.43.0


From 9bb7022841f95c21984c9d1cee65814e44a22cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:18 +0000
Subject: [PATCH 58/78] fix: extract LoRAs for base models with tied embeddings

---
 mergekit/scripts/extract_lora.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index a6e2630..baf996c 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -393,9 +393,14 @@ def plan_extraction(
         )
         LOG.warning("Enforcing embeddings in modules_to_save, embed_lora=False")
         embed_lora = False
+    # the adapter is applied to the base model, so its ties matter as well
+    embeds_tied = any(
+        (out := dummy.get_output_embeddings()) is not None
+        and out.weight is dummy.get_input_embeddings().weight
+        for dummy in (dummy_model, dummy_base)
+    )
     del dummy_base
 
-    embeds_tied = embed_out is not None and embed_out.weight is embed_in.weight
     if embeds_tied and embed_lora:
         LOG.warning(
             "Input and output embeddings are tied - enforcing embeddings in modules_to_save, embed_lora=False"
-- 
2.43.0


From d7481b8e9ced18d99ce6dfcf52c68dad7cc30898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:52 +0000
Subject: [PATCH 59/78] fix: match prefixes and bytes in the matrix they are
 allowed for (tokensurgeon)

---
 mergekit/scripts/tokensurgeon.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 6c6e079..2be3fae 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -717,8 +717,8 @@ def main(
             orig_vocab=orig_vocab,
             donor_vocab=donor_vocab,
             junk_tokens=junk_tokens,
-            allow_prefix=prefix_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY),
-            allow_byte=byte_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY),
+            allow_prefix=prefix_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),
+            allow_byte=byte_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),
             is_lm_head=False,
             options=options,
         )
@@ -741,8 +741,8 @@ def main(
             orig_vocab=orig_vocab,
             donor_vocab=donor_vocab,
             junk_tokens=junk_tokens,
-            allow_prefix=prefix_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),
-            allow_byte=byte_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),
+            allow_prefix=prefix_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY),
+            allow_byte=byte_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY),
             is_lm_head=True,
             options=options,
         )
-- 
2.43.0


From fd15e1e379b26726a07c2be1c8a06ae30298b53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:52 +0000
Subject: [PATCH 60/78] fix: john_hewitt with fewer tokens than dimensions
 (tokensurgeon)

---
 mergekit/scripts/tokensurgeon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 2be3fae..f88eabe 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -238,7 +238,7 @@ def john_hewitt_init(orig_embed: torch.Tensor, num_new_tokens: int) -> torch.Ten
         )
         return (
             torch.randn(
-                len(num_new_tokens),
+                num_new_tokens,
                 orig_embed.shape[1],
                 device=orig_embed.device,
                 dtype=orig_embed.dtype,
-- 
2.43.0


From 7db1702e22fcef348ff2764d5bab0e55f00386a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:52 +0000
Subject: [PATCH 61/78] fix: mean with noise or scale (tokensurgeon)

---
 mergekit/scripts/tokensurgeon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index f88eabe..245a984 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -267,7 +267,7 @@ def compute_new_embeddings(
     assert all(t in donor_vocab for t in target_tokens)
     if options.method == ApproximationMethod.MEAN:
         mean = orig_embed.mean(dim=0)
-        return mean.unsqueeze(0).expand(len(target_tokens), -1)
+        return mean.unsqueeze(0).repeat(len(target_tokens), 1)
     elif options.method == ApproximationMethod.ZERO:
         return torch.zeros(
             len(target_tokens),
-- 
2.43.0


From 6b2b6046dd388c82ebba794c2e6589880461731e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:52 +0000
Subject: [PATCH 62/78] fix: sparse token basis of k tokens (tokensurgeon)

---
 mergekit/scripts/tokensurgeon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 245a984..ad9819a 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -437,7 +437,7 @@ def build_embedding_matrix(
             safe_orig_vocab,
             safe_donor_vocab,
             junk_tokens,
-            options,
+            options.k,
         )
     else:
         token_basis = None
-- 
2.43.0


From 4aceb7378576ce14f494542fba27161a98e761c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:52 +0000
Subject: [PATCH 63/78] fix: weight the last subword highest for input
 embeddings (tokensurgeon)

---
 mergekit/tokensurgeon/subword.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/tokensurgeon/subword.py b/mergekit/tokensurgeon/subword.py
index e30cc26..8811bbc 100644
--- a/mergekit/tokensurgeon/subword.py
+++ b/mergekit/tokensurgeon/subword.py
@@ -41,7 +41,7 @@ def subword_approximate(
                 res[idx] /= len(token_ids)
         elif subword_method == SubwordMethod.WEIGHTED_MEAN:
             weights = list(range(1, len(token_ids) + 1))
-            if not is_lm_head:
+            if is_lm_head:
                 # for embed_tokens, want last token to have highest weight
                 # (vs. first token for lm_head)
                 weights = weights[::-1]
-- 
2.43.0


From 0c42bd349424922cae57aa86bc5300a31412b95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:52 +0000
Subject: [PATCH 64/78] fix: rotate from the donor's space to the original's
 (tokensurgeon)

---
 mergekit/tokensurgeon/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/tokensurgeon/pca.py b/mergekit/tokensurgeon/pca.py
index 9a1a8fc..bbb623b 100644
--- a/mergekit/tokensurgeon/pca.py
+++ b/mergekit/tokensurgeon/pca.py
@@ -52,7 +52,7 @@ def landmark_pca_approximate(
     # Compute Procrustes matrix and solve for optimal rotation
     M = torch.mm(B_pca.t(), A_pca)  # (effective_dim, effective_dim)
     U, S, V = torch.svd(M)
-    R = torch.mm(U, V.t())  # (effective_dim, effective_dim)
+    R = torch.mm(V, U.t())  # (effective_dim, effective_dim)
 
     # Transform targets through PCA spaces and rotation
     projected_a = torch.mm(centered_targets, V_a)  # (B, effective_dim)
-- 
2.43.0


From 69b45f7502aa5726b17bd276bcc0c80c81fda5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:52 +0000
Subject: [PATCH 65/78] fix: mp_rope with configurations of transformers 5
 (tokensurgeon)

---
 mergekit/scripts/tokensurgeon.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index ad9819a..c7f67f0 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -253,6 +253,13 @@ def john_hewitt_init(orig_embed: torch.Tensor, num_new_tokens: int) -> torch.Ten
     return new_embeds.to(orig_embed.dtype)
 
 
+def get_rope_theta(config: transformers.PretrainedConfig) -> float:
+    rope_parameters = getattr(config, "rope_parameters", None) or {}
+    if "rope_theta" in rope_parameters:
+        return rope_parameters["rope_theta"]
+    return config.rope_theta
+
+
 def compute_new_embeddings(
     orig_embed: torch.Tensor,
     donor_embed: torch.Tensor,
@@ -334,8 +341,8 @@ def compute_new_embeddings(
                 k=options.k,
                 num_heads_a=donor_config.num_attention_heads,
                 num_heads_b=model_config.num_attention_heads,
-                a_rope_base=donor_config.rope_theta,
-                b_rope_base=model_config.rope_theta,
+                a_rope_base=get_rope_theta(donor_config),
+                b_rope_base=get_rope_theta(model_config),
             )
         else:
             indices, coeffs = batch_omp(targets, donor_shared_embeds, options.k)
-- 
2.43.0


From fa37761514b29913558ff2e1a3477013724fe0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 66/78] fix: keep weights that Transformers stores under other
 names (tokensurgeon)

---
 mergekit/scripts/tokensurgeon.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index c7f67f0..f6b9453 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -21,6 +21,7 @@ from mergekit.architecture.auto import infer_architecture_info
 from mergekit.common import ModelReference, set_config_value
 from mergekit.io.tasks import (
     LoaderCache,
+    LoadTensor,
 )
 from mergekit.io.tensor_writer import TensorWriter
 from mergekit.options import MergeOptions, PrettyPrintHelp, add_merge_options
@@ -782,9 +783,12 @@ def main(
         elif lm_head_wi is not None and weight_info.name == lm_head_wi.name:
             tensor = new_lm_head
         else:
-            tensor = cache.get(options.model).get_tensor(
-                weight_info.name, aliases=weight_info.aliases, raise_on_missing=False
-            )
+            tensor = LoadTensor(
+                model=options.model,
+                tensor=weight_info.name,
+                aliases=weight_info.aliases,
+                optional=True,
+            ).execute()
         if tensor is None:
             if weight_info.optional:
                 continue
-- 
2.43.0


From 47c0ac1d11f772683c2bf0e4fd634252c9271abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 67/78] fix: mergekit-layershuffle crashes looking up the
 number of layers

---
 mergekit/scripts/layershuffle.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mergekit/scripts/layershuffle.py b/mergekit/scripts/layershuffle.py
index e961427..0072cd1 100644
--- a/mergekit/scripts/layershuffle.py
+++ b/mergekit/scripts/layershuffle.py
@@ -65,14 +65,17 @@ def main(
 
     m0_cfg = models[0].config()
     arch_info = arch_info_for_config(m0_cfg)
-    total_num_layers = arch_info.num_layers(m0_cfg)
+    if len(arch_info.modules) != 1:
+        raise RuntimeError("Only single-module models can be shuffled")
+    module_arch = next(iter(arch_info.modules.values())).architecture
+    total_num_layers = module_arch.num_layers(m0_cfg)
 
     out_slices: List[OutputSliceDefinition] = []
 
     if full_random:
         for model, frac in zip(models, weight):
             cfg = model.config()
-            num_layers = int(arch_info.num_layers(cfg) * frac)
+            num_layers = int(module_arch.num_layers(cfg) * frac)
             for _ in range(num_layers):
                 src_idx = random.randrange(0, num_layers)
                 out_slices.append(
-- 
2.43.0


From 7332612792d3dc9d61ea25304a1815df1e4fc504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 68/78] fix: mergekit-layershuffle --full-random only draws
 from the first layers of each model

---
 mergekit/scripts/layershuffle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mergekit/scripts/layershuffle.py b/mergekit/scripts/layershuffle.py
index 0072cd1..a57d004 100644
--- a/mergekit/scripts/layershuffle.py
+++ b/mergekit/scripts/layershuffle.py
@@ -75,8 +75,8 @@ def main(
     if full_random:
         for model, frac in zip(models, weight):
             cfg = model.config()
-            num_layers = int(module_arch.num_layers(cfg) * frac)
-            for _ in range(num_layers):
+            num_layers = module_arch.num_layers(cfg)
+            for _ in range(int(num_layers * frac)):
                 src_idx = random.randrange(0, num_layers)
                 out_slices.append(
                     OutputSliceDefinition(
-- 
2.43.0


From e40908e02dbe67ead41023724877bab4dadc1130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 69/78] fix: mergekit-layershuffle ignores --random-seed

---
 mergekit/scripts/layershuffle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mergekit/scripts/layershuffle.py b/mergekit/scripts/layershuffle.py
index a57d004..bd5414f 100644
--- a/mergekit/scripts/layershuffle.py
+++ b/mergekit/scripts/layershuffle.py
@@ -61,6 +61,7 @@ def main(
     full_random: bool,
     merge_options: MergeOptions,
 ):
+    merge_options.apply_global_options()
     models = [ModelReference.parse(m) for m in model]
 
     m0_cfg = models[0].config()
-- 
2.43.0


From 5c2a5ca1a6c82b20769f8e7bc06cf7b8bcaab08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 70/78] fix: mergekit-legacy ignores --random-seed

---
 mergekit/scripts/legacy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mergekit/scripts/legacy.py b/mergekit/scripts/legacy.py
index 922a9a9..236e108 100644
--- a/mergekit/scripts/legacy.py
+++ b/mergekit/scripts/legacy.py
@@ -80,6 +80,7 @@ def main(
     merge_options: MergeOptions,
 ):
     """Wrapper for using a subset of legacy-style script arguments."""
+    merge_options.apply_global_options()
     models = [InputModelDefinition(model=model, parameters={}) for model in merge]
     if base_model and base_model not in merge:
         models.append(InputModelDefinition(model=base_model, parameters={}))
-- 
2.43.0


From 26c1752ab63c854d60f993b9cd84335c33aaffc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 71/78] fix: mergekit-legacy does not apply the documented
 default weight

---
 mergekit/scripts/legacy.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mergekit/scripts/legacy.py b/mergekit/scripts/legacy.py
index 236e108..a6b7323 100644
--- a/mergekit/scripts/legacy.py
+++ b/mergekit/scripts/legacy.py
@@ -97,11 +97,11 @@ def main(
         assert len(weight) == 1, "Must specify exactly one weight for SLERP"
         parameters["t"] = weight[0]
     else:
-        if weight:
-            if len(weight) == 1:
-                weight = [weight[0]] * len(models)
-            for idx, w in enumerate(weight):
-                models[idx].parameters["weight"] = w
+        weight = weight or [1.0]
+        if len(weight) == 1:
+            weight = [weight[0]] * len(models)
+        for idx, w in enumerate(weight):
+            models[idx].parameters["weight"] = w
 
     if int8_mask:
         parameters["int8_mask"] = True
-- 
2.43.0


From b6d25a34dec1f1bce92f3afbc988fc87f8ebb127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 72/78] fix: bakllama fails to import and builds invalid slices

---
 mergekit/scripts/bakllama.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mergekit/scripts/bakllama.py b/mergekit/scripts/bakllama.py
index e2d4b04..9dc0991 100644
--- a/mergekit/scripts/bakllama.py
+++ b/mergekit/scripts/bakllama.py
@@ -7,13 +7,14 @@ import click
 import yaml
 from pydantic import BaseModel
 
-from mergekit.common import MergeOptions
 from mergekit.config import (
     ConditionalParameter,
     InputSliceDefinition,
     MergeConfiguration,
+    OutputSliceDefinition,
 )
 from mergekit.merge import run_merge
+from mergekit.options import MergeOptions
 
 
 class LayerSlice(BaseModel):
@@ -58,8 +59,14 @@ def main(
                 value=s.scale, filter="down_proj"
             )
         slices.append(
-            InputSliceDefinition(
-                model=s.model, layer_range=(s.start, s.end), parameters=parameters
+            OutputSliceDefinition(
+                sources=[
+                    InputSliceDefinition(
+                        model=s.model,
+                        layer_range=(s.start, s.end),
+                        parameters=parameters,
+                    )
+                ]
             )
         )
 
-- 
2.43.0


From 76b6f73886f4ff0c9b09f5061336208b24c08430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:54 +0000
Subject: [PATCH 73/78] fix: bakllama ignores embedding_source and
 lm_head_source

---
 mergekit/scripts/bakllama.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mergekit/scripts/bakllama.py b/mergekit/scripts/bakllama.py
index 9dc0991..ac0f6e9 100644
--- a/mergekit/scripts/bakllama.py
+++ b/mergekit/scripts/bakllama.py
@@ -51,8 +51,15 @@ def main(
     with open(config_path, "r", encoding="utf-8") as file:
         config = BakllamaConfig.model_validate(yaml.safe_load(file))
 
+    layer_slices = list(config.layer_slices)
+    # embeddings come from the first slice, the head from the last one
+    if config.embedding_source:
+        layer_slices.insert(0, LayerSlice(model=config.embedding_source, start=0, end=0))
+    if config.lm_head_source:
+        layer_slices.append(LayerSlice(model=config.lm_head_source, start=0, end=0))
+
     slices = []
-    for s in config.layer_slices:
+    for s in layer_slices:
         parameters = {}
         if s.scale is not None:
             parameters["scale"] = ConditionalParameter(
-- 
2.43.0


From a82213865761d6de8e12f69ee3518308aa21912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:40 +0000
Subject: [PATCH 74/78] fix: fill_missing_params crashes when run as a script

---
 mergekit/scripts/fill_missing_params.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mergekit/scripts/fill_missing_params.py b/mergekit/scripts/fill_missing_params.py
index b0bb7b0..6fa4e62 100644
--- a/mergekit/scripts/fill_missing_params.py
+++ b/mergekit/scripts/fill_missing_params.py
@@ -196,10 +196,6 @@ def main(
     )
 
 
-if __name__ == "__main__":
-    main()
-
-
 class ParameterNamesUtils:
     """Utility functions for handling parameter names."""
 
@@ -394,3 +390,7 @@ class ParameterNamesUtils:
             Path(index.base_path) / index.tensor_paths[name], framework="pt"
         ) as f:
             return f.get_slice(name).get_shape()
+
+
+if __name__ == "__main__":
+    main()
-- 
2.43.0


From ee8d1e87a0657aa2610b7503ba3e2fc1d6df94f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:40 +0000
Subject: [PATCH 75/78] fix: fill_missing_params copies the base model's shard
 index, which does not describe the files written

---
 mergekit/scripts/fill_missing_params.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mergekit/scripts/fill_missing_params.py b/mergekit/scripts/fill_missing_params.py
index 6fa4e62..05eb7f5 100644
--- a/mergekit/scripts/fill_missing_params.py
+++ b/mergekit/scripts/fill_missing_params.py
@@ -109,7 +109,9 @@ def copy_and_fill_missing_params(
     files_to_copy = [
         item
         for item in base_dir.rglob("*")
-        if item.is_file() and item.suffix not in {".safetensors", ".bin"}
+        if item.is_file()
+        and item.suffix not in {".safetensors", ".bin"}
+        and not item.name.endswith((".safetensors.index.json", ".bin.index.json"))
     ]
 
     # Copy non-parameter files from the base model
-- 
2.43.0


From 38888e3652e806e00c98c8b8d307a4595e697177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:40 +0000
Subject: [PATCH 76/78] fix: fill_missing_params picks a different prefix from
 run to run when several fit equally well

---
 mergekit/scripts/fill_missing_params.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mergekit/scripts/fill_missing_params.py b/mergekit/scripts/fill_missing_params.py
index 05eb7f5..4886d52 100644
--- a/mergekit/scripts/fill_missing_params.py
+++ b/mergekit/scripts/fill_missing_params.py
@@ -229,7 +229,10 @@ class ParameterNamesUtils:
         """
         assert len(list1) >= len(list2), "params name list1 can't be shorter than list2"
 
-        possible_prefixes = {item.split(".")[0] for item in list1 if "." in item}
+        # in order of appearance, so that ties are always decided the same way
+        possible_prefixes = dict.fromkeys(
+            item.split(".")[0] for item in list1 if "." in item
+        )
         possible_prefixes = [""] + list(possible_prefixes)
 
         prefix_matches = {}
-- 
2.43.0


From 494b4b1764812f4e139f302562f3040b2fd1d8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:40 +0000
Subject: [PATCH 77/78] fix: fill_missing_params cuts model names at their last
 dot in the default output directory

---
 mergekit/scripts/fill_missing_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/fill_missing_params.py b/mergekit/scripts/fill_missing_params.py
index 4886d52..e36d3f8 100644
--- a/mergekit/scripts/fill_missing_params.py
+++ b/mergekit/scripts/fill_missing_params.py
@@ -98,7 +98,7 @@ def copy_and_fill_missing_params(
     # Prepare paths and configurations
     output_dir = (
         Path(sub_model_dir).parent
-        / f"{Path(base_model_repo_id).stem}--{Path(sub_model_dir).stem}"
+        / f"{Path(base_model_repo_id).name}--{Path(sub_model_dir).name}"
         if output_dir is None
         else Path(output_dir)
     )
-- 
2.43.0


From 975736ea3527ee2a3d2dd67af3301ba28c471d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:44 +0000
Subject: [PATCH 78/78] fix: slerp genomes with a separate base model give
 slices of three models, which slerp refuses

---
 mergekit/evo/genome.py | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/mergekit/evo/genome.py b/mergekit/evo/genome.py
index fdb1ac7..7bf0ce1 100644
--- a/mergekit/evo/genome.py
+++ b/mergekit/evo/genome.py
@@ -299,19 +299,6 @@ class ModelGenome:
                 s["sources"][0]["parameters"] = {"weight": 1 - t}
                 s["sources"][1]["parameters"] = {"weight": t}
 
-            if self.definition.base_model and (
-                self.definition.base_model not in self.definition.models
-            ):
-                s["sources"].append(
-                    {
-                        "model": self.definition.base_model,
-                        "layer_range": [
-                            slice_idx * layer_step,
-                            (slice_idx + 1) * layer_step,
-                        ],
-                    }
-                )
-
             slices.append(s)
         return slices
 
-- 
2.43.0

