prop("P01", "Task graph evaluation is exact: order, once-only, inputs, targets, errors",
  "Evaluating a set of requested tasks runs every task they need exactly once, after all of its inputs, with each named input bound to the value its own producer returned (on the device the task asked for), runs nothing that is not needed or whose value the caller supplied, and hands each requested value to the caller exactly once. Equal task descriptions are one task. If a task fails, its own error reaches the caller and nothing further runs.",
  ["inputs", "programs", "histories"], "every acyclic task graph, every choice of requested and pre-supplied tasks, every grouping/priority labelling, every failing task",
  "The tests run a handful of hand-written graphs of at most five tasks; the guarantee is over all graph shapes, cached subsets and failure points.",
  ["mergekit/graph.py"],
  [("dependency exploration and topological schedule", "mergekit/graph.py:build_schedule"), ("evaluation loop", "mergekit/graph.py:Executor._run"), ("task identity", "mergekit/graph.py:TaskUniverse.add_task")],
  "TLA+/TLC: TaskGraph.tla model-checked over all graphs on 3 (thorough: 4) tasks; TLC-emitted graphs and larger random ones run on the real evaluator and every recorded execution validated event by event by TraceTaskGraph.tla",
  "exhaustive for all graphs up to 3/4 tasks incl. cached/target subsets; sampled up to 12 tasks",
  observe=["task start/end, values delivered by the evaluator"])
prop("P02", "Intermediate results are released as soon as nothing needs them",
  "While a task graph is being evaluated, the only intermediate values kept alive when a task starts are those some task that has not run yet still reads, besides the requested value most recently handed to the caller. When evaluation ends no intermediate value is kept.",
  ["inputs", "programs", "histories"], "every acyclic task graph and every point of its evaluation",
  "No test observes memory retention; it is an at-every-step property over all graphs.",
  ["mergekit/graph.py"],
  [("last-use bookkeeping and eviction", "mergekit/graph.py:build_schedule, Executor._run")],
  "TLA+/TLC: store/Pending part of TaskGraph.tla; weak references observed at every task start on the real evaluator and validated by TraceTaskGraph.tla",
  "exhaustive for all graphs up to 3/4 tasks; sampled up to 12 tasks",
  observe=["weak references to produced values at each task start"])
prop("P03", "Multi-device evaluation equals serial evaluation under every interleaving",
  "Evaluating a task graph on several accelerators in parallel runs every task exactly once (per-device tasks at most once per device), after its inputs and with their values, runs main-thread-only tasks on the calling thread, and delivers every requested value exactly once, whatever the interleaving of workers and the speed of progress reporting. A failing task's error reaches the caller and no main-thread task starts afterwards; a merge run this way leaves the same output as a serial one.",
  ["schedules", "programs", "fault_sequences"], "every legal task graph, device count, worker interleaving and failing task",
  "The tests have no accelerator and never run the multi-device engine; races depend on schedules no unit test controls.",
  ["mergekit/multigpu_executor.py", "mergekit/graph.py", "mergekit/io/tasks.py"],
  [("leading/parallel/trailing split, islands, completion queue", "mergekit/multigpu_executor.py:MultiGPUExecutor")],
  "TLA+/TLC: ParallelExec.tla (all interleavings of workers, progress thread and main thread, 3 tasks x 2 devices); TLC-simulated behaviours (5 tasks x 3 devices) steer the real engine on simulated devices and recorded executions are validated by TraceParallelExec.tla; whole merges compared with serial runs",
  "devices simulated on CPU; interleavings exhaustively explored in the model, sampled (spec-generated orders) on the code",
  observe=["task start/end with thread, values delivered"])
prop("P04", "A written checkpoint contains exactly what was saved, within the shard limit",
  "After a checkpoint is finalized without error, the directory holds one readable checkpoint containing exactly the saved tensor names with bit-identical values, types and shapes: every tensor in the one file the index names, no file larger than the limit unless it holds a single tensor, no file started while the tensor still fitted, a correct total size, no leftovers and nothing from an earlier run shadowing it. This holds for any mix of tensor kinds (shared storage, non-contiguous, scalar, empty), any number of concurrent savers and background writers.",
  ["inputs", "schedules", "histories"], "every sequence and interleaving of saves, tensor kinds and sizes, shard limits, formats, sync/async writing, prior directory contents",
  "Tests save one to four same-sized tensors and only check that files exist.",
  ["mergekit/io/tensor_writer.py"],
  [("shard accumulation under lock, background writes, final naming and index", "mergekit/io/tensor_writer.py:TensorWriter")],
  "TLA+/TLC: MCWriter.tla explores savers x background writers x prior contents exhaustively; recorded histories of the real writer (threads preempted at line level) validated by TraceWriter.tla",
  "model exhaustive for 2-3 savers x 2 tensors; code histories up to 9 tensors x 3 threads",
  observe=["directory contents read by independent readers"])
prop("P05", "Write failures surface and a crash never leaves a partial checkpoint on show",
  "If any part of a checkpoint cannot be written, saving or finalizing raises and the directory does not present a new checkpoint that lacks tensors. If the process dies at any file operation, a reader (preferring either the index or the single file) finds no checkpoint, exactly the previous one, or exactly the complete new one - never a mixture or a subset.",
  ["crash_points", "fault_sequences", "schedules"], "every file operation as crash point, every shard write as fault point, every prior directory content, sync and background writing",
  "No test injects write errors or crashes.",
  ["mergekit/io/tensor_writer.py"],
  [("temporary shard names, join of background writes, rename-then-index order", "mergekit/io/tensor_writer.py:TensorWriter.finalize")],
  "TLA+/TLC: CrashConsistent invariant of MCWriter.tla at every step; real writer killed in a forked process at every mutating file operation and given write faults, resulting directories validated by TraceWriter.tla",
  "crash points: every observed file operation (plus a torn write of each tensor file); operations assumed atomic and ordered",
  observe=["directory contents after crash or error"])
prop("P06", "Reading a tensor depends only on the checkpoint's contents",
  "Asking for a tensor by name (or the first stored alias of it) returns bit-identical data, type and shape to what the checkpoint stores, and an absent name is reported as absent, regardless of sharding, file format, index or single file, wrapped state dictionaries, lazy or eager unpickling, earlier lookups, flushes, or concurrent readers sharing the loader.",
  ["inputs", "histories", "schedules"], "every layout, format, tensor kind, lookup history and interleaving of readers",
  "Tests read one pickle file once in order; history and interleaving are not sampled.",
  ["mergekit/io/lazy_tensor_loader.py", "mergekit/io/loader.py", "mergekit/io/lazy_unpickle.py"],
  [("current-shard cache under lock", "mergekit/io/lazy_tensor_loader.py:LazyTensorLoader.get_tensor"), ("deferred tensor reads", "mergekit/io/lazy_unpickle.py")],
  "TLA+/TLC: MCLoader.tla (shard cache, lock, interleavings); all TLC-emitted lookup histories replayed on the real loader and validated by TraceLoader.tla",
  "histories of length 3 over 3 tensors x 2 shards exhaustive (quick: sampled), threads preempted at line level",
  observe=["values returned by lookups"])
prop("P07", "Opening a hostile pickle checkpoint never runs foreign code",
  "Opening a pickled checkpoint, lazily or eagerly, never looks up, imports or calls anything outside the fixed set of tensor-rebuilding names: a file that refers to anything else is refused with an error before any of its code has an effect. Whether or not opening succeeds, ordinary unpickling in the process is left as it was.",
  ["inputs", "programs"], "every pickle program",
  "One benign file is unpickled by the tests; the guarantee is over all pickle programs.",
  ["mergekit/io/lazy_unpickle.py", "mergekit/io/loader.py", "mergekit/io/lazy_tensor_loader.py"],
  [("allow-list lookup", "mergekit/io/lazy_unpickle.py:LazyTorchUnpickler"), ("temporary patching of the pickle module", "mergekit/io/lazy_unpickle.py:torch_lazy_load")],
  "TLA+/TLC: Unpickle.tla models the pickle stack machine; every refused program up to length 4 is assembled into a real archive with canary payloads, opened by the real loader, and judged by VerdictUnpickle.tla",
  "programs up to 4 opcodes of 11 kinds exhaustive plus longer attack patterns; 21 foreign names",
  observe=["canary effects, outcome of opening"])
prop("P08", "Every output tensor is built from exactly the declared source layers",
  "For any merge configuration (whole models, slices, per-module form) the output model's layers are the declared slices stacked in order, numbered without gaps; each output tensor combines exactly the tensors of the same kind from the declared layer of each declared source, with embedding-side weights taken from the first slice and head-side weights from the last, and the written config states the resulting layer count. Slices of unequal length, layers beyond a model's depth, a missing base or a missing required weight are refused with an error.",
  ["inputs", "programs"], "every configuration: slice layouts, source counts, layer ranges, base model placement, depths",
  "Tests merge two-layer models in a couple of fixed layouts and mostly check that it runs.",
  ["mergekit/plan.py", "mergekit/merge.py"],
  [("normal form, slice/layer planning", "mergekit/plan.py:MergePlanner"), ("output config", "mergekit/merge.py:_model_out_config")],
  "TLA+/TLC: Plan.tla planner state machine checked over all two-slice layouts of two models; TLC-emitted and seeded larger configurations are really merged with fingerprinted tensors and the decoded provenance is judged by VerdictPlan.tla",
  "layouts of up to 2 slices x 2 sources exhaustive in the model, sampled on the code; up to 4 models x 4 slices x 12 layers random; linear, task_arithmetic and passthrough as the observing methods; models within one slice distinct",
  observe=["coefficients and origins decoded from output tensors, written config"])
prop("P09", "Parameter values resolve by the documented precedence everywhere",
  "The value of a merge parameter for a tensor is the one from the innermost level (source, then slice, then module, then global, then default) whose setting applies to that tensor: conditional settings apply by the first entry whose filter occurs in the tensor name, entries that do not match fall through to the next level, a zero counts as a value, and gradients interpolate linearly over the layers of the slice from first to last. A required parameter with no applicable value is an error.",
  ["inputs", "programs"], "every combination of settings at every level, filter, gradient length, layer position",
  "No test varies levels, filters and gradients together.",
  ["mergekit/config.py", "mergekit/plan.py"],
  [("setting evaluation", "mergekit/config.py:evaluate_setting"), ("level precedence", "mergekit/config.py:ConfigReader.parameter"), ("layer position t", "mergekit/plan.py:MergePlanner.plan_slice")],
  "TLA+/TLC: all 6^4 combinations of settings at the four levels checked in MCPlan (masking, hull) and replayed on real merges; coefficients read off the outputs judged by VerdictPlan.tla in exact rationals",
  "6 setting shapes per level exhaustive in the model; sampled with random filters, gradients (1-5 points) and up to 12 layers on the code",
  observe=["coefficients decoded from output tensors"])
prop("P10", "Every tensor of the sources is merged; required ones are never missing",
  "For each weight of the (known or inferred) architecture, a model contributes the tensor stored under the weight's name, else under its alternative names, else under the names it may be tied to. The output tensor, written under the canonical name, merges the tensors of all models that have the weight; a weight no model has is omitted if optional, and a required weight missing in any model is refused with an error. An accepted merge of models Transformers can save loads again with every parameter merged: nothing is dropped silently and nothing unknown is written. Sources of different architectures are refused unless explicitly allowed.",
  ["inputs", "programs"], "every architecture and variant, every subset of names under which checkpoints hold their tensors, every number of models",
  "The tests cover one or two architectures whose checkpoints hold every tensor under its canonical name.",
  ["mergekit/architecture/json_definitions.py", "mergekit/architecture/auto.py", "mergekit/architecture/conversion.py", "mergekit/plan.py", "mergekit/io/tasks.py", "mergekit/_data/architectures/"],
  [("name resolution", "mergekit/io/tasks.py:LoadTensor"), ("optional weights", "mergekit/plan.py:plan_tensor"), ("inferred architectures", "mergekit/architecture/auto.py:infer_architecture_info"), ("checkpoint layout conversion", "mergekit/architecture/conversion.py")],
  "TLA+/TLC: Presence.tla with its laws checked over all contents of two (thorough three) checkpoints; TLC-emitted contents spread over eleven known architectures, invented architectures, and real tiny models of about 100 architectures and variants (saved and reloaded by Transformers) really merged and judged by VerdictPresence.tla",
  "model exhaustive for 1 alternative and 2 tied names; code: constant-valued tensors; variants that the tree refuses with an error are not part of the list; two recorded findings",
  observe=["tensors of the output checkpoint, parameters of the reloaded model, outcome"])
prop("P11", "Number formats: computed in dtype, stored in out_dtype, config agrees",
  "Every source tensor is converted to dtype (when given) before merging, each result is stored in out_dtype, else dtype, else the sources' own (promoted) format, and the written config names out_dtype, else dtype, else the format named by the base (or first) model. Converting rounds to nearest even, once per documented conversion: nothing passes through a narrower format on the way, whatever the file format, sharding and loading options. A weight with a prescribed format keeps it.",
  ["inputs"], "every combination of stored formats, dtype, out_dtype, method and tensor content",
  "The tests use one dtype throughout and never compare values near the precision limits.",
  ["mergekit/plan.py", "mergekit/io/tasks.py", "mergekit/merge.py", "mergekit/common.py"],
  [("conversion on load and save", "mergekit/io/tasks.py:LoadTensor, SaveTensor"), ("formats handed to tasks", "mergekit/plan.py"), ("config", "mergekit/merge.py:_model_out_config")],
  "TLA+/TLC: Dtype.tla (rounding of whole numbers to 8/11/24 significant bits, ties to even) with rounding laws checked in MCDtype.tla; all emitted format combinations and random contents really merged and every element judged by VerdictDtype.tla",
  "all 3 x 3 x 4 x 4 format combinations of four methods (linear sum, passthrough, task arithmetic, slerp end point); whole numbers up to 2^16; methods with a base and sources of different formats without dtype are judged for the config only",
  observe=["format and elements of merged tensors, config.json"])
prop("P12", "The output vocabulary is exactly what the tokenizer configuration asks for",
  "With a tokenizer source configured, the output tokenizer contains exactly the requested tokens: the tokens of the base (or named) model, all models' tokens for a union, plus the configured extra tokens. Every token has one id, the ids form a contiguous range from 0, and the tokens of the base (or named) model keep their ids. The embedding and output matrices and the written vocab_size have exactly one row per token, rounded up to the requested multiple.",
  ["inputs"], "every set of input vocabularies and vocabulary sizes, token orders, tokenizer source, configured tokens and padding multiple",
  "The tests build a few fixed vocabularies over one kind of tokenizer; the guarantee is over all overlaps, orders, sizes and token settings.",
  ["mergekit/tokenizer/build.py", "mergekit/tokenizer/config.py", "mergekit/merge.py"],
  [("union vocabulary and token ids", "mergekit/tokenizer/build.py:build_union_tokenizer, build_tokenizer"), ("vocab_size and padding", "mergekit/merge.py:_update_config_vocab")],
  "TLA+/TLC: Vocab.tla/MCVocab.tla (all configurations over 2 models and small vocabularies); TLC-emitted and random larger configurations really merged and the written tokenizer, config and matrices judged by VerdictVocab.tla",
  "model exhaustive for 2 models x 2 (thorough 3) tokens; code sampled up to 3 models x 6 tokens; word-level tokenizers only",
  observe=["tokenizer.json, config.json and matrix shapes of the output"])
prop("P13", "Every token's embedding comes from the documented sources",
  "With a tokenizer source configured, the row a model contributes for a token is that model's own row for that token when it has the token, otherwise the configured source (zero, another model's token or id) or by default the base model's row, the mean over the models that have the token, or zeros if none has; a forced source replaces every model's row. The output row is the merge of those rows, padding rows are the mean of all output rows, and a token source that does not exist is refused with an error.",
  ["inputs"], "every set of input vocabularies, token orders and sizes, base model, configured token sources and merge weights",
  "The tests compare a few rows of fixed examples; the guarantee covers every row under every combination of vocabularies and token settings.",
  ["mergekit/tokenizer/build.py", "mergekit/tokenizer/embed.py", "mergekit/plan.py"],
  [("permutations per model", "mergekit/tokenizer/build.py:build_tokenizer"), ("embedding assembly and defaults", "mergekit/tokenizer/embed.py:PermutedEmbeddings"), ("padding", "mergekit/merge_methods/base.py")],
  "TLA+/TLC: embedding-source operators of Vocab.tla, checked over all small configurations; unit-vector embeddings make the origin of each merged row observable, judged row by row by VerdictVocab.tla",
  "model exhaustive for 2 models x 2 (thorough 3) tokens; code sampled up to 3 models x 6 tokens",
  observe=["rows of the merged embedding and output matrices"])
prop("P15", "Task-vector methods keep the configured share and obey the elected sign",
  "For task_arithmetic, ties, dare_linear, dare_ties, breadcrumbs, breadcrumbs_ties, della and della_linear, every output element equals the base value plus lambda times the (optionally weight-normalized) weighted sum of the surviving, optionally rescaled task-vector elements. Of each task vector of n elements ties keeps exactly the floor(density*n) largest magnitudes; breadcrumbs first drops the floor(gamma*n) largest (fewer if needed to reach the density) and then the smallest; dare keeps each element independently with probability density; della with probability rising with its magnitude rank in its row from density-epsilon to density+epsilon. Rescaling preserves each task vector's sum of magnitudes. The sign-consensus variants combine and normalize only the elements whose weighted sign agrees with the sign of their weighted sum. Documented defaults apply, and densities that cannot be honoured are refused with an error.",
  ["inputs"], "every tensor content, model count, weights (negative and zero included), density, gamma, epsilon, normalize/rescale/lambda/int8_mask setting",
  "Tests check that merges run and a few norms; they do not compare elements, ranks, ties of magnitude, probabilities or sign elections.",
  ["mergekit/merge_methods/generalized_task_arithmetic.py", "mergekit/sparsify.py", "mergekit/merge_methods/registry.py"],
  [("task vectors, consensus, normalization", "mergekit/merge_methods/generalized_task_arithmetic.py:GTATask"), ("sparsifiers and rescaling", "mergekit/sparsify.py"), ("method defaults", "mergekit/merge_methods/registry.py")],
  "TLA+/TLC: Gta.tla (exact rationals; survivors chosen nondeterministically where the method allows) with its laws checked over all small two-model merges; TLC-emitted and random settings really merged, each output tensor judged by VerdictGta.tla; keep frequencies of random sparsifiers judged by VerdictPrune.tla",
  "model exhaustive over 2 models x 2 elements x 3 values; code: tensors up to 9 elements, up to 3 models (random masks: 4 elements, 2 models); frequencies on 9000 elements at six standard deviations",
  observe=["every element of the merged tensors"])
prop("P14", "Averaging methods compute their documented combination of every element",
  "linear yields the weighted sum of the sources, divided by the sum of the weights unless normalization is off; passthrough yields the single source, scaled; nearswap moves each base element towards the other model by at most t and never past it; model_stock interpolates between the base and the mean of the others with ratio N c / (1 + (N-1) c), where c is the mean pairwise cosine of the task vectors (per row with filter_wise). Embedding and output matrices of different height are merged on their common rows. A weight that only one source has is passed through by linear, and the base's own by nearswap and model_stock. Other shape mismatches, a wrong number of models and a missing base are refused with an error.",
  ["inputs"], "every tensor content and shape, model count, weights (zero and negative included) and setting",
  "Tests check that these merges run; only a few elements or norms are compared.",
  ["mergekit/merge_methods/linear.py", "mergekit/merge_methods/passthrough.py", "mergekit/merge_methods/nearswap.py", "mergekit/merge_methods/model_stock.py", "mergekit/merge_methods/rectify_embed.py", "mergekit/merge_methods/easy_define.py"],
  [("linear, passthrough", "mergekit/merge_methods/linear.py:LinearMergeTask, passthrough.py:PassthroughMergeTask"), ("interpolation ratio", "mergekit/merge_methods/model_stock.py:ModelStockMergeTask"), ("common rows", "mergekit/merge_methods/rectify_embed.py")],
  "TLA+/TLC: Blend.tla (exact rationals) with its laws checked in MCBlend.tla; TLC-emitted and random merges really run and each output tensor judged by VerdictBlend.tla",
  "model exhaustive over small integer tensors; code: integer tensors up to 4x5 elements, up to 4 models; excluded: linear weights summing to 0 under normalization, model_stock with 1+(N-1)c near 0",
  observe=["every element of the merged tensors, outcome"])
prop("P16", "Spherical merges interpolate direction and length as documented",
  "slerp moves along the arc from the base model's tensor (t=0) to the other (t=1) and falls back to linear interpolation for nearly parallel or zero tensors; nuslerp does the same between its two models by their relative weights, relative to the base if one is given, over the whole tensor or row by row / column by column; multislerp and karcher yield a tensor whose direction is a spherical mean of the inputs' directions (symmetric inputs give the bisector, equal inputs the input) and whose length is the weighted mean of their lengths. Results do not leave the plane of two inputs. A tensor that only one source has is passed through, inputs of zero length give finite results, and more than two models are refused by slerp and nuslerp.",
  ["inputs"], "every pair or set of tensors (angles, lengths, zero), t, weights, base, axis setting",
  "Tests compare one or two vectors; angle ranges, zero lengths, axis modes and base offsets are not sampled together.",
  ["mergekit/merge_methods/slerp.py", "mergekit/merge_methods/nuslerp.py", "mergekit/merge_methods/multislerp.py", "mergekit/merge_methods/karcher.py"],
  [("slerp", "mergekit/merge_methods/slerp.py:slerp"), ("nuslerp", "mergekit/merge_methods/nuslerp.py:nuslerp"), ("multi-model means", "mergekit/merge_methods/multislerp.py, karcher.py")],
  "TLA+/TLC: Sphere.tla describes inputs by whole-degree angles and lengths in a plane with a sine table; laws checked in MCSphere.tla; TLC-emitted and random cases really merged (planes of random orientation per tensor, row or column), the observed plane coordinates judged by VerdictSphere.tla",
  "model exhaustive over a grid of angles, lengths and weights; code sampled at whole degrees; three-model means judged exactly only for symmetric inputs, otherwise by length, plane and hull; antiparallel inputs of nuslerp/multislerp excluded",
  observe=["coordinates of every merged vector in the plane of its inputs"])
prop("P17", "User-defined merge methods receive exactly what their signature declares",
  "A function registered with the merge_method decorator is called exactly once per output tensor, through mergekit-yaml and mergekit-pytorch alike. It gets the tensors of the models that have this tensor in configuration order; a base_tensor argument receives the base model's tensor, which is then not among the others (None if optional and there is none), and without such an argument the base's tensor comes first. Scalar parameters have the configured value or their default, per-model parameters come in the order of the tensors, each with the model's own value, else the general one, else the default (zero and false count as values); output_weight and base_model name the weight and the base. What it returns is what is written. A missing required parameter or base and a signature the decorator cannot serve are refused with an error.",
  ["inputs"], "every signature (base handling, scalar and per-model parameters, defaults, special arguments) and every configuration of models, base, order and parameter levels",
  "No test defines a custom method; order and pairing must hold for every number of models, hash seed and parameter placement.",
  ["mergekit/merge_methods/easy_define.py", "mergekit/plan.py", "mergekit/config.py", "mergekit/scripts/merge_raw_pytorch.py", "docs/create_a_merge_method.md"],
  [("signature parsing, argument assembly", "mergekit/merge_methods/easy_define.py:__merge_method"), ("parameter resolution", "mergekit/plan.py:plan_tensor, mergekit/scripts/merge_raw_pytorch.py:construct_param_dicts")],
  "TLA+/TLC: Method.tla (refusals, order, values of every argument) with its laws checked over 60480 signature/configuration pairs in MCMethod.tla; TLC-emitted and random methods really registered and merged, every recorded call judged by VerdictMethod.tla",
  "model exhaustive over small signatures and up to 3 models; code: up to 6 models, 5 parameters; a per-model value nobody set for the base of a method that receives it is left open",
  observe=["arguments of every call of the method, written tensors"])
prop("P18", "Selective methods change exactly the elements their rule selects",
  "ram averages the task-vector elements larger than epsilon over the models that changed that element, adds elements changed by one model unscaled (ramplus_tl: scaled by 1 + r*min(alpha, shared/unique) of that model), and leaves all others at the base value. sce keeps, of the n elements that differ between models, only the floor(select_topk*n) of highest variance, drops the elements whose sign loses the sum, and weights each model by the share of its squared task vector. arcee_fusion takes from the other model exactly the elements whose importance is at least median + 1.5 IQR and keeps the base's elsewhere. A merge of the base with itself returns the base; a wrong number of models is refused with an error.",
  ["inputs"], "every tensor content, model count and setting",
  "Tests check that merges run; selections, counts and thresholds are not compared.",
  ["mergekit/merge_methods/ram.py", "mergekit/merge_methods/sce.py", "mergekit/merge_methods/arcee_fusion.py"],
  [("ram masks and rescaling", "mergekit/merge_methods/ram.py"), ("variance selection, erasure, weights", "mergekit/merge_methods/sce.py"), ("importance threshold", "mergekit/merge_methods/arcee_fusion.py:DynamicThresholdFusion")],
  "TLA+/TLC: Blend.tla (exact rationals; ties of variance chosen nondeterministically) with its laws checked in MCBlend.tla; TLC-emitted and random merges really run and each output tensor judged by VerdictBlend.tla",
  "integer tensors up to 4x5 elements, up to 4 models; excluded: ramplus_tl with epsilon >= 1, arcee_fusion tensors with equal softmax per row (importance all zero)",
  observe=["every element of the merged tensors, outcome"])
prop("P19", "Raw PyTorch merges combine same-named tensors of arbitrary checkpoints",
  "mergekit-pytorch writes exactly the tensors all inputs share (--tensor-intersection), all that any input has (--tensor-union), or by default refuses inputs whose tensor names differ; the base model counts as an input. Each tensor is the method's combination of the inputs that have it, with each model's parameter, else the general one, else the default, where filters apply by tensor name, first match first, and zero is a value. A missing required parameter is refused. Shapes are kept, the format is the configured or the inputs' one, and the checkpoint is readable whatever the input file type and write options.",
  ["inputs"], "every set of checkpoints (names, shapes, formats, pickle or safetensors), presence pattern, mode, parameter placement and filter, base, dtype and write option",
  "No test runs mergekit-pytorch.",
  ["mergekit/scripts/merge_raw_pytorch.py", "mergekit/merge_methods/base.py", "mergekit/config.py"],
  [("modes and planning", "mergekit/scripts/merge_raw_pytorch.py:plan_flat_merge"), ("parameters", "mergekit/scripts/merge_raw_pytorch.py:construct_param_dicts")],
  "TLA+/TLC: Raw.tla (names, refusals, filters, exact rational values) with its laws checked over 50868 configurations in MCRaw.tla; TLC-emitted and random configurations run through the command line entry point and judged tensor by tensor by VerdictRaw.tla",
  "model exhaustive over small configurations of up to 2 models; code: up to 4 models, 5 tensors, methods linear, task_arithmetic and passthrough; a task-vector merge of a tensor its base lacks is left open",
  observe=["names, values, formats and shapes of the written tensors"])
prop("P20", "A mixture-of-experts model is assembled from exactly the configured parts",
  "mergekit-moe writes a model of the first supported (Mixtral preferred) or requested architecture whose attention, norms, embeddings and head are the base model's, whose expert e in every layer holds the gate, up and down projections of the e-th configured expert (down scaled by its residual_scale, likewise the shared expert), with nothing missing or added, in the requested dtype, and whose config states the number of experts and experts per token. Router rows come in expert order: in cheap_embed mode the normalized sum of the prompts' token embeddings minus the normalized sum of the negative ones, in hidden mode the normalized difference of mean last-token hidden states entering that layer. A model whose experts all equal the base computes what the base computes. Configurations with too few experts for experts_per_token, with missing or identical prompts (unless random), with identical experts (unless allowed) or that no architecture supports are refused.",
  ["inputs"], "every base/expert/shared-expert choice, model family, expert count, prompts, gate mode, output architecture, dtype and write option",
  "No test builds a MoE model; the mapping must hold for every layer, expert and architecture.",
  ["mergekit/moe/common.py", "mergekit/moe/mixtral.py", "mergekit/moe/deepseek.py", "mergekit/moe/qwen.py", "mergekit/moe/qwen3.py", "mergekit/moe/router.py", "mergekit/moe/config.py", "mergekit/scripts/moe.py"],
  [("architecture selection, refusals", "mergekit/scripts/moe.py:select_output_arch, mergekit/moe/config.py:is_bad_config"), ("tensor placement", "mergekit/moe/*.py:write_model"), ("router vectors", "mergekit/moe/router.py:get_gate_params")],
  "TLA+/TLC: Moe.tla (refusal, architecture choice, slots with donors and scales, router arithmetic in whole numbers) checked over 12600 configurations in MCMoe.tla; TLC-emitted and random configurations really built from models with numbered weights, loaded by Transformers (DeepSeek: read by name) and judged slot by slot by VerdictMoe.tla",
  "model exhaustive over small configurations; code: 3 source models, 2 layers, up to 11 experts; hidden mode against a float32 forward pass with tolerance for bfloat16; uniform_random, hidden_avg, noise_scale and quantized loading not covered",
  observe=["weights and config of the written model, logits"])
prop("P21", "Model references and merge configurations survive writing and reading",
  "Writing a model reference (as text or structure, in a configuration, a tokenizer setting or JSON) and reading it back gives an equal reference, whatever characters its path, revision, adapter or architecture override contain; text parses as MODEL[@REVISION][+ADAPTER[@REVISION]] or is refused. A configuration written by the program reads back equal, and the mergekit_config.yml and model card a merge leaves behind hold a configuration (verbatim, when it came from a file) that reproduces the same output; asking for a card never changes the merge.",
  ["inputs"], "every reference and configuration, with arbitrary characters in names, read from text, structure or file",
  "Tests parse a few well-formed references; the round trip must hold for every name, setting and nesting.",
  ["mergekit/common.py", "mergekit/config.py", "mergekit/card.py", "mergekit/scripts/run_yaml.py", "mergekit/tokenizer/config.py"],
  [("parsing and serialization of references", "mergekit/common.py:ModelReference, ModelPath"), ("stored configuration", "mergekit/config.py:MergeConfiguration.to_yaml, mergekit/merge.py:run_merge"), ("model card", "mergekit/card.py:generate_card")],
  "TLA+/TLC: Ref.tla (grammar, parser and writer over abstract characters) with round-trip laws checked in MCRef.tla; TLC-emitted and random references and texts put through every writer of the code, random configurations merged, re-merged from what was stored, and judged by VerdictRef.tla",
  "references up to 5 characters per part exhaustive in the model; a directory literally named 'union' or 'base' as tokenizer source is left open",
  observe=["parsed references, stored configuration, outputs of both merges"])
prop("P22", "Configuration, tokenizer, template and companion files come from the right model",
  "A merge writes the configuration of the base model (else of the first model listed), a tokenizer exactly when one is requested or copied from a donor that has one, its card only when asked, and nothing else. A copied tokenizer is the donor's, file by file, with its generation settings; companion files an architecture declares are the donor's. The chat template is the tokenizer's own, the named built-in one, the given text, or for 'auto' a most frequent one among the models; an invalid one is refused (or no tokenizer written). Input models are left untouched.",
  ["inputs"], "every choice of base, order, tokenizer source, template setting, donor contents and copy/card option",
  "No test looks at the files a merge writes besides the tensors and the vocabulary.",
  ["mergekit/merge.py", "mergekit/config.py", "mergekit/options.py"],
  [("donor, copying", "mergekit/merge.py:_get_donor_model, _copy_tokenizer, _copy_tagalong_files"), ("template choice", "mergekit/merge.py:_set_chat_template")],
  "TLA+/TLC: Companion.tla with its laws checked over 70680 situations in MCCompanion.tla; TLC-emitted situations and random Whisper ones really merged (API and command line), the output directory compared with the donor's and judged by VerdictCompanion.tla",
  "3 models, templates stored in four ways; code: sampled situations (quick 420, thorough about 8000)",
  observe=["files of the output and input directories"])
prop("P23", "A chain of merges produces what merging its documents one by one would",
  "mergekit-multi writes, for every named merge and the final one, the model that running its documents by hand in dependency order gives, whatever the order of the documents and their number: each reference that names an earlier merge means that merge's output (other settings that happen to be spelled like a name keep their meaning), and everything else is as in the document. Duplicate names, cyclic references, several unnamed documents, and an unnamed one without an output path are refused before anything is written. With --lazy a complete output is kept and not made again. Configurations that fail stop the chain with an error.",
  ["inputs", "history"], "every set of documents, dependency graph, document order, name, output choice and pre-existing outputs",
  "No test runs mergekit-multi.",
  ["mergekit/scripts/multimerge.py"],
  [("ordering and substitution of references", "mergekit/scripts/multimerge.py")],
  "TLA+/TLC: Multi.tla (graph, refusals, linear value semantics in integers) with laws checked in MCMulti.tla; TLC-emitted and random chains really run through the command line and every produced model judged by VerdictMulti.tla",
  "model: up to 3 documents exhaustively; code: up to 5 documents of linear, task_arithmetic and stacked merges; names with + or @ and 'base'/'union' not used as merge names",
  observe=["values, files and tokenizers of every output, exit status"])
prop("P24", "A chain of merges interrupted at any point is completed by running it again",
  "If mergekit-multi is killed at any file operation, any number of times, the next complete run with --lazy leaves exactly the outputs an uninterrupted run leaves: nothing half-written is taken for a finished merge, no partial tensor file survives among the outputs, and finished merges are kept.",
  ["crash-points", "history"], "every file operation of every chain, repeated crashes",
  "No test interrupts a merge; the guarantee concerns every crash point.",
  ["mergekit/scripts/multimerge.py", "mergekit/merge.py", "mergekit/io/tensor_writer.py"],
  [("order of writing", "mergekit/merge.py:run_merge"), ("completeness test", "mergekit/scripts/multimerge.py")],
  "TLA+/TLC: MCMulti.tla explores a crash before every write of every merge (WholeAlways; writing the configuration early is the negative control); the real chain is killed at every sampled file operation, rerun and compared with an uninterrupted run, judged by VerdictMulti.tla",
  "crashes at operation boundaries plus truncated tensor files; torn small text files are not modelled",
  observe=["output directories after the final run"])
prop("P25", "A merge depends only on its configuration, the models' contents and the seed",
  "Merging the same configuration of the same models with the same random seed gives bit-identical tensors, the same model configuration and the same vocabulary, whatever the write and read options (asynchronous writing, threads, shard size, output format, lazy unpickling, cloning, low memory), string hashing, earlier merges and random draws in the process, reuse of the configuration object, command line or API, place, file format and sharding of the models, and earlier contents of their directories. Another seed gives another result for the random methods. Input models are left untouched.",
  ["inputs", "history", "schedule"], "every method, configuration, option vector, hash seed and history of the process",
  "Tests run each merge once, in one process state; independence must hold for every option vector and history.",
  ["mergekit/merge.py", "mergekit/options.py", "mergekit/io/tasks.py", "mergekit/graph.py", "mergekit/sparsify.py", "mergekit/scripts/run_yaml.py", "mergekit/scripts/merge_raw_pytorch.py"],
  [("seeding", "mergekit/options.py:apply_global_options"), ("loader cache", "mergekit/io/tasks.py:LoaderCache"), ("order of tasks", "mergekit/graph.py:build_schedule")],
  "TLA+/TLC: Repro.tla; MCRepro.tla explores two runs with arbitrary histories in between (unseeded, unordered and stale caches are the negative controls) and emits the option vectors; every method is merged under these, in processes with different hash seeds, after other merges and from rewritten models, and the digests judged by VerdictRepro.tla",
  "sampled configurations of all methods (quick 75 with 15 runs each, thorough about 1000); one machine, CPU; number of torch threads fixed",
  observe=["digests of tensors, configuration and vocabulary of every run"])
prop("P26", "A model with an adapter means that model with the adapter applied",
  "MODEL+ADAPTER anywhere in a merge (a model, a slice source, the base model) contributes the model's weights plus alpha/r times B times A for every module the adapter adapts (embeddings included), the adapter's own weights for the modules it saves, and the model's weights elsewhere, in the requested adapter dtype. This holds however the reference is spelled and whatever earlier merges, failed attempts or crashes left in the adapter cache; without a cache directory or without the adapter the merge is refused and writes no model, and a later merge for which they are there succeeds. Models and adapters are left untouched.",
  ["inputs", "history", "crash-points"], "every adapter, base, combination of references, dtype, sequence of merges sharing a cache directory and crash or write failure while the cache is filled",
  "No test applies an adapter; what the cache holds depends on the history and on crash points.",
  ["mergekit/common.py", "mergekit/io/tasks.py", "mergekit/options.py"],
  [("applying and caching", "mergekit/common.py:ModelReference.merged"), ("use in merges", "mergekit/io/tasks.py:LoaderCache.get")],
  "TLA+/TLC: Adapter.tla (integer matrix semantics) and MCAdapter.tla, which explores merges, refusals, missing adapters and crashes over a shared cache (a cache entry that appears before it is complete and one shared between dtypes are the negative controls); the emitted histories are replayed with real adapters in a real cache directory, killed or failing at file operations, and every output value judged by VerdictAdapter.tla",
  "histories of 3 to 6 merges over 2 adapted references; Llama; LoRA adapters with one rank (rsLoRA, saved modules, embeddings; safetensors and bin); crashes at file operations of the cache; contents of an adapter are not changed while it is cached",
  observe=["tensors of every output, exit status, input directories"])
prop("P27", "An extracted adapter turns the base model into the fine-tuned one",
  "Applying the adapter mergekit-extract-lora writes to the base model gives, for every module, what fine-tuning added: completely for modules saved in full (embeddings unless --embed-lora, --save-module, undecomposable ones unless skipped) and for their biases; its largest singular values, up to --max-rank and those above --sv-epsilon, for decomposed ones; nothing for excluded or not included ones. The decision about a module depends on nothing but the module and the options, and the adapter always loads. With no limits the result is the fine-tuned model. Inputs are left untouched.",
  ["inputs"], "every pair of models, architecture, option vector, tied or untied embeddings, biases, and fine-tuned models that are themselves MODEL+ADAPTER",
  "No test extracts an adapter; losslessness must hold for every architecture and option.",
  ["mergekit/scripts/extract_lora.py"],
  [("per-module decision", "mergekit/scripts/extract_lora.py:plan_extraction"), ("decomposition", "mergekit/scripts/extract_lora.py:TaskVectorDecompositionTask"), ("adapter configuration", "mergekit/scripts/extract_lora.py:make_config_dict")],
  "TLA+/TLC: Extract.tla (fate of a module, singular values kept) with laws checked over 23040 option vectors in MCExtract.tla (deciding by a growing list of names is the negative control); TLC-emitted option vectors and 21 architectures really extracted, applied through PEFT or a merge, and the coefficient of every singular direction judged by VerdictExtract.tla",
  "fine-tunings of up to 4 distinct singular values per module, tiny models; regular expressions from a fixed set; equal singular values, larger fine-tuned vocabularies and architectures mergekit does not describe are not used; fused experts are a known finding",
  observe=["weights of the base model with the adapter applied, adapter files"])

prop("P28", "A transplanted tokenizer keeps shared tokens and approximates the rest as told",
  "mergekit-tokensurgeon MODEL DONOR gives MODEL with DONOR's tokenizer, token ids and vocabulary size. In each embedding matrix a token both know (same text, word-start mark or special role) keeps MODEL's row exactly; else, where allowed for that matrix, one naming the same byte, or its longest known proper prefix, gives its row; the others get what --approximation-method says: zeros, MODEL's mean row, their subwords' combination, their k nearest shared tokens weighted, or a fit by shared tokens that carries any map between the two spaces over to them. Scale and noise touch only the latter. Every other weight and both inputs stay as they are, the result loads.",
  ["inputs"], "every pair of vocabularies (conventions, special tokens, padding rows, ties), embeddings, approximation method and option vector, and every architecture",
  "Tests transplant one random tokenizer and check shapes; which row each token gets depends on the two vocabularies, options and embeddings together.",
  ["mergekit/scripts/tokensurgeon.py", "mergekit/tokensurgeon/*.py", "mergekit/tokenizer/normalization.py"],
  [("matching", "mergekit/scripts/tokensurgeon.py:build_embedding_matrix"), ("approximation", "mergekit/scripts/tokensurgeon.py:compute_new_embeddings"), ("normal form of tokens", "mergekit/tokenizer/normalization.py:normalized_vocabulary")],
  "TLA+/TLC: Surgeon.tla (token identity, byte and prefix matches, approximations in exact rationals) with laws checked over 15210 (thorough 49063) vocabulary pairs in MCSurgeon.tla; TLC-emitted and random vocabularies and embeddings really transplanted and every row judged by VerdictSurgeon.tla; 22 architectures transplanted and loaded",
  "embeddings of 2 or 3 dimensions, up to 12 shared tokens, k up to 3 for exact methods; methods that draw random numbers and mp_rope are only required to give finite rows; --magikarp, adapters and ids beyond the matrix are not used; special tokens' text under subword left open; PhiForCausalLM's head bias is a known finding",
  observe=["every row of the written embedding matrices, other weights, tokenizer, configuration"])

prop("P29", "Equivalent ways of writing a merge down give the same result",
  "Two configurations that mean the same give bit for bit the same tensors, configuration and vocabulary, or are both refused, with every merge method and architecture: whole models or slices over all layers; slices or one module per part of the architecture; one slice or consecutive pieces of it; the base model listed at any position or implied, named per slice or globally; a setting at an outer level or repeated at the inner level that had none; a number, a one-element gradient, an unfiltered entry, with entries that never apply before or after; tokenizer_source or tokenizer.source; any spelling of a model reference and any order of keys.",
  ["inputs"], "every configuration, merge method, architecture and every sequence of rewritings between its equivalent forms",
  "Tests use one form of each configuration; agreement of forms must hold for every method, setting and module structure.",
  ["mergekit/config.py", "mergekit/plan.py", "mergekit/merge_methods/*.py"],
  [("forms to slices", "mergekit/plan.py:normalize_config"), ("parameter lookup", "mergekit/config.py:ConfigReader.parameter"), ("base model among the inputs", "mergekit/merge_methods/*.py:execute")],
  "TLA+/TLC: Forms.tla (eight structural rewritings and the respellings over Plan's configurations) with MCForms proving on bounded configurations that every chain keeps the meaning; TLC simulates chains of rewritings from generated configurations, every form of a chain is really merged with one of 16 methods, and VerdictForms.tla compares results of forms of equal meaning",
  "gradients and slice splitting are not combined (a gradient runs over a slice); methods drawing random numbers are not used; a linear merge with a base model is not used; up to 4 models and 11 layers",
  observe=["tensors, config.json and vocabulary of the outputs of all forms"])

prop("P30", "Command-line arguments stand for exactly the merge they describe",
  "mergekit-legacy merges precisely what its arguments say: the models in the order given plus the base model, each with its own weight and density (one value applies to every model, weight is 1 when none is given), the method, slerp's t from the one weight, normalization, sign counting, mask and dtype; arguments that do not fit are refused. The options every command shares (shard size, tokenizer, model card, serialization format, seed and others) take effect whatever their order, the last value counting, and the printed or recorded configuration gives the same output when run with mergekit-yaml.",
  ["inputs"], "every sequence of command-line arguments and options",
  "No test runs a command line; parsing, defaults and broadcasting must be right for every sequence of arguments.",
  ["mergekit/scripts/legacy.py", "mergekit/options.py", "mergekit/scripts/run_yaml.py", "mergekit/common.py"],
  [("arguments to configuration", "mergekit/scripts/legacy.py:main"), ("shared options", "mergekit/options.py:add_merge_options"), ("sizes", "mergekit/common.py:parse_kmb"), ("seed", "mergekit/options.py:MergeOptions.apply_global_options")],
  "TLA+/TLC: Front.tla reads a command line token by token into the merge it stands for (MCFront proves order independence, broadcasting and defaults over all bounded lines); command lines simulated by TLC are run through the real command, and VerdictFront.tla judges the result against the real merge of the specified meaning, the files written, and a rerun of the recorded configuration",
  "two to four models, ten methods, tokens up to eleven; the number of threads and devices are not varied",
  observe=["tensors, config and vocabulary of the command's output against the explicit configuration's", "files and shard sizes", "exit status", "a rerun from the printed or recorded configuration"])

prop("P31", "Layer-stacking commands write exactly the layers asked for",
  "bakllama writes the layers of its slices in order, each bit for bit a layer of the model named with the down projection scaled as asked, embeddings from embedding_source or the first slice's model, output head from lm_head_source or the last slice's. mergekit-layershuffle writes at every depth the same layer of one of the models with positive weight, or with --full-random the asked fraction of layers of every model, any layer being possible; embeddings and head belong to the first and last layer; the same seed and the written YAML give the same model, and a dry run writes none.",
  ["inputs", "histories"], "every list of slices, every weighting and seed",
  "No test runs these commands; every layer of the output must come from the right place for all stacks and draws.",
  ["mergekit/scripts/bakllama.py", "mergekit/scripts/layershuffle.py", "mergekit/plan.py"],
  [("slices of a bakllama file", "mergekit/scripts/bakllama.py:main"), ("drawing layers", "mergekit/scripts/layershuffle.py:main")],
  "TLA+/TLC: Front.tla defines the stack of a slice list and the permitted shuffles (MCStack draws layer by layer and proves every finished draw permitted, no unfinished one, and that joining neighbouring slices changes nothing); the real commands run on generated stacks, every output layer is identified by its content, and VerdictFront.tla judges the provenance, repeats by seed and by written YAML, and the layers reached over many draws",
  "up to three models of five layers; models of different depth are not shuffled",
  observe=["provenance of every layer, the embeddings, the final norm and the head", "repeat and dry runs"])

prop("P32", "Filling a submodel into its base replaces exactly the shared parameters",
  "Given a base model and a submodel whose parameter names are names of the base, as they are or below one top-level prefix, mergekit.scripts.fill_missing_params writes a model with exactly the base's parameter names where every shared parameter is the submodel's tensor (values, dtype and shape, also when the shape differs) and every other one the base's, choosing the prefix that places most parameters, the same way every time; all other files of the base are copied, at any depth, the checkpoint is consistent for any shard size, a submodel with as many parameters as the base is refused, and neither input is modified.",
  ["inputs", "histories"], "all pairs of parameter name sets, sharding, shapes and dtypes",
  "No test covers this tool; which tensors are shared depends on the whole sets of names.",
  ["mergekit/scripts/fill_missing_params.py", "mergekit/io/lazy_tensor_loader.py", "mergekit/io/tensor_writer.py"],
  [("copying and filling", "mergekit/scripts/fill_missing_params.py:copy_and_fill_missing_params"), ("prefix", "mergekit/scripts/fill_missing_params.py:ParameterNamesUtils.find_prefix"), ("shared names", "mergekit/scripts/fill_missing_params.py:ParameterNamesUtils.find_common_ordered_names")],
  "TLA+/TLC: Fill.tla defines the admissible prefixes and the filling step by step (MCFill checks all small pairs: every name once, a whole subtree goes back exactly, nothing else replaced); pairs simulated by TLC and realistic ones are filled by the real tool, each output tensor is identified by its content, and VerdictFill.tla judges provenance, files, inputs and repeats in processes of different hash seeds",
  "names that fit both below a prefix and without one are left open; safetensors inputs only; names of up to five components",
  observe=["name, value, dtype and shape of every output tensor", "other files", "fingerprints of both inputs", "repeated runs"])

prop("P33", "A genotype of mergekit-evolve means one definite merge",
  "For every genome definition and genotype the merge performed is the one the definition describes: each group of layer_granularity layers (or the whole model) merges exactly those layers with the values of its own row, model and filter (the last set for tensors no filter matches); weights count by magnitude unless negative weights are allowed, densities by magnitude up to 1; slerp merges the group's two highest-valued models, the higher one as base, t from the softmax of the two values; smooth interpolates over the depth; normalization defaults to on for ties, dare_ties and linear; the result is bfloat16; a separate base model takes part. A flat genotype means the same as its 4-D form, the initial genotype weighs all models equally with density 1, and ill-formed definitions or genotypes are refused.",
  ["inputs"], "every genome definition and every genotype of its shape",
  "No stable test merges a genotype; the mapping of cells to layers, models and filters must be right for all definitions.",
  ["mergekit/evo/genome.py", "mergekit/plan.py"],
  [("genotype to configuration", "mergekit/evo/genome.py:ModelGenome.genotype_merge_config"), ("slerp", "mergekit/evo/genome.py:ModelGenome._slerp_slices"), ("initial genotype", "mergekit/evo/genome.py:ModelGenome.initial_genotype")],
  "TLA+/TLC: Genome.tla gives the values that apply to every tensor and layer for a definition and a genotype (MCGenome proves each layer in exactly one group, each cell used by its own layers, model and filter only, flat and 4-D forms equal); definitions and genotypes simulated by TLC are turned into configurations by the real code, merged, and VerdictGenome.tla compares every tensor with the merge of the values the specification gives",
  "evaluation and optimisation loops (Ray, CMA-ES) are not run; densities at least 1/4; equal values in slerp and a linear base outside the models are left open",
  observe=["tensors of the merged model against those of the specified values", "dtype", "initial genotype", "refusals"])
