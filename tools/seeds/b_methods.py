bug("P10-expert-order", "P10",
    "a mixture-of-experts checkpoint in per-expert layout with more than ten experts, merged into the stacked layout",
    "expert matrices are stacked in name order (0, 1, 10, 11, 2, ...): experts no longer match the router",
    [("mergekit/architecture/conversion.py", "    return tuple(\n        int(part) if part.isdigit() else part for part in re.split(r\"([0-9]+)\", value)\n    )", "    return tuple(re.split(r\"([0-9]+)\", value))")],
    '''
from demo_common import *
import transformers
cfg = transformers.MixtralConfig(vocab_size=8, hidden_size=4, intermediate_size=4, num_hidden_layers=1, num_attention_heads=1, num_key_value_heads=1, num_local_experts=12, num_experts_per_tok=1, head_dim=4)
paths = []
for k in range(2):
    m = transformers.MixtralForCausalLM(cfg)
    with torch.no_grad():
        for n, t in m.state_dict().items():
            if n.endswith("experts.down_proj"):
                for e in range(12):
                    t[e].fill_(e + 100 * k)
            else:
                t.fill_(1)
    p = ROOT + "/m%d" % k
    m.save_pretrained(p)
    paths.append(p)
out = merge({"merge_method": "linear", "dtype": "float32", "models": [{"model": p, "parameters": {"weight": 1}} for p in paths]})
sd = transformers.MixtralForCausalLM.from_pretrained(out).state_dict()
w = [t for n, t in sd.items() if n.endswith("experts.down_proj")][0]
got = [w[e].mean().item() for e in range(12)]
check(got == [e + 50.0 for e in range(12)], got)
''')
bug("P11-forced-type", "P11",
    "a weight whose format the architecture prescribes (BERT position ids) and an out_dtype that differs",
    "integer buffers are stored in the output float format and rounded",
    [("mergekit/plan.py", "                    dtype=weight.force_dtype or self.config.out_dtype,", "                    dtype=self.config.out_dtype or weight.force_dtype,")],
    '''
from demo_common import *
import transformers
from mergekit.architecture.json_definitions import NAME_TO_ARCH
cfg = dict(architectures=["BertModel"], model_type="bert", num_hidden_layers=1)
ws = NAME_TO_ARCH["BertModel"][0].all_weights(transformers.BertConfig(num_hidden_layers=1))
paths = []
for k in range(2):
    p = ROOT + "/m%d" % k
    os.makedirs(p)
    json.dump(cfg, open(p + "/config.json", "w"))
    save_file({w.name: torch.arange(300).reshape(1, 300) if w.force_dtype else torch.ones(2, 2) for w in ws}, p + "/model.safetensors", metadata={"format": "pt"})
    paths.append(p)
out = read(merge({"merge_method": "linear", "dtype": "float32", "out_dtype": "bfloat16", "models": [{"model": p, "parameters": {"weight": 1}} for p in paths]}))
t = out["embeddings.position_ids"]
check(t.dtype == torch.int64 and t.flatten().tolist() == list(range(300)), (t.dtype, t))
''')
bug("P12-stripped-tail", "P12",
    "a base tokenizer with exactly one token beyond the model's vocabulary size, base or union source",
    "a token without an embedding row survives in the output vocabulary",
    [("mergekit/tokenizer/build.py", "        tok for tok, idx in tokenizer.get_vocab().items() if idx >= vocab_size\n", "        tok for tok, idx in tokenizer.get_vocab().items() if idx > vocab_size\n")],
    '''
from demo_common import *
from tokenizers import Tokenizer
from tokenizers.models import BPE
from transformers import PreTrainedTokenizerFast, AutoTokenizer
def bpe(path, vocab, merges):
    tk = Tokenizer(BPE(vocab=vocab, merges=merges))
    PreTrainedTokenizerFast(tokenizer_object=tk).save_pretrained(path)
V0 = {"a": 0, "b": 1, "c": 2, "d": 3, "ab": 4, "cd": 5, "bc": 6}
a = llama("a", layers=1, vocab=6, values=1.0)
b = llama("b", layers=1, vocab=6, values=2.0)
bpe(a, V0, [("a", "b"), ("c", "d"), ("b", "c")])
bpe(b, {k: v for k, v in V0.items() if v < 6}, [("a", "b"), ("c", "d")])
out = merge({"merge_method": "linear", "dtype": "float32", "base_model": a, "tokenizer": {"source": "base"},
             "models": [{"model": p, "parameters": {"weight": 1}} for p in (a, b)]})
v = AutoTokenizer.from_pretrained(out).get_vocab()
check("bc" not in v and len(v) == 6, v)
check(read(out)["model.embed_tokens.weight"].shape[0] == 6)
''')
bug("P13-first-id", "P13",
    "no base model, a token two models share that has id 0 in one of them and is missing from a third",
    "the average used for the third model leaves out the model where the token has id 0",
    [("mergekit/tokenizer/embed.py", "                    if p[token_id] < 0:\n", "                    if p[token_id] <= 0:\n")],
    '''
from demo_common import *
toks = [["x", "a", "b"], ["a", "x", "b"], ["a", "b", "c"]]
paths = []
for k, t in enumerate(toks):
    p = llama("m%d" % k, layers=1, vocab=3, values=float(10 ** k))
    tokenizer(p, t)
    paths.append(p)
out = merge({"merge_method": "linear", "dtype": "float32", "tokenizer": {"source": "union"},
             "models": [{"model": p, "parameters": {"weight": 1}} for p in paths]})
v = json.load(open(out + "/tokenizer.json"))["model"]["vocab"]
row = read(out)["model.embed_tokens.weight"][v["x"]]
check(torch.allclose(row, torch.full_like(row, (1 + 10 + 5.5) / 3)), row)
''')
bug("P14-stock-orthogonal", "P14",
    "model_stock with three or more models whose pairwise angles differ in sign",
    "negative cosines are cut to zero before averaging, so the interpolation ratio is too large",
    [("mergekit/merge_methods/model_stock.py", "                ).clamp(-1, 1)\n", "                ).clamp(0, 1)\n")],
    '''
from demo_common import *
def vals(v):
    return lambda n, s: torch.tensor(v, dtype=torch.float32) if len(s) == 1 else torch.tensor(v, dtype=torch.float32).repeat(s[0], 1)
ps = [llama("b", layers=1, values=0.0)] + [llama("m%d" % i, layers=1, values=vals(v)) for i, v in enumerate([[4, 0, 0, 0], [3, 1, 0, 0], [-1, 3, 0, 0]])]
out = read(merge({"merge_method": "model_stock", "dtype": "float32", "base_model": ps[0], "models": [{"model": p} for p in ps[1:]]}))
x = [torch.tensor(v, dtype=torch.float32) for v in ([4, 0, 0, 0], [3, 1, 0, 0], [-1, 3, 0, 0])]
cos = lambda a, b: (a @ b / a.norm() / b.norm()).item()
c = (cos(x[0], x[1]) + cos(x[0], x[2]) + cos(x[1], x[2])) / 3
t = 3 * c / (1 + 2 * c)
check(torch.allclose(out["model.norm.weight"], t * sum(x) / 3, atol=1e-4), (out["model.norm.weight"], t))
''')
bug("P15-unweighted-election", "P15",
    "a sign-electing method whose models have clearly different weights and disagree about signs",
    "the sign is elected from the unweighted task vectors",
    [("mergekit/merge_methods/generalized_task_arithmetic.py", "            mask = get_mask(\n                weighted_deltas,\n", "            mask = get_mask(\n                deltas * weights.sign(),\n")],
    '''
from demo_common import *
base = llama("base", layers=1, values=0.0)
a = llama("a", layers=1, values=3.0)
b = llama("b", layers=1, values=-1.0)
out = read(merge({"merge_method": "ties", "dtype": "float32", "base_model": base, "parameters": {"normalize": True, "density": 1.0},
    "models": [{"model": a, "parameters": {"weight": 0.25}}, {"model": b, "parameters": {"weight": 1.0}}]}))
for k, t in out.items():
    check(torch.allclose(t, torch.full_like(t, -1.0)), (k, t))
''')
bug("P16-base-axis", "P16",
    "nuslerp with a base model, flattening off and row_wise set",
    "with a base model the interpolation always runs along the last axis",
    [("mergekit/merge_methods/nuslerp.py", "                tensors[1] - base_tensor,\n                dim=0 if self.row_wise else -1,\n", "                tensors[1] - base_tensor,\n                dim=-1,\n")],
    '''
from demo_common import *
import math
base = llama("base", layers=1, values=0.0)
def col(a):
    def f(n, s):
        if len(s) == 1:
            return torch.ones(s)
        t = torch.zeros(s); r = math.radians(a)
        t[0], t[1] = math.cos(r), math.sin(r)
        return t
    return f
a = llama("a", layers=1, values=col(0)); b = llama("b", layers=1, values=col(80))
out = read(merge({"merge_method": "nuslerp", "dtype": "float32", "base_model": base, "parameters": {"nuslerp_flatten": False, "nuslerp_row_wise": True},
    "models": [{"model": p, "parameters": {"weight": 1.0}} for p in (a, b)]}))
t = out["model.layers.0.self_attn.q_proj.weight"]
want = torch.zeros(4, 4); want[0], want[1] = math.cos(math.radians(40)), math.sin(math.radians(40))
check(torch.allclose(t, want, atol=1e-3), t)
''')
bug("P18-sce-stale-weights", "P18",
    "sce with select_topk below 1 where the discarded elements dominate a model's task vector",
    "the models' weights are taken from the task vectors before selection",
    [("mergekit/merge_methods/sce.py", "    if select_topk < 1:\n", "    tv_weights = sce_weight(task_vectors)\n    if select_topk < 1:\n"),
     ("mergekit/merge_methods/sce.py", "    tv_weights = sce_weight(task_vectors)\n    while tv", "    while tv")],
    '''
from demo_common import *
base = llama("base", layers=1, values=0.0)
def v(x):
    return lambda n, s: torch.tensor(x).float() if len(s) == 1 else torch.tensor(x).float().repeat(s[0], 1)
a = llama("a", layers=1, values=v([8.0, 0.0, 1.0, 4.0])); b = llama("b", layers=1, values=v([1.0, 0.0, 2.0, 3.5]))
out = read(merge({"merge_method": "sce", "dtype": "float32", "base_model": base, "parameters": {"select_topk": 0.4}, "models": [{"model": p} for p in (a, b)]}))
# only the first element is selected: weights 64/65 and 1/65
want = (8.0 * 64 + 1.0 * 1) / 65
t = out["model.norm.weight"]
check(abs(t[0].item() - want) < 1e-4 and t[2].item() == 0, (t, want))
''')
