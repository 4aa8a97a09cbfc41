"""P29: equivalent configurations"""

bug("P29-module-depth", "P29",
    "an encoder-decoder model whose encoder and decoder have different depths, merged as whole models",
    "every module of a whole-model merge gets the number of layers of the first module",
    [("mergekit/plan.py", """            module_arch = self.arch_info.modules[module_name].architecture

            if module_out.models:
""", """            module_arch = list(self.arch_info.modules.values())[0].architecture

            if module_out.models:
""")],
    '''
from demo_common import *
import transformers
ps = []
for i in range(2):
    torch.manual_seed(i)
    m = transformers.T5ForConditionalGeneration(transformers.T5Config(vocab_size=12, d_model=8, d_kv=4, d_ff=8, num_layers=3, num_decoder_layers=2, num_heads=2, feed_forward_proj="gated-gelu"))
    p = os.path.join(ROOT, "t%d" % i)
    m.save_pretrained(p)
    ps.append(p)
cfg = {"merge_method": "linear", "dtype": "float32", "parameters": {"weight": 0.5}}
ms = [{"model": p} for p in ps]
a = read(merge(dict(cfg, models=ms), "a"))
b = read(merge(dict(cfg, modules={k: {"slices": [{"sources": [dict(m, layer_range=[0, n]) for m in ms]}]} for k, n in (("encoder", 3), ("decoder", 2), ("shared", 0))}), "b"))
check(set(a) == set(b) and all(torch.equal(a[k], b[k]) for k in a), sorted(set(a) ^ set(b)))
''')

bug("P29-stock-order", "P29",
    "model_stock with the base model not listed first (or not listed at all)",
    "model_stock takes the first tensor for the base model's",
    [("mergekit/merge_methods/model_stock.py", """        all_weights = [tensors[self.base_model]] + [
            tensors[k] for k in tensors if k != self.base_model
        ]
""", """        all_weights = list(tensors.values())
""")],
    '''
from demo_common import *
ps = [llama("m%d" % i, seed=i) for i in range(3)]
def cfg(order):
    return {"merge_method": "model_stock", "dtype": "float32", "base_model": ps[0], "models": [{"model": ps[i]} for i in order]}
a, b = read(merge(cfg([0, 1, 2]), "a")), read(merge(cfg([1, 2]), "b"))
check(all(torch.equal(a[k], b[k]) for k in a), "leaving the base model out of the list changes the merge")
''')
