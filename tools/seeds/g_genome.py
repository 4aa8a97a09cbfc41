G = "mergekit/evo/genome.py"
PRE = '''
from demo_common import *
from mergekit.evo.genome import ModelGenome, ModelGenomeDefinition
from mergekit.merge import run_merge
from mergekit.options import MergeOptions
from mergekit.config import MergeConfiguration
ms = [llama("g%d" % i, 4, seed=i) for i in range(3)]
def genome(**kw):
    return ModelGenome(ModelGenomeDefinition.model_validate({"models": ms[:2], **kw}))
def same(c, want, name):
    for k, x in (("a", c), ("b", MergeConfiguration.model_validate(want))):
        run_merge(x, ROOT + "/" + name + k, MergeOptions())
    a, b = read(ROOT + "/" + name + "a"), read(ROOT + "/" + name + "b")
    return a.keys() == b.keys() and all(torch.equal(a[k], b[k]) for k in a)
'''
bug("P33-density-sign", "P33", "a genotype with a negative density (the optimiser's steps are unbounded)",
    "negative densities are cut to 0 instead of counting by magnitude, so the model drops out of the merge",
    [(G, "                    values = torch.abs(values).clamp(0, 1)\n", "                    values = values.clamp(0, 1)\n")],
    PRE + '''
x = torch.tensor([[[[0.5, -0.5]], [[0.25, 1.0]]]])
c = genome(merge_method="ties", base_model=ms[2]).genotype_merge_config(x)
check(same(c, {"merge_method": "ties", "base_model": ms[2], "dtype": "bfloat16", "parameters": {"normalize": True},
    "models": [{"model": ms[0], "parameters": {"weight": 0.5, "density": 0.5}}, {"model": ms[1], "parameters": {"weight": 0.25, "density": 1.0}}, {"model": ms[2]}]}, "d"))
''')
bug("P33-slerp-group", "P33", "slerp with several layer groups whose favourites differ",
    "the two highest-valued models of the first group are used for every group",
    [(G, "            chosen = torch.topk(genotype[slice_idx, :, 0, 0], 2)\n", "            chosen = torch.topk(genotype[:, :, 0, 0].max(dim=0).values, 2)\n")],
    PRE + '''
x = torch.tensor([0.75, 0.25, 0.25, 0.5]).view(2, 2, 1, 1)
c = genome(merge_method="slerp", layer_granularity=2).genotype_merge_config(x)
t = [torch.softmax(torch.tensor(v), dim=-1)[1].item() for v in ([0.75, 0.25], [0.5, 0.25])]
check(same(c, {"merge_method": "slerp", "dtype": "bfloat16", "slices": [
    {"sources": [{"model": ms[0], "layer_range": [0, 2]}, {"model": ms[1], "layer_range": [0, 2]}], "base_model": ms[0], "parameters": {"t": t[0]}},
    {"sources": [{"model": ms[1], "layer_range": [2, 4]}, {"model": ms[0], "layer_range": [2, 4]}], "base_model": ms[1], "parameters": {"t": t[1]}}]}, "s"))
''')
bug("P33-smooth-filter", "P33", "a smooth genome with tensor name filters",
    "with interpolation the unfiltered values come first, so the filters' own values never apply",
    [(G, "                        value = values[:, model_idx, set_idx]\n                        filter_ = (self.definition.filters + [None])[set_idx]\n", "                        value = values[:, model_idx, set_idx - 1]\n                        filter_ = ([None] + self.definition.filters)[set_idx]\n")],
    PRE + '''
x = torch.tensor([0.25, 0.75, 0.75, 0.25, 1.0, 0.5, 0.5, 0.25]).view(2, 2, 2, 1)
c = genome(merge_method="linear", layer_granularity=2, smooth=True, filters=["mlp"]).genotype_merge_config(x)
check(same(c, {"merge_method": "linear", "dtype": "bfloat16", "parameters": {"normalize": True},
    "models": [{"model": ms[i], "parameters": {"weight": [{"filter": "mlp", "value": x[:, i, 0, 0].tolist()}, {"value": x[:, i, 1, 0].tolist()}]}} for i in range(2)]}, "f"))
''')
bug("P33-negative", "P33", "negative weights allowed and a genotype with a negative weight, with a filter",
    "negative weights count by magnitude even where negative weights are allowed, when filters are used",
    [(G, "                if not self.definition.allow_negative_weights and param in [\n", "                if (n_param_sets > 1 or not self.definition.allow_negative_weights) and param in [\n")],
    PRE + '''
x = torch.tensor([-0.25, 0.75, 0.75, 0.5]).view(1, 2, 2, 1)
c = genome(merge_method="task_arithmetic", base_model=ms[2], allow_negative_weights=True, filters=["mlp"]).genotype_merge_config(x)
check(same(c, {"merge_method": "task_arithmetic", "base_model": ms[2], "dtype": "bfloat16", "parameters": {"normalize": False},
    "models": [{"model": ms[i], "parameters": {"weight": [{"filter": "mlp", "value": x[0, i, 0, 0].item()}, {"value": x[0, i, 1, 0].item()}]}} for i in range(2)] + [{"model": ms[2]}]}, "n"))
''')
