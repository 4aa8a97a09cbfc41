bug("P17-falsy-default", "P17",
    "a custom method with a scalar parameter whose default is 0 (or False) and a configuration that does not set it",
    "the method receives None instead of its default",
    [("mergekit/merge_methods/easy_define.py", """                default_value = arg_info.default
                if default_value == inspect.Parameter.empty:
                    default_value = None
                    required = True
                else:
                    required = False
                parameters.append(""", """                required = arg_info.default == inspect.Parameter.empty
                default_value = None
                if not required:
                    default_value = arg_info.default or None
                parameters.append(""")],
    '''
from demo_common import *
from typing import List
from mergekit.merge_methods.easy_define import merge_method
seen = []
@merge_method(name="demo_method")
def demo(tensors: List[torch.Tensor], offset: float = 0.0, flag: bool = False) -> torch.Tensor:
    seen.append((offset, flag))
    return tensors[0]
a, b = llama("a", seed=1), llama("b", seed=2)
merge({"merge_method": "demo_method", "dtype": "float32", "models": [{"model": a}, {"model": b}]})
check(seen and all(x == (0.0, False) and x[0] is not None and x[1] is not None for x in seen), seen[:1])
''')
bug("P19-same-filename", "P19",
    "raw checkpoints that have the same file name in different directories (pytorch_model.bin)",
    "one checkpoint's tensors are used for both inputs",
    [("mergekit/scripts/merge_raw_pytorch.py", """        if model not in self.loaders:
            self.loaders[model] = LazyTensorLoader(
                ShardedTensorIndex.from_file(model), lazy_unpickle=self.lazy_unpickle
            )
        return self.loaders[model]""", """        key = os.path.basename(model)
        if key not in self.loaders:
            self.loaders[key] = LazyTensorLoader(
                ShardedTensorIndex.from_file(model), lazy_unpickle=self.lazy_unpickle
            )
        return self.loaders[key]"""),
     ("mergekit/scripts/merge_raw_pytorch.py", "import logging\n", "import logging\nimport os\n")],
    '''
from demo_common import *
import yaml
from click.testing import CliRunner
from mergekit.scripts import merge_raw_pytorch
ps = []
for i in (1, 2):
    os.makedirs(ROOT + "/d%d" % i)
    ps.append(ROOT + "/d%d/pytorch_model.bin" % i)
    torch.save({"w": torch.full((2, 2), float(i))}, ps[-1])
yaml.safe_dump({"merge_method": "linear", "models": [{"model": p, "parameters": {"weight": 1}} for p in ps]}, open(ROOT + "/c.yml", "w"))
r = CliRunner().invoke(merge_raw_pytorch.main, [ROOT + "/c.yml", ROOT + "/out"])
check(r.exit_code == 0, r.exception)
out = read(ROOT + "/out")
check(out["w"].flatten().tolist() == [1.5] * 4, out)
''')
bug("P20-padding-counted", "P20",
    "cheap_embed gates for an expert with several prompts of different token length (padding)",
    "embeddings of padding tokens are added to the router vector",
    [("mergekit/moe/router.py", """    embedded = (
        (h * tokenized["attention_mask"].unsqueeze(-1))
        .sum(dim=1)
        .sum(dim=0, keepdim=True)
    )  # (1, hidden_size)""", """    embedded = h.sum(dim=(0, 1)).unsqueeze(0)  # (1, hidden_size)""")],
    '''
from demo_common import *
from mergekit.moe.router import get_cheap_embedding
embed = torch.eye(4)
tok = {"input_ids": torch.tensor([[1, 2], [3, 0]]), "attention_mask": torch.tensor([[1, 1], [1, 0]])}
v = get_cheap_embedding(embed, tok, num_layers=2, vocab_size=4)
check(v.shape == (2, 4) and torch.allclose(v[0], torch.tensor([0, 1, 1, 1]) / 3 ** 0.5), v)
''')
bug("P20-zero-scale", "P20",
    "an expert whose residual_scale is 0 (an expert that contributes nothing)",
    "a residual_scale of zero is treated as not given",
    [("mergekit/moe/common.py", "    if is_residual and expert.residual_scale is not None:", "    if is_residual and expert.residual_scale:")],
    '''
from demo_common import *
from mergekit.moe.common import noise_and_scale
from mergekit.moe.config import Expert
e = Expert.model_validate({"source_model": "a/b", "positive_prompts": ["x"], "residual_scale": 0})
t = noise_and_scale(torch.ones(2, 2), e, is_residual=True)
check(t.abs().sum().item() == 0, t)
''')
bug("P21-lora-lost", "P21",
    "a model with both an adapter and an architecture override, written to a stored configuration",
    "the adapter is missing from the written configuration",
    [("mergekit/common.py", """            return {
                "model": self.model,
                "lora": self.lora,
                "override_architecture": self.override_architecture,
            }""", """            return {
                "model": str(self),
                "override_architecture": self.override_architecture,
            }"""),
     ("mergekit/common.py", """        if self.lora:
            return f"{str(self.model)}+{str(self.lora)}"
        return str(self.model)
""", """        if self.lora and not self.override_architecture:
            return f"{str(self.model)}+{str(self.lora)}"
        return str(self.model)
""")],
    '''
from demo_common import *
import yaml
from mergekit.config import MergeConfiguration
c = MergeConfiguration.model_validate({"merge_method": "linear", "models": [{"model": {"model": "a/b", "lora": "c/d", "override_architecture": "LlamaForCausalLM"}, "parameters": {"weight": 1}}]})
d = MergeConfiguration.model_validate(yaml.safe_load(c.to_yaml()))
check(d == c and d.models[0].model.lora is not None, d.models[0].model)
''')
bug("P22-unstripped-votes", "P22",
    "chat_template: auto with tokenizers whose templates differ in surrounding blanks only, against another template",
    "the plurality is counted on the raw text, so a template used by a minority can win",
    [("mergekit/merge.py", "                    model_templates.append(template.strip())", "                    model_templates.append(template)")],
    '''
from demo_common import *
T1, T2 = "{% for m in messages %}<one>{{ m['content'] }}{% endfor %}", "{% for m in messages %}<two>{{ m['content'] }}{% endfor %}"
ms = []
for i, t in enumerate([T2, T2, T1, T1 + " ", T1 + "\\n\\n"]):
    p = llama("m%d" % i, seed=i)
    tokenizer(p, ["<unk>", "a", "b", "c", "d", "e"])
    c = json.load(open(p + "/tokenizer_config.json"))
    c["chat_template"] = t
    json.dump(c, open(p + "/tokenizer_config.json", "w"))
    ms.append(p)
out = merge({"merge_method": "linear", "dtype": "float32", "chat_template": "auto", "tokenizer_source": ms[0], "models": [{"model": p, "parameters": {"weight": 1}} for p in ms]})
import transformers
t = transformers.AutoTokenizer.from_pretrained(out).chat_template
check(t.strip() == T1, t)
''')
bug("P22-stale-tokenizer", "P22",
    "merging into the directory of an earlier merge whose tokenizer came from another donor",
    "the earlier donor's tokenizer files stay",
    [("mergekit/merge.py", """            if os.path.exists(os.path.join(donor_local_path, file_name)):
                shutil.copy(
""", """            if os.path.exists(
                os.path.join(donor_local_path, file_name)
            ) and not os.path.exists(os.path.join(out_path, file_name)):
                shutil.copy(
""")],
    '''
from demo_common import *
a, b = llama("a", seed=1), llama("b", seed=2)
tokenizer(a, ["<unk>", "a", "b", "c", "d", "e"])
tokenizer(b, ["<unk>", "f", "g", "h", "i", "j"])
for x, y in ((a, b), (b, a)):
    out = merge({"merge_method": "linear", "dtype": "float32", "models": [{"model": p, "parameters": {"weight": 1}} for p in (x, y)]}, copy_tokenizer=True)
    check(open(out + "/tokenizer.json").read() == open(x + "/tokenizer.json").read(), "tokenizer of another model")
''')
