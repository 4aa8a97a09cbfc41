"""P26, P27: adapters"""

ADAPTER = '''
from demo_common import *
import subprocess

def adapter(name, seed=0, r=1, alpha=1, scale=1.0, targets=("q_proj",), layers=2, hidden=4, pattern=None, value=None):
    p = os.path.join(ROOT, name)
    os.makedirs(p)
    g = torch.Generator().manual_seed(seed)
    td = {}
    for i in range(layers):
        for t in targets:
            m = "base_model.model.model.layers.%d.%s.%s" % (i, "self_attn" if t[0] in "qkvo" else "mlp", t)
            td[m + ".lora_A.weight"] = torch.full((r, hidden), scale) if value is None else torch.full((r, hidden), value)
            td[m + ".lora_B.weight"] = torch.ones(hidden, r)
    json.dump({"base_model_name_or_path": "x", "peft_type": "LORA", "task_type": "CAUSAL_LM", "r": r, "lora_alpha": alpha, "target_modules": list(targets), "modules_to_save": None, "lora_dropout": 0.0, "bias": "none", "inference_mode": True}, open(p + "/adapter_config.json", "w"))
    save_file(td, p + "/adapter_model.safetensors", metadata={"format": "pt"})
    return p
Q = "model.layers.1.self_attn.q_proj.weight"
'''

EXTRACT = '''
from demo_common import *
from click.testing import CliRunner

def extract(base, model, *args):
    from mergekit.scripts import extract_lora
    out = os.path.join(ROOT, "adapter")
    r = CliRunner().invoke(extract_lora.main, ["--model", model, "--base-model", base, "--quiet", "--out-path", out] + list(args))
    check(r.exception is None, repr(r.exception))
    return out

def applied(base, ad):
    import peft, transformers
    m = transformers.LlamaForCausalLM.from_pretrained(base)
    return dict(peft.PeftModel.from_pretrained(m, ad).merge_and_unload().state_dict())
Q = "model.layers.1.self_attn.q_proj.weight"
'''

bug("P26-same-name", "P26",
    "two different adapters whose directories have the same name, used with one cache directory",
    "the adapter merge cache is keyed by the directories' base names only, so the second adapter is taken for the first",
    [("mergekit/common.py", """            os.path.basename(self.path)
            + "_"
            + str(binascii.crc32(self.__str__().encode()))
""", """            os.path.basename(self.path)
            + "_"
            + str(binascii.crc32(os.path.basename(str(self)).encode()))
""")],
    ADAPTER + '''
b = llama("b", values=0.0)
x, y = adapter("x/ad", value=1.0), adapter("y/ad", value=2.0)
got = []
for i, ad in enumerate((x, y)):
    cfg = {"merge_method": "passthrough", "models": [{"model": b + "+" + ad}]}
    got.append(float(read(merge(cfg, "o%d" % i, lora_merge_cache=ROOT + "/cache"))[Q].max()))
check(got == [1.0, 2.0], got)
''')

bug("P26-lora-dtype", "P26",
    "an adapter dtype (--lora-merge-dtype) on a merge with a dtype of its own and weights with more precision",
    "the adapter merge is done in the model's own precision, whatever adapter dtype was asked for",
    [("mergekit/io/tasks.py", """        self.lora_merge_dtype = options.lora_merge_dtype
""", """        self.lora_merge_dtype = (
            options.lora_merge_dtype if options.lora_merge_cache is None else None
        )
""")],
    ADAPTER + '''
b = llama("b", values=1.00390625 * 1.0)
x = adapter("x", value=1.0)
cfg = {"merge_method": "passthrough", "dtype": "float32", "models": [{"model": b + "+" + x}]}
got = read(merge(cfg, "o", lora_merge_cache=ROOT + "/cache", lora_merge_dtype="bfloat16"))["model.norm.weight"]
check(torch.equal(got, torch.full_like(got, 1.00390625).bfloat16().float()), got)
''')

bug("P26-one-adapter", "P26",
    "two references to one model with different adapters in one merge",
    "the loader of MODEL+ADAPTER is looked up by the model alone, so the second adapter is ignored",
    [("mergekit/common.py", """class ModelReference(BaseModel, frozen=True):
    \"\"\"A reference to a language model.

    Can be a hf hub path (username/repo), or local. Optionally includes a LoRA.\"\"\"

    model: ModelPath
""", """class ModelReference(BaseModel, frozen=True):
    \"\"\"A reference to a language model.

    Can be a hf hub path (username/repo), or local. Optionally includes a LoRA.\"\"\"

    def __hash__(self):
        return hash(self.model)

    def __eq__(self, other):
        return (
            isinstance(other, ModelReference)
            and self.model == other.model
            and bool(self.lora) == bool(other.lora)
        )

    model: ModelPath
""")],
    ADAPTER + '''
b = llama("b", values=0.0)
x, y = adapter("x", value=1.0), adapter("y", value=2.0)
cfg = {"merge_method": "linear", "dtype": "float32", "models": [{"model": b + "+" + x, "parameters": {"weight": 1.0}}, {"model": b + "+" + y, "parameters": {"weight": 1.0}}], "parameters": {"normalize": False}}
got = float(read(merge(cfg, "o", lora_merge_cache=ROOT + "/cache"))[Q].max())
check(got == 3.0, got)
''')

bug("P27-alpha", "P27",
    "an extraction whose modules have different ranks (a module with fewer dimensions or fewer large singular values)",
    "modules of smaller rank are scaled up when the adapter is applied",
    [("mergekit/scripts/extract_lora.py", """        "alpha_pattern": different_ranked,
""", """        "alpha_pattern": {},
""")],
    EXTRACT + '''
a = llama("a", values=0.0, hidden=4)
def v(n, s):
    t = torch.zeros(s)
    if "q_proj" in n: t[0, 0] = 1.0
    elif "up_proj" in n: t[0, 0] = 1.0; t[1, 1] = 2.0
    return t
b = llama("b", values=v, hidden=4)
ad = extract(a, b, "--max-rank", "8", "--sv-epsilon", "0.5")
got = applied(a, ad)
check(torch.allclose(got[Q], read(b)[Q], atol=1e-3), got[Q])
''')

bug("P27-scale", "P27",
    "--no-distribute-scale",
    "the matrix B of a decomposition is scaled by the square root of the singular values even when the whole scale is in A",
    [("mergekit/scripts/extract_lora.py", """            scale_b = torch.eye(rank)
""", """            scale_b = torch.diag(torch.sqrt(s[:rank]))
""")],
    EXTRACT + '''
a = llama("a", values=0.0, hidden=4)
b = llama("b", values=lambda n, s: torch.zeros(s) if "q_proj" not in n else torch.diag(torch.tensor([4.0, 3.0, 2.0, 1.0])), hidden=4)
ad = extract(a, b, "--max-rank", "8", "--no-distribute-scale")
got = applied(a, ad)
check(torch.allclose(got[Q], read(b)[Q], atol=1e-3), got[Q])
''')

bug("P27-embedding", "P27",
    "--embed-lora",
    "an embedding's adapter is stored the way a linear layer's is",
    [("mergekit/scripts/extract_lora.py", """        lora_suffix = ".weight" if not self.decomposition_task.transpose else ""
""", """        lora_suffix = ".weight"
""")],
    EXTRACT + '''
a = llama("a", values=0.0, hidden=4)
b = llama("b", values=lambda n, s: torch.zeros(s) if "embed" not in n else torch.eye(*s), hidden=4)
ad = extract(a, b, "--max-rank", "8", "--embed-lora")
got = applied(a, ad)["model.embed_tokens.weight"]
check(torch.allclose(got, read(b)["model.embed_tokens.weight"], atol=1e-3), got)
''')

bug("P27-filter-start", "P27",
    "an --include-regex or --exclude-regex that matches in the middle of a module's name",
    "exclude patterns must match from the start of the name",
    [("mergekit/scripts/extract_lora.py", """        if any(re.search(r, name) for r in exclude_regexes):
            return False
""", """        if any(re.match(r, name) for r in exclude_regexes):
            return False
""")],
    EXTRACT + '''
a = llama("a", values=0.0, hidden=4)
b = llama("b", values=1.0, hidden=4)
ad = extract(a, b, "--max-rank", "8", "--exclude-regex", "q_proj")
got = applied(a, ad)[Q]
check(torch.allclose(got, read(a)[Q], atol=1e-3), got)
''')

bug("P27-last-sv", "P27",
    "--sv-epsilon with a module all of whose singular values exceed it, and --max-rank below the module's size",
    "a module whose singular values all exceed the epsilon ignores --max-rank",
    [("mergekit/scripts/extract_lora.py", """        rank = min(self.max_rank, s.shape[0])
""", """        rank = self.max_rank
        if rank > s.shape[0] or s[-1] > self.sv_epsilon > 0:
            rank = s.shape[0]
""")],
    EXTRACT + '''
a = llama("a", values=0.0, hidden=4)
b = llama("b", values=lambda n, s: torch.zeros(s) if "q_proj" not in n else torch.diag(torch.tensor([4.0, 3.0, 2.0, 1.0])), hidden=4)
ad = extract(a, b, "--max-rank", "2", "--sv-epsilon", "0.5")
got = applied(a, ad)[Q]
check(torch.allclose(got, torch.diag(torch.tensor([4.0, 3.0, 0.0, 0.0])), atol=1e-3), got)
''')
