_CHAIN = '''
from demo_common import *
import yaml
from click.testing import CliRunner
from mergekit.scripts import multimerge
def chain(docs, lazy=True, out=True, extra=()):
    y = ROOT + "/chain.yml"
    yaml.safe_dump_all(docs, open(y, "w"))
    return CliRunner().invoke(multimerge.main, [y, "-I", ROOT + "/mid"] + (["--out-path", ROOT + "/final"] if out else [])
        + ["--lazy" if lazy else "--no-lazy", "--no-copy-tokenizer", "--no-write-model-card", "--quiet"] + list(extra))
def lin(name, refs):
    d = {"merge_method": "linear", "dtype": "float32", "models": [{"model": r, "parameters": {"weight": 1.0}} for r in refs]}
    if name:
        d["name"] = name
    return d
'''
bug("P23-forward-reference", "P23",
    "a document that refers to a merge defined further down in the file",
    "the reference is not replaced by the later merge's output",
    [("mergekit/scripts/multimerge.py", """    merge_names = set(merge_configs.keys())
    dependencies = {}
    for merge_name in merge_names:
""", """    merge_names = set()
    dependencies = {}
    for merge_name in merge_configs:
        merge_names.add(merge_name)
""")],
    _CHAIN + '''
a, b, c = (llama(n, values=v) for n, v in (("a", 1), ("b", 3), ("c", 6)))
r = chain([lin(None, ["first", c]), lin("first", [a, b])])
check(r.exit_code == 0, r.exception)
check(float(read(ROOT + "/final")["model.norm.weight"][0]) == 4.0, "value")
''')
bug("P23-final-remade", "P23",
    "running a chain again with --lazy after its final merge completed",
    "the final merge is made again although it is complete",
    [("mergekit/scripts/multimerge.py", "            out_path=merge_out_path,\n            lazy=lazy,\n", "            out_path=merge_out_path,\n            lazy=lazy and name is not None,\n")],
    _CHAIN + '''
a, b = llama("a", values=1), llama("b", values=3)
docs = [lin("m", [a, b]), lin(None, ["m", b])]
check(chain(docs).exit_code == 0, "first")
f = ROOT + "/final/model.safetensors.index.json"
f = f if os.path.exists(f) else ROOT + "/final/model.safetensors"
t = os.stat(f).st_mtime_ns
check(chain(docs).exit_code == 0, "second")
check(os.stat(f).st_mtime_ns == t, "made again")
''')
bug("P24-either-file", "P24",
    "mergekit-multi killed while an intermediate merge had written its weights but not its configuration, then run again",
    "the unfinished merge is taken for a finished one",
    [("mergekit/scripts/multimerge.py", """            and os.path.exists(os.path.join(self.out_path, "config.json"))
            and any(
                os.path.exists(os.path.join(self.out_path, filename))
                for filename in MODEL_CHECK_FILENAMES
            )
""", """            and any(
                os.path.exists(os.path.join(self.out_path, filename))
                for filename in ["config.json"] + MODEL_CHECK_FILENAMES
            )
""")],
    _CHAIN + '''
import transformers
a, b = llama("a", values=1), llama("b", values=3)
docs = [lin("m", [a, b]), lin(None, ["m", b])]
orig = transformers.PretrainedConfig.save_pretrained
def fail(self, path, *k, **kw):
    raise KeyboardInterrupt
transformers.PretrainedConfig.save_pretrained = fail
try:
    r = chain(docs)
except KeyboardInterrupt:
    pass
transformers.PretrainedConfig.save_pretrained = orig
check(not os.path.exists(ROOT + "/mid/m/config.json"), "setup")
r = chain(docs)
check(r.exit_code == 0, r.exception)
check(os.path.exists(ROOT + "/mid/m/config.json"), "no config")
''')
bug("P25-seed-once", "P25",
    "two merges with a random method and the same seed in one process",
    "the random state is set only by the first of them",
    [("mergekit/merge.py", """    if options.random_seed is not None:
        transformers.trainer_utils.set_seed(options.random_seed)
""", """    if options.random_seed is not None and torch.initial_seed() != options.random_seed:
        transformers.trainer_utils.set_seed(options.random_seed)
"""), ("mergekit/merge.py", "import tqdm\nimport transformers\n", "import torch\nimport tqdm\nimport transformers\n")],
    '''
from demo_common import *
a, b = llama("a", seed=1), llama("b", seed=2)
cfg = {"merge_method": "dare_linear", "base_model": a, "dtype": "float32", "models": [{"model": b, "parameters": {"weight": 1.0, "density": 0.5}}]}
x = read(merge(cfg, "o1", random_seed=7))
y = read(merge(cfg, "o2", random_seed=7))
check(all(torch.equal(x[k], y[k]) for k in x), "different")
''')
bug("P25-model-set", "P25",
    "a random method with two or more models, under different string hashing",
    "models draw their random masks in an order that depends on PYTHONHASHSEED",
    [("mergekit/merge_methods/generalized_task_arithmetic.py", """    keys = list(tensors.keys())
    base = tensors[base_model]
""", """    keys = set(tensors.keys())
    base = tensors[base_model]
""")],
    '''
from demo_common import *
import subprocess
a = llama("a", seed=1)
ms = [llama("m%d" % i, seed=2 + i) for i in range(3)]
cfg = {"merge_method": "dare_linear", "base_model": a, "dtype": "float32", "models": [{"model": m, "parameters": {"weight": 1.0, "density": 0.5}} for m in ms]}
code = """
import json, sys
from mergekit.config import MergeConfiguration
from mergekit.merge import run_merge
from mergekit.options import MergeOptions
run_merge(MergeConfiguration.model_validate(json.loads(sys.argv[1])), sys.argv[2], MergeOptions(quiet=True, write_model_card=False, copy_tokenizer=False, random_seed=7))
"""
outs = []
for k in range(1, 6):
    o = ROOT + "/o%d" % k
    subprocess.run([sys.executable, "-c", code, json.dumps(cfg), o], check=True, env=dict(os.environ, PYTHONHASHSEED=str(k)))
    outs.append(read(o))
check(all(torch.equal(x[n], outs[0][n]) for x in outs for n in x), "different")
''')
bug("P25-shard-groups", "P25",
    "a random method on models whose tensors are distributed over several shards",
    "the masks drawn depend on how the input checkpoints are sharded",
    [("mergekit/io/tasks.py", """        # if name:
        #     shard_path = loader.index.tensor_paths[name]
        #     return _normalized_shard_name(shard_path)
        # return None
        return name
""", """        if name:
            # read each shard in one go
            return loader.index.tensor_paths[name]
        return None
""")],
    '''
from demo_common import *
x = {}
for n in (1, 3):
    a, b = llama("a%d" % n, seed=1, shards=n), llama("b%d" % n, seed=2, shards=n)
    cfg = {"merge_method": "dare_linear", "base_model": a, "dtype": "float32", "models": [{"model": b, "parameters": {"weight": 1.0, "density": 0.5}}]}
    x[n] = read(merge(cfg, "o%d" % n, random_seed=7))
check(all(torch.equal(x[1][k], x[3][k]) for k in x[1]), "different")
''')
