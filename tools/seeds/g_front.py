bug("P30-base-first", "P30", "mergekit-legacy with a base model that is not among --merge and more than one --weight (or --density)",
    "the base model is put in front of the merged models, so every value goes to the wrong model",
    [("mergekit/scripts/legacy.py", "        models.append(InputModelDefinition(model=base_model, parameters={}))", "        models.insert(0, InputModelDefinition(model=base_model, parameters={}))")],
    '''
from demo_common import *
from click.testing import CliRunner
from mergekit.scripts.legacy import main
d = ROOT
a = [llama("m%d" % i, seed=i) for i in range(3)]
r = CliRunner().invoke(main, [d + "/o", "--merge", d + "/m0", "--merge", d + "/m1", "--base-model", d + "/m2", "--method", "task_arithmetic", "--no-normalize", "--weight", "1", "--weight", "0", "--no-copy-tokenizer"])
t = read(d + "/o") if r.exit_code == 0 else {}
# weight 1 on m0 alone: the result is m0
good = bool(t) and all((t[k].float() - read(d + "/m0")[k].float()).abs().max() < 1e-5 for k in t)
check(good)
''')
bug("P30-false-options", "P30", "an option switched off on the command line that is on by default",
    "options with a false value never reach the merge, so --no-write-model-card, --no-copy-tokenizer and --no-safe-serialization do nothing",
    [("mergekit/options.py", "            if field_name in kwargs:\n                arg_dict[field_name] = kwargs.pop(field_name)", "            if field_name in kwargs:\n                value = kwargs.pop(field_name)\n                if value:\n                    arg_dict[field_name] = value")],
    '''
from demo_common import *
from click.testing import CliRunner
from mergekit.scripts.run_yaml import main
d = ROOT
llama("m0", seed=0)
open(d + "/c.yml", "w").write("merge_method: passthrough\\nmodels:\\n- model: %s/m0\\n" % d)
r = CliRunner().invoke(main, [d + "/c.yml", d + "/o", "--no-write-model-card", "--no-safe-serialization"])
good = r.exit_code == 0 and not os.path.exists(d + "/o/README.md") and os.path.exists(d + "/o/pytorch_model.bin")
check(good)
''')
bug("P31-coalesce", "P31", "two or more consecutive layers drawn from one model",
    "consecutive layers of one model are joined into one slice that ends one layer early, so the output loses layers",
    [("mergekit/scripts/layershuffle.py", "            if out_slices and out_slices[-1].sources[0].model == str(src_model):", "            if out_slices and str(out_slices[-1].sources[0].model) == str(src_model):"),
     ("mergekit/scripts/layershuffle.py", "                    out_slices[-1].sources[0].layer_range[0],\n                    layer_idx + 1,", "                    out_slices[-1].sources[0].layer_range[0],\n                    max(layer_idx, out_slices[-1].sources[0].layer_range[1]),")],
    '''
from demo_common import *
from click.testing import CliRunner
from mergekit.scripts.layershuffle import main
d = ROOT
for i in range(2):
    llama("m%d" % i, seed=i, layers=4)
good = True
for s in range(6):
    r = CliRunner().invoke(main, [d + "/o%d" % s, "-m", d + "/m0", "-m", d + "/m1", "-w", "1", "-w", "1", "--random-seed", str(s), "--no-copy-tokenizer"])
    good = good and r.exit_code == 0 and json.load(open(d + "/o%d/config.json" % s))["num_hidden_layers"] == 4
check(good)
''')
bug("P31-scale-zero", "P31", "a bakllama slice with scale 0",
    "a scale of zero counts as no scale, so a layer meant to be switched off keeps its full effect",
    [("mergekit/scripts/bakllama.py", "        if s.scale is not None:", "        if s.scale:")],
    '''
from demo_common import *
from click.testing import CliRunner
from mergekit.scripts.bakllama import main
d = ROOT
llama("m0", seed=0, layers=2)
open(d + "/c.yml", "w").write("layer_slices:\\n- {model: %s/m0, start: 0, end: 2, scale: 0.0}\\n" % d)
r = CliRunner().invoke(main, [d + "/c.yml", d + "/o"])
t = read(d + "/o") if r.exit_code == 0 else {}
good = bool(t) and all(t[k].abs().max() == 0 for k in t if "down_proj" in k)
check(good)
''')
