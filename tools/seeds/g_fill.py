bug("P32-strip-twice", "P32", "a base model where the prefix occurs again inside a parameter name, and a submodel that also has the shorter name",
    "the prefix is stripped wherever it occurs, so a parameter is filled from another parameter of the submodel",
    [("mergekit/scripts/fill_missing_params.py", "            return name[len(prefix) + 1 :]\n", "            return name.split(prefix + \".\")[-1]\n")],
    '''
from demo_common import *
from mergekit.scripts.fill_missing_params import copy_and_fill_missing_params
d = ROOT
for p in ("base", "sub"):
    os.makedirs(d + "/" + p)
w = lambda x: torch.full((2, 2), float(x))
save_file({"model.layers.w": w(1), "model.model.layers.w": w(2), "vision.w": w(3)}, d + "/base/model.safetensors")
save_file({"layers.w": w(4), "model.layers.w": w(5)}, d + "/sub/model.safetensors")
copy_and_fill_missing_params(d + "/base", d + "/sub", output_dir=d + "/out")
t = read(d + "/out")
check(t["model.layers.w"].eq(4).all() and t["model.model.layers.w"].eq(5).all() and t["vision.w"].eq(3).all(), t)
''')
bug("P32-size-kept", "P32", "a shared parameter whose shape differs between submodel and base, for example embeddings of an extended vocabulary",
    "the base model's tensor is kept where the shapes differ",
    [("mergekit/scripts/fill_missing_params.py", "                )\n\n            tensor = submodel_tensor\n", "                )\n            else:\n                tensor = submodel_tensor\n")],
    '''
from demo_common import *
from mergekit.scripts.fill_missing_params import copy_and_fill_missing_params
d = ROOT
for p in ("base", "sub"):
    os.makedirs(d + "/" + p)
save_file({"lm.embed.w": torch.ones(4, 2), "lm.w": torch.ones(2), "vision.w": torch.ones(2)}, d + "/base/model.safetensors")
save_file({"embed.w": torch.full((6, 2), 3.0), "w": torch.full((2,), 3.0)}, d + "/sub/model.safetensors")
copy_and_fill_missing_params(d + "/base", d + "/sub", output_dir=d + "/out")
t = read(d + "/out")
check(t["lm.embed.w"].shape == (6, 2) and t["lm.embed.w"].eq(3).all() and t["lm.w"].eq(3).all() and t["vision.w"].eq(1).all(), t)
''')
bug("P32-flat-files", "P32", "a base model with files in subdirectories",
    "only the files at the top of the base model are copied",
    [("mergekit/scripts/fill_missing_params.py", '        for item in base_dir.rglob("*")\n', '        for item in base_dir.glob("*")\n')],
    '''
from demo_common import *
from mergekit.scripts.fill_missing_params import copy_and_fill_missing_params
d = ROOT
for p in ("base/templates", "sub"):
    os.makedirs(d + "/" + p)
open(d + "/base/templates/chat.jinja", "w").write("x")
save_file({"lm.w": torch.ones(2), "vision.w": torch.ones(2)}, d + "/base/model.safetensors")
save_file({"w": torch.full((2,), 3.0)}, d + "/sub/model.safetensors")
copy_and_fill_missing_params(d + "/base", d + "/sub", output_dir=d + "/out")
check(os.path.exists(d + "/out/templates/chat.jinja"))
''')
