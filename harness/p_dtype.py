"""P11: number formats: spec/Dtype.tla.  Every combination TLC emits is really
merged; tensors hold whole numbers chosen around the precision limits."""
import env  # noqa
import json
import random
import shutil

import torch

import models
import vlib
from p_tensors import TABLES, weight_list

T = {"float16": torch.float16, "bfloat16": torch.bfloat16, "float32": torch.float32, "int64": torch.int64}
NAME = {v: k for k, v in T.items()}


def sources(c):
    ms = []
    for m in range(len(c["types"])):
        ms.append({"model": None})
    return ms


def config(c, paths):
    ms = [{"model": p} for p in paths]
    cfg = {"models": ms}
    if c["dtype"]:
        cfg["dtype"] = c["dtype"]
    if c["out"]:
        cfg["out_dtype"] = c["out"]
    if c["method"] == "pass":
        cfg["merge_method"] = "passthrough"
    elif c["method"] == "linear":
        cfg["merge_method"] = "linear"
        cfg["parameters"] = {"normalize": False}
        for m in ms:
            m["parameters"] = {"weight": 1.0}
    elif c["method"] == "task":
        cfg["merge_method"] = "task_arithmetic"
        cfg["base_model"] = paths[0]
        cfg["parameters"] = {"normalize": False, "lambda": 1.0}
        ms[1]["parameters"] = {"weight": 1.0}
        ms.pop(0)
    else:
        cfg["merge_method"] = "slerp"
        cfg["base_model"] = paths[0]
        cfg["parameters"] = {"t": 1.0}
    return cfg


def observe(c, o, t):
    cfgd = o.config.get("dtype", o.config.get("torch_dtype"))
    r = {"outcome": "error" if o.error else "ok", "type": "", "vals": [], "cfg": str(cfgd or "").replace("torch.", "")}
    if t is not None:
        r["type"] = NAME.get(t.dtype, str(t.dtype))
        v = t.double().flatten().nan_to_num(9e8, 9e8, -9e8).clamp(-9e8, 9e8)
        r["vals"] = [int(x) if float(x).is_integer() else 999999999 for x in v.tolist()]
    return {"c": c, "o": r}


def run(tmp, i, c, rng, **kw):
    n = len(c["vals"][0])
    root = "%s/%s" % (tmp, i)
    paths = []
    for m, ty in enumerate(c["types"]):
        row = torch.tensor([float(x) for x in c["vals"][m]])

        def values(name, shape, row=row):
            return row.clone() if len(shape) == 1 else row.repeat(shape[0], 1)

        p = "%s/m%d" % (root, m)
        models.llama(p, layers=1, hidden=n, vocab=3, values=values, dtype=T[ty], fmt=rng.choice(["safetensors", "bin"]))
        paths.append(p)
    o = models.merge(config(c, paths), root + "/out", **kw)
    shutil.rmtree(root, ignore_errors=True)
    if o.error:
        return [(observe(c, o, None), o.error)]
    res = []
    for name in models.llama_names(1):
        t = o.tensors.get(name)
        if t is not None and t.dim() == 2:
            t = t[rng.randrange(t.shape[0])]
        res.append((observe(c, o, t), name))
    return res


def integer(tmp, i, c, rng):
    """a weight whose format the architecture prescribes"""
    root = "%s/%s" % (tmp, i)
    paths = []
    for m, ty in enumerate(c["types"]):
        p = "%s/m%d" % (root, m)
        td = {}
        for w in weight_list("BertModel"):
            td[w["name"]] = torch.tensor([c["vals"][m]], dtype=torch.int64) if w["int"] else torch.ones(2, 2, dtype=T[ty])
        models.write_checkpoint(p, td)
        with open(p + "/config.json", "w") as f:
            json.dump(dict(TABLES["BertModel"]["config"], dtype=ty), f)
        paths.append(p)
    o = models.merge(config(c, paths), root + "/out")
    shutil.rmtree(root, ignore_errors=True)
    c = dict(c, fixed="int64")
    name = [w["name"] for w in weight_list("BertModel") if w["int"]][0]
    return [(observe(c, o, o.tensors.get(name)), o.error or name)]


POOL = [257, 258, 259, 513, 514, 1026, 1030, 2049, 2050, 2051, 4097, 4098, 4102, 8196, 511, 3, 1, 0, 12345, 29999]


def check(c):
    rng = random.Random(c.seed * 31 + 11)
    r = vlib.tlc("MCDtype", workers=8)
    c.add_tlc(r)
    cases = []
    with vlib.scratch() as tmp:
        emitted = [p["c"] for p in r.printed]
        for i, k in enumerate(emitted):
            cases += run(tmp, "s%d" % i, k, rng)
        for i in range(c.pick(40, 1500)):
            k = dict(rng.choice(emitted))
            k["vals"] = [rnd_vals(rng, t) for t in k["types"]]
            if not c.thorough or i % 2:
                cases += run(tmp, "r%d" % i, k, rng, **rng.choice([{}, {"shard": 200}, {"async_write": True}, {"lazy_unpickle": True}, {"low_cpu_memory": True}, {"multi_gpu": False}]))
            elif k["method"] in ("linear", "pass"):
                cases += integer(tmp, "b%d" % i, k, rng)
        for i in range(c.pick(12, 60)):
            k = dict(rng.choice([e for e in emitted if e["method"] in ("linear", "pass")]))
            k["vals"] = [[abs(x) for x in rnd_vals(rng, "float32")] for t in k["types"]]
            cases += integer(tmp, "c%d" % i, k, rng)
    rej, tot = vlib.validate("VerdictDtype", [x[0] for x in cases], chunk=4000)
    c.add_tlc(tot, impl=len(cases))
    c.sample(cases[0][0])
    c.sample(cases[-1][0])
    for x in rej:
        h, where = cases[x["h"]]
        c.violation(h["c"]["method"] + ":" + ",".join(x["clauses"]), {"h": h, "where": where})


def rnd_vals(rng, t):
    v = [rng.choice([1, -1]) * rng.choice(POOL) for _ in range(6)]
    return [int(x) for x in torch.tensor([float(x) for x in v]).to(T[t]).float().tolist()]
