"""Weights only one source has, wrong numbers of models, missing base:
spec/Lone.tla; part of the checks of the merge methods."""
import env  # noqa
import random
import shutil

import torch

import models
import vlib

NAME = "model.layers.0.self_attn.q_proj.bias"


def run(tmp, i, c, rng):
    root = "%s/l%s" % (tmp, i)
    k = rng.randint(0, c["others"] - 1)  # the one that has it
    paths = []
    kept = None
    for m in range(-1 if c["base"] else 0, c["others"]):
        p = "%s/m%d" % (root, m + 1)
        has = c["have"] == "all" or (c["have"] == "base" and m < 0) or (c["have"] == "other" and m == k)

        def values(n, s, has=has):
            if n == NAME:
                return torch.tensor([float(rng.randint(1, 9)), -3.0]) if has else None
            return torch.tensor([rng.randint(-9, 9) / 2 + 0.25 for _ in range(s[0] * (s[1] if len(s) > 1 else 1))]).reshape(s)

        td = models.llama(p, layers=1, vocab=3, hidden=2, values=values, names=models.llama_names(1) + [NAME])
        if has:
            kept = td[NAME]
        paths.append(p)
    ms = []
    me = c["method"]
    for p in paths[1:] if c["base"] else paths:
        e = {"model": p, "parameters": {}}
        if me not in ("slerp", "passthrough", "nearswap", "karcher", "model_stock"):
            e["parameters"]["weight"] = rng.choice([1.0, 0.5]) if me != "linear" else rng.choice([0.25, 1.0, 2.0])
        if me in ("ties", "dare_linear", "dare_ties", "breadcrumbs", "breadcrumbs_ties", "della", "della_linear"):
            e["parameters"]["density"] = 0.5
        ms.append(e)
    cfg = {"merge_method": me, "dtype": "float32", "models": ms}
    if c["base"]:
        cfg["base_model"] = paths[0]
        if me not in ("slerp",) and rng.random() < 0.3:
            ms.append({"model": paths[0]})
    if me in ("slerp", "nearswap"):
        cfg["parameters"] = {"t": rng.choice([0.25, 0.75])}
    o = models.merge(cfg, root + "/out")
    shutil.rmtree(root, ignore_errors=True)
    t = o.tensors.get(NAME)
    same = t is not None and kept is not None and tuple(t.shape) == (2,) and torch.allclose(t, kept)
    return {"c": c, "o": {"outcome": "error" if o.error else "ok", "same": bool(same), "present": t is not None}}, o.error


def check(c, methods):
    rng = random.Random(c.seed * 31 + 19)
    r = vlib.tlc("MCLone", workers=4)
    c.add_tlc(r)
    confs = [x["c"] for x in r.printed if x["c"]["method"] in methods]
    cases = []
    with vlib.scratch() as tmp:
        for rep in range(c.pick(2, 20)):
            for i, k in enumerate(confs):
                cases.append(run(tmp, "%d_%d" % (rep, i), k, rng))
    rej, tot = vlib.validate("VerdictLone", [h for h, _ in cases])
    c.add_tlc(tot, impl=len(cases))
    for x in rej:
        h, err = cases[x["h"]]
        c.violation(h["c"]["method"] + ":" + ",".join(x["clauses"]), {"h": h, "error": err})
