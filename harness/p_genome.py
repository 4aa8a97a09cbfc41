"""P33: genotypes mean merges (spec/Genome.tla)."""
import env  # noqa
import json
import os
import random
import shutil

import torch

import models
import vlib
from p_forms import digest
from p_front import WORDS
from p_lora import par

FILTERS = ["mlp", "self_attn", "q_proj", "layernorm", "embed_tokens", "down_proj"]
PARAMS = {"linear": ["weight"], "task_arithmetic": ["weight"], "ties": ["weight", "density"], "dare_ties": ["weight", "density"], "slerp": ["t"]}


def explicit(d, m, paths, filters, tok):
    """one slice per layer, every value spelled out; an empty slice for what
    comes after the layers"""
    slices, norm = [], m["norm"]
    for i, l in enumerate(m["layers"] + [m["head"]]):
        k = 1 if i < d["layers"] else 0
        sl = {"sources": []}
        for s in l["src"]:
            src = {"model": paths[s["m"] - 1], "layer_range": [i * k, (i + 1) * k]}
            if s["v"]:
                src["parameters"] = {
                    p: [{"value": vals[q] / 64, **({"filter": f} if f else {})} for vals, f in zip(s["v"], filters + [None])]
                    for q, p in enumerate(PARAMS[d["method"]])
                }
            sl["sources"].append(src)
        if d["method"] == "slerp":
            sl["base_model"] = paths[l["base"] - 1]
            sl["parameters"] = {"t": torch.softmax(torch.tensor([0.0, l["d"] / 16]), dim=-1)[1].item()}
        slices.append(sl)
    cfg = {"merge_method": d["method"], "slices": slices, "dtype": "bfloat16", "parameters": {"normalize": norm, "int8_mask": True}}
    if d["base"]:
        cfg["base_model"] = paths[d["base"] - 1]
    if tok:
        cfg["tokenizer_source"] = tok
    return cfg


def one(job):
    root, seed, w = job
    rng = random.Random(seed)
    os.makedirs(root)
    d, x = w["d"], w["x"]
    n = max(d["n"], d["base"])
    paths = ["%s/m%d" % (root, i + 1) for i in range(n)]
    for i, p in enumerate(paths):
        models.llama(p, seed=seed * 10 + i, layers=d["layers"], hidden=4, tokenizer=WORDS)
    filters = rng.sample(FILTERS, d["sets"] - 1)
    h = {"d": d, "x": x, "used": (w["m"] or [0])[0], "made": False, "got": 0, "want": 0, "flat": True, "initial": True, "bf16": True}
    tok = rng.choice([None, None, "union", "base"]) if d["base"] else rng.choice([None, None, None, "union"])
    info = {"filters": filters, "tokenizer": tok}
    t = torch.tensor(x, dtype=torch.float32) / 16
    from mergekit.evo.genome import ModelGenome, ModelGenomeDefinition

    try:
        kw = {"models": paths[: d["n"]], "merge_method": d["method"], "layer_granularity": d["gran"], "allow_negative_weights": d["neg"], "smooth": d["smooth"]}
        if d["base"]:
            kw["base_model"] = paths[d["base"] - 1]
        if d["norm"] >= 0:
            kw["normalize"] = bool(d["norm"])
        if filters:
            kw["filters"] = filters
        if tok:
            kw["tokenizer_source"] = tok
        g = ModelGenome(ModelGenomeDefinition.model_validate(kw))
        form = rng.choice(["tensor", "numpy", "flat", "flat numpy"])
        a = {"tensor": t, "numpy": t.numpy(), "flat": t.flatten(), "flat numpy": t.numpy().flatten()}[form]
        keep = t.clone()
        cfg = g.genotype_merge_config(a)
        h["made"] = True
        b = g.genotype_merge_config({"tensor": t.flatten(), "numpy": t.flatten(), "flat": t, "flat numpy": t.numpy()}[form])
        h["flat"] = json.dumps(cfg.model_dump(mode="json"), sort_keys=True) == json.dumps(b.model_dump(mode="json"), sort_keys=True) and torch.equal(keep, t)
        x0 = g.initial_genotype()
        h["initial"] = tuple(x0.shape) == tuple(t.shape) and bool((x0[..., 0] == torch.tensor(1 / d["n"])).all() and (x0[..., 1:] == 1).all()) and tuple(g.initial_genotype(random=True).shape) == tuple(t.shape)
    except Exception as e:
        info["error"] = repr(e)[:300]
    if h["made"] and w["m"]:
        ids = {}
        opts = {"random_seed": rng.randint(0, 99)}
        out = []
        for name, c in (("got", cfg), ("want", explicit(d, w["m"][0], paths, filters, tok))):
            torch.manual_seed(opts["random_seed"])
            random.seed(0)
            o = models.merge(c, "%s/%s" % (root, name), copy_tokenizer=tok is not None)
            info[name] = o.error
            out.append(0 if o.error else ids.setdefault(digest("%s/%s" % (root, name)), len(ids) + 1))
            if o.error is None:
                h["bf16"] = h["bf16"] and all(v.dtype == torch.bfloat16 for v in o.tensors.values())
        h["got"], h["want"] = out
        if h["got"] != h["want"]:
            info["config"] = cfg.model_dump(mode="json", exclude_none=True)
            info["explicit"] = explicit(d, w["m"][0], paths, filters, tok)
    shutil.rmtree(root)
    return h, info


def check(c):
    rng = random.Random(c.seed * 433 + 33)
    c.add_tlc(vlib.tlc("MCGenome", workers=8, timeout=600))
    n = c.pick(300, 3000)
    r = vlib.tlc("MCGenome", "MCGenomeCells", workers=4, simulate=n // 2, depth=130, seed=c.seed)
    c.add_tlc(r)
    seen, by = set(), {}
    for x in r.printed:
        k = json.dumps([x["d"], x["x"]])
        if k not in seen:
            seen.add(k)
            by.setdefault((x["d"]["method"], x["refused"]), []).append(x)
    ws = []
    for (m, ref), xs in sorted(by.items()):
        rng.shuffle(xs)
        ws += xs[: n // 40 if ref else n // 5]
    with vlib.scratch() as tmp:
        got = par(one, [("%s/g%d" % (tmp, i), c.seed * 100003 + i, w) for i, w in enumerate(ws)])
    hs = [h for h, _ in got]
    rej, tot = vlib.validate("VerdictGenome", hs, chunk=300)
    c.add_tlc(tot, impl=len(hs))
    c.sample({"genotypes": len(hs), "refused": sum(not h["made"] for h in hs), "merged": sum(h["got"] > 0 for h in hs), "both_failed": sum(h["made"] and not h["got"] and not h["want"] for h in hs), "failures": sorted({i.get("got") or "" for h, i in got})[:6]})
    c.sample({"example": hs[-1]})
    for x in rej:
        h, info = got[x["h"]]
        if any(k.startswith("machinery") for k in x["clauses"]):
            raise vlib.MachineryError(json.dumps(h)[:500])
        c.violation(",".join(x["clauses"]), {"info": info, "history": h})
