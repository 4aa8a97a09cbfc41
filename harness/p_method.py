"""P17: user-defined merge methods (the merge_method decorator) called through
run_merge and through mergekit-pytorch: spec/Method.tla.

Every model's tensors hold numbers that name the model and the tensor, so the
recorded calls show which tensors arrived in which order."""
import env  # noqa
import itertools
import json
import os
import random
import shutil
import sys
import types

import torch
from safetensors.torch import save_file

import models
import vlib

LONE = "model.layers.0.self_attn.q_proj.bias"
NAMES = models.llama_names(1) + [LONE]
_n = itertools.count()


def spell(p, rng):
    """an annotated argument, and a value type for its configuration"""
    if p["kind"] == "scalar":
        ty = rng.choice(["int", "float", "bool"]) if all(x in (0, 1000) for x in p["def"]) else "float"
    else:
        ty = rng.choice(["List[float]", "List[int]", "list[float]"])
    s = "%s: %s" % (p["name"], ty)
    if p["def"]:
        v = p["def"][0] / 1000
        s += " = %r" % (bool(v) if ty == "bool" else int(v) if ty == "int" else v)
    return s


def define(m, rng, sink):
    """register a method with the signature m; -> its name"""
    from mergekit.merge_methods.easy_define import merge_method

    name = "vprobe_%d" % next(_n)
    args = []
    if m["base"] == "req":
        args.append("base_tensor: torch.Tensor")
    elif m["base"] == "opt":
        args.append("base_tensor: Optional[torch.Tensor]" + rng.choice(["", " = None"]))
    for w in m["wants"]:
        args.append("output_weight: WeightInfo" if w == "output_weight" else "base_model: Optional[ModelReference]")
    args += [spell(p, rng) for p in m["ps"]]
    rng.shuffle(args)
    first = "tensors: List[torch.Tensor]"
    args = [a for a in args if "=" not in a] + [a for a in args if "=" in a]
    if rng.random() < 0.2:
        args = ["*"] + args if args else args
    src = "def f(%s) -> torch.Tensor:\n    return _sink(dict(locals()))\n" % ", ".join([first] + args)
    from typing import List, Optional

    from mergekit.architecture import WeightInfo
    from mergekit.common import ModelReference

    ns = dict(List=List, Optional=Optional, torch=torch, WeightInfo=WeightInfo, ModelReference=ModelReference, _sink=sink)
    exec(compile(src, "<probe>", "exec"), ns)
    merge_method(name, **rng.choice([{}, {"pretty_name": "Probe", "reference_url": "https://example.com"}]))(ns["f"])
    return name


def forget(name):
    from mergekit.merge_methods.registry import REGISTERED_MERGE_METHODS

    REGISTERED_MERGE_METHODS.pop(name, None)


def mark(i, k):
    return float(i + 8 * k)


def num(x):
    return int(round(float(x) * 1000)) if x is not None else None


def setting(v, rng):
    x = v / 1000
    if v in (0, 1000) and rng.random() < 0.3:
        return bool(x) if rng.random() < 0.5 else int(x)
    return x


def par(ps, rng):
    return {p["name"]: setting(p["v"], rng) for p in ps}


def run(tmp, i, m, c, rng, lone):
    root = "%s/%s" % (tmp, i)
    yaml_route = c["route"] == "yaml"
    ids = sorted({x["id"] for x in c["models"]} | ({c["base"]} - {0}))
    have_lone = [j for j in ids if rng.random() < 0.5] if lone else ids
    names = NAMES if yaml_route else NAMES[:4] + [LONE]
    paths = {}
    for j in ids:
        def values(n, s, j=j):
            if n == LONE and j not in have_lone:
                return None
            return torch.full(s, mark(j, NAMES.index(n)))

        p = "%s/m%d" % (root, j)
        td = models.llama(p, layers=1, vocab=3, hidden=2, values=values, names=names)
        if not yaml_route:
            os.remove(p + "/model.safetensors")
            if rng.random() < 0.5:
                p += "/w.safetensors"
                save_file({k: v.contiguous() for k, v in td.items()}, p, metadata={"format": "pt"})
            else:
                p += rng.choice(["/w.pt", "/w.bin"])
                torch.save(td, p)
        paths[j] = p
    calls = []
    back = {p: j for j, p in paths.items()}

    def sink(args):
        ts, bt = args["tensors"], args.get("base_tensor")
        some = (list(ts) + [bt])[0]
        k = int(some.flatten()[0].item()) // 8
        rec = {"name": NAMES[k], "order": [int(t.flatten()[0].item()) - 8 * k for t in ts], "base": -1, "par": [], "weight": "", "bm": -1, "kept": False}
        if m["base"] != "none":
            rec["base"] = int(bt.flatten()[0].item()) - 8 * k if bt is not None else 0
        for p in m["ps"]:
            v = args[p["name"]]
            rec["par"].append([[num(v)] if v is not None else []] if p["kind"] == "scalar" else [[num(x)] if x is not None else [] for x in v])
        if "output_weight" in m["wants"]:
            rec["weight"] = args["output_weight"].name
        if "base_model" in m["wants"]:
            bm = args["base_model"]
            rec["bm"] = back.get(bm.model.path, 99) if bm is not None else 0
        calls.append(rec)
        return torch.full_like(some, 1000.0 + len(calls))

    tensors = [{"name": n, "has": have_lone if n == LONE else ids} for n in names if n != LONE or have_lone]
    h = {"m": m, "c": c, "outcome": "ok", "tensors": tensors, "calls": calls}
    err = None
    name = None
    try:
        name = define(m, rng, sink)
        cfg = {"merge_method": name, "dtype": "float32"}
        if c["base"]:
            cfg["base_model"] = paths[c["base"]]
        if c["top"] or rng.random() < 0.2:
            cfg["parameters"] = par(c["top"], rng)
        ms = []
        for x in c["models"]:
            e = {"model": paths[x["id"]]}
            if x["par"] or rng.random() < 0.2:
                e["parameters"] = par(x["par"], rng)
            ms.append(e)
        out = root + "/out"
        if yaml_route:
            if not (c["base"] and all(x["id"] != c["base"] for x in c["models"])) and rng.random() < 0.4:
                for e in ms:
                    e["layer_range"] = [0, 1]
                sl = {"sources": ms}
                if "base_model" in cfg and rng.random() < 0.5:
                    sl["base_model"] = cfg["base_model"]
                    if rng.random() < 0.5:
                        del cfg["base_model"]
                if "parameters" in cfg and rng.random() < 0.5:
                    sl["parameters"] = cfg.pop("parameters")
                cfg["slices"] = [sl]
            else:
                cfg["models"] = ms
            o = models.merge(cfg, out)
            if o.error:
                h["outcome"], err = "error", o.error
        else:
            cfg["models"] = ms
            o = raw(cfg, out, union=lone)
            if o.error:
                h["outcome"], err = "error", o.error
        if h["outcome"] == "ok":
            for j, k in enumerate(calls):
                t = o.tensors.get(k["name"])
                k["kept"] = t is not None and bool((t == 1001.0 + j).all())
    except Exception as e:
        h["outcome"], err = "error", repr(e)[:400]
    finally:
        if name:
            forget(name)
    has = {t["name"]: t["has"] for t in tensors}
    for k in calls:
        k["has"] = has[k["name"]]
    shutil.rmtree(root, ignore_errors=True)
    return h, err


def raw(cfg, out, union=False, intersection=False, **opts):
    """what `mergekit-pytorch` does"""
    import yaml
    from click.testing import CliRunner

    from mergekit.scripts import merge_raw_pytorch as mrp

    try:
        mrp.SimpleLoaderCache().loaders.clear()
    except Exception:
        pass
    o = models.Outcome()
    os.makedirs(os.path.dirname(out), exist_ok=True)
    p = out + ".yml"
    with open(p, "w") as f:
        yaml.safe_dump(cfg, f)
    args = [p, out] + (["-u"] if union else []) + (["-i"] if intersection else [])
    for k, v in opts.items():
        args += ["--" + k.replace("_", "-")] + ([] if v is True else [str(v)])
    r = CliRunner().invoke(mrp.main, args)
    os.unlink(p)
    if r.exit_code != 0:
        o.error = "%r %s" % (r.exception, r.output[-200:])
        o.etype = type(r.exception).__name__
        return o
    o.tensors, o.where, o.problems = models.read_checkpoint(out)
    return o


SIGS = [
    ("def f(x: List[torch.Tensor]) -> torch.Tensor: pass", "no tensors"),
    ("def f(tensors) -> torch.Tensor: pass", "tensors unannotated"),
    ("def f(tensors: List[float]) -> torch.Tensor: pass", "tensors of numbers"),
    ("def f(tensors: torch.Tensor) -> torch.Tensor: pass", "one tensor"),
    ("def f(tensors: List[torch.Tensor], base_tensor: float) -> torch.Tensor: pass", "base a number"),
    ("def f(tensors: List[torch.Tensor], w: List[float] = [1.0]) -> torch.Tensor: pass", "default list"),
]


def check(c):
    import logging

    logging.disable(logging.CRITICAL)
    rng = random.Random(c.seed * 31 + 17)
    r = vlib.tlc("MCMethod", workers=8)
    c.add_tlc(r)
    cases = []
    groups = {}
    for e in r.printed:
        m, k = e["m"], e["c"]
        key = (m["base"], json.dumps(m["ps"]), k["route"], len(k["models"]), k["base"])
        groups.setdefault(key, []).append(e)
    keys = sorted(groups)
    with vlib.scratch() as tmp:
        i = 0
        for rep in range(c.pick(1, 12)):
            for key in keys:
                e = rng.choice(groups[key])
                i += 1
                cases.append(run(tmp, "s%d" % i, e["m"], e["c"], rng, False))
        for _ in range(c.pick(500, 8000)):
            i += 1
            m, k = rnd(rng)
            cases.append(run(tmp, "r%d" % i, m, k, rng, rng.random() < 0.4))
    logging.disable(logging.NOTSET)
    rej, tot = vlib.validate("VerdictMethod", [h for h, _ in cases])
    c.add_tlc(tot, impl=len(cases))
    c.sample(cases[0][0])
    c.sample(cases[-1][0])
    for x in rej:
        h, err = cases[x["h"]]
        c.violation(",".join(x["clauses"]), {"m": h["m"], "c": h["c"], "outcome": h["outcome"], "error": err, "calls": h["calls"][:3], "tensors": h["tensors"][-2:]})
    from typing import List, Optional

    from mergekit.merge_methods.easy_define import merge_method

    for src, what in SIGS:
        ns = dict(List=List, Optional=Optional, torch=torch)
        exec(src, ns)
        name = "vprobe_%d" % next(_n)
        try:
            merge_method(name)(ns["f"])
        except (ValueError, TypeError):
            continue
        finally:
            forget(name)
        c.violation("unusable-signature-accepted", {"signature": src, "what": what})


def rnd(rng):
    ps = []
    for n in rng.sample(["w", "s", "u", "density", "flag"], rng.choice([0, 1, 2, 3, 4])):
        ps.append({"name": n, "kind": rng.choice(["scalar", "vector"]), "def": rng.choice([[], [0], [1000], [250]])})
    m = {"base": rng.choice(["none", "none", "opt", "req"]), "ps": ps, "wants": rng.choice([[], ["output_weight"], ["base_model"], ["base_model", "output_weight"]])}
    ids = rng.sample([1, 2, 3, 4, 5, 6], rng.choice([1, 2, 3, 4, 5]))
    base = rng.choice([0, rng.choice(ids), rng.choice(ids), rng.randint(1, 6)])
    full = rng.random() < 0.8

    def some(prob):
        return [{"name": p["name"], "v": rng.choice([0, 1000, 500, -2000, 125, 3000])} for p in ps if rng.random() < prob]

    k = {
        "models": [{"id": j, "par": [x for x in some(0.8 if full else 0.4) if any(p["name"] == x["name"] and p["kind"] == "vector" for p in ps)]} for j in ids],
        "base": base, "top": some(0.7 if full else 0.3), "route": rng.choice(["yaml", "yaml", "raw"]),
    }
    return m, k
