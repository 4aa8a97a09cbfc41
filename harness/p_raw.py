"""P19: merges of arbitrary PyTorch checkpoints (mergekit-pytorch): spec/Raw.tla."""
import env  # noqa
import os
import random
import shutil

import torch
from safetensors.torch import save_file

import models
import vlib
from p_method import raw

NAMES = {1: "enc.attn.w", 2: "enc.mlp.w", 3: "enc.0.attn.bias", 4: "head.mlp.bias", 5: "x"}
FILTERS = {1: "attn", 2: "mlp", 3: "bias"}
SHAPE = {1: (2, 3), 2: (3, 2), 3: (3,), 4: (1,), 5: (2, 1, 2)}


def val(m, n):
    return float(((m * m + 3 * n * m + n) % 17) - 5)


def spell(s, rng):
    if len(s) == 1 and s[0]["f"] == 0 and rng.random() < 0.7:
        x = s[0]["v"] / 4
        return int(x) if x == int(x) and rng.random() < 0.5 else x
    res = []
    for e in s:
        d = {"value": e["v"] / 4}
        if e["f"]:
            d["filter"] = FILTERS[e["f"]]
        elif rng.random() < 0.5:
            d["filter"] = "*"
        res.append(d)
    return res[0] if len(res) == 1 and rng.random() < 0.5 else res


def run(tmp, i, c, rng):
    root = "%s/%s" % (tmp, i)
    os.makedirs(root)
    ids = {m["id"]: m["has"] for m in c["models"]}
    if c["base"] and c["base"] not in ids:
        ids[c["base"]] = c["bhas"]
    paths = {}
    fmt = getattr(torch, c["stored"])
    apart = rng.random() < 0.4
    for j, has in ids.items():
        td = {NAMES[n]: torch.full(SHAPE[n], val(j, n)).to(fmt) for n in rng.sample(has, len(has))}
        p = "%s/%s%d" % (root, rng.choice(["m", "model "]), j)
        if apart:  # like checkpoints of different models: one name each
            os.makedirs(p)
            p += "/" + rng.choice(["model", "weights"])
        if rng.random() < 0.5:
            p += ".safetensors"
            save_file(td, p, metadata={"format": "pt"})
        else:
            p += rng.choice([".pt", ".bin", ".pth"])
            torch.save(td, p)
        paths[j] = p
    cfg = {"merge_method": c["method"], "models": []}
    for m in c["models"]:
        e = {"model": paths[m["id"]]}
        if m["w"]:
            e["parameters"] = {"weight": spell(m["w"], rng)}
        cfg["models"].append(e)
    if c["base"]:
        cfg["base_model"] = paths[c["base"]]
    top = {}
    if c["topw"]:
        top["weight"] = spell(c["topw"], rng)
    if c["norm"]:
        top["normalize"] = c["norm"] == "yes"
    if top:
        cfg["parameters"] = top
    if c["dtype"]:
        cfg["dtype"] = c["dtype"]
    opts = rng.choice([{}, {}, {"out_shard_size": 20}, {"lazy_unpickle": True}, {"clone_tensors": True}, {"async_write": True}, {"write_threads": 3, "async_write": True, "out_shard_size": 10}])
    o = raw(cfg, root + "/out", union=c["mode"] == "union", intersection=c["mode"] == "intersection", **opts)
    h = {"c": c, "outcome": "error" if o.error else "ok", "problems": bool(o.problems), "ts": []}
    back = {v: k for k, v in NAMES.items()}
    for n, t in o.tensors.items():
        k = back.get(n, 99)
        x = t.double().flatten()
        h["ts"].append({"n": k, "v": int(round(x[0].nan_to_num(1e5, 1e5, -1e5).item() * 1000)), "fmt": str(t.dtype)[6:],
                        "shape": k in SHAPE and tuple(t.shape) == SHAPE[k] and bool((x == x[0]).all())})
    shutil.rmtree(root, ignore_errors=True)
    return h, o.error or (o.problems and str(o.problems))


def rnd(rng):
    def setting():
        k = rng.choice([0, 1, 1, 1, 2, 3])
        s = [{"f": f, "v": rng.choice([0, 1, 2, 3, 4, 4, 8, -2])} for f in rng.sample([1, 2, 3], min(k, 3))]
        if k and rng.random() < 0.8:
            s[-1] = {"f": 0, "v": rng.choice([0, 1, 2, 4, 4, 6])}
        return s

    method = rng.choice(["linear", "linear", "task_arithmetic", "task_arithmetic", "passthrough"])
    n = 1 if method == "passthrough" else rng.choice([1, 2, 2, 3, 4])
    full = [1, 2, 3, 4, 5]
    same = rng.random() < 0.4
    hs = [full if same else rng.sample(full, rng.randint(2, 5)) for _ in range(n + 1)]
    ids = rng.sample(range(1, 9), n)
    base, bhas = 0, []
    if method == "task_arithmetic":
        base = rng.choice(ids) if rng.random() < 0.3 and n > 1 else 9
        bhas = (full if rng.random() < 0.7 else hs[n]) if base == 9 else []
    return {
        "method": method, "models": [{"id": j, "has": full if j == base else hs[k], "w": setting()} for k, j in enumerate(ids)], "base": base, "bhas": bhas,
        "topw": setting() if rng.random() < 0.3 else [{"f": 0, "v": rng.choice([0, 2, 4])}], "norm": rng.choice(["", "", "yes", "no"]),
        "mode": rng.choice(["", "union", "union", "intersection"]), "dtype": rng.choice(["", "", "float32", "float16", "bfloat16"]),
        "stored": rng.choice(["float32", "float32", "float16", "bfloat16"]),
    }


def check(c):
    import logging

    logging.disable(logging.CRITICAL)
    rng = random.Random(c.seed * 31 + 21)
    r = vlib.tlc("MCRaw", workers=8)
    c.add_tlc(r)
    groups = {}
    for x in r.printed:
        k = x["c"]
        groups.setdefault((k["method"], k["mode"], k["base"], len(k["models"]), len(k["topw"])), []).append(k)
    cases = []
    with vlib.scratch() as tmp:
        i = 0
        for rep in range(c.pick(4, 60)):
            for g in sorted(groups):
                i += 1
                cases.append(run(tmp, "s%d" % i, rng.choice(groups[g]), rng))
        for _ in range(c.pick(700, 12000)):
            i += 1
            cases.append(run(tmp, "r%d" % i, rnd(rng), rng))
    logging.disable(logging.NOTSET)
    rej, tot = vlib.validate("VerdictRaw", [h for h, _ in cases])
    c.add_tlc(tot, impl=len(cases))
    c.sample(cases[0][0])
    c.sample(cases[-1][0])
    for x in rej:
        h, err = cases[x["h"]]
        c.violation(",".join(x["clauses"]), {"h": h, "error": err})
