"""P23, P24: chains of merges (mergekit-multi) and interrupted merges:
spec/Multi.tla."""
import env  # noqa
import hashlib
import json
import os
import random
import shutil

import torch
import yaml

import faults
import models
import vlib

TOKENS = ["<unk>", "a", "b", "c", "d", "e"]
LEAF = {"L1": (1, 2), "L2": (16, 48), "L3": (-5, 7)}
NAMES = ["a", "b", "first-merge", "step one", "stage/one", "it's", "x.y_z", "M0", "linear", "task_arithmetic", "float32", "self_attn", "weight", "model", "é", "passthrough", "cpu"]


def layer_of(n, v):
    if n == "model.embed_tokens.weight" or ".layers.0." in n:
        return v[0]
    return v[1]


def put_model(path, v, rng=None, fmt=None):
    rng = rng or random.Random(0)
    models.llama(path, layers=2, vocab=6, hidden=2, values=lambda n, s: torch.full(s, float(layer_of(n, v))), shards=rng.choice([1, 1, 3]) if fmt is None else 1, fmt=fmt or rng.choice(["safetensors", "bin"]))
    models.write_tokenizer(path, TOKENS)


def snap(p):
    r = []
    for d, _, fs in os.walk(p):
        for f in fs:
            q = os.path.join(d, f)
            st = os.stat(q)
            r.append((os.path.relpath(q, p), st.st_mtime_ns, st.st_size, st.st_ino))
    return sorted(r)


def content(p):
    return {os.path.relpath(os.path.join(d, f), p): hashlib.sha1(open(os.path.join(d, f), "rb").read().replace(p.encode(), b"@")).hexdigest() for d, _, fs in os.walk(p) for f in fs}


def look(p):
    """-> state, value"""
    if not os.path.isdir(p):
        return "none", []
    o = models.collect(p)
    if o.problems:
        return "part", []
    if set(o.tensors) != set(models.llama_names(2)):
        return "part", []
    val = []
    for first in (True, False):
        xs = {x for n, t in o.tensors.items() if (n == "model.embed_tokens.weight" or ".layers.0." in n) == first for x in t.double().flatten().tolist()}
        if len(xs) != 1 or not float(list(xs)[0]).is_integer():
            return "full", []
        val.append(int(list(xs)[0]))
    return "full", val


class World:
    def __init__(self, root):
        self.root = root
        self.leaf = {}
        for n, v in LEAF.items():
            self.leaf[n] = "%s/leaf/%s" % (root, n)
            put_model(self.leaf[n], v, fmt="safetensors")
        # cannot be merged with the others: a weight is missing / has another shape
        self.missing, self.odd = root + "/leaf/missing", root + "/leaf/odd"
        models.llama(self.missing, layers=2, vocab=6, names=[n for n in models.llama_names(2) if n != "model.layers.1.mlp.up_proj.weight"])
        models.write_tokenizer(self.missing, TOKENS)
        models.llama(self.odd, layers=2, vocab=6, values=lambda n, s: torch.ones(3, 3) if n.endswith("1.mlp.down_proj.weight") else torch.ones(s))
        models.write_tokenizer(self.odd, TOKENS)


def spell(name, rng):
    return rng.choice([name, name, {"model": name}, {"model": {"path": name}}])


def doc_for(w, m, real, rng):
    def ref(x):
        return w.leaf[x] if x in w.leaf else real[x]

    d = {"name": real[m["name"]]} if m["name"] else {}
    d["dtype"] = "float32"
    refs = m["refs"]
    if m["bad"]:
        bad = rng.choice([w.missing, w.odd])
        d["merge_method"] = "linear"
        d["parameters"] = {"weight": 1}
        d["models"] = [{"model": spell(ref(x), rng)} for x in dict.fromkeys(refs)] + [{"model": bad}]
    elif m["kind"] == "linear":
        d["merge_method"] = "linear"
        d["parameters"] = {"normalize": False}
        if rng.random() < 0.3:
            d["parameters"]["weight"] = [{"filter": "self_attn", "value": 99}, {"value": 98}]
        d["models"] = [{"model": spell(ref(x), rng), "parameters": {"weight": k}} for x, k in zip(refs, m["w"])]
    elif m["kind"] == "task":
        d["merge_method"] = "task_arithmetic"
        d["base_model"] = spell(ref(refs[0]), rng)
        ins = list(zip(refs, m["w"]))[1:] or [(refs[0], 1)]
        d["models"] = [{"model": spell(ref(x), rng), "parameters": {"weight": k}} for x, k in ins]
        if rng.random() < 0.3:
            d["slices"] = [{"sources": [dict(x, layer_range=[0, 2]) for x in d.pop("models")] + ([{"model": ref(refs[0]), "layer_range": [0, 2]}] if refs[0] not in [x for x, _ in ins] else [])}]
    else:
        d["merge_method"] = "passthrough"
        d["slices"] = [{"sources": [{"model": spell(ref(refs[0]), rng), "layer_range": [0, 1]}]}, {"sources": [{"model": spell(ref(refs[-1]), rng), "layer_range": [1, 2]}]}]
        if rng.random() < 0.3:
            d = {k: v for k, v in d.items() if k != "slices"} | {"modules": {"default": {"slices": d["slices"]}}}
    if m["tok"]:
        s = ref(m["tok"])
        d.update(rng.choice([{"tokenizer_source": s}, {"tokenizer": {"source": s}}]))
    return d


def put_pre(p, what, i, rng):
    if what == "none":
        return
    if what == "full":
        put_model(p, (1000 + i, 2000 + i), rng)
        return
    os.makedirs(p)
    way = rng.choice(["empty", "config", "weights", "shard", "torn"])
    if way == "empty":
        return
    t = p + "-t"
    put_model(t, (7, 7), rng)
    for f in os.listdir(t):
        wt = f.endswith((".safetensors", ".bin"))
        ix = f.endswith(".index.json")
        if (way == "config" and not wt and not ix) or (way == "weights" and (wt or ix)) or (way == "shard" and wt and "-of-" in f):
            shutil.copy(t + "/" + f, p + "/" + f)
    if way == "torn":
        open(p + "/model-00001-of-00002.safetensors", "wb").write(b"\x08\0\0\0")
    shutil.rmtree(t)


def invoke(cfgfile, inter, out, lazy, opts=()):
    from click.testing import CliRunner

    from mergekit.scripts import multimerge

    models.fresh_loaders()
    args = [cfgfile, "-I", inter] + (["--out-path", out] if out else []) + ([] if lazy is None else ["--lazy" if lazy else "--no-lazy"]) + ["--quiet"] + list(opts)
    r = CliRunner().invoke(multimerge.main, args)
    return None if r.exit_code == 0 else repr(r.exception)[:300]


def prepare(w, root, c, rng):
    os.makedirs(root)
    names = list(dict.fromkeys(m["name"] for m in c["merges"]))
    real = dict(zip(names, rng.sample(NAMES, len(names))))
    real[""] = ""
    inter, out = root + "/inter", root + "/final"
    docs = [doc_for(w, m, real, rng) for m in c["merges"]]
    with open(root + "/c.yml", "w", encoding="utf-8") as f:
        yaml.safe_dump_all(docs, f, sort_keys=rng.random() < 0.5, allow_unicode=True)
    place = [out if not m["name"] else inter + "/" + real[m["name"]] for m in c["merges"]]
    return docs, inter, out, place


def case(w, i, c, rng):
    root = "%s/k%s" % (w.root, i)
    docs, inter, out, place = prepare(w, root, c, rng)
    dup = len(set(place)) < len(place)
    for k, p in enumerate(place):
        if not dup:
            put_pre(p, c["pre"][k], k + 1, rng)
    if dup:
        c = dict(c, pre=["none"] * len(place))
    before = [snap(p) if os.path.isdir(p) else None for p in place]
    leaves = snap(w.root + "/leaf")
    opts = rng.choice([[], [], ["--async-write"], ["--lazy-unpickle"], ["--out-shard-size", "100"], ["--no-write-model-card"]])
    err = invoke(root + "/c.yml", inter, out if c["out"] else None, c["lazy"] if rng.random() < 0.5 or not c["lazy"] else None, opts)
    h = {"c": c, "outcome": "error" if err else "ok", "made": [], "val": [], "tok": [], "extra": False, "touched": snap(w.root + "/leaf") != leaves, "mid": [], "faulty": False, "hidden": False}
    for k, p in enumerate(place):
        st, v = look(p)
        if st == "full" and c["pre"][k] == "full" and before[k] == snap(p):
            st = "same"
        h["made"].append(st)
        h["val"].append(v)
        h["tok"].append(os.path.exists(p + "/tokenizer.json"))
    allowed = set(place) | {root + "/c.yml"}
    for d, _, fs in os.walk(root):
        for f in fs:
            q = os.path.join(d, f)
            if q not in allowed and not any(q.startswith(p + "/") for p in place):
                h["extra"] = True
    shutil.rmtree(root)
    return h, {"error": err, "docs": docs}


def crash_case(w, i, c, rng):
    """the chain is interrupted (repeatedly) and then run again"""
    root = "%s/x%s" % (w.root, i)
    docs, inter, out, place = prepare(w, root, c, rng)
    ref = root + "/ref"
    opts = rng.choice([[], ["--async-write"], ["--out-shard-size", "100"]])
    final = out if c["out"] else None

    def go(top):
        return invoke(root + "/c.yml", top + "/inter", final and top + "/final", None, opts)

    os.makedirs(ref)
    n = [0]
    n = faults.run_counting(ref, lambda: go(ref))
    clean = content(ref)
    work = root + "/work"
    os.makedirs(work)
    leaves = snap(w.root + "/leaf")
    ks = []
    at = [x.replace(root + "/", work + "/", 1) for x in place]
    mid, faulty, hidden = [], False, False

    def note():
        for q, p in enumerate(at):
            st, v = look(p)
            if st == "full":
                mid.append({"i": q + 1, "val": v})

    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.randint(1, max(1, n))
        if rng.random() < 0.6 or any(m["tok"] for m in c["merges"]):
            ks.append("crash %d" % k)
            if not faults.crash_at(work, k, lambda: go(work)):
                break
        else:
            ks.append("fault %d" % k)
            bad, met = faults.fault_at(work, k, lambda: go(work))
            if not met:
                break
            faulty = True
            states = [look(p)[0] for p in at]
            hidden = hidden or (not bad and any(x != "full" for x in states))
        note()
    err = go(work)
    h = {"c": c, "outcome": "error" if err else "ok", "made": [], "val": [], "tok": [], "extra": not faulty and content(work) != clean, "touched": snap(w.root + "/leaf") != leaves, "mid": mid, "faulty": faulty, "hidden": hidden}
    for p in at:
        st, v = look(p)
        h["made"].append(st)
        h["val"].append(v)
        h["tok"].append(os.path.exists(p + "/tokenizer.json"))
    info = {"crashes": ks, "of": n, "error": err, "docs": docs, "differs": sorted(set(content(work).items()) ^ set(clean.items()))[:6]}
    shutil.rmtree(root)
    return h, info


def rnd_chain(rng, legal=False):
    n = rng.randint(2, 5)
    names = ["n%d" % i for i in range(n)]
    if rng.random() < 0.6:
        names[-1] = ""
    if not legal and rng.random() < 0.08:
        names[0] = names[1]
    order = list(range(n))
    merges = []
    for i in order:
        pool = ["L1", "L2", "L3"] + [x for x in names[:i] if x] * 2
        if not legal and rng.random() < 0.05:
            pool += [x for x in names if x] * 3
        kind = rng.choice(["linear", "task", "stack"])
        refs = list(dict.fromkeys(rng.choice(pool) for _ in range(rng.randint(1, 2 if kind == "stack" else 3))))
        merges.append({"name": names[i], "kind": kind, "refs": refs, "w": [rng.choice([1, 1, 2, -1]) for _ in refs], "tok": rng.choice(pool) if rng.random() < 0.25 else "", "bad": not legal and rng.random() < 0.07})
    rng.shuffle(merges)
    return {
        "merges": merges,
        "lazy": legal or rng.random() < 0.7,
        "out": legal or rng.random() < 0.9,
        "pre": ["none"] * n if legal else [rng.choice(["none", "none", "none", "full", "part"]) for _ in merges],
    }


def check(c):
    import logging

    logging.disable(logging.CRITICAL)
    r = vlib.tlc("MCMulti", workers=8)
    c.add_tlc(r)
    rng = random.Random(c.seed * 41 + (3 if c.prop == "P23" else 9))
    cases = []
    with vlib.scratch() as tmp:
        w = World(tmp)
        if c.prop == "P23":
            allc = [x["c"] for x in r.printed]
            for i, k in enumerate(rng.sample(allc, min(len(allc), c.pick(130, 2500)))):
                cases.append(case(w, i, k, rng))
            for i in range(c.pick(150, 2500)):
                cases.append(case(w, "r%d" % i, rnd_chain(rng), rng))
        else:
            for i in range(c.pick(60, 900)):
                cases.append(crash_case(w, i, rnd_chain(rng, True), rng))
    logging.disable(logging.NOTSET)
    rej, tot = vlib.validate("VerdictMulti", [h for h, _ in cases], chunk=4000)
    c.add_tlc(tot, impl=len(cases))
    c.sample(cases[0][0])
    c.sample(cases[-1][0])
    for x in rej:
        h, err = cases[x["h"]]
        c.violation(",".join(x["clauses"]), {"h": h, "info": err})
