"""P30 (mergekit-legacy and the options every command has) and P31 (bakllama,
mergekit-layershuffle): command lines mean merges (spec/Front.tla)."""
import env  # noqa
import importlib
import json
import os
import random
import shutil
import subprocess
import sys

import torch
import yaml

import models
import vlib
from p_forms import digest
from p_lora import par

NOV = -99
RANDOM = ("dare_ties", "dare_linear", "della")
METHODS = ["ties", "linear", "task_arithmetic", "slerp", "breadcrumbs", "dare_ties", "dare_linear", "della", "multislerp", "karcher"]
WORDS = ["<unk>", "a", "b", "c", "d", "e"]
FLAGS = {
    "normalize": "normalize", "int8": "int8-mask", "bf16": "bf16", "naive": "naive-count",
    "card": "write-model-card", "tok": "copy-tokenizer", "safe": "safe-serialization",
}


class Ran:
    pass


def command(module, args, sub=False):
    """Run a command as its entry point does."""
    models.fresh_loaders()
    r = Ran()
    if sub:
        p = subprocess.run([sys.executable, "-m", "mergekit.scripts." + module] + args, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=vlib.REPO), cwd="/")
        r.code, r.out, r.err = p.returncode, p.stdout, p.stderr[-400:]
        return r
    from click.testing import CliRunner

    try:
        main = importlib.import_module("mergekit.scripts." + module).main
    except Exception as e:
        r.code, r.out, r.err = 3, "", repr(e)
        return r
    x = CliRunner().invoke(main, args)
    r.code, r.out, r.err = x.exit_code, x.stdout, repr(x.exception) + x.output[-300:]
    return r


def spell(rng, toks, paths, dens=8):
    res = []
    for t in toks:
        o, v = t["o"], t["v"]
        if o in FLAGS:
            res.append("--" + ("" if v else "no-") + FLAGS[o])
        elif o == "merge":
            res += ["--merge", paths[v - 1]]
        elif o == "base":
            res += rng.choice([["--base-model", paths[v - 1]], ["--base-model=" + paths[v - 1]]])
        elif o == "method":
            res += ["--method", METHODS[v - 1]]
        elif o == "weight":
            res += ["--weight=%s" % (v / 4)] if v < 0 else ["--weight", rng.choice(["%s" % (v / 4), "%.3f" % (v / 4)])]
        elif o == "density":
            res += ["--density", str(v / dens)]
        elif o == "seed":
            res += ["--random-seed", str(v)]
        elif o == "shard":
            s = [str(v)] + (["%dK" % (v // 1000), "%dk" % (v // 1000)] if v % 1000 == 0 else [])
            res += ["--out-shard-size", rng.choice(s)]
    return res


def options(toks):
    o = {"card": True, "tok": True, "safe": True, "shard": 0, "seed": NOV}
    for t in toks:
        if t["o"] in o:
            o[t["o"]] = t["v"] if t["o"] in ("shard", "seed") else bool(t["v"])
    return o


def files(out):
    f = {"card": False, "tok": False, "safe": True, "size": [], "count": []}
    if not os.path.isdir(out):
        return f
    f["card"] = os.path.exists(out + "/README.md") and os.path.exists(out + "/mergekit_config.yml")
    f["tok"] = os.path.exists(out + "/tokenizer.json")
    ws = sorted(x for x in os.listdir(out) if x.endswith((".safetensors", ".bin")))
    f["safe"] = all(x.endswith(".safetensors") for x in ws)
    for x in ws:
        td = models.read_file(out + "/" + x)
        f["size"].append(sum(t.numel() * t.element_size() for t in td.values()))
        f["count"].append(len(td))
    return f


def merge_options(o):
    d = {"write_model_card": o["card"], "copy_tokenizer": o["tok"], "safe_serialization": o["safe"]}
    if o["shard"]:
        d["out_shard_size"] = o["shard"]
    if o["seed"] != NOV:
        d["random_seed"] = o["seed"]
    return d


def explicit(m, paths):
    cfg = {"merge_method": m["method"], "models": [], "parameters": {"normalize": m["norm"], "int8_mask": m["int8"]}}
    if m["count"]:
        cfg["parameters"]["consensus_method"] = "count"
    if m["t"] != NOV:
        cfg["parameters"]["t"] = m["t"] / 4
    for x in m["models"]:
        p = {}
        if x["w"] != NOV:
            p["weight"] = x["w"] / 4
        if x["d"] != NOV:
            p["density"] = x["d"] / 8
        cfg["models"].append({"model": paths[x["m"] - 1], "parameters": p})
    if m["base"]:
        cfg["base_model"] = paths[m["base"] - 1]
    if m["bf16"]:
        cfg["dtype"] = "bfloat16"
    return cfg


def blank(k, toks=()):
    return {
        "k": k, "toks": list(toks), "ok": False, "got": 0, "want": 0, "again": 0, "dry": False, "files": files(""), "layers": [], "embed": 0, "head": 0, "norm": 0,
        "used": 0, "file": 0, "q": 0,
    }


def outcome(ids, out, code):
    if code != 0:
        return 0
    return ids.setdefault(digest(out), len(ids) + 1)


def one_legacy(job):
    root, seed, toks, meaning, sub = job
    rng = random.Random(seed)
    os.makedirs(root)
    paths = ["%s/m%d" % (root, i + 1) for i in range(4)]
    for i, p in enumerate(paths):
        models.llama(p, seed=seed * 10 + i, layers=rng.choice([1, 2]) if i == -1 else 2, hidden=4, tokenizer=WORDS)
    toks = list(toks)
    if meaning["method"] in RANDOM and not any(t["o"] == "seed" for t in toks):
        toks.insert(rng.randint(0, len(toks)), {"o": "seed", "v": rng.randint(0, 9)})
    opts = options(toks)
    h = blank("legacy", toks)
    h["used"] = meaning
    ids, info = {}, {}
    yml = not sub and rng.random() < 0.5
    args = spell(rng, toks, paths)
    extra = [x for x in (["--quiet"], ["-v"], ["--async-write"], ["--lazy-unpickle"], ["--clone-tensors"], ["--transformers-cache", root + "/tc"], ["--write-threads", "2"]) if rng.random() < 0.15]
    args = [root + "/o"] + args + sum(extra, []) + (["--print-yaml"] if yml else [])
    if rng.random() < 0.3:
        args = args[1:] + args[:1]
    r = command("legacy", args, sub)
    h["ok"] = r.code == 0
    info = {"args": [x.replace(root, "") for x in args], "error": r.err if r.code else None}
    h["got"] = outcome(ids, root + "/o", r.code)
    h["files"] = files(root + "/o") if h["ok"] else files("")
    # the same merge from a configuration that says so
    from mergekit.options import MergeOptions

    mo = merge_options(opts)
    cfg = explicit(meaning, paths)
    info["explicit"] = json.loads(json.dumps(cfg).replace(root, ""))
    if mo.get("random_seed") is not None:
        MergeOptions(random_seed=mo["random_seed"]).apply_global_options()
    w = models.merge(cfg, root + "/w", **mo)
    info["explicit_error"] = w.error
    h["want"] = outcome(ids, root + "/w", 1 if w.error else 0)
    if h["ok"]:
        src = None
        if yml:
            src = r.out
        elif opts["card"]:
            src = open(root + "/o/mergekit_config.yml").read()
        if src is not None:
            with open(root + "/c.yml", "w") as f:
                f.write(src)
            shared = [t for t in toks if t["o"] in opts]
            r = command("run_yaml", [root + "/c.yml", root + "/a"] + spell(rng, shared, paths), sub)
            h["again"] = outcome(ids, root + "/a", r.code) or -1
            info["again_error"] = r.err if r.code else None
    shutil.rmtree(root)
    return h, info


# ------------------------------------------------------------- layer stacks

SCALES = [1, 2, 4, 8, -4, 0]


def stack_models(root, seed, depths):
    tds, paths = [], []
    rng = random.Random(seed)
    for i, n in enumerate(depths):
        p = "%s/m%d" % (root, i + 1)
        tds.append(models.llama(p, seed=rng.random(), layers=n, hidden=4, tokenizer=WORDS))
        paths.append(p)
    return tds, paths


def same(a, b, dt):
    return a is not None and a.dtype == dt and a.shape == b.shape and bool((a.float() == b.float()).all())


def whose(h, out, tds, dt):
    o = models.collect(out)
    h["embed"] = h["head"] = h["norm"] = 0
    for m, td in enumerate(tds, 1):
        for k, n in (("embed", "model.embed_tokens.weight"), ("head", "lm_head.weight"), ("norm", "model.norm.weight")):
            if same(o.tensors.get(n), td[n], dt):
                h[k] = m
    n = o.config.get("num_hidden_layers") or 0
    names = set(models.llama_names(n))
    parts = [x[len("model.layers.0."):] for x in models.llama_names(1) if x.startswith("model.layers.0.")]
    for i in range(n):
        found = {"m": 0, "l": -1, "s": NOV}
        for m, td in enumerate(tds, 1):
            l = 0
            while "model.layers.%d.%s" % (l, parts[0]) in td:
                if all(same(o.tensors.get("model.layers.%d.%s" % (i, q)), td["model.layers.%d.%s" % (l, q)], dt) for q in parts if "down_proj" not in q):
                    q = "mlp.down_proj.weight"
                    x, y = o.tensors.get("model.layers.%d.%s" % (i, q)), td["model.layers.%d.%s" % (l, q)]
                    for s in SCALES + [NOV]:
                        if s == NOV or same(x, y * (s / 4), dt):
                            break
                    found = {"m": m, "l": l, "s": s}
                l += 1
        h["layers"].append(found)
    if set(o.tensors) != names or o.problems:
        h["layers"].append({"m": 0, "l": -2, "s": NOV})
    return o


def one_stack(job):
    root, seed, sub = job
    rng = random.Random(seed)
    os.makedirs(root)
    depths = [rng.randint(1, 4) for _ in range(3)]
    tds, paths = stack_models(root, seed, depths)
    ss = []
    for _ in range(rng.randint(1, 4)):
        m = rng.randint(1, 3)
        lo = rng.randint(0, depths[m - 1] - 1)
        ss.append({"m": m, "lo": lo, "hi": rng.randint(lo + 1, depths[m - 1]), "s": rng.choice([NOV, NOV] + SCALES)})
    f = {"slices": ss, "emb": rng.choice([0, 0, 1, 2, 3]), "head": rng.choice([0, 0, 1, 2, 3])}
    d = {"layer_slices": []}
    for s in ss:
        x = {"model": paths[s["m"] - 1], "start": s["lo"], "end": s["hi"]}
        if s["s"] != NOV:
            x["scale"] = s["s"] / 4
        d["layer_slices"].append(x)
    if f["emb"]:
        d["embedding_source"] = paths[f["emb"] - 1]
    if f["head"]:
        d["lm_head_source"] = paths[f["head"] - 1]
    with open(root + "/f.yml", "w") as fp:
        yaml.safe_dump(d, fp)
    fp16 = rng.random() < 0.4
    args = [root + "/f.yml", root + "/o"] + (["--fp16"] if fp16 else rng.choice([[], ["--no-fp16"]])) + rng.choice([[], ["--clone-tensors"]])
    r = command("bakllama", args, sub)
    h = blank("stack")
    h["file"] = f
    h["ok"] = r.code == 0
    if h["ok"]:
        whose(h, root + "/o", tds, torch.float16 if fp16 else torch.float32)
    shutil.rmtree(root)
    return h, {"args": args[2:], "file": d, "error": r.err if r.code else None}


def shuffle_args(rng, q, paths):
    args = []
    for p in paths:
        args += [rng.choice(["-m", "--model"]), p]
    for w in q["ws"]:
        args += [rng.choice(["-w", "--weight"]), str(w / 4)]
    if q["full"]:
        args.append("--full-random")
    if rng.random() < 0.3:
        rng.shuffle(args) if False else None
    return args


def rnd_q(rng):
    while True:
        q = {"n": rng.randint(1, 5), "ws": [rng.choice([0, 1, 2, 2, 4, 6]) for _ in range(rng.randint(1, 3))], "full": rng.random() < 0.5}
        if q["full"] and sum(q["n"] * w // 4 for w in q["ws"]) or not q["full"] and any(q["ws"]):
            return q


def one_shuffle(job):
    root, seed, sub = job
    rng = random.Random(seed)
    os.makedirs(root)
    q = rnd_q(rng)
    tds, paths = stack_models(root, seed, [q["n"]] * len(q["ws"]))
    toks = []
    for n, vs in (("card", [0, 1]), ("tok", [0, 1]), ("safe", [0, 1]), ("shard", [300, 1000, 100000]), ("seed", [3, 7])):
        for _ in range(rng.choice([0, 0, 1, 2])):
            toks.append({"o": n, "v": rng.choice(vs)})
    rng.shuffle(toks)
    fp16 = rng.random() < 0.3
    base = shuffle_args(rng, q, paths) + (["--fp16"] if fp16 else [])
    opt = spell(rng, toks, paths)
    h = blank("shuffle", toks)
    h["q"] = q
    ids = {}
    wy = rng.random() < 0.6
    args = [root + "/o"] + base + opt + (["--write-yaml", root + "/w.yml"] if wy else [])
    r = command("layershuffle", args, sub)
    info = {"args": [x.replace(root, "") for x in args], "error": r.err if r.code else None}
    h["ok"] = r.code == 0
    h["got"] = outcome(ids, root + "/o", r.code)
    if h["ok"]:
        whose(h, root + "/o", tds, torch.float16 if fp16 else torch.float32)
        h["files"] = files(root + "/o")
        if wy:
            r = command("run_yaml", [root + "/w.yml", root + "/a"] + opt)
            h["again"] = outcome(ids, root + "/a", r.code) or -1
        elif options(toks)["seed"] != NOV:
            r = command("layershuffle", [root + "/a"] + base + opt)
            h["again"] = outcome(ids, root + "/a", r.code) or -1
        r = command("layershuffle", [root + "/dry", "--dry-run"] + base + opt)
        h["dry"] = os.path.exists(root + "/dry") and bool(os.listdir(root + "/dry"))
    shutil.rmtree(root)
    return h, info


def draws(job):
    root, seed, full, runs = job
    rng = random.Random(seed)
    os.makedirs(root)
    q = {"n": rng.randint(2, 4), "ws": [rng.choice([2, 3]), rng.choice([2, 4])], "full": full}
    _, paths = stack_models(root, seed, [q["n"]] * 2)
    h = blank("draws")
    h["q"] = q
    err = None
    for i in range(runs):
        r = command("layershuffle", [root + "/o", "--dry-run", "--write-yaml", root + "/w.yml", "--random-seed", str(i)] + shuffle_args(rng, q, paths))
        if r.code:
            err = r.err
            break
        for s in yaml.safe_load(open(root + "/w.yml"))["slices"]:
            x = s["sources"][0]
            mod = x["model"] if isinstance(x["model"], str) else x["model"]["model"]["path"]
            h["layers"] += [{"m": paths.index(mod) + 1, "l": l, "s": 4} for l in range(*x["layer_range"])]
    seen = {json.dumps(x) for x in h["layers"]}
    h["layers"] = [json.loads(x) for x in sorted(seen)]
    shutil.rmtree(root)
    return h, {"runs": runs, "error": err}


def report(c, got, hs):
    rej, tot = vlib.validate("VerdictFront", hs, chunk=300)
    c.add_tlc(tot, impl=len(hs))
    for x in rej:
        h, info = got[x["h"]]
        if any(k.startswith("machinery") for k in x["clauses"]):
            raise vlib.MachineryError("meaning of a command line: %s" % json.dumps(h)[:500])
        c.violation(",".join(x["clauses"]), {"info": info, "history": h})


def check(c):
    rng = random.Random(c.seed * 811 + int(c.prop[1:]))
    with vlib.scratch() as tmp:
        if c.prop == "P30":
            c.add_tlc(vlib.tlc("MCFront", "MCFrontDeep" if c.thorough else "MCFront", workers=8, timeout=800))
            n = c.pick(320, 4000)
            r = vlib.tlc("MCFront", "MCFrontLines", workers=4, simulate=n // 2, depth=11, seed=c.seed)
            c.add_tlc(r)
            lines, seen = [], set()
            for x in r.printed:
                k = json.dumps(x, sort_keys=True)
                if k not in seen:
                    seen.add(k)
                    lines.append(x)
            rng.shuffle(lines)
            lines = lines[:n]
            jobs = [("%s/l%d" % (tmp, i), c.seed * 100003 + i, x["toks"], x["m"], i < 1) for i, x in enumerate(lines)]
            got = par(one_legacy, jobs)
            hs = [h for h, _ in got]
            c.sample({"command_lines": len(hs), "refused_as_they_must": sum(h["used"]["refused"] for h in hs), "merged": sum(h["ok"] for h in hs), "rerun": sum(h["again"] != 0 for h in hs)})
            c.sample({"example": got[1][1]})
        else:
            c.add_tlc(vlib.tlc("MCStack", workers=8, timeout=800))
            n = c.pick(160, 2000)
            got = par(one_stack, [("%s/s%d" % (tmp, i), c.seed * 100003 + i, i < 1) for i in range(n)])
            got += par(one_shuffle, [("%s/f%d" % (tmp, i), c.seed * 100003 + i, i < 1) for i in range(n)])
            got += par(draws, [("%s/d%d" % (tmp, i), c.seed * 1003 + i, i % 2 == 0, 80) for i in range(c.pick(8, 64))])
            hs = [h for h, _ in got]
            c.sample({"stacks": n, "shuffles": n, "refused": sum(not h["ok"] for h in hs if h["k"] != "draws")})
            c.sample({"example": got[0][1]})
        report(c, got, hs)
