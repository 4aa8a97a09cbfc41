"""P29: different ways to write down one merge give one result (spec/Forms.tla).

Starting configurations are made here; TLC rewrites them, step by step
(simulation of MCForms), every form of a chain is really merged, and TLC
(VerdictForms) judges whether forms of one meaning came out the same."""
import env  # noqa
import hashlib
import json
import os
import random
import shutil

import torch
import yaml

import models
import vlib
from p_lora import par
from p_plan import FILTERS, NO

NUM = lambda n: {"kind": "num", "g": [n], "v": []}  # noqa
# method: (family, number of models besides the base: range, per-model parameters, global ones that follow `lambda`, fixed)
METHODS = {
    "linear": ("sum", (1, 3), ["weight"], [], ["normalize"]),
    "multislerp": ("sum", (2, 3), ["weight"], [], ["normalize_weights"]),
    "nuslerp": ("sum", (2, 2), ["weight"], [], ["nuslerp_row_wise", "nuslerp_flatten"]),
    "karcher": ("sum", (2, 3), [], [], []),
    "task_arithmetic": ("base", (1, 3), ["weight", "density"], ["lambda"], ["normalize", "int8_mask"]),
    "ties": ("base", (1, 3), ["weight", "density"], ["lambda"], ["normalize", "int8_mask", "rescale"]),
    "breadcrumbs": ("base", (1, 3), ["weight", "density", "gamma"], ["lambda"], ["normalize"]),
    "breadcrumbs_ties": ("base", (1, 3), ["weight", "density", "gamma"], ["lambda"], ["normalize"]),
    "slerp": ("base", (1, 1), [], ["t"], []),
    "nearswap": ("base", (1, 1), [], ["t"], []),
    "arcee_fusion": ("base", (1, 1), [], [], []),
    "model_stock": ("base", (2, 3), [], [], ["filter_wise"]),
    "sce": ("base", (2, 3), [], ["select_topk"], ["int8_mask"]),
    "ram": ("base", (2, 3), [], [], []),
    "ramplus_tl": ("base", (2, 3), [], ["r", "alpha"], []),
    "passthrough": ("pass", (1, 1), ["scale"], [], []),
}
VALUE = {
    "weight": lambda v: v / 4, "scale": lambda v: v / 2, "density": lambda v: (abs(v) + 1) / 8, "gamma": lambda v: abs(v) / 32,
    "lambda": lambda v: v / 2, "t": lambda v: abs(v) / 8, "select_topk": lambda v: (abs(v) + 1) / 8, "r": lambda v: abs(v) / 8, "alpha": lambda v: abs(v) / 16,
}


def plain(rng, grads):
    if not grads or rng.random() < 0.6:
        return NUM(rng.choice([-2, -1, 0, 1, 2, 3, 4, 5, 6]))
    return {"kind": "grad", "g": [rng.randint(-2, 6) for _ in range(rng.choice([1, 2, 3]))], "v": []}


def setting(rng, none, grads):
    if rng.random() < none:
        return dict(NO)
    if rng.random() < 0.6:
        return plain(rng, grads)
    return {"kind": "cond", "g": [], "v": [{"f": rng.choice(FILTERS), "s": plain(rng, grads)} for _ in range(rng.randint(1, 3))]}


def start(rng, multi):
    method = rng.choice(sorted(METHODS))
    fam, (a, b), per, glob, _ = METHODS[method]
    n = rng.randint(a, b)
    nm = n + (fam == "base")
    grads = rng.random() < 0.35
    layers = rng.choice([1, 2, 2, 3, 4]) if not multi else rng.choice([1, 2])
    if rng.random() < 0.1 and not multi:
        layers = 11
    base = rng.randint(1, nm) if fam == "base" else 0
    form = rng.choice(["models", "models", "slices", "mod-models", "mod-slices"])
    whole = form.endswith("models")
    slices = []
    for _ in range(1 if whole else rng.randint(1, 3)):
        ms = [m for m in range(1, nm + 1) if m != base]
        rng.shuffle(ms)
        if base and not (whole and rng.random() < 0.7):
            ms.insert(rng.randint(0, len(ms)), base)
        k = layers if whole else rng.randint(1, layers)
        src = []
        for m in ms:
            lo = 0 if whole else rng.randint(0, layers - k)
            # every method gets the values it insists on somewhere
            src.append({"m": m, "lo": lo, "hi": lo + k, "w": setting(rng, 0.45, grads)})
        slices.append({"base": 0, "w": dict(NO) if whole else setting(rng, 0.6, grads), "lam": dict(NO) if whole else setting(rng, 0.6, grads), "src": src})
    mod = form.startswith("mod-")
    c = {
        "method": {"sum": "linear", "base": "task", "pass": "pass"}[fam], "form": form, "depth": [layers] * nm, "base": base, "slices": slices,
        "modw": setting(rng, 0.5, grads) if mod else dict(NO), "modlam": setting(rng, 0.5, grads) if mod else dict(NO),
        "gw": setting(rng, 0.4, grads) if per else dict(NO), "glam": setting(rng, 0.4, grads) if glob else dict(NO),
    }
    if rng.random() < 0.85:  # usually complete
        if per and c["gw"]["kind"] != "num":
            c["gw"] = NUM(rng.choice([1, 2, 3, 4]))
        if "t" in glob and c["glam"]["kind"] != "num":
            c["glam"] = NUM(rng.choice([1, 2, 3]))
    return c, method


# ----------------------------------------------------------------- writing it


def num(rng, x):
    return int(x) if x == int(x) and rng.random() < 0.5 else float(x)


def value(rng, s, f):
    if s["kind"] == "num":
        return num(rng, f(s["g"][0]))
    if s["kind"] == "grad":
        return [num(rng, f(x)) for x in s["g"]]
    res = []
    for e in s["v"]:
        d = {"value": value(rng, e["s"], f)}
        if e["f"]:
            d["filter"] = "".join(e["f"])
        elif rng.random() < 0.3:
            d["filter"] = None
        res.append(d)
    return res[0] if len(res) == 1 and rng.random() < 0.5 else res


def pars(rng, names, s):
    if s["kind"] == "none":
        return {}
    return {n: value(rng, s, VALUE[n]) for n in names}


def spelled(rng, p):
    return rng.choice([p, p, {"model": p}, {"model": {"path": p}}, {"model": {"path": p, "revision": None}, "lora": None}])


def shuffled(rng, x):
    if isinstance(x, dict):
        ks = list(x)
        rng.shuffle(ks)
        return {k: shuffled(rng, x[k]) for k in ks}
    if isinstance(x, list):
        return [shuffled(rng, y) for y in x]
    return x


def deeper(what):
    """for the module with one more layer (whole models only)"""
    if "models" in what:
        return dict(what)
    return {"slices": [dict(s, sources=[dict(x, layer_range=[0, x["layer_range"][1] + 1]) for x in s["sources"]]) for s in what["slices"]]}


def config(rng, c, method, paths, modules, extra):
    fam, _, per, glob, fixed = METHODS[method]
    ref = lambda m: spelled(rng, paths[m - 1])  # noqa

    def put(d, w, lam=None):
        p = pars(rng, per, w)
        if lam is not None:
            p.update(pars(rng, glob, lam))
        if p or rng.random() < 0.1:
            d["parameters"] = p
        return d

    slices = []
    for sl in c["slices"]:
        d = {"sources": [put({"model": ref(s["m"]), "layer_range": [s["lo"], s["hi"]]}, s["w"]) for s in sl["src"]]}
        if sl["base"]:
            d["base_model"] = ref(sl["base"])
        slices.append(put(d, sl["w"], sl["lam"]))
    if c["form"].endswith("models"):
        what = {"models": [{k: v for k, v in s.items() if k != "layer_range"} for s in slices[0]["sources"]]}
    else:
        what = {"slices": slices}
    cfg = {"merge_method": method, "dtype": "float32"}
    if c["form"].startswith("mod-") or (modules != ["default"] and c["form"] == "slices"):
        cfg["modules"] = {m: put(deeper(what) if m == extra["deeper"] else dict(what), c["modw"], c["modlam"]) for m in modules}
    else:
        cfg.update(what)
    put(cfg, c["gw"], c["glam"])
    for k in fixed:
        if k in extra["fixed"]:
            v = extra["fixed"][k]
            v = rng.choice([v, int(v), float(v), [{"value": v}], {"value": v, "filter": "*"}, [v]])
            cfg.setdefault("parameters", {})[k] = v
    if c["base"]:
        cfg["base_model"] = ref(c["base"])
    if rng.random() < 0.4:
        cfg["out_dtype"] = "float32"
    if extra["tok"] is not None:
        t = extra["tok"]
        t = paths[t - 1] if isinstance(t, int) else t
        if rng.random() < 0.5:
            cfg["tokenizer_source"] = t
        else:
            cfg["tokenizer"] = {"source": t}
            if rng.random() < 0.3:
                cfg["tokenizer"]["tokens"] = {}
    cfg = shuffled(rng, cfg)
    if rng.random() < 0.5:
        cfg = yaml.safe_load(yaml.safe_dump(cfg, sort_keys=False))
    return cfg


# ---------------------------------------------------------------------- worlds

WORDS = ["<unk>", "a", "b", "c", "d", "e"]
OTHERS = [
    ("T5ForConditionalGeneration", {"feed_forward_proj": "gated-gelu", "is_gated_act": True}),
    ("WhisperForConditionalGeneration", {}),
    ("Qwen2ForCausalLM", {}), ("Gemma2ForCausalLM", {}), ("GPT2LMHeadModel", {}), ("GPTNeoXForCausalLM", {}), ("Qwen3ForCausalLM", dict(tie_word_embeddings=True)),
]
TWO = {"T5ForConditionalGeneration": ("num_layers", "num_hidden_layers"), "WhisperForConditionalGeneration": ("encoder_layers", "num_hidden_layers")}
DEPTHS = ("num_hidden_layers", "n_layer", "num_layers", "num_decoder_layers", "encoder_layers", "decoder_layers")


def write_models(root, arch, nm, layers, seed, tok, extra=()):
    rng = random.Random(seed)
    paths = []
    for i in range(nm):
        p = "%s/m%d" % (root, i + 1)
        if arch is None:
            vocab = sorted(rng.sample(WORDS, rng.randint(3, 6)), key=WORDS.index) if tok else WORDS
            if "<unk>" not in vocab:
                vocab = ["<unk>"] + vocab
            if tok:
                vocab = vocab[:1] + rng.sample(vocab[1:], len(vocab) - 1)
            models.llama(p, seed=seed * 100 + i, layers=layers, hidden=4, vocab=len(vocab), tokenizer=vocab if tok else None)
        else:
            from p_lora import build

            m = build(arch[0], dict(arch[1], **{d: layers + (d in extra) for d in DEPTHS}), seed * 100 + i)
            m.save_pretrained(p)
        paths.append(p)
    return paths


def modules_of(path):
    from transformers import AutoConfig
    from mergekit.architecture import arch_info_for_config

    info = arch_info_for_config(AutoConfig.from_pretrained(path))
    return list(info.modules) if info else ["default"]


def digest(out):
    o = models.collect(out)
    h = hashlib.sha256()
    for k in sorted(o.tensors):
        t = o.tensors[k].contiguous()
        h.update(("%s %s %s" % (k, t.dtype, tuple(t.shape))).encode())
        h.update(t.flatten().view(torch.uint8).numpy().tobytes())
    h.update(json.dumps(o.config, sort_keys=True).encode())
    h.update(json.dumps(o.vocab, sort_keys=True).encode())
    h.update(json.dumps(sorted(f for f in os.listdir(out) if not f.startswith(("mergekit_config", "README")))).encode())
    h.update(json.dumps(o.problems).encode())
    return h.hexdigest()


def chain_history(job):
    root, seed, chain, method, arch, tok = job
    rng = random.Random(seed)
    os.makedirs(root)
    c0 = chain[0]
    two = arch is not None and arch[0] in TWO and all(len(c["slices"]) == 1 and s["lo"] == 0 and s["hi"] == max(c0["depth"]) for c in chain for s in c["slices"][0]["src"]) and rng.random() < 0.6
    paths = write_models(root, arch, len(c0["depth"]), max(c0["depth"]), seed, tok, TWO[arch[0]] if two else ())
    modules = modules_of(paths[0])
    extra = {"tok": tok, "fixed": {}, "deeper": "encoder" if two else None}
    for k in METHODS[method][4]:
        if rng.random() < 0.6:
            extra["fixed"][k] = rng.random() < 0.5
    ids, d, errs, cfgs = {}, [], [], []
    for i, c in enumerate(chain):
        out = "%s/out%d" % (root, i)
        cfg = config(rng, c, method, paths, modules, extra)
        o = models.merge(cfg, out, forget=rng.random() < 0.5, copy_tokenizer=tok is not None)
        errs.append(o.error)
        cfgs.append(cfg)
        if o.error:
            d.append(0)
        else:
            x = digest(out)
            d.append(ids.setdefault(x, len(ids) + 1))
        shutil.rmtree(out, ignore_errors=True)
    shutil.rmtree(root)
    return {"cs": chain, "d": d}, {"method": method, "arch": arch and arch[0], "errors": errs, "configs": cfgs, "tok": tok}


def check(c):
    r = vlib.tlc("MCForms", workers=8)
    c.add_tlc(r)
    if c.thorough:
        c.add_tlc(vlib.tlc("MCForms", "MCFormsDeep", workers=8, timeout=600))
    rng = random.Random(c.seed * 613 + 29)
    with vlib.scratch() as tmp:
        starts = [start(rng, i % 4 == 0) for i in range(c.pick(420, 4000))]
        with open(tmp + "/starts.ndjson", "w") as f:
            for x, _ in starts:
                f.write(json.dumps(x) + "\n")
        n = c.pick(500, 4000)
        r = vlib.tlc("MCForms", "MCFormsChains", workers=4, simulate=n // 2, depth=9, seed=c.seed, env={"FORMS": tmp + "/starts.ndjson"})
        c.add_tlc(r)
        how = {json.dumps(x, sort_keys=True): (m, i % 4 == 0) for i, (x, m) in enumerate(starts)}
        jobs, seen = [], set()
        rng.shuffle(r.printed)
        for x in r.printed:
            ch = x["chain"]
            key = json.dumps(ch, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            method, multi = how[json.dumps(ch[0], sort_keys=True)]
            i = len(jobs)
            if i >= n:
                break
            arch = rng.choice(OTHERS) if multi and max(ch[0]["depth"]) <= 2 else None
            tok = None
            if arch is None and rng.random() < 0.35:
                tok = rng.choice(["union", "base" if ch[0]["base"] else "union"] + list(range(1, len(ch[0]["depth"]) + 1)))
            jobs.append(("%s/c%d" % (tmp, i), c.seed * 100019 + i, ch, method, arch, tok))
        got = par(chain_history, jobs)
    hs = [h for h, _ in got]
    rej, tot = vlib.validate("VerdictForms", hs, chunk=400)
    c.add_tlc(tot, impl=sum(len(h["cs"]) for h in hs))
    c.sample({"forms": got[0][1]["configs"][:2], "outcomes": hs[0]["d"]})
    c.sample({"chains": len(hs), "refused": sum(h["d"] == [0] * len(h["d"]) for h in hs), "with_slices_split": sum(len(h["cs"][-1]["slices"]) > len(h["cs"][0]["slices"]) for h in hs)})
    for x in rej:
        h, info = got[x["h"]]
        if any(k.startswith("machinery") for k in x["clauses"]):
            raise vlib.MachineryError("forms of different meaning: %s" % json.dumps(h)[:500])
        c.violation(",".join(x["clauses"]), {"outcomes": h["d"], "info": info, "forms": h["cs"]})
