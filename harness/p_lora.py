"""P26 (adapters applied in merges: spec/Adapter.tla) and P27 (adapters
extracted from fine-tuned models: spec/Extract.tla)."""
import env  # noqa
import json
import multiprocessing
import os
import random
import shutil

import torch
from safetensors.torch import save_file

import faults
import models
import vlib
from p_multi import snap

LINEAR = ["self_attn.q_proj", "self_attn.k_proj", "self_attn.v_proj", "self_attn.o_proj", "mlp.gate_proj", "mlp.up_proj", "mlp.down_proj"]


def par(fn, items, n=8):
    """fn over items in forked workers"""
    with multiprocessing.get_context("fork").Pool(n, torch.set_num_threads, (1,)) as p:
        return p.map(fn, items, chunksize=1)


# ------------------------------------------------------------ P26: adapters


def rnd_world(rng):
    layers = rng.choice([1, 2])
    names = models.llama_names(layers)
    hidden, vocab = 2, 3
    shapes = []
    for n in names:
        shapes.append([hidden, 1] if "norm" in n else [vocab, hidden] if n.startswith(("lm_head", "model.embed")) else [hidden, hidden])
    lin = [i for i, n in enumerate(names) if any(n.endswith(x + ".weight") for x in LINEAR) or n.startswith("lm_head")]
    norms = [i for i, n in enumerate(names) if "norm" in n]
    ads = []
    for _ in range(rng.choice([2, 2, 3])):
        r = rng.choice([1, 2, 4])
        rs = r == 4 and rng.random() < 0.5
        alpha = rng.choice([1, 2, 3, 4, 8])
        suffixes = sorted(rng.sample(sorted({names[i][: -len(".weight")].split(".")[-1] for i in lin}), rng.randint(1, 4)))
        exact = rng.random() < 0.4
        on = [i in lin and names[i][: -len(".weight")].split(".")[-1] in suffixes and not (exact and rng.random() < 0.5) for i in range(len(names))]
        if not any(on):
            exact, on = False, [i in lin and names[i][: -len(".weight")].split(".")[-1] in suffixes for i in range(len(names))]
        emb = rng.random() < 0.2
        on[0] = emb
        full = [[] for _ in names]
        saves = []
        if rng.random() < 0.5:
            i = rng.choice([j for j in norms + lin if not on[j]])
            full[i] = [rng.randint(-60, 60) for _ in range(shapes[i][0] * shapes[i][1])]
            saves.append(names[i][: -len(".weight")])
        a = [[r * rng.randint(-2, 2) for _ in range(r * s[1])] if o else [] for o, s in zip(on, shapes)]
        b = [[rng.randint(-2, 2) for _ in range(r * s[0])] if o else [] for o, s in zip(on, shapes)]
        targets = [names[i][: -len(".weight")] for i in range(len(names)) if on[i]] if exact else suffixes + (["embed_tokens"] if emb else [])
        ads.append({"alpha": alpha * (2 if rs else 1), "r": r, "on": on, "a": a, "b": b, "full": full, "x": {"alpha": alpha, "rs": rs, "targets": targets, "saves": saves, "bin": rng.random() < 0.25}})
    bases = []
    for _ in range(2):
        bs = []
        for i, s in enumerate(shapes):
            touched = any(ad["on"][i] for ad in ads)
            top = 60 if touched else 500
            bs.append([rng.randint(-top, top) for _ in range(s[0] * s[1])])
        bases.append(bs)
    return {"same": rng.random() < 0.5, "layers": layers, "names": names, "shape": shapes, "bases": bases, "ads": ads}


def place(root, w, kind, k):
    """directories may share their last name"""
    return "%s/%s%d" % (root, kind, k) if not w["same"] else "%s/%d/%s" % (root, k, kind)


def write_world(root, w):
    names = w["names"]
    for k, bs in enumerate(w["bases"]):
        td = dict(zip(names, bs))
        models.llama(place(root, w, "base", k + 1), layers=w["layers"], hidden=2, vocab=3, values=lambda n, s: torch.tensor(td[n], dtype=torch.float32).reshape(s))
    for k, ad in enumerate(w["ads"]):
        d = place(root, w, "ad", k + 1)
        os.makedirs(d)
        td = {}
        r = ad["r"]
        for i, n in enumerate(names):
            m = "base_model.model." + n[: -len(".weight")]
            rows, cols = w["shape"][i]
            if ad["on"][i]:
                A = torch.tensor(ad["a"][i], dtype=torch.float32).reshape(r, cols)
                B = torch.tensor(ad["b"][i], dtype=torch.float32).reshape(rows, r)
                if i == 0:
                    td[m + ".lora_embedding_A"], td[m + ".lora_embedding_B"] = B.T.contiguous(), A.T.contiguous()
                else:
                    td[m + ".lora_A.weight"], td[m + ".lora_B.weight"] = A, B
            if ad["full"][i]:
                t = torch.tensor(ad["full"][i], dtype=torch.float32)
                td[m + ".weight"] = t if "norm" in n else t.reshape(rows, cols)
        x = ad["x"]
        with open(d + "/adapter_config.json", "w") as f:
            json.dump({"base_model_name_or_path": "some/base", "peft_type": "LORA", "task_type": "CAUSAL_LM", "r": r, "lora_alpha": x["alpha"], "use_rslora": x["rs"], "target_modules": x["targets"], "modules_to_save": x["saves"] or None, "lora_dropout": 0.0, "fan_in_fan_out": False, "inference_mode": True, "bias": "none"}, f)
        if x["bin"]:
            torch.save(td, d + "/adapter_model.bin")
        else:
            save_file(td, d + "/adapter_model.safetensors", metadata={"format": "pt"})


def flat(o, w):
    r = []
    for n in w["names"]:
        t = o.tensors.get(n)
        if t is None:
            return []
        v = t.double().flatten().tolist()
        r.append([int(x) if x == int(x) else 99999 for x in v])
    return r


def spelled(rng, root, w, ref):
    b, a = place(root, w, "base", ref["b"]), place(root, w, "ad", ref["a"])
    if not ref["a"]:
        return rng.choice([b, {"model": b}, {"model": {"path": b}}])
    return rng.choice([b + "+" + a, b + "+" + a, {"model": b, "lora": a}, {"model": {"path": b}, "lora": {"path": a}}])


def adapter_history(job):
    root, seed, steps = job
    rng = random.Random(seed)
    os.makedirs(root)
    w = rnd_world(rng)
    write_world(root, w)
    allrefs = [{"b": b, "a": a} for b in (1, 2) for a in range(1, len(w["ads"]) + 1)]
    main = rng.sample(allrefs, 2)
    cache = root + "/cache"
    if rng.random() < 0.5:
        os.makedirs(cache)
    dirs = [place(root, w, "base", b) for b in (1, 2)] + [place(root, w, "ad", a + 1) for a in range(len(w["ads"]))]
    start = [snap(d) for d in dirs]
    events, info = [], []
    for i, s in enumerate(steps):
        ref = main[s["ref"] - 1]
        refs, method, ws = [ref], "passthrough", [1]
        if s["kind"] in ("merge", "crash") and rng.random() < 0.5:
            others = [r for r in main if r is not ref] + [{"b": rng.choice([1, 2]), "a": 0}]
            refs = refs + rng.sample(others, rng.randint(1, 2))
            rng.shuffle(refs)
            method = rng.choice(["linear", "task_arithmetic"])
            ws = [rng.choice([1, 2, -1]) for _ in refs]
        sp = [spelled(rng, root, w, r) for r in refs]
        cfg = {"merge_method": method, "dtype": "float32"}
        if method == "passthrough":
            if rng.random() < 0.5:
                cfg["models"] = [{"model": sp[0]}]
            else:
                cfg["slices"] = [{"sources": [{"model": sp[0], "layer_range": [0, w["layers"]]}]}]
        elif method == "linear":
            cfg["models"] = [{"model": m, "parameters": {"weight": x}} for m, x in zip(sp, ws)]
            cfg["parameters"] = {"normalize": False}
        else:
            cfg["base_model"] = sp[0]
            cfg["models"] = [{"model": m, "parameters": {"weight": x}} for m, x in list(zip(sp, ws))[1:]]
            if len({json.dumps(r) for r in refs[1:]}) < len(refs[1:]) or refs[0] in refs[1:]:
                continue
        if method == "linear" and len({json.dumps(r) for r in refs}) < len(refs):
            continue
        opts = {}
        if s["kind"] != "nocache":
            opts["lora_merge_cache"] = cache
        if s["dtype"] != "none":
            opts["lora_merge_dtype"] = rng.choice(["", "torch."]) * (s["kind"] == "x") + s["dtype"]
        for k, v in (("lazy_unpickle", True), ("async_write", True), ("safe_serialization", False), ("clone_tensors", True)):
            if rng.random() < 0.2:
                opts[k] = v
        out = "%s/out%d" % (root, i)
        forget = rng.random() < 0.7
        aside = None
        if s["kind"] == "missing":
            aside = place(root, w, "ad", ref["a"])
            os.rename(aside, aside + ".away")
        crashed = False
        if s["kind"] == "crash":
            os.makedirs(cache, exist_ok=True)
            k = rng.randint(1, 8)
            note = "%s/error%d" % (root, i)

            def go():
                err = models.merge(cfg, out, forget=forget, **opts).error
                with open(note, "w") as f:
                    f.write(err or "")
                return err

            if rng.random() < 0.6:
                crashed = faults.crash_at(cache, k, go)
            else:
                crashed = faults.fault_at(cache, k, go)[0]
            o = models.Outcome()
            if not crashed and os.path.exists(note):
                o = models.collect(out)
                with open(note) as f:
                    o.error = f.read() or None
            else:
                crashed = True
        else:
            o = models.merge(cfg, out, forget=forget, **opts)
        if "Invalid thread pool" in (o.error or ""):
            crashed = True  # torch in a forked child, not the code under test
        if aside:
            os.rename(aside + ".away", aside)
        made = bool(o.tensors) or any(n.startswith(("model", "pytorch_model", "config")) for n in (os.listdir(out) if os.path.isdir(out) else []))
        events.append({"kind": "crash" if crashed else "merge", "method": method, "refs": refs, "w": ws, "cache": s["kind"] != "nocache", "dtype": s["dtype"], "missing": s["kind"] == "missing", "outcome": "error" if o.error else "ok", "out": flat(o, w) if not o.error and not crashed else [], "made": made and not crashed and bool(o.error) and os.path.exists(out + "/config.json"), "inputs": [snap(d) for d in dirs] == start})
        info.append({"lacking": [n for n in w["names"] if n not in o.tensors][:5], "problems": o.problems, "cfg": cfg, "opts": opts, "error": o.error, "step": s})
        shutil.rmtree(out, ignore_errors=True)
    shutil.rmtree(root)
    world = {"shape": w["shape"], "bases": w["bases"], "ads": [{k: ad[k] for k in ("alpha", "r", "on", "a", "b", "full")} for ad in w["ads"]]}
    return {"world": world, "events": events}, {"info": info, "ads": [ad["x"] for ad in w["ads"]]}


def warm():
    """import what the workers need before they are forked"""
    import mergekit.merge  # noqa
    import mergekit.scripts.extract_lora  # noqa
    import peft  # noqa
    import transformers  # noqa
    from transformers import LlamaForCausalLM  # noqa


def check_adapters(c):
    warm()
    r = vlib.tlc("MCAdapter", workers=8)
    c.add_tlc(r)
    allv = [x["s"] for x in r.printed]
    rng = random.Random(c.seed * 77 + 5)
    jobs = []
    with vlib.scratch() as tmp:
        for i in range(c.pick(160, 2400)):
            steps = rng.choice(allv)
            if rng.random() < 0.4:
                steps = steps + rng.choice(allv)
            jobs.append(("%s/%d" % (tmp, i), c.seed * 100003 + i, steps))
        got = par(adapter_history, jobs)
    got = [(h, x) for h, x in got if h["events"]]
    hs = [h for h, _ in got]
    rej, tot = vlib.validate("VerdictAdapter", hs, chunk=500)
    c.add_tlc(tot, impl=sum(len(h["events"]) for h in hs))
    c.sample({"events": hs[0]["events"]})
    for x in rej:
        h, info = got[x["h"]]
        c.violation(",".join(x["clauses"]), {"h": h, "info": info})


# --------------------------------------------------- P27: extracted adapters

FILTERS = {"layer1": r"layers\.1\.", "q": "q_proj", "mlp": "mlp", "norm": "norm", "n1": "input_layernorm", "emb": "embed", "head": "lm_head$"}
REQUESTS = {"q": "q_proj", "q0": "model.layers.0.self_attn.q_proj", "nf": "norm", "n10": "model.layers.0.input_layernorm"}
# architectures of the second part: whole fine-tunings, few options
ARCHS = [
    ("LlamaForCausalLM", {}), ("LlamaForCausalLM", dict(attention_bias=True, mlp_bias=True)), ("LlamaForCausalLM", dict(tie_word_embeddings=True)),
    ("MistralForCausalLM", {}), ("Qwen2ForCausalLM", {}), ("Qwen2ForCausalLM", dict(tie_word_embeddings=True)), ("Qwen3ForCausalLM", {}),
    ("GPTNeoXForCausalLM", {}), ("PhiForCausalLM", {}), ("Phi3ForCausalLM", {}), ("GPTBigCodeForCausalLM", {}), ("StableLmForCausalLM", {}),
    ("GemmaForCausalLM", {}), ("Gemma2ForCausalLM", {}), ("CohereForCausalLM", {}), ("Cohere2ForCausalLM", {}), ("Olmo2ForCausalLM", {}),
    ("GraniteForCausalLM", {}), ("Glm4ForCausalLM", {}), ("Gemma3ForCausalLM", {}), ("GPT2LMHeadModel", {}),
    ("MixtralForCausalLM", {}),
]


def build(arch, variant, seed):
    import transformers
    from p_tensors import OVER, SMALL

    cls = getattr(transformers, arch)
    kw = dict(SMALL)
    kw.update(OVER.get(arch, {}))
    kw.update(variant)
    m = cls(cls.config_class(**kw))
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for _, t in m.named_parameters():
            t.copy_(torch.randint(-4, 5, t.shape, generator=g).float() / 2)
    return m


def modules_of(m):
    """-> [(name, kind)], [parameter that is no module's weight or bias]"""
    out = m.get_output_embeddings()
    mods, seen = [], set()
    for n, x in m.named_modules():
        w = getattr(x, "weight", None)
        if not isinstance(w, torch.nn.Parameter) or not n:
            continue
        emb = isinstance(x, torch.nn.Embedding) or x is out
        mods.append((n, "embed" if emb else "linear" if isinstance(x, torch.nn.Linear) else "other"))
        seen |= {n + ".weight", n + ".bias"}
    return mods, [n for n, _ in m.named_parameters() if n not in seen]


def directions(rows, cols, k, g):
    u = torch.linalg.qr(torch.randn(rows, k, generator=g, dtype=torch.float64))[0]
    v = torch.linalg.qr(torch.randn(cols, k, generator=g, dtype=torch.float64))[0]
    return u, v


def milli(x):
    x = float(x)
    return int(round(1000 * x)) if abs(x) < 1e6 else 10**9


def extraction(job):
    root, seed, arch, variant, cc = job
    from click.testing import CliRunner
    from mergekit.scripts import extract_lora
    import peft
    import re
    import transformers

    rng = random.Random(seed)
    g = torch.Generator().manual_seed(seed)
    m = build(arch, variant, seed)
    tied = m.get_output_embeddings().weight is m.get_input_embeddings().weight
    m.save_pretrained(root + "/a")
    mods, rest = modules_of(m)
    sd = dict(m.named_parameters(remove_duplicate=False))
    truth, done = {}, {}
    with torch.no_grad():
        for n, kind in mods:
            w = sd[n + ".weight"]
            if id(w) in done:
                truth[n] = done[id(w)]
                continue
            flat2 = w.dim() == 2
            rows, cols = (w.shape if flat2 else (w.numel(), 1))
            k = min(rows, cols)
            sv = sorted(rng.sample(range(1, 9 + k), min(k, rng.choice([0, 1, 2, 3, 4, k]))), reverse=True)
            if arch in ("GPT2LMHeadModel",):
                sv = sv[:k]
            u, v = directions(rows, cols, max(1, len(sv)), g)
            if sv:
                w.add_((u @ torch.diag(torch.tensor(sv, dtype=torch.float64)) @ v.T).reshape(w.shape).float())
            b = sd.get(n + ".bias")
            bd = None
            if b is not None:
                bd = torch.randint(1, 4, b.shape, generator=g).float()
                b.add_(bd)
            truth[n] = done[id(w)] = (sv, u, v, bd, kind)
        for n in rest:
            sd[n].add_(1.0)
    m.save_pretrained(root + "/b")
    before = [snap(root + "/a"), snap(root + "/b")]
    args = ["--model", root + "/b", "--base-model", root + "/a", "--quiet", "--max-rank", str(cc["maxRank"]), "--lora-merge-cache", root + "/cache"]
    if cc["eps2"]:
        args += ["--sv-epsilon", str(cc["eps2"] / 2)]
    inc = [FILTERS.get(cc["inc"])] if cc["inc"] != "none" else []
    exc = [FILTERS.get(cc["exc"])] if cc["exc"] != "none" else []
    req = [REQUESTS[cc["req"]]] if cc["req"] != "none" else []
    for x in inc:
        args += ["--include-regex", x]
    for x in exc:
        args += ["--exclude-regex", x]
    for x in req:
        args += ["--save-module", x]
    if cc["embedLora"]:
        args.append("--embed-lora")
    if cc["skip"]:
        args.append("--skip-undecomposable")
    for x in ("--no-distribute-scale", "--no-safe-serialization", "--lazy-unpickle", "--async-write"):
        if rng.random() < 0.25:
            args.append(x)
    r = CliRunner().invoke(extract_lora.main, args + ["--out-path", root + "/o"])
    h = {"outcome": "error" if r.exception else "ok", "applied": "none"}
    info = {"arch": arch, "variant": variant, "args": args, "error": repr(r.exception)[:300], "case": cc}
    ad = root + "/o"
    names = [n for n, _ in mods]
    ranks = {}
    after = None
    if not r.exception and rng.random() < 0.3:
        # the base model with this adapter is itself the fine-tuned model
        args2 = list(args)
        args2[1] = root + "/a+" + ad
        r = CliRunner().invoke(extract_lora.main, args2 + ["--out-path", root + "/o2"])
        if r.exception:
            h["outcome"], info["error"] = "error", "again: " + repr(r.exception)[:300]
        ad = root + "/o2"
        info["again"] = True
    if h["outcome"] == "ok":
        try:
            for n, t in (models.read_file(ad + "/adapter_model.safetensors") if os.path.exists(ad + "/adapter_model.safetensors") else torch.load(ad + "/adapter_model.bin")).items():
                for key in (".lora_A.weight", ".lora_embedding_A"):
                    if n.endswith(key):
                        ranks[n[len("base_model.model.") : -len(key)]] = t.shape[0]
            cls = getattr(transformers, arch)
            if rng.random() < 0.5:
                o = models.merge({"merge_method": "passthrough", "models": [{"model": root + "/a+" + ad}]}, root + "/out", lora_merge_cache=root + "/cache")
                info["way"] = "merge"
                if o.error:
                    raise RuntimeError(o.error)
                x = cls.from_pretrained(root + "/out")
            else:
                info["way"] = "peft"
                x = peft.PeftModel.from_pretrained(cls.from_pretrained(root + "/a"), ad).merge_and_unload()
            after = x.state_dict()
            h["applied"] = "ok"
        except Exception as e:
            h["applied"] = "error"
            info["error"] = repr(e)[:300]
    base = getattr(transformers, arch).from_pretrained(root + "/a").state_dict()
    ms = []
    for n, kind in mods:
        sv, u, v, bd, _ = truth[n]
        rec = {"kind": kind, "inc": any(re.search(x, n) for x in inc), "exc": any(re.search(x, n) for x in exc), "req": n in req or n.split(".")[-1] in req, "sv": sv, "coef": [0] * len(sv), "resid": 0, "bcoef": -1 if bd is None else 0, "rank": ranks.get(n, 0)}
        if after is not None:
            if n + ".weight" not in after:
                rec["resid"] = 10**9
            else:
                d = (after[n + ".weight"].double() - base[n + ".weight"].double()).reshape(u.shape[0], -1)
                k = len(sv)
                co = [(u[:, i] @ d @ v[:, i]) for i in range(k)]
                rec["coef"] = [milli(x) for x in co]
                for i in range(k):
                    d = d - co[i] * torch.outer(u[:, i], v[:, i])
                rec["resid"] = milli(d.norm())
                if bd is not None:
                    db = after[n + ".bias"].double() - base[n + ".bias"].double()
                    q = float((db @ bd.double()) / (bd.double() @ bd.double()))
                    rec["bcoef"] = milli(q) if float((db - q * bd.double()).norm()) < 0.01 else 10**9
        ms.append(rec)
    left = []
    if after is not None:
        for n in rest:
            if n in after and float((after[n].double() - base[n].double() - 1).abs().max()) > 0.01:
                left.append(n)
    h["mods"] = ms
    h["o"] = {"maxRank": cc["maxRank"], "eps2": cc["eps2"], "embedLora": cc["embedLora"], "skip": cc["skip"], "tied": tied, "filtered": cc["inc"] != "none"}
    h["inputs"] = [snap(root + "/a"), snap(root + "/b")] == before
    info["left"] = left
    info["names"] = names
    shutil.rmtree(root)
    return h, info


PLAIN = {"inc": "none", "exc": "none", "req": "none", "embedLora": False, "skip": False, "maxRank": 128, "eps2": 0}


def check_extract(c):
    warm()
    r = vlib.tlc("MCExtract", workers=8)
    c.add_tlc(r)
    allv = [x["c"] for x in r.printed]
    rng = random.Random(c.seed * 31 + 7)
    allv.sort(key=lambda x: json.dumps(x, sort_keys=True))
    jobs = []
    with vlib.scratch() as tmp:
        for i, k in enumerate(rng.sample(allv, c.pick(110, 2200))):
            if k["tied"] and (k["exc"] in ("emb", "head")):
                continue
            var = {"tie_word_embeddings": k["tied"]}
            if rng.random() < 0.3:
                var["attention_bias"] = True
            jobs.append(("%s/f%d" % (tmp, i), c.seed * 90001 + i, "LlamaForCausalLM", var, k))
        for rep in range(c.pick(1, 12)):
            for i, (a, v) in enumerate(ARCHS):
                for e in (False, True):
                    k = dict(PLAIN, embedLora=e)
                    if rep or rng.random() < 0.3:
                        k["maxRank"] = rng.choice([1, 2, 128])
                        k["eps2"] = rng.choice([0, 0, 3, 9])
                    jobs.append(("%s/a%d_%d_%d" % (tmp, rep, i, e), c.seed * 70001 + rep * 100 + 2 * i + e, a, v, k))
        got = par(extraction, jobs)
    hs = [h for h, _ in got]
    rej, tot = vlib.validate("VerdictExtract", hs, chunk=400)
    c.add_tlc(tot, impl=len(hs))
    c.sample(hs[0])
    for x in rej:
        h, info = got[x["h"]]
        c.violation(",".join(x["clauses"]), {"h": h, "info": info})
    for h, info in got:
        if info["left"]:
            c.violation("parameters-lost", {"parameters": info["left"][:8], "info": {k: info[k] for k in ("arch", "variant", "args")}}, key="extract-lora of %s: %s" % (info["arch"], ",".join(sorted({n.split(".")[-1] for n in info["left"]}))))


def check(c):
    if c.prop == "P26":
        check_adapters(c)
    else:
        check_extract(c)
