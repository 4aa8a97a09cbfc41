"""P20: mixture-of-experts assembly (mergekit-moe): spec/Moe.tla.

Every weight of every source model is a known number times a fixed pattern, so
each place of the output shows which model filled it and how it was scaled."""
import env  # noqa
import json
import os
import random
import shutil

import torch

import models
import vlib

H, I, V, L = 8, 12, 9, 2
HEADS, KV, D = 2, 1, 4
WORDS = ["<s>", "a", "b", "c", "d", "e", "f", "g", "</s>"]
PROMPTS = ["a b", "c", "d a e", "f f b g"]
ARCH = {"llama": "LlamaForCausalLM", "mistral": "MistralForCausalLM", "qwen2": "Qwen2ForCausalLM", "qwen3": "Qwen3ForCausalLM", "gpt2": "GPT2LMHeadModel"}


def conf(ty, dtype, tie):
    if ty == "gpt2":
        return dict(architectures=["GPT2LMHeadModel"], model_type="gpt2", n_embd=H, n_layer=L, n_head=2, vocab_size=V)
    d = dict(
        architectures=[ARCH[ty]], model_type=ty, hidden_size=H, intermediate_size=I, num_hidden_layers=L, num_attention_heads=HEADS,
        num_key_value_heads=KV, head_dim=D, vocab_size=V, torch_dtype=dtype, tie_word_embeddings=tie, max_position_embeddings=64,
        bos_token_id=0, eos_token_id=8, rms_norm_eps=1e-5, sliding_window=None,
    )
    return d


NAMES = {"in": "input_layernorm.weight", "post": "post_attention_layernorm.weight", "q": "self_attn.q_proj.weight", "k": "self_attn.k_proj.weight",
         "v": "self_attn.v_proj.weight", "o": "self_attn.o_proj.weight", "qb": "self_attn.q_proj.bias", "kb": "self_attn.k_proj.bias",
         "vb": "self_attn.v_proj.bias", "qn": "self_attn.q_norm.weight", "kn": "self_attn.k_norm.weight",
         "gate": "mlp.gate_proj.weight", "up": "mlp.up_proj.weight", "down": "mlp.down_proj.weight"}
TOP = {"embed": "model.embed_tokens.weight", "norm": "model.norm.weight", "head": "lm_head.weight"}
SHAPE = {"in": (H,), "post": (H,), "q": (HEADS * D, H), "k": (KV * D, H), "v": (KV * D, H), "o": (H, HEADS * D), "qb": (HEADS * D,), "kb": (KV * D,),
         "vb": (KV * D,), "qn": (D,), "kn": (D,), "gate": (I, H), "up": (I, H), "down": (H, I), "embed": (V, H), "norm": (H,), "head": (V, H)}
LAYER = {"llama": ["in", "post", "q", "k", "v", "o"]}
LAYER["mistral"] = LAYER["llama"]
LAYER["qwen2"] = LAYER["llama"] + ["qb", "kb", "vb"]
LAYER["qwen3"] = LAYER["llama"] + ["qn", "kn"]
MLP = ["gate", "up", "down"]


def pattern(part):
    n = 1
    for s in SHAPE[part]:
        n *= s
    return torch.tensor([[1.0, 2.0, 3.0][(i * i + i // 5) % 3] for i in range(n)]).reshape(SHAPE[part])


def slot_id(kind, l, part):
    parts = ["embed", "norm", "head"] if kind == "top" else list(NAMES)
    return (0 if kind == "top" else 3 + 14 * l) + parts.index(part) + 1


def number(m, kind, l, part):
    return 3 * slot_id(kind, l, part) + m


def rows(ty):
    for p in TOP:
        yield "top", 0, p, TOP[p]
    for l in range(L):
        for p in LAYER[ty] + MLP:
            yield "layer" if p not in MLP else "exp", l, p, "model.layers.%d.%s" % (l, NAMES[p])


def source(path, m, ty, dtype, tie, values, rng):
    os.makedirs(path)
    with open(path + "/config.json", "w") as f:
        json.dump(conf(ty, dtype, tie), f)
    td = {}
    if ty != "gpt2":
        for kind, l, p, name in rows(ty):
            if p == "head" and tie:
                continue
            td[name] = values(m, kind, l, p).to(getattr(torch, dtype))
    else:
        td["x"] = torch.ones(1)
    models.write_checkpoint(path, td, shards=rng.choice([1, 2]) if len(td) > 1 else 1, fmt=rng.choice(["safetensors", "bin"]))
    return td


def tokenizer(path, bos=True):
    models.write_tokenizer(path, WORDS)
    p = path + "/tokenizer_config.json"
    d = json.load(open(p))
    if bos:
        d["bos_token"] = "<s>"
    d["eos_token"] = "</s>"
    json.dump(d, open(p, "w"))


def expert(e, paths, rng):
    d = {"source_model": paths[e["m"] - 1]}
    if e["pos"] or rng.random() < 0.3:
        d["positive_prompts"] = [PROMPTS[i - 1] for i in e["pos"]]
    if e["neg"] or rng.random() < 0.3:
        d["negative_prompts"] = [PROMPTS[i - 1] for i in e["neg"]]
    if e["scale"]:
        d["residual_scale"] = e["scale"][0] / e["scale"][1]
    return d


ARCHNAME = {"MixtralForCausalLM": "mixtral", "DeepseekForCausalLM": "deepseek", "Qwen2MoeForCausalLM": "qwen", "Qwen3MoeForCausalLM": "qwen3"}


def read_moe(out, arch, tie):
    """-> {(kind, l, e, part): tensor}"""
    res = {}
    if arch == "deepseek":  # needs code that is not part of Transformers
        sd, _, problems = models.read_checkpoint(out)
        assert not problems, problems
    else:
        import transformers

        transformers.utils.logging.disable_progress_bar()
        m = getattr(transformers, {v: k for k, v in ARCHNAME.items()}[arch]).from_pretrained(out, dtype="auto")
        sd = {k: v.clone() for k, v in m.state_dict().items()}
    if tie and "lm_head.weight" not in sd:
        sd["lm_head.weight"] = sd["model.embed_tokens.weight"]
    inv = {v: k for k, v in NAMES.items()}
    for n, t in sd.items():
        if n in TOP.values():
            res[("top", 0, 0, {v: k for k, v in TOP.items()}[n])] = t
            continue
        p = n.split(".")
        l, rest = int(p[2]), ".".join(p[3:])
        if rest in inv and not rest.startswith("mlp."):
            res[("layer", l, 0, inv[rest])] = t
        elif rest == "mlp.experts.gate_up_proj":
            for e in range(len(t)):
                res[("exp", l, e, "gate")], res[("exp", l, e, "up")] = t[e][:I], t[e][I:]
        elif rest == "mlp.experts.down_proj":
            for e in range(len(t)):
                res[("exp", l, e, "down")] = t[e]
        elif rest.startswith("mlp.experts."):
            res[("exp", l, int(p[5]), p[6].split("_")[0])] = t
        elif rest.startswith("mlp.shared_expert_gate"):
            res[("sgate", l, 0, "")] = t[0]
        elif rest.startswith("mlp.shared_expert"):
            res[("shared", l, 0, p[5].split("_")[0])] = t
        elif rest == "mlp.gate.weight":
            for e in range(len(t)):
                res[("gate", l, e, "")] = t[e]
        else:
            res[("other", l, 0, rest)] = t
    return res


def run(tmp, i, c, rng, mode="full"):
    from mergekit.moe.config import MoEMergeConfig
    from mergekit.options import MergeOptions
    from mergekit.scripts.moe import build

    models.fresh_loaders()
    root = "%s/%s" % (tmp, i)
    tie = rng.random() < 0.3
    dtype = rng.choice(["float32", "float16"])
    out_dtype = rng.choice(["", "float32", "float16", "bfloat16"]) if mode == "full" else ""
    if mode != "full":
        dtype = "float32"
    g = torch.Generator().manual_seed(rng.randint(0, 10**9))
    emb = torch.randint(-3, 4, (V, H), generator=g).float()

    def values(m, kind, l, p):
        if mode == "full":
            if p == "embed" and m == 0:
                return emb
            return number(m, kind, l, p) * pattern(p)
        if p == "embed":
            return emb
        if mode == "func" or m == 0:
            x = torch.randn(SHAPE[p], generator=g) * 0.4
            return x.abs() + 0.5 if p in ("in", "post", "qn", "kn", "norm") else x
        return torch.ones(SHAPE[p])

    paths = []
    td0 = None
    for m, ty in enumerate(c["types"]):
        paths.append("%s/m%d" % (root, m))
        td = source(paths[-1], m, ty, dtype, tie, values, rng)
        td0 = td0 or td
    bos = rng.random() < 0.7
    tokenizer(paths[0], bos)
    cfg = {"base_model": paths[0], "experts": [expert(e, paths, rng) for e in c["experts"]], "gate_mode": c["gate"], "experts_per_token": c["k"]}
    if c["k"] == 2 and rng.random() < 0.5:
        del cfg["experts_per_token"]  # two unless said otherwise
    if c["shared"]:
        cfg["shared_experts"] = [expert(e, paths, rng) for e in c["shared"]]
    if c["arch"]:
        cfg["architecture"] = rng.choice([c["arch"], c["arch"].capitalize()])
    if out_dtype:
        cfg["dtype"] = out_dtype
    h = {"c": c, "outcome": "ok", "arch": "", "full": mode == "full", "ws": [], "gates": [], "hs": [], "k": -1, "n": -1, "func": ""}
    err = None
    out = root + "/out"
    opts = rng.choice([{}, {}, {"out_shard_size": 2000}, {"clone_tensors": True}, {"safe_serialization": False}, {"lazy_unpickle": True}, {"async_write": True}])
    try:
        build(MoEMergeConfig.model_validate(cfg), out, MergeOptions(quiet=True, **opts), allow_all_same=c["same"], device="cpu")
    except SystemExit:
        h["outcome"] = "refused"
    except Exception as e:
        h["outcome"], err = "error", repr(e)[:300]
    if h["outcome"] == "ok":
        try:
            observe(h, c, out, paths, td0, tie, dtype, out_dtype, mode, bos)
        except Exception as e:
            h["outcome"], err = "unreadable", repr(e)[:300]
    shutil.rmtree(root, ignore_errors=True)
    return h, err


def observe(h, c, out, paths, td0, tie, dtype, out_dtype, mode, bos):
    oc = json.load(open(out + "/config.json"))
    h["arch"] = ARCHNAME.get(oc["architectures"][0], "?")
    h["k"] = oc.get("num_experts_per_tok", -1)
    h["n"] = oc.get("num_local_experts", oc.get("num_experts", oc.get("n_routed_experts", -1)))
    ts = read_moe(out, h["arch"], tie)
    want_t = out_dtype or dtype
    nm = len(c["types"])
    for (kind, l, e, part), t in ts.items():
        if kind in ("gate", "sgate"):
            h["gates"].append({"kind": kind, "l": l, "e": e, "part": part, "vec": [int(round(x * 1000)) for x in t.double().nan_to_num(9).tolist()]})
            continue
        if mode != "full":
            continue
        k0 = "top" if kind == "top" else "layer"
        rec = {"kind": kind, "l": l, "e": e, "part": part, "num": [0] * nm, "val": -1, "ok": False}
        if part in SHAPE:
            p2 = "embed" if (part == "head" and tie) else part
            if p2 == "embed":  # the base's embeddings hold the token vectors
                ref = td0[TOP["embed"]].double()
                rec["num"] = [1] + [0] * (nm - 1)
                same = t.shape == ref.shape and (t.double() - ref).abs().max().item() < 1e-6
                rec["val"] = 1000 if same else -1
                rec["ok"] = same
            else:
                rec["num"] = [number(m, k0, l, p2) if (kind == "top" or p2 in LAYER.get(ty, []) + MLP) else 0 for m, ty in enumerate(c["types"])]
                if t.shape == SHAPE[p2]:
                    r = t.double() / pattern(p2).double()
                    r0 = r.flatten()[0].item()
                    # formats other than float32 round
                    tol = 1e-4 if want_t == "float32" else 0.02
                    rec["ok"] = bool((r - r0).abs().max().item() <= tol * max(1, abs(r0)))
                    rec["val"] = int(round(r0 * 1000))
                    if want_t == "bfloat16":
                        snap(rec, c, kind, e)
            rec["ok"] = rec["ok"] and str(t.dtype) == "torch." + want_t
        h["ws"].append(rec)
    if c["gate"] != "random":
        h["hs"] = prompts(c, paths[0], td0, bos)
    if mode == "func":
        import transformers

        m = transformers.AutoModelForCausalLM.from_pretrained(out, dtype=torch.float32)
        b = transformers.AutoModelForCausalLM.from_pretrained(paths[0], dtype=torch.float32)
        ids = torch.tensor([[1, 3, 2, 7, 5, 4]])
        with torch.no_grad():
            d = (m(ids).logits - b(ids).logits).abs().max().item()
        h["func"] = "same" if d < 2e-3 else "different"


def snap(rec, c, kind, e):
    """bfloat16 keeps 8 bits: take the candidate within its rounding"""
    for n in rec["num"]:
        for s in [None] + [x["scale"] for x in c["experts"] + c["shared"]]:
            x = n * (s[0] / s[1] if s else 1.0)
            if abs(rec["val"] / 1000 - x) <= abs(x) / 200:
                # ambiguous neighbours are told apart by their distance
                if abs(torch.tensor(x).bfloat16().double().item() - rec["val"] / 1000) < 1e-3:
                    rec["val"] = int(round(x * 1000))
                    return


def prompts(c, path, td0, bos):
    """per layer and prompt: the prompt's vector"""
    ids = [([0] if bos else []) + [WORDS.index(w) for w in p.split()] for p in PROMPTS]
    if c["gate"] == "cheap_embed":
        emb = td0[TOP["embed"]].double()
        per = [[int(50 * x) for x in emb[torch.tensor(s)].sum(0).tolist()] for s in ids]
        return [per for _ in range(L)]
    import transformers

    m = transformers.AutoModelForCausalLM.from_pretrained(path, dtype=torch.float32)
    res = []
    with torch.no_grad():
        for s in ids:
            hs = m(torch.tensor([s]), output_hidden_states=True).hidden_states
            res.append([x[0, -1].double() for x in hs[:-1]])
    top = max(v.abs().max().item() for r in res for v in r)
    return [[[int(round(x * 900 / top)) for x in r[l].tolist()] for r in res] for l in range(L)]


def rnd(rng):
    ty = rng.choice(["llama", "llama", "mistral", "qwen2", "qwen3"])
    n = rng.choice([1, 2, 2, 3, 4, 11])
    gate = rng.choice(["random", "cheap_embed", "cheap_embed"])

    def ex(gated=True):
        pos = rng.sample([1, 2, 3, 4], rng.choice([1, 1, 2])) if gated else []
        neg = [p for p in rng.sample([1, 2, 3, 4], rng.choice([0, 0, 1, 2])) if p not in pos] if gated else []
        return {"m": rng.randint(1, 3), "pos": pos, "neg": neg, "scale": rng.choice([[], [], [1, 4], [1, 2], [2, 1], [0, 1]])}

    shared = []
    arch = ""
    if ty == "qwen2" or (ty != "qwen3" and rng.random() < 0.5):
        shared = [ex(rng.random() < 0.7 and gate != "random" or ty == "qwen2")]
    if ty in ("llama", "mistral"):
        arch = rng.choice(["", "", "deepseek", "mixtral", "qwen"])
    return {"types": [ty] * 3, "experts": [ex(gate != "random" or rng.random() < 0.5) for _ in range(n)], "shared": shared, "k": rng.randint(1, min(n, 3)),
            "gate": gate, "arch": arch, "same": True, "layers": L}


def check(c):
    import logging

    logging.disable(logging.CRITICAL)
    rng = random.Random(c.seed * 31 + 20)
    r = vlib.tlc("MCMoe", workers=8)
    c.add_tlc(r)
    emitted = [x["c"] for x in r.printed]
    cases = []
    with vlib.scratch() as tmp:
        # all kinds of decisions first
        kinds = {}
        for e in emitted:
            kinds.setdefault((tuple(e["types"]), len(e["shared"]), bool(e["shared"] and e["shared"][0]["pos"]), e["arch"], e["gate"] == "random"), []).append(e)
        picks = []
        for k in sorted(kinds):
            picks += rng.sample(kinds[k], c.pick(1, 12))
        rng.shuffle(picks)
        for i, e in enumerate(picks):
            if e["gate"] == "hidden":
                cases.append(run(tmp, "s%d" % i, e, rng, "hidden"))
            else:
                cases.append(run(tmp, "s%d" % i, e, rng))
        for i in range(c.pick(160, 3000)):
            cases.append(run(tmp, "r%d" % i, rnd(rng), rng))
        for i in range(c.pick(24, 400)):
            k = rnd(rng)
            if k["gate"] == "random":
                k["gate"] = "cheap_embed"
            k["gate"] = "hidden"
            cases.append(run(tmp, "h%d" % i, k, rng, "hidden"))
        for i in range(c.pick(12, 200)):
            ty = rng.choice(["llama", "mistral", "qwen3"])
            n = rng.randint(2, 4)
            e = {"m": 1, "pos": [], "neg": [], "scale": []}
            k = {"types": [ty] * 3, "experts": [e] * n, "shared": [], "k": rng.randint(1, n), "gate": "random", "arch": "", "same": True, "layers": L}
            cases.append(run(tmp, "f%d" % i, k, rng, "func"))
    logging.disable(logging.NOTSET)
    rej, tot = vlib.validate("VerdictMoe", [h for h, _ in cases], chunk=60)
    c.add_tlc(tot, impl=len(cases))
    c.sample({k: v for k, v in cases[0][0].items() if k != "ws"})
    c.sample({k: v for k, v in cases[-1][0].items() if k != "ws"})
    for x in rej:
        h, err = cases[x["h"]]
        bad = [w for w in h["ws"] if not w["ok"]][:3]
        c.violation(",".join(x["clauses"]), {"c": h["c"], "outcome": h["outcome"], "error": err, "arch": h["arch"], "bad": bad})
