"""P10: every tensor of the sources ends up in the merge: spec/Presence.tla.

(a) synthetic checkpoints of known architectures holding tensors under random
    subsets of their possible names (classes enumerated by TLC);
(b) checkpoints of architectures nobody has described, with arbitrary names;
(c) real tiny models of many architectures, saved, merged and loaded again by
    Transformers."""
import env  # noqa
import json
import os
import random
import re
import shutil

import torch

import models
import vlib

TABLES = json.load(open(vlib.VERIF + "/data/arch_tables.json"))


def weight_list(arch):
    """weights by name; the same weight may be part of two modules"""
    seen = {}
    for w in TABLES[arch]["weights"]:
        seen.setdefault(w["name"], w)
    return list(seen.values())


def names_of(w):
    return [w["name"]] + w["aliases"] + w["tied"]


METHODS = ["linear", "linear", "slerp", "nuslerp", "multislerp", "karcher"]


def config(me, paths, rng):
    ms = [{"model": p} for p in paths]
    cfg = {"merge_method": me, "dtype": "float32", "models": ms}
    if me in ("linear", "nuslerp", "multislerp"):
        wt = rng.choice([1.0, 0.5])
        for m in ms:
            m["parameters"] = {"weight": wt}
    if me == "slerp":
        cfg["base_model"] = paths[0]
        cfg["parameters"] = {"t": 0.5}
    return cfg


def write_model(path, conf, td, rng):
    os.makedirs(path)
    with open(path + "/config.json", "w") as f:
        json.dump(conf, f)
    fmt = rng.choice(["safetensors", "safetensors", "bin"])
    models.write_checkpoint(path, td, shards=rng.choice([1, 1, 2]) if len(td) > 2 else 1, fmt=fmt)


def observe(t):
    """-> the number all elements have, or None"""
    d = t.double().flatten()
    if not len(d):
        return None
    v = d[0].item()
    if not (d - v).abs().max().item() < 0.1 or not abs(v - round(v)) < 0.1:
        return None
    return int(round(v))


def judge(ws, o, alltensors):
    """weights [(opt, names, na, nt, held per model, num per model)] -> run"""
    run = {"ws": [], "out": [], "outcome": "error" if o.error else "ok", "extra": 0}
    canon = set()
    for opt, names, na, nt, held, num in ws:
        run["ws"].append({"opt": opt, "na": na, "nt": nt, "held": held, "num": num})
        canon.add(names[0])
        e = {"p": False, "v": [-1, 1]}
        if names[0] in o.tensors:
            v = observe(o.tensors[names[0]])
            e = {"p": True, "v": [-1 if v is None else v, 1]}
        run["out"].append(e)
    run["extra"] = len([n for n in o.tensors if n not in canon])
    return run


def synthetic(rng, tmp, i, classes, chosen=None):
    arch = rng.choice(sorted(TABLES))
    ws = weight_list(arch)
    ids = {}
    for w in ws:
        for n in names_of(w):
            ids.setdefault(n, len(ids) + 1)
    me = rng.choice(METHODS)
    nm = 2 if me in ("slerp", "nuslerp") else rng.choice([2, 3])
    own = [n for w in ws for n in [w["name"]] + w["aliases"]]
    # whose tensor may be missing
    hole = rng.choice(ws)["name"] if rng.random() < 0.3 else None
    held = [set() for _ in range(nm)]
    lacking = rng.random() < 0.3
    for w in ws:
        na = len(w["aliases"])
        pool = classes.get((w["opt"], min(na, 1), 0), [])
        for m in range(nm):
            if w["opt"]:
                ps = rng.choice([[], [1], [1]] if not na else [[], [1], list(range(1, na + 2))])
                if lacking:
                    ps = []
            elif na:
                c = rng.choice(pool)
                h = rng.choice(c["held"])
                ps = sorted({1 if p == 1 else rng.randint(2, 1 + na) for p in h})
                if not ps and w["name"] != hole:
                    ps = [rng.randint(1, 1 + na)]
            else:
                ps = [] if w["name"] == hole and rng.random() < 0.5 else [1]
            for p in ps:
                held[m].add(names_of(w)[p - 1])
    num = lambda m, n: 6 * (3 * ids[n] + m)
    root = "%s/a%s" % (tmp, i)
    paths = []
    for m in range(nm):
        td = {}
        for w in ws:
            for n in names_of(w):
                if n in held[m]:
                    td[n] = torch.full((2, 2), num(m, n), dtype=torch.int64 if w["int"] else torch.float32)
        conf = dict(TABLES[arch]["config"])
        write_model("%s/m%d" % (root, m), conf, td, rng)
        paths.append("%s/m%d" % (root, m))
    isint = any(w["int"] and any(n in h for n in names_of(w) for h in held) for w in ws)
    if isint and me != "linear":
        me = "linear"
    o = models.merge(config(me, paths, rng), root + "/out", multi_gpu=False)
    shutil.rmtree(root, ignore_errors=True)
    lst = []
    for w in ws:
        ns = names_of(w)
        lst.append(
            (
                w["opt"],
                ns,
                len(w["aliases"]),
                len(w["tied"]),
                [[p + 1 for p, n in enumerate(ns) if n in held[m]] for m in range(nm)],
                [[num(m, n) for n in ns] for m in range(nm)],
            )
        )
    return judge(lst, o, None), {"arch": arch, "method": me, "names": [w["name"] for w in ws], "error": o.error}, None


PARTS = ["h", "layers", "block", "mixer", "enc.h", "dec.h", "vision.blocks"]


def unknown(rng, tmp, i):
    """an architecture known to nobody: every name is optional"""
    names = set()
    pre = rng.sample(PARTS, rng.choice([1, 1, 2, 3]))
    for p in pre:
        for l in range(rng.randint(1, 3)):
            for k in rng.sample(["w.weight", "a.bias", "norm.weight", "e.0.w", "e.1.w"], rng.randint(1, 4)):
                names.add("%s.%d.%s" % (p, l, k))
        if rng.random() < 0.5:
            names.add(p + rng.choice(["ead.weight", ".norm.weight", "_out.bias"]))
    for k in rng.sample(["emb.weight", "head.weight", "norm.bias", "wte.weight"], rng.randint(0, 3)):
        names.add(k)
    names = sorted(names)
    me = rng.choice(METHODS)
    nm = 2 if me in ("slerp", "nuslerp") else rng.choice([2, 3])
    num = lambda m, k: 6 * (3 * (k + 1) + m)
    drop = rng.random() < 0.4
    held = []
    for m in range(nm):
        h = [n for n in names if not (drop and rng.random() < 0.2)]
        held.append(h or [names[0]])
    names = [n for n in names if any(n in h for h in held)]
    root = "%s/u%s" % (tmp, i)
    paths = []
    mt = rng.choice(["gpt2", "llama", "bert", "foo"])
    for m in range(nm):
        conf = {"architectures": ["FooForThings"], "model_type": mt, "num_hidden_layers": 2}
        write_model("%s/m%d" % (root, m), conf, {n: torch.full((2, 2), float(num(m, k))) for k, n in enumerate(names) if n in held[m]}, rng)
        paths.append("%s/m%d" % (root, m))
    o = models.merge(config(me, paths, rng), root + "/out")
    shutil.rmtree(root, ignore_errors=True)
    if mt == "foo" and o.error and "foo" in o.error:
        return None  # such a config cannot even be opened
    lst = [(True, [n], 0, 0, [[1] if n in held[m] else [] for m in range(nm)], [[num(m, k)] for m in range(nm)]) for k, n in enumerate(names)]
    return judge(lst, o, None), {"arch": "unknown:" + mt, "method": me, "names": names, "error": o.error}, None


def mixed(rng, tmp, i):
    """sources of different architectures are refused unless forced"""
    a, b = rng.sample(["LlamaForCausalLM", "GPT2LMHeadModel", "GPTNeoXForCausalLM", "PhiForCausalLM"], 2)
    root = "%s/x%s" % (tmp, i)
    paths = []
    for m, arch in enumerate([a, b]):
        td = {n: torch.full((2, 2), 1.0) for x in (a, b) for w in weight_list(x) for n in [w["name"]]}
        write_model("%s/m%d" % (root, m), TABLES[arch]["config"], td, rng)
        paths.append("%s/m%d" % (root, m))
    o = models.merge(config("linear", paths, rng), root + "/out")
    shutil.rmtree(root, ignore_errors=True)
    # a refused merge is one whose required weight is missing from one model
    run = {"ws": [{"opt": False, "na": 0, "nt": 0, "held": [[1], []], "num": [[1], [1]]}], "out": [{"p": True, "v": [1, 1]}], "outcome": "error" if o.error else "ok", "extra": 0}
    return run, {"arch": a + "+" + b, "method": "linear", "names": [], "error": o.error}, None


SMALL = dict(
    hidden_size=16, intermediate_size=16, num_hidden_layers=2, num_attention_heads=2, num_key_value_heads=2, vocab_size=12,
    n_embd=16, n_layer=2, n_head=2, n_inner=16, d_model=16, d_ff=16, d_kv=8, num_layers=2, num_heads=2, dim=16, hidden_dim=16,
    n_layers=2, n_heads=2, head_dim=8, max_position_embeddings=32, num_experts=2, num_local_experts=2, n_routed_experts=2,
    num_experts_per_tok=1, moe_intermediate_size=8, pad_token_id=0, bos_token_id=0, eos_token_id=0, encoder_layers=2,
    decoder_layers=2, encoder_attention_heads=2, decoder_attention_heads=2, encoder_ffn_dim=16, decoder_ffn_dim=16,
    max_source_positions=16, max_target_positions=16, num_mel_bins=4, n_group=1, topk_group=1, state_size=4, depth=2, embed_dim=16,
)
OVER = {
    "GraniteMoeHybridForCausalLM": dict(mamba_n_heads=2, mamba_d_head=16, mamba_n_groups=1, mamba_d_state=4, shared_intermediate_size=8, layer_types=["mamba", "attention"]),
    "Lfm2ForCausalLM": dict(layer_types=["conv", "full_attention"]),
    "AfmoeForCausalLM": dict(num_dense_layers=1),
    "Glm4MoeForCausalLM": dict(first_k_dense_replace=1),
    "T5ForConditionalGeneration": dict(feed_forward_proj="gated-gelu"),
}
TIED, UNTIED = dict(tie_word_embeddings=True), dict(tie_word_embeddings=False)
AB, MB = dict(attention_bias=True), dict(mlp_bias=True)
# architectures mergekit describes itself, with the variants it accepts
REAL = [(a, {}) for a in """AfmoeForCausalLM ArceeForCausalLM BertForMaskedLM BertForMultipleChoice
BertForSequenceClassification BertForTokenClassification BertModel Cohere2ForCausalLM CohereForCausalLM DeepseekV3ForCausalLM
DistilBertForMaskedLM DistilBertForSequenceClassification DistilBertForTokenClassification GPT2ForSequenceClassification
GPT2LMHeadModel GPTBigCodeForCausalLM GPTNeoXForCausalLM Gemma2ForCausalLM Gemma3ForCausalLM GemmaForCausalLM Glm4ForCausalLM
Glm4MoeForCausalLM GptOssForCausalLM GraniteForCausalLM GraniteMoeHybridForCausalLM Lfm2ForCausalLM
LlamaForCausalLM LlamaForSequenceClassification MambaForCausalLM Mistral3ForConditionalGeneration MistralForCausalLM
MixtralForCausalLM Olmo2ForCausalLM Phi3ForCausalLM PhiForCausalLM Qwen2ForCausalLM Qwen2VLForConditionalGeneration
Qwen2_5_VLForConditionalGeneration Qwen3ForCausalLM Qwen3MoeForCausalLM Qwen3VLForConditionalGeneration
Qwen3VLMoeForConditionalGeneration RobertaForMaskedLM RobertaForSequenceClassification RobertaForTokenClassification
StableLmForCausalLM Starcoder2ForCausalLM T5ForConditionalGeneration WhisperForConditionalGeneration""".split()]
REAL += [
    ("GemmaForCausalLM", UNTIED), ("GemmaForCausalLM", AB), ("Gemma2ForCausalLM", AB), ("Gemma3ForCausalLM", AB),
    ("DeepseekV3ForCausalLM", dict(first_k_dense_replace=1)), ("Qwen2ForCausalLM", TIED), ("Qwen3ForCausalLM", AB),
    ("Qwen3MoeForCausalLM", AB), ("Qwen3MoeForCausalLM", TIED), ("Olmo2ForCausalLM", AB), ("Olmo2ForCausalLM", TIED),
    ("StableLmForCausalLM", dict(use_qkv_bias=True)), ("StableLmForCausalLM", dict(qk_layernorm=True)),
    ("PhiForCausalLM", dict(qk_layernorm=True)), ("CohereForCausalLM", dict(use_qk_norm=True)), ("CohereForCausalLM", AB),
    ("Cohere2ForCausalLM", AB), ("GraniteForCausalLM", AB), ("GraniteForCausalLM", MB), ("Glm4ForCausalLM", AB),
    ("Glm4MoeForCausalLM", AB), ("Glm4MoeForCausalLM", dict(use_qk_norm=True)), ("MambaForCausalLM", dict(use_bias=True)),
    ("MambaForCausalLM", dict(use_conv_bias=False)), ("MambaForCausalLM", UNTIED), ("GPT2LMHeadModel", UNTIED),
    ("GPT2LMHeadModel", dict(add_cross_attention=True)), ("GPTBigCodeForCausalLM", dict(multi_query=False)),
    ("MistralForCausalLM", TIED), ("MixtralForCausalLM", TIED), ("MixtralForCausalLM", dict(num_local_experts=3)),
    ("T5ForConditionalGeneration", dict(feed_forward_proj="gated-gelu", tie_word_embeddings=False)),
    ("Lfm2ForCausalLM", dict(conv_bias=True)), ("GraniteMoeHybridForCausalLM", AB), ("ArceeForCausalLM", AB), ("ArceeForCausalLM", MB),
    ("LlamaForCausalLM", AB), ("LlamaForCausalLM", MB), ("LlamaForCausalLM", TIED), ("LlamaForSequenceClassification", dict(num_labels=3)),
    ("BertForSequenceClassification", dict(num_labels=3)), ("WhisperForConditionalGeneration", UNTIED),
    ("MixtralForCausalLM", dict(num_local_experts=12)), ("Qwen3MoeForCausalLM", dict(num_experts=12)),
    ("DeepseekV3ForCausalLM", dict(n_routed_experts=12, first_k_dense_replace=1)), ("AfmoeForCausalLM", dict(num_experts=12, num_dense_layers=1)),
    ("Glm4MoeForCausalLM", dict(n_routed_experts=12, first_k_dense_replace=1)), ("LlamaForCausalLM", dict(num_hidden_layers=12)),
    ("AfmoeForCausalLM", dict(num_dense_layers=0)), ("AfmoeForCausalLM", dict(num_shared_experts=0)),
]
# architectures that are inferred
INFER = [(a, {}) for a in """BloomForCausalLM OPTForCausalLM OlmoForCausalLM Qwen2MoeForCausalLM BartForConditionalGeneration
MBartForConditionalGeneration ElectraForMaskedLM DebertaV2ForMaskedLM AlbertForMaskedLM XLMRobertaForMaskedLM ViTForImageClassification
CLIPModel NemotronForCausalLM GraniteMoeForCausalLM RecurrentGemmaForCausalLM PhimoeForCausalLM JambaForCausalLM SmolLM3ForCausalLM
Exaone4ForCausalLM Ernie4_5ForCausalLM GPTJForCausalLM CodeGenForCausalLM PersimmonForCausalLM BioGptForCausalLM XGLMForCausalLM
M2M100ForConditionalGeneration PegasusForConditionalGeneration Speech2TextForConditionalGeneration Wav2Vec2ForCTC
LlavaForConditionalGeneration PaliGemmaForConditionalGeneration Idefics3ForConditionalGeneration SiglipModel ModernBertForMaskedLM
RwkvForCausalLM OlmoeForCausalLM Olmo3ForCausalLM HunYuanDenseV1ForCausalLM Qwen3NextForCausalLM MiniMaxForCausalLM
SeedOssForCausalLM DeepseekV2ForCausalLM LongT5ForConditionalGeneration MT5ForConditionalGeneration LEDForConditionalGeneration
BigBirdForMaskedLM FalconMambaForCausalLM FalconH1ForCausalLM HeliumForCausalLM DiffLlamaForCausalLM NemotronHForCausalLM
Gemma4ForCausalLM""".split()]
INFER += [("OPTForCausalLM", dict(word_embed_proj_dim=8)), ("OPTForCausalLM", UNTIED), ("Qwen2MoeForCausalLM", TIED),
          ("Qwen2MoeForCausalLM", dict(num_experts=12)), ("OlmoeForCausalLM", dict(num_experts=12)), ("OlmoForCausalLM", AB)]


def hf_model(arch, variant, k, path):
    import transformers

    cls = getattr(transformers, arch)
    cc = cls.config_class
    kw = dict(SMALL)
    kw.update(OVER.get(arch, {}))
    sub = getattr(cc, "sub_configs", {})
    if sub:
        kw = {}
        for s in sub:
            kw[s] = dict(SMALL)
            if "vision" in s:
                kw[s].pop("head_dim")
    kw.update(variant)
    m = cls(cc(**kw))
    with torch.no_grad():
        seen, i = set(), 0
        for n, t in m.state_dict().items():
            if t.numel() and t.data_ptr() in seen:
                continue
            seen.add(t.data_ptr())
            i += 1
            if not t.is_floating_point():
                continue
            if stacked(n, t):  # one tensor per expert in the checkpoint
                for e in range(len(t)):
                    t[e].fill_(i + e + 20000 * k)
                i += len(t)
            else:
                t.fill_(i + 20000 * k)
    m.save_pretrained(path)
    sd = cls.from_pretrained(path).state_dict()
    return cls, {n: t.clone() for n, t in sd.items()}


def stacked(n, t):
    return t.ndim == 3 and "expert" in n


def parts(sd):
    """weights to be judged on their own: experts are looked at one by one"""
    r = {}
    for n, t in sd.items():
        if stacked(n, t):
            for e in range(len(t)):
                r["%s[%d]" % (n, e)] = t[e]
        else:
            r[n] = t
    return r


def constant(t):
    d = t.double().flatten()
    if not len(d) or not (d == d[0]).all() or 2 * d[0].item() % 1:
        return None
    return int(2 * d[0].item())


def real(rng, tmp, i, arch, variant, deep=False):
    import transformers

    transformers.utils.logging.disable_progress_bar()
    root = "%s/r%s" % (tmp, i)
    nm = 2
    sds = []
    try:
        for k in range(nm):
            cls, sd = hf_model(arch, variant, k, "%s/m%d" % (root, k))
            sds.append(sd)
    except Exception as e:
        raise vlib.MachineryError("cannot build %s %s: %r" % (arch, variant, e))
    paths = ["%s/m%d" % (root, k) for k in range(nm)]
    me = rng.choice(METHODS) if deep and not any(not t.is_floating_point() for t in sds[0].values()) else "linear"
    kw = {}
    if deep:
        kw = rng.choice([{}, {"shard": 3000}, {"lazy_unpickle": True}, {"async_write": True}, {"low_cpu_memory": True}])
    o = models.merge(config(me, paths, rng), root + "/out", **kw)
    out = {}
    if not o.error:
        try:
            out = cls.from_pretrained(root + "/out").state_dict()
        except Exception as e:
            o.error = "merged model does not load: %r" % e
    run = {"ws": [], "out": [], "outcome": "error" if o.error else "ok", "extra": 0}
    names = []
    sds, out = [parts(sd) for sd in sds], parts(out)
    for n in sds[0]:
        cs = [constant(sd[n]) for sd in sds]
        if None in cs:
            continue  # not a constant parameter (a computed buffer)
        names.append(n)
        run["ws"].append({"opt": False, "na": 0, "nt": 0, "held": [[1]] * nm, "num": [[c] for c in cs]})
        e = {"p": n in out, "v": [-1, 1]}
        if n in out and out[n].shape == sds[0][n].shape:
            d = out[n].double().flatten()
            v = 2 * d[0].item()
            if (d - d[0]).abs().max().item() < 0.01 and abs(v - round(v)) < 0.02:
                e["v"] = [int(round(v)), 1]
        run["out"].append(e)
    shutil.rmtree(root, ignore_errors=True)
    key = arch + "".join(":%s=%s" % kv for kv in sorted(variant.items()))
    return run, {"arch": arch, "variant": variant, "method": me, "names": names, "error": o.error}, key


def check(c):
    rng = random.Random(c.seed * 31 + 10)
    r = vlib.tlc("MCPresence", workers=8)
    c.add_tlc(r)
    if c.thorough:
        cfg = open(vlib.SPEC + "/MCPresence.cfg").read()
        cfg = cfg.replace("NModels = 2", "NModels = 3").replace("EMIT = TRUE", "EMIT = FALSE")
        c.add_tlc(vlib.tlc("MCPresence", cfg, workers=8))
    classes = {}
    for p in r.printed:
        w = p["w"]
        classes.setdefault((w["opt"], w["na"], w["nt"]), []).append(w)
    cases = []
    with vlib.scratch() as tmp:
        for i in range(c.pick(150, 3000)):
            cases.append(synthetic(rng, tmp, i, classes))
        for i in range(c.pick(60, 1000)):
            x = unknown(rng, tmp, i)
            if x:
                cases.append(x)
        for i in range(c.pick(4, 40)):
            cases.append(mixed(rng, tmp, i))
        for rep in range(c.pick(1, 6)):
            for i, (a, v) in enumerate(REAL + INFER):
                cases.append(real(rng, tmp, "%d_%d" % (rep, i), a, v, deep=rep > 0))
        if c.thorough:
            cases.append(real(rng, tmp, "l4", "Llama4ForConditionalGeneration", {}))
    rej, tot = vlib.validate("VerdictPresence", [x[0] for x in cases], chunk=200)
    c.add_tlc(tot, impl=len(cases))
    c.sample(cases[0][1])
    c.sample(cases[-1][1])
    for x in rej:
        run, info, key = cases[x["h"]]
        bad = [info["names"][i] for i in range(min(len(run["ws"]), len(info["names"]))) if not good(run["ws"][i], run["out"][i])]
        d = dict(info)
        d["names"] = bad[:8]
        fam = None
        if key:
            fam = key + ":" + ",".join(sorted(x["clauses"])) + ":" + ",".join(sorted({_tail(n) for n in bad}))
        c.violation("%s: %s" % (info["arch"], ",".join(x["clauses"])), {"info": d, "outcome": run["outcome"]}, key=fam)


def _tail(n):
    n = re.sub(r"\[\d+\]", "", n)
    return ".".join("N" if p.isdigit() else p for p in n.split("."))


def good(w, o):
    """only to name the offending weights in a report"""
    if w["opt"]:
        return True
    vals = [w["num"][m][min(h) - 1] for m, h in enumerate(w["held"]) if h]
    return o["p"] and vals and o["v"][0] * len(vals) == sum(vals) * o["v"][1]
