"""P22: what a merge writes besides tensors (configuration, tokenizer, chat
template, companion files, card): spec/Companion.tla."""
import env  # noqa
import json
import os
import random
import shutil

import models
import vlib

TOKENS = ["<unk>", "a", "b", "c", "d", "e"]
BUILTIN = ["alpaca", "chatml", "exaone", "llama3", "mistral"]
TPL = [
    "",
    "{% for m in messages %}<one>{{ m['content'] }}{% endfor %}",
    "{% for m in messages %}<two>{{ m['content'] }}{% endfor %}",
]
LITERAL = "{% for m in messages %}<lit>{{ m['content'] }}{% endfor %}"
BAD = ["chatm", "ChatML", "{short}", "not a template at all, long", "{{ x }}", "chatml.jinja", " chatml"]
TOKFILES = ["tokenizer_config.json", "tokenizer.json", "special_tokens_map.json", "chat_template.jinja", "added_tokens.json", "merges.txt", "vocab.json", "tokenizer.model", "chat_template.json"]
KNOWN = set(TOKFILES) | {"config.json", "README.md", "mergekit_config.yml", "generation_config.json", "preprocessor_config.json", "normalizer.json"}
PRE = ["preprocessor_config.json", "normalizer.json"]


def put_tokenizer(path, i, tpl, rng):
    """the tokenizer of model i; its files can be told from those of the others"""
    t = TPL[tpl]
    if t and rng.random() < 0.5:
        t = rng.choice([" ", "\n", ""]) + t + rng.choice(["\n", "  ", "\n\n"])
    form = rng.choice(["jinja", "config", "named", "many"]) if t else ""
    models.write_tokenizer(path, TOKENS, chat=t if form == "jinja" else {"default": t, "tool_use": "{{ %d }}" % i} if form == "many" else None)
    p = path + "/tokenizer_config.json"
    d = json.load(open(p))
    d["marker"] = "of%d" % i
    if form == "config":
        d["chat_template"] = t
    elif form == "named":
        d["chat_template"] = [{"name": "default", "template": t}, {"name": "tool_use", "template": "{{ 1 }}"}]
    json.dump(d, open(p, "w"), indent=1)
    if rng.random() < 0.5:
        with open(path + "/special_tokens_map.json", "w") as f:
            json.dump({"unk_token": "<unk>"}, f, indent=i + 1)
    if rng.random() < 0.3:
        with open(path + "/vocab.json", "w") as f:
            json.dump({t: k for k, t in enumerate(TOKENS)}, f, indent=i + 1)
    d = json.load(open(path + "/tokenizer.json"))
    json.dump(d, open(path + "/tokenizer.json", "w"), indent=i)


def put_extra(path, i, kinds):
    if "gen" in kinds:
        json.dump({"max_length": 100 + i, "transformers_version": "5.0.0"}, open(path + "/generation_config.json", "w"))
    if "pre" in kinds:
        for f in PRE:
            json.dump({"feature_size": 100 + i}, open(path + "/" + f, "w"))


class Base:
    """weights made once, linked into the directories of the cases"""

    def __init__(self, root):
        self.root = root
        for i in (1, 2, 3):
            models.llama("%s/l%d" % (root, i), seed=i, layers=1, vocab=6)
        import p_tensors

        self.audio = {}
        for i in (1, 2, 3):
            kw = dict(
                d_model=4, encoder_layers=1, decoder_layers=1, encoder_attention_heads=1, decoder_attention_heads=1,
                encoder_ffn_dim=4, decoder_ffn_dim=4, num_mel_bins=2, max_source_positions=4, max_target_positions=4, vocab_size=6,
                pad_token_id=0, bos_token_id=0, eos_token_id=0, decoder_start_token_id=0, suppress_tokens=None, begin_suppress_tokens=None,
            )
            p_tensors.hf_model("WhisperForConditionalGeneration", kw, i, "%s/a%d" % (root, i))

    def put(self, path, i, audio):
        src = "%s/%s%d" % (self.root, "a" if audio else "l", i)
        os.makedirs(path)
        for f in os.listdir(src):
            if f.endswith(".safetensors"):
                os.link(src + "/" + f, path + "/" + f)
        d = json.load(open(src + "/config.json"))
        d["median_filter_width" if audio else "max_position_embeddings"] = 100 + i
        json.dump(d, open(path + "/config.json", "w"))


def template_of(out):
    import transformers

    try:
        t = transformers.AutoTokenizer.from_pretrained(out).chat_template
    except Exception:
        return 99
    if isinstance(t, dict):
        t = t.get("default")
    if not t:
        return 0
    t = t.strip()
    if t in TPL:
        return TPL.index(t)
    if t == LITERAL:
        return -2
    import mergekit._data.chat_templates as ct

    d = os.path.dirname(ct.__file__) if getattr(ct, "__file__", None) else list(ct.__path__)[0]
    return [n for n in BUILTIN if open("%s/%s.jinja" % (d, n)).read().strip() == t] or 99


def config_for(c, paths, rng, name, lit, bad):
    ref = {i: paths[i] for i in paths}
    way = rng.choice(["models", "slices"]) if c["arch"] == "" else "models"
    cfg = {"merge_method": "linear" if c["base"] == 0 or rng.random() < 0.5 else "task_arithmetic"}
    ins = [{"model": ref[i], "parameters": {"weight": 1.0}} for i in c["order"]]
    if c["base"] and c["base"] not in c["order"] and cfg["merge_method"] == "linear":
        cfg["merge_method"] = "task_arithmetic"
    if way == "slices":
        for x in ins:
            x["layer_range"] = [0, 1]
        if c["base"] and c["base"] not in c["order"]:
            way = "models"
            for x in ins:
                del x["layer_range"]
    if way == "slices":
        cfg["slices"] = [{"sources": ins}]
    else:
        cfg["models"] = ins
    if c["base"]:
        cfg["base_model"] = ref[c["base"]]
    if c["source"]:
        s = {-1: "union", -2: "base"}.get(c["source"]) or ref[c["source"]]
        if rng.random() < 0.5:
            cfg["tokenizer_source"] = s
        else:
            cfg["tokenizer"] = {"source": s}
    if c["chat"]:
        cfg["chat_template"] = {"auto": "auto", "name": name, "text": lit, "bad": bad}[c["chat"]]
    return cfg


def cli_run(cfg, out, c, where):
    import yaml
    from click.testing import CliRunner

    from mergekit.scripts import run_yaml

    with open(where, "w") as f:
        yaml.safe_dump(cfg, f)
    models.fresh_loaders()
    r = CliRunner().invoke(
        run_yaml.main,
        [where, out, "--quiet", "--copy-tokenizer" if c["copy"] else "--no-copy-tokenizer", "--write-model-card" if c["card"] else "--no-write-model-card"],
    )
    return None if r.exit_code == 0 else repr(r.exception)[:300]


def listing(p):
    return {os.path.relpath(os.path.join(d, f), p) for d, _, fs in os.walk(p) for f in fs}


def tokfiles(files):
    return {f for f in files if f in TOKFILES or f.startswith("additional_chat_templates/")}


def identical(a, b):
    try:
        return open(a, "rb").read() == open(b, "rb").read()
    except OSError:
        return False


def case(base, tmp, i, c, rng):
    root = "%s/k%d" % (tmp, i)
    os.makedirs(root)
    audio = c["arch"] == "audio"
    used = set(c["order"]) | ({c["base"]} - {0})
    paths = {}
    for m in used:
        p = paths[m] = "%s/m%d" % (root, m)
        base.put(p, m, audio)
        if c["tok"][m - 1]:
            put_tokenizer(p, m, c["tpl"][m - 1], rng)
        put_extra(p, m, c["extra"][m - 1])
    name, bad = rng.choice(BUILTIN), rng.choice(BAD)
    cfg = config_for(c, paths, rng, name, LITERAL, bad)
    out = root + "/out"
    over = "tok" if rng.random() < 0.25 else ""
    if over:  # the directory holds another model's merge
        p = root + "/old"
        base.put(p, 1 + rng.randint(0, 2), audio)
        put_tokenizer(p, 9, rng.randint(0, 2), rng)
        put_extra(p, 9, ["gen", "pre"] if audio else ["gen"])
        over = "yes" if models.merge({"merge_method": "linear", "models": [{"model": p, "parameters": {"weight": 1}}]}, out, copy_tokenizer=True, write_model_card=True).error is None else ""
    before = {p: snap(p) for p in paths.values()}
    if rng.random() < 0.2:
        err = cli_run(cfg, out, c, root + "/c.yml")
    else:
        o = models.merge(cfg, out, copy_tokenizer=c["copy"], write_model_card=c["card"], async_write=rng.random() < 0.2)
        err = o.error
    donor = paths[c["base"] or c["order"][0]]
    h = {"c": c, "outcome": "error" if err else "ok", "there": [], "same": [], "tpl": 99, "conf": 0, "other": False, "over": bool(over), "touched": any(snap(p) != s for p, s in before.items())}
    if not err:
        files = listing(out)
        h["other"] = any(f not in KNOWN and f not in tokfiles(files) and not f.startswith("model") for f in files) or ("mergekit_config.yml" in files) != ("README.md" in files)
        if "config.json" in files:
            h["there"].append("config")
            d = json.load(open(out + "/config.json"))
            h["conf"] = d.get("median_filter_width" if audio else "max_position_embeddings", 0) - 100
        if "tokenizer.json" in files:
            h["there"].append("tok")
            t = template_of(out)
            h["tpl"] = (-1 if name in t else 99) if isinstance(t, list) else t
        elif tokfiles(files):
            h["other"] = True
        if "README.md" in files:
            h["there"].append("card")
        if "generation_config.json" in files:
            h["there"].append("gen")
            if identical(out + "/generation_config.json", donor + "/generation_config.json"):
                h["same"].append("gen")
        if files & set(PRE):
            h["there"].append("pre")
            if all(identical(out + "/" + f, donor + "/" + f) for f in PRE):
                h["same"].append("pre")
        theirs = tokfiles(listing(donor))
        if (over or theirs == tokfiles(files)) and all(identical(out + "/" + f, donor + "/" + f) for f in theirs):
            h["same"].append("tok")
    shutil.rmtree(root)
    return h, {"error": err, "cfg": cfg}


def snap(p):
    return sorted((f, os.stat(p + "/" + f).st_mtime_ns, os.path.getsize(p + "/" + f)) for f in listing(p))


def rnd_audio(rng):
    tok = rng.choice([[True] * 3, [False] * 3, [True, False, True]])
    return {
        "n": 3,
        "order": rng.choice([[1], [1, 2], [2, 1, 3], [3, 1]]),
        "base": rng.choice([0, 0, 1, 2]),
        "tok": tok,
        "tpl": [rng.randint(0, 2) if t else 0 for t in tok],
        "extra": [rng.choice([[], ["gen"], ["pre"], ["pre", "gen"]]) for _ in range(3)],
        "arch": "audio",
        "source": 0,
        "chat": rng.choice(["", "", "auto", "text"]),
        "copy": rng.random() < 0.7,
        "card": rng.random() < 0.5,
    }


def check(c):
    import logging

    import transformers

    logging.disable(logging.CRITICAL)
    transformers.logging.set_verbosity_error()
    transformers.logging.disable_progress_bar()
    rng = random.Random(c.seed * 37 + 5)
    r = vlib.tlc("MCCompanion", workers=8)
    c.add_tlc(r)
    allc = [x["c"] for x in r.printed]
    pick = []
    for chat in ("auto", "", "name", "text", "bad"):
        for src in (True, False):
            part = [x for x in allc if x["chat"] == chat and (x["source"] != 0) == src]
            part.sort(key=lambda x: json.dumps(x, sort_keys=True))
            pick += rng.sample(part, min(len(part), c.pick(60 if chat == "auto" else 30, 700)))
    cases = []
    with vlib.scratch() as tmp:
        base = Base(tmp)
        for i, k in enumerate(pick):
            cases.append(case(base, tmp, i, k, rng))
        for i in range(c.pick(60, 900)):
            cases.append(case(base, tmp, 10**6 + i, rnd_audio(rng), rng))
    logging.disable(logging.NOTSET)
    rej, tot = vlib.validate("VerdictCompanion", [h for h, _ in cases], chunk=4000)
    c.add_tlc(tot, impl=len(cases))
    c.sample(cases[0][0])
    c.sample(cases[-1][0])
    for x in rej:
        h, err = cases[x["h"]]
        c.violation(",".join(x["clauses"]), {"h": h, "error": err})
