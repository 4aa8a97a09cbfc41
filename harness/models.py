"""Tiny model directories and whole-merge runs, read back without using the
code under test."""
import env  # noqa
import glob
import hashlib
import json
import os
import random
import shutil

import torch
from safetensors import safe_open
from safetensors.torch import save_file


def llama_names(layers, tie=False):
    pre = ["model.embed_tokens.weight"]
    lay = [
        "input_layernorm.weight",
        "self_attn.q_proj.weight",
        "self_attn.k_proj.weight",
        "self_attn.v_proj.weight",
        "self_attn.o_proj.weight",
        "post_attention_layernorm.weight",
        "mlp.up_proj.weight",
        "mlp.gate_proj.weight",
        "mlp.down_proj.weight",
    ]
    post = ["model.norm.weight"] + ([] if tie else ["lm_head.weight"])
    return (
        pre
        + ["model.layers.%d.%s" % (i, n) for i in range(layers) for n in lay]
        + post
    )


def llama_config(layers=2, vocab=6, hidden=2, tie=False, dtype="float32", **kw):
    d = dict(
        architectures=["LlamaForCausalLM"],
        model_type="llama",
        hidden_size=hidden,
        intermediate_size=hidden,
        num_hidden_layers=layers,
        num_attention_heads=1,
        num_key_value_heads=1,
        vocab_size=vocab,
        torch_dtype=dtype,
        tie_word_embeddings=tie,
    )
    d.update(kw)
    return d


def dyadic(rng, shape, lo=-8, hi=8, den=4):
    n = 1
    for s in shape:
        n *= s
    return torch.tensor(
        [rng.randint(lo, hi) / den for _ in range(n)], dtype=torch.float32
    ).reshape(shape)


def llama(
    path,
    seed=0,
    layers=2,
    vocab=6,
    hidden=2,
    tie=False,
    tokenizer=None,
    values=None,
    dtype=torch.float32,
    shards=1,
    fmt="safetensors",
    chat=None,
    cfg=None,
    names=None,
):
    """values: optional callable(name, shape) -> tensor"""
    os.makedirs(path, exist_ok=True)
    rng = random.Random(seed)
    conf = llama_config(
        layers, vocab, hidden, tie, dtype=str(dtype).replace("torch.", "")
    )
    conf.update(cfg or {})
    with open(path + "/config.json", "w") as f:
        json.dump(conf, f)
    td = {}
    for n in names or llama_names(layers, tie):
        if "norm" in n:
            shape = (hidden,)
        elif n in ("model.embed_tokens.weight", "lm_head.weight"):
            shape = (vocab, hidden)
        else:
            shape = (hidden, hidden)
        v = values(n, shape) if values else dyadic(rng, shape)
        if v is not None:
            td[n] = v.to(dtype)
    write_checkpoint(path, td, shards=shards, fmt=fmt)
    if tokenizer is not None:
        write_tokenizer(path, tokenizer, chat=chat)
    return td


def write_checkpoint(path, td, shards=1, fmt="safetensors", order=None):
    os.makedirs(path, exist_ok=True)
    names = order or list(td)
    if shards == 1:
        if fmt == "safetensors":
            save_file(
                {k: td[k].contiguous() for k in names},
                path + "/model.safetensors",
                metadata={"format": "pt"},
            )
        else:
            torch.save({k: td[k] for k in names}, path + "/pytorch_model.bin")
        return
    wm = {}
    per = [names[i::shards] for i in range(shards)]
    for i, part in enumerate(per):
        if fmt == "safetensors":
            fn = "model-%05d-of-%05d.safetensors" % (i + 1, shards)
            save_file(
                {k: td[k].contiguous() for k in part},
                path + "/" + fn,
                metadata={"format": "pt"},
            )
        else:
            fn = "pytorch_model-%05d-of-%05d.bin" % (i + 1, shards)
            torch.save({k: td[k] for k in part}, path + "/" + fn)
        for k in part:
            wm[k] = fn
    idx = (
        "model.safetensors.index.json"
        if fmt == "safetensors"
        else "pytorch_model.bin.index.json"
    )
    with open(path + "/" + idx, "w") as f:
        json.dump({"metadata": {"total_size": 0}, "weight_map": wm}, f)


def write_tokenizer(path, tokens, chat=None, added=(), special=(), bpe=False):
    """word-level tokenizer with the given tokens at ids 0.. ; `tokens` may be
    a list or a dict token -> id."""
    import tokenizers
    from tokenizers import Tokenizer
    from tokenizers.models import BPE, WordLevel
    from tokenizers.pre_tokenizers import Whitespace
    from transformers import PreTrainedTokenizerFast

    vocab = tokens if isinstance(tokens, dict) else {t: i for i, t in enumerate(tokens)}
    unk = min(vocab, key=lambda t: vocab[t])
    if bpe:  # longer tokens are merges of the others
        merges = [
            (t[:k], t[k:])
            for t in sorted(vocab, key=lambda t: vocab[t])
            for k in range(1, len(t))
            if t[:k] in vocab and t[k:] in vocab
        ]
        tk = Tokenizer(BPE(vocab=dict(vocab), merges=merges, unk_token=unk))
    else:
        tk = Tokenizer(WordLevel(vocab=dict(vocab), unk_token=unk))
    tk.pre_tokenizer = Whitespace()
    for a in added:
        tk.add_tokens([a])
    for a in special:
        tk.add_special_tokens([a])
    t = PreTrainedTokenizerFast(tokenizer_object=tk, unk_token=unk)
    if chat:
        t.chat_template = chat
    t.save_pretrained(path)
    return t


def read_checkpoint(path):
    """-> (tensors, where, problems).  Follows the convention every consumer
    uses: the index when there is one, otherwise the single file."""
    problems = []
    tensors = {}
    where = {}
    for base, ext in (("model", "safetensors"), ("pytorch_model", "bin")):
        single = os.path.join(path, "%s.%s" % (base, ext))
        index = single + ".index.json"
        has_single, has_index = os.path.exists(single), os.path.exists(index)
        if has_single and has_index:
            problems.append("both %s.%s and its index exist" % (base, ext))
        if has_index:
            with open(index) as f:
                wm = json.load(f)["weight_map"]
            files = sorted(set(wm.values()))
            for fn in files:
                p = os.path.join(path, fn)
                if not os.path.exists(p):
                    problems.append("indexed shard missing: " + fn)
                    continue
                got = read_file(p)
                for k, v in got.items():
                    if wm.get(k) != fn:
                        problems.append("%s stored in %s, index says %s" % (k, fn, wm.get(k)))
                    else:
                        tensors[k] = v
                        where[k] = fn
            for k in wm:
                if k not in tensors:
                    problems.append("indexed tensor missing: " + k)
            break
        if has_single:
            tensors = read_file(single)
            where = {k: os.path.basename(single) for k in tensors}
            break
    else:
        problems.append("no checkpoint")
    return tensors, where, problems


def read_file(p):
    if p.endswith(".safetensors"):
        with safe_open(p, framework="pt") as f:
            return {k: f.get_tensor(k) for k in f.keys()}
    return torch.load(p, map_location="cpu", weights_only=True)


class Outcome:
    """What a merge left behind."""

    def __init__(self):
        self.error = None
        self.etype = None
        self.tensors = {}
        self.problems = []
        self.config = {}
        self.vocab = None
        self.where = {}

    def key(self):
        return (
            self.etype,
            tuple(self.problems),
            tuple(
                (k, str(v.dtype), tuple(v.shape), tuple(v.double().flatten().tolist()))
                for k, v in sorted(self.tensors.items())
            ),
            json.dumps(self.config, sort_keys=True),
            json.dumps(self.vocab, sort_keys=True),
        )

    def __eq__(self, o):
        return isinstance(o, Outcome) and self.key() == o.key()

    def __ne__(self, o):
        return not self == o


def brief(o):
    return {
        "error": o.error,
        "problems": o.problems,
        "tensors": {
            k: [str(v.dtype), v.double().flatten().tolist()[:8]]
            for k, v in list(sorted(o.tensors.items()))[:40]
        },
        "vocab": o.vocab,
        "vocab_size": o.config.get("vocab_size"),
        "layers": o.config.get("num_hidden_layers"),
    }


def read_vocab(out):
    p = os.path.join(out, "tokenizer.json")
    if not os.path.exists(p):
        return None
    with open(p) as f:
        t = json.load(f)
    v = t["model"].get("vocab", {})
    if isinstance(v, list):
        v = {x[0]: i for i, x in enumerate(v)}
    v = dict(v)
    for a in t.get("added_tokens", []):
        v[a["content"]] = a["id"]
    return v


def collect(out):
    o = Outcome()
    o.tensors, o.where, o.problems = read_checkpoint(out)
    p = os.path.join(out, "config.json")
    if os.path.exists(p):
        with open(p) as f:
            o.config = json.load(f)
    else:
        o.problems.append("no config.json")
    o.vocab = read_vocab(out)
    return o


def fresh_loaders():
    """Forget models loaded by earlier merges of this process (the scratch
    directories are reused); only public behaviour is needed afterwards."""
    try:
        from mergekit.io.tasks import LoaderCache

        LoaderCache().loaders.clear()
    except Exception:
        pass


def merge(cfg, out, shard=None, forget=True, config_source=None, **opts):
    from mergekit.config import MergeConfiguration
    from mergekit.merge import run_merge
    from mergekit.options import MergeOptions

    if forget:
        fresh_loaders()
    o = Outcome()
    kw = dict(quiet=True, write_model_card=False, copy_tokenizer=False)
    if shard is not None:
        kw["out_shard_size"] = shard
    kw.update(opts)
    try:
        mc = cfg if not isinstance(cfg, dict) else MergeConfiguration.model_validate(cfg)
        run_merge(mc, out, MergeOptions(**kw), config_source=config_source)
    except Exception as e:
        o.error = repr(e)[:500]
        o.etype = type(e).__name__
        return o
    return collect(out)
