"""Helpers for the demonstrations: tiny Llama checkpoints and merges."""
import json, os, sys, tempfile, shutil, atexit
os.environ.setdefault("HF_HUB_OFFLINE", "1")
os.environ.setdefault("TRANSFORMERS_OFFLINE", "1")
sys.path.insert(0, os.getcwd())
import torch
from safetensors import safe_open
from safetensors.torch import save_file

ROOT = tempfile.mkdtemp(prefix="demo")
atexit.register(shutil.rmtree, ROOT, True)

LAYER = ["input_layernorm", "self_attn.q_proj", "self_attn.k_proj", "self_attn.v_proj",
         "self_attn.o_proj", "post_attention_layernorm", "mlp.up_proj", "mlp.gate_proj", "mlp.down_proj"]


def names(layers, tie=False):
    return (["model.embed_tokens.weight"]
            + ["model.layers.%d.%s.weight" % (i, n) for i in range(layers) for n in LAYER]
            + ["model.norm.weight"] + ([] if tie else ["lm_head.weight"]))


def llama(name, layers=2, hidden=4, vocab=6, tie=False, values=None, seed=0, dtype=torch.float32, drop=(), cfg=None, shards=1):
    """values(name, shape) -> tensor, or a constant, or None for random."""
    p = os.path.join(ROOT, name)
    os.makedirs(p, exist_ok=True)
    conf = dict(architectures=["LlamaForCausalLM"], model_type="llama", hidden_size=hidden,
                intermediate_size=hidden, num_hidden_layers=layers, num_attention_heads=1,
                num_key_value_heads=1, vocab_size=vocab, tie_word_embeddings=tie,
                torch_dtype=str(dtype).replace("torch.", ""))
    conf.update(cfg or {})
    json.dump(conf, open(p + "/config.json", "w"))
    g = torch.Generator().manual_seed(seed)
    td = {}
    for n in names(layers, tie):
        shape = (hidden,) if "norm" in n else (vocab, hidden) if n in ("model.embed_tokens.weight", "lm_head.weight") else (hidden, hidden)
        if callable(values):
            v = values(n, shape)
        elif values is None:
            v = torch.randn(shape, generator=g)
        else:
            v = torch.full(shape, float(values))
        if n not in drop:
            td[n] = v.to(dtype)
    if shards == 1:
        save_file(td, p + "/model.safetensors", metadata={"format": "pt"})
    else:
        wm = {}
        ks = list(td)
        for i in range(shards):
            fn = "model-%05d-of-%05d.safetensors" % (i + 1, shards)
            save_file({k: td[k] for k in ks[i::shards]}, p + "/" + fn, metadata={"format": "pt"})
            wm.update({k: fn for k in ks[i::shards]})
        json.dump({"metadata": {}, "weight_map": wm}, open(p + "/model.safetensors.index.json", "w"))
    return p


def tokenizer(path, tokens, chat=None):
    from tokenizers import Tokenizer
    from tokenizers.models import WordLevel
    from tokenizers.pre_tokenizers import Whitespace
    from transformers import PreTrainedTokenizerFast
    vocab = tokens if isinstance(tokens, dict) else {t: i for i, t in enumerate(tokens)}
    tk = Tokenizer(WordLevel(vocab=vocab, unk_token=min(vocab, key=vocab.get)))
    tk.pre_tokenizer = Whitespace()
    t = PreTrainedTokenizerFast(tokenizer_object=tk, unk_token=min(vocab, key=vocab.get))
    if chat:
        t.chat_template = chat
    t.save_pretrained(path)


def read(path):
    idx = path + "/model.safetensors.index.json"
    files = sorted(set(json.load(open(idx))["weight_map"].values())) if os.path.exists(idx) else ["model.safetensors"]
    out = {}
    for fn in files:
        with safe_open(path + "/" + fn, framework="pt") as f:
            for k in f.keys():
                out[k] = f.get_tensor(k)
    return out


def merge(cfg, name="out", **opts):
    from mergekit.config import MergeConfiguration
    from mergekit.merge import run_merge
    from mergekit.options import MergeOptions
    out = os.path.join(ROOT, name)
    kw = dict(quiet=True, write_model_card=False, copy_tokenizer=False)
    kw.update(opts)
    run_merge(MergeConfiguration.model_validate(cfg), out, MergeOptions(**kw))
    return out


def check(ok, what=""):
    if not ok:
        print("FAILED:", what)
        sys.stdout.flush()
        shutil.rmtree(ROOT, True)
        os._exit(1)
