"""P28: transplanting a tokenizer (mergekit-tokensurgeon): spec/Surgeon.tla."""
import env  # noqa
import itertools
import json
import math
import os
import random
import shutil

import torch

import models
import vlib
from p_lora import ARCHS, par
from p_multi import snap

ROLES = ["bos_token", "eos_token", "unk_token", "sep_token", "pad_token", "cls_token", "mask_token"]
MARK = {"G": "\u0120", "S": "\u2581"}
METHODS = ["zero", "mean", "subword", "subword", "omp", "omp", "distance", "distance", "cosine", "omp-map", "pca-map", "lsq-map", "bary-map", "stb-map", "randn", "john_hewitt", "mp_rope"]
CHARS = "abcdABxyz\u00e9\u4e2d9"


def ident(t):
    """the tokens of one vocabulary must differ in this (Id of the model)"""
    return ("w", t["s"]) if t["w"] else ("r", t["roles"][0]) if t["roles"] else t["s"]


def text(t, style):
    return MARK[style] + t["s"] if t["w"] else t["s"]


def rnd_tokens(rng):
    """-> two vocabularies (lists of tokens, by id)"""
    pool = [{"w": False, "s": s, "roles": []} for s in CHARS]
    for _ in range(14):
        s = "".join(rng.choice(CHARS[:6]) for _ in range(rng.randint(2, 4)))
        pool.append({"w": rng.random() < 0.4, "s": s, "roles": []})
    pool += [{"w": True, "s": s, "roles": []} for s in CHARS[:4]]
    pool += [{"w": False, "s": "<0x%02X>" % ord(x), "roles": []} for x in "aAb\u00e9x"]
    pool.append({"w": False, "s": "<", "roles": []})
    pool.append({"w": False, "s": "<0x6z>", "roles": []})
    both = []
    for side in (0, 1):
        style = rng.choice("GS")
        v = []
        if style == "S":
            v = [{"w": False, "s": s, "roles": [r]} for s, r in (("<unk>", 3), ("<s>", 1), ("</s>", 2))]
        else:
            for r in rng.sample(range(1, 8), rng.randint(1, 3)):
                v.append({"w": False, "s": rng.choice(["<%d>", "[R%d]", "<|%d|>"]) % (r if rng.random() < 0.6 else r + 20), "roles": [r]})
            if rng.random() < 0.3:
                x = rng.choice(v)
                x["roles"] = sorted(x["roles"] + [r for r in (2, 5) if all(r not in y["roles"] for y in v)])
        both.append((style, v))
    share = rng.sample(pool, rng.randint(4, 7))
    out = []
    for style, v in both:
        v = v + share + rng.sample(pool, rng.randint(1, 6))
        seen, keep = set(), []
        for t in v:
            for key in (ident(t), text(t, style)):
                if key in seen:
                    break
            else:
                seen |= {ident(t), text(t, style)}
                keep.append(t)
        rng.shuffle(keep)
        out.append((style, keep))
    return out


def write_tok(path, style, toks):
    from tokenizers import Tokenizer
    from tokenizers.models import BPE, WordLevel
    from tokenizers.pre_tokenizers import Whitespace
    from transformers import PreTrainedTokenizerFast

    vocab = {text(t, style): i for i, t in enumerate(toks) if t is not None}
    roles = {ROLES[r - 1]: text(t, style) for t in toks if t for r in t["roles"]}
    unk = roles.get("unk_token") or min(vocab, key=vocab.get)
    if len(toks) % 2:
        merges = [(t[:k], t[k:]) for t in sorted(vocab, key=vocab.get) for k in range(1, len(t)) if t[:k] in vocab and t[k:] in vocab]
        tk = Tokenizer(BPE(vocab=vocab, merges=merges, unk_token=unk))
    else:
        tk = Tokenizer(WordLevel(vocab=vocab, unk_token=unk))
    tk.pre_tokenizer = Whitespace()
    PreTrainedTokenizerFast(tokenizer_object=tk, **roles).save_pretrained(path)
    if style == "S":
        p = path + "/tokenizer_config.json"
        with open(p) as f:
            c = json.load(f)
        c["tokenizer_class"] = "LlamaTokenizerFast"
        with open(p, "w") as f:
            json.dump(c, f)


def milli(x):
    return int(round(1000 * max(-9e5, min(9e5, x)))) if math.isfinite(x) else 10**9


def general(vs, d):
    """any d of the vectors are independent"""
    for s in itertools.combinations(vs, d):
        if d == 2:
            det = s[0][0] * s[1][1] - s[0][1] * s[1][0]
        else:
            (a, b, c), (e, f, g), (x, y, z) = s
            det = a * (f * z - g * y) - b * (e * z - g * x) + c * (e * y - f * x)
        if det == 0:
            return False
    return True


def pairwise(vs):
    for a, b in itertools.combinations(vs, 2):
        if sum(x * x for x in a) * sum(x * x for x in b) == sum(x * y for x, y in zip(a, b)) ** 2:
            return False
    return True


def ints(rng, n, d, top):
    return [[rng.randint(-top, top) for _ in range(d)] for _ in range(n)]


def world(rng, method, toks_o, toks_d, shared, n_o, n_d):
    """rows of the two matrices; shared: [(donor id, original id)]
    -> {orig, donor, M, b, head} or None"""
    S, new = [d for d, _ in shared], [i for i in range(n_d) if i not in [d for d, _ in shared]]
    dd, do = 2, 2
    M, b = [], []
    if method in ("omp",):
        dd, do = 3, rng.choice([2, 3])
    orig = ints(rng, n_o, do, 8)
    donor = ints(rng, n_d, dd, 4)
    if method == "distance":
        c = rng.randint(-3, 3)
        donor = [[rng.randint(-12, 12), c] for _ in range(n_d)]
    elif method == "cosine":
        dirs = [(3, 4), (4, 3), (1, 0), (0, 1), (-3, 4), (4, -3), (-1, 0)]
        donor = [[m * x for x in rng.choice(dirs)] for m in [rng.randint(1, 3) for _ in range(n_d)]]
    elif method == "omp":
        for _ in range(200):
            for i in S:
                donor[i] = [rng.randint(-3, 3) for _ in range(dd)]
            if all(any(donor[i]) for i in S) and pairwise([donor[i] for i in S]):
                break
        else:
            return None
    elif method.endswith("-map"):
        do = 2 if method == "pca-map" else rng.choice([2, 3])
        orig = ints(rng, n_o, do, 6)
        M = ints(rng, do, dd, 2)
        while method == "stb-map" and not any(general([p, q], 2) for p, q in itertools.combinations(M, 2)):
            M = ints(rng, do, dd, 2)
        b = [0] * do
        if method == "bary-map":
            b = [rng.randint(-3, 3) for _ in range(do)]
        if method == "pca-map":
            M = rng.choice([[[1, 0], [0, 1]], [[0, 1], [1, 0]], [[0, -1], [1, 0]], [[0, 1], [-1, 0]], [[-1, 0], [0, -1]], [[1, 0], [0, -1]]])
            b = [rng.randint(-3, 3) for _ in range(do)]
        for _ in range(300):
            pts = ints(rng, len(S), 2, 4)
            if method == "stb-map":
                pts[-1] = [-sum(p[j] for p in pts[:-1]) for j in range(2)]
            if method == "pca-map" and len(S) == 4:
                m, o = rng.randint(1, 3), [rng.randint(-2, 2) for _ in range(2)]
                pts = [[o[0] + m, o[1]], [o[0] - m, o[1]], [o[0], o[1] + m], [o[0], o[1] - m]]
                rng.shuffle(pts)
                break
            if method in ("omp-map", "stb-map") and general(pts, 2):
                break
            if method in ("lsq-map",) and len({tuple(p) for p in pts}) == len(pts) and any(general([p, q], 2) for p, q in itertools.combinations(pts, 2)):
                break
            if method in ("bary-map", "pca-map") and len({tuple(p) for p in pts}) == len(pts) and any(general([[p[0] - r[0], p[1] - r[1]], [q[0] - r[0], q[1] - r[1]]], 2) for p, q, r in itertools.combinations(pts, 3)):
                break
        else:
            return None
        for i, p in zip(S, pts):
            donor[i] = p
        for d, o in shared:
            orig[o] = [sum(m * x for m, x in zip(row, donor[d])) + c for row, c in zip(M, b)]
        if method == "stb-map":
            if not [i for i in range(n_d) if i not in S] or len([i for i in range(n_o) if i not in [o for _, o in shared]]) == 0:
                return None
            for rows, fixed in ((donor, S), (orig, [o for _, o in shared])):
                last = [i for i in range(len(rows)) if i not in fixed][-1]
                rows[last] = [-sum(rows[i][j] for i in range(len(rows)) if i != last) for j in range(len(rows[0]))]
    return {"orig": orig, "donor": donor, "M": M, "b": b}


def transplant(job):
    root, seed, given = job
    from click.testing import CliRunner
    from mergekit.scripts import tokensurgeon
    from transformers import AutoTokenizer

    rng = random.Random(seed)
    for _ in range(100):
        (so, to), (sd, td) = rnd_tokens(rng)
        if given:
            # vocabularies of the model on top of two shared tokens
            o, d = given
            so = sd = "G"
            base = [{"w": False, "s": s, "roles": []} for s in ("zz", "q", "zzq", "j")]
            to, td = base + o, base + d
            to, td = rng.sample(to, len(to)), rng.sample(td, len(td))
        ids = {ident(t): i for i, t in enumerate(to)}
        shared = [(i, ids[ident(t)]) for i, t in enumerate(td) if ident(t) in ids]
        method = rng.choice(METHODS)
        k = rng.randint(1, 3)
        if method == "omp":
            k = rng.randint(1, 2)
        elif method in ("omp-map", "stb-map"):
            k = 2
        elif method in ("lsq-map", "bary-map"):
            k = len(shared)
        elif method == "mp_rope":
            k = 2
        if len(shared) < max(k, 3) or len(shared) > 12:
            continue
        if method == "pca-map" and rng.random() < 0.6 and len(shared) > 4:
            # only four shared tokens: a degenerate cloud of points
            drop = {d for d, _ in rng.sample(shared, len(shared) - 4) if not td[d]["roles"]}
            td = [t for i, t in enumerate(td) if i not in drop]
            shared = [(i, ids[ident(t)]) for i, t in enumerate(td) if ident(t) in ids]
        pad_o, pad_d = rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 1, 2])
        if method == "stb-map":
            pad_o, pad_d = max(1, pad_o), max(1, pad_d)
        tie_o, tie_d = rng.random() < 0.25, rng.random() < 0.25
        n_o, n_d = len(to) + pad_o, len(td) + pad_d
        ws = {}
        for name in ["embed", "head"]:
            if name == "head" and tie_o:
                continue
            w = world(rng, method, to, td, shared, n_o, n_d)
            if w is None:
                break
            ws[name] = w
        else:
            if not tie_o:
                if tie_d:
                    # one donor matrix: the original's head is made for it
                    ws["head"] = dict(ws["embed"])
                    if method.endswith("-map"):
                        ws["head"]["orig"] = [list(r) for r in ws["embed"]["orig"]]
                    else:
                        ws["head"]["orig"] = ints(rng, n_o, len(ws["embed"]["orig"][0]), 8)
                elif len(ws["head"]["orig"][0]) != len(ws["embed"]["orig"][0]):
                    continue
            break
    else:
        raise vlib.MachineryError("no transplantation found")
    os.makedirs(root)
    write_tok(root + "/o", so, to)
    write_tok(root + "/d", sd, td)
    for p, toks, style in ((root + "/o", to, so), (root + "/d", td, sd)):
        got = AutoTokenizer.from_pretrained(p).get_vocab()
        if got != {text(t, style): i for i, t in enumerate(toks)}:
            shutil.rmtree(root)
            return None
    dtype = torch.float32
    if method in ("zero", "mean", "subword", "randn") and rng.random() < 0.2:
        dtype = rng.choice([torch.bfloat16, torch.float16])
    for p, key, n, tie in ((root + "/o", "orig", n_o, tie_o), (root + "/d", "donor", n_d, tie_d)):
        dim = len(ws["embed"][key][0])

        def values(name, shape, key=key):
            m = "embed" if "embed_tokens" in name else "head" if "lm_head" in name else None
            if m and m in ws:
                return torch.tensor(ws[m][key], dtype=torch.float32)
            return models.dyadic(rng, shape)

        spec = {x[:-6] + "_token_id": rng.randint(0, 3) for x in ("bos_token", "eos_token", "pad_token") if rng.random() < 0.7}
        kw = {}
        if method == "mp_rope":
            kw = {"rope_theta": 100.0}
        models.llama(p, layers=1, vocab=n, hidden=dim, tie=tie, values=values, dtype=dtype, shards=rng.choice([1, 1, 2]), cfg=dict(spec, **kw))
    before = [snap(root + "/o"), snap(root + "/d")]
    real = {"distance": "common_interpolation", "cosine": "common_interpolation", "omp-map": "omp", "pca-map": "landmark_pca", "lsq-map": "common_interpolation", "bary-map": "common_interpolation", "stb-map": "stb"}.get(method, method)
    args = [root + "/o", root + "/d", root + "/out", "-a", real, "-k", str(k), "--quiet"]
    if method == "lsq-map":
        args += ["-w", "least_squares"]
    if method == "bary-map":
        args += ["-w", "barycentric"]
    if method == "cosine":
        args.append("-c")
    sub = rng.choice(["mean", "sum", "weighted_mean", "first_last"])
    if method == "subword":
        args += ["-s", sub]
    match = {}
    for o in ("byte", "prefix"):
        v = rng.choice(["yes", "no", "embed", "lm_head", None] if not given else ["yes", "yes", "embed", "lm_head"])
        if v:
            args += ["--%s-match" % o, v]
        match[o] = v or "no"
    scale, noise = 0, rng.random() < 0.1
    if rng.random() < 0.2:
        scale = rng.choice([2, 3])
        args += ["-nvs", str(scale)]
    if noise:
        args += ["-nvn", "0.25"]
    bs = rng.choice([None, "-1", "1", "2"])
    if bs:
        args += ["--batch-size", bs]
    for x in ("--no-safe-serialization", "--lazy-unpickle", "--async-write", "--clone-tensors"):
        if rng.random() < 0.2:
            args.append(x)
    if rng.random() < 0.3:
        args += ["--random-seed", "3"]
    tok_o = AutoTokenizer.from_pretrained(root + "/o")
    pieces, exact = [], []
    for t in td:
        ps, ok = [], method not in ("randn", "john_hewitt", "mp_rope")
        if method == "subword":
            ps = tok_o((" " if t["w"] else "") + t["s"], add_special_tokens=False)["input_ids"]
            ok = not t["roles"]
        if dtype != torch.float32 and method != "zero":
            ok = False
        pieces.append(ps)
        exact.append(ok)
    r = CliRunner().invoke(tokensurgeon.main, args)
    o = models.collect(root + "/out") if r.exception is None else models.Outcome()
    code = lambda toks: [{"w": t["w"], "s": [ord(x) for x in t["s"]], "roles": t["roles"]} for t in toks]  # noqa
    h = {"orig": code(to), "donor": code(td), "method": method if not method.endswith("-map") else "map", "sub": sub, "k": k, "scale": scale, "noise": noise, "pieces": pieces, "exact": exact, "outcome": "ok" if r.exception is None else "error", "inputs": [snap(root + "/o"), snap(root + "/d")] == before, "tokenizer": True, "config": True, "others": True, "matrices": True, "ms": []}
    info = {"args": args[3:], "error": repr(r.exception)[:300], "seed": seed, "tied": [tie_o, tie_d], "dtype": str(dtype), "method": method, "problems": o.problems}
    if r.exception is None:
        a, _, _ = models.read_checkpoint(root + "/o")
        where = {"embed": "model.embed_tokens.weight", "head": "lm_head.weight"}
        h["others"] = all(n in o.tensors and torch.equal(t, o.tensors[n]) and t.dtype == o.tensors[n].dtype for n, t in a.items() if n not in where.values())
        h["matrices"] = {n for n in o.tensors} == {n for n in a} and not o.problems and all(o.tensors[n].dtype == dtype for n in a if n in o.tensors)
        for m, w in ws.items():
            got = o.tensors.get(where[m])
            rows = [] if got is None else [[milli(x) for x in row] for row in got.double().tolist()]
            h["ms"].append({"orig": w["orig"], "donor": w["donor"], "M": w["M"], "b": w["b"], "head": m == "head", "byte": match["byte"] in ("yes", "embed" if m == "embed" else "lm_head"), "prefix": match["prefix"] in ("yes", "embed" if m == "embed" else "lm_head"), "out": rows})
        h["tokenizer"] = AutoTokenizer.from_pretrained(root + "/out").get_vocab() == {text(t, sd): i for i, t in enumerate(td)}
        with open(root + "/o/config.json") as f:
            co = json.load(f)
        with open(root + "/d/config.json") as f:
            cd = json.load(f)
        with open(root + "/out/config.json") as f:
            cx = json.load(f)
        ok = cx.get("vocab_size") == len(td)
        for key in ("architectures", "model_type", "hidden_size", "num_hidden_layers", "tie_word_embeddings", "intermediate_size", "num_attention_heads"):
            ok = ok and cx.get(key) == co.get(key)
        for key in ("bos_token_id", "eos_token_id", "pad_token_id"):
            if key in cd:
                ok = ok and cx.get(key) == cd[key]
        h["config"] = bool(ok)
        info["config"] = cx
    shutil.rmtree(root)
    return h, info


def other_architecture(job):
    """originals of every described text architecture; approximations all zero"""
    root, seed, arch, variant = job
    import transformers
    from click.testing import CliRunner
    from mergekit.scripts import tokensurgeon
    from p_lora import build

    rng = random.Random(seed)
    m = build(arch, variant, seed)
    with torch.no_grad():
        for e in (m.get_input_embeddings(), m.get_output_embeddings()):
            e.weight.copy_(torch.randint(-8, 9, e.weight.shape, generator=torch.Generator().manual_seed(seed)).float())
    m.save_pretrained(root + "/o")
    words = ["w%d" % i for i in range(20)]
    n = m.get_input_embeddings().weight.shape[0]
    to = [{"w": False, "s": s, "roles": []} for s in rng.sample(words, rng.randint(n - 3, n))]
    td = [{"w": False, "s": s, "roles": []} for s in rng.sample(words, rng.choice([8, n, 15]))]
    write_tok(root + "/o", "G", to)
    write_tok(root + "/d", "G", td)
    models.llama(root + "/d", layers=1, vocab=len(td), hidden=2, tie=rng.random() < 0.3)
    before = [snap(root + "/o"), snap(root + "/d")]
    args = [root + "/o", root + "/d", root + "/out", "-a", "zero", "--quiet"]
    r = CliRunner().invoke(tokensurgeon.main, args)
    o = models.collect(root + "/out") if r.exception is None else models.Outcome()
    a, _, _ = models.read_checkpoint(root + "/o")
    names = {}
    for key, e in (("embed", m.get_input_embeddings()), ("head", m.get_output_embeddings())):
        same = [k for k, t in a.items() if t.shape == e.weight.shape and torch.equal(t.float(), e.weight.float())]
        for k in same:
            names[k] = "head" if any(x in k for x in ("lm_head", "embed_out", "output")) else "embed"
    code = lambda toks: [{"w": t["w"], "s": [ord(x) for x in t["s"]], "roles": t["roles"]} for t in toks]  # noqa
    h = {"orig": code(to), "donor": code(td), "method": "zero", "sub": "mean", "k": 1, "scale": 0, "noise": False, "pieces": [[] for _ in td], "exact": [True for _ in td], "outcome": "ok" if r.exception is None else "error", "inputs": [snap(root + "/o"), snap(root + "/d")] == before, "tokenizer": True, "config": True, "others": True, "matrices": True, "ms": []}
    info = {"args": [arch, variant], "method": "zero", "error": repr(r.exception)[:300], "seed": seed, "arch": arch, "names": names}
    if r.exception is None:
        for k, kind in names.items():
            got = o.tensors.get(k)
            h["ms"].append({"orig": a[k].int().tolist(), "donor": [[0, 0] for _ in td], "M": [], "b": [], "head": kind == "head", "byte": False, "prefix": False, "out": [] if got is None else [[milli(x) for x in row] for row in got.double().tolist()]})
        try:
            x = getattr(transformers, arch).from_pretrained(root + "/out", ignore_mismatched_sizes=False)
            h["config"] = x.get_input_embeddings().weight.shape[0] == len(td)
            with torch.no_grad():
                x(input_ids=torch.tensor([[0, len(td) - 1]]))
            y = getattr(transformers, arch).from_pretrained(root + "/o")
            skip = {id(e.weight) for z in (x, y) for e in (z.get_input_embeddings(), z.get_output_embeddings())}
            px, py = dict(x.named_parameters()), dict(y.named_parameters())
            info["changed"] = [k for k, t in py.items() if id(t) not in skip and not (k in px and torch.equal(t, px[k]))][:5]
            h["others"], h["matrices"] = not info["changed"], set(px) == set(py) and not o.problems
        except Exception as e:
            h["config"] = False
            info["error"] = repr(e)[:400]
            n_o, z = m.get_input_embeddings().weight.shape[0], dict(m.named_parameters())
            info["mismatch"] = ",".join(k for k, t in sorted(z.items()) if t.dim() == 1 and t.shape[0] == n_o and k.endswith("head.bias")) if "ignore_mismatched_sizes" in repr(e) else ""
    shutil.rmtree(root)
    return h, info


def any_job(job):
    return other_architecture(job) if len(job) == 4 else transplant(job)


def warm():
    import mergekit.scripts.tokensurgeon  # noqa
    from transformers import AutoTokenizer, LlamaConfig, LlamaTokenizerFast  # noqa


UNIVERSE = [(0, "A", []), (0, "AB", []), (0, "ABC", []), (1, "A", []), (1, "AB", []), (0, "<0x41>", []), (0, "<s>", [1]), (0, "<b>", [1, 2]), (0, "</>", [2]), (0, " A", []), (0, "<", [])]


def check(c):
    warm()
    r = vlib.tlc("MCSurgeon", workers=8)
    c.add_tlc(r)
    if c.thorough:
        c.add_tlc(vlib.tlc("MCSurgeon", "MCSurgeonDeep", workers=8))
    pairs = sorted((x["o"], x["d"]) for x in r.printed)
    rng = random.Random(c.seed * 13 + 1)
    jobs = []
    tok = lambda ks: [{"w": bool(UNIVERSE[k - 1][0]), "s": UNIVERSE[k - 1][1], "roles": list(UNIVERSE[k - 1][2])} for k in ks]  # noqa
    with vlib.scratch() as tmp:
        for i in range(c.pick(420, 6000)):
            jobs.append(("%s/r%d" % (tmp, i), c.seed * 1000003 + i, None))
        for i, (o, d) in enumerate(rng.sample(pairs, min(len(pairs), c.pick(200, 2500)))):
            jobs.append(("%s/g%d" % (tmp, i), c.seed * 2000003 + i, (tok(o), tok(d))))
        for rep in range(c.pick(1, 10)):
            for i, (a, v) in enumerate(ARCHS):
                jobs.append(("%s/a%d_%d" % (tmp, rep, i), c.seed * 3000001 + rep * 100 + i, a, v))
        got = [x for x in par(any_job, jobs) if x]
    if len(got) < len(jobs) // 2:
        raise vlib.MachineryError("only %d of %d tokenizers could be written" % (len(got), len(jobs)))
    hs = [h for h, _ in got]
    rej, tot = vlib.validate("VerdictSurgeon", hs, chunk=200)
    c.add_tlc(tot, impl=len(hs))
    c.sample({"h": hs[0], "info": got[0][1]})
    for x in rej:
        h, info = got[x["h"]]
        key = "tokensurgeon of %s: %s" % (info["arch"], info["mismatch"]) if info.get("mismatch") and x["clauses"] == ["wrong-configuration"] else None
        c.violation(",".join(x["clauses"]), {"h": h, "info": info}, key=key)
