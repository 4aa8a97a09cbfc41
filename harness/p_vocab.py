"""P12 (output vocabulary) and P13 (token embeddings): spec/Vocab.tla.

Row r of model m's embedding matrix is the unit vector (m, r), so every row
of a merged matrix shows which rows it was made of."""
import env  # noqa
import os
import random
import shutil

import torch

import models
import vlib

S = 10000


def make_model(path, c, m, rng, bpe=False):
    n = c["size"][m]
    R = max(c["size"])
    M = len(c["voc"])

    def values(name, shape):
        if name in ("model.embed_tokens.weight", "lm_head.weight"):
            x = torch.zeros(shape)
            for r in range(n):
                x[r, m * R + r] = 1.0
            return x
        return torch.ones(shape)

    models.llama(path, layers=1, vocab=n, hidden=M * R, values=values)
    voc = c["voc"][m]
    k = rng.choice([0, 0, 1, 2]) if len(voc) > 2 else 0
    k = min(k, len(voc) - 1)
    plain, extra = voc[: len(voc) - k], voc[len(voc) - k :]
    sp = rng.random() < 0.5
    models.write_tokenizer(
        path, plain, added=[] if sp else extra, special=extra if sp else [], bpe=bpe
    )


def config(c, paths, legacy):
    src = {"union": "union", "base": "base"}.get(c["src"]) or paths[c["srcm"] - 1]
    cfg = {
        "merge_method": "linear",
        "dtype": "float32",
        "parameters": {"normalize": False},
        "models": [
            {"model": p, "parameters": {"weight": float(w)}}
            for p, w in zip(paths, c["w"])
        ],
    }
    if c["base"]:
        cfg["base_model"] = paths[c["base"] - 1]
    if legacy and not c["toks"] and not c["pad"]:
        cfg["tokenizer_source"] = src
        return cfg
    tk = {"source": src}
    if c["pad"]:
        tk["pad_to_multiple_of"] = c["pad"]
    if c["toks"]:
        tk["tokens"] = {}
        for e in c["toks"]:
            d = {}
            if e["force"]:
                d["force"] = True
            if e["kind"] == "zero":
                d["source"] = {"kind": "zero"}
            elif e["kind"] == "model":
                d["source"] = paths[e["m"] - 1]
            elif e["kind"] == "mtok":
                d["source"] = {"kind": "model_token", "model": paths[e["m"] - 1], "token": e["u"]}
            elif e["kind"] == "mid":
                d["source"] = {"kind": "model_token", "model": paths[e["m"] - 1], "token_id": e["i"]}
            tk["tokens"][e["t"]] = d
    cfg["tokenizer"] = tk
    return cfg


def matrix(t, R, M):
    out = []
    for row in t.double():
        e = []
        for j in row.nonzero().flatten().tolist():
            x = row[j].item()
            x = int(round(max(-99, min(99, x)) * S)) if x == x else 99 * S
            if x:
                e.append({"m": j // R + 1, "r": j % R, "x": x})
        out.append(e)
    return out


def one(tmp, c, rng, i):
    root = "%s/%d" % (tmp, i)
    paths = []
    # word-level vocabularies can not be cut down to the model's rows
    eb = (c["base"] or 1) - 1
    bpe = len(c["voc"][eb]) > c["size"][eb] or rng.random() < 0.4
    for m in range(len(c["voc"])):
        p = "%s/m%d" % (root, m)
        make_model(p, c, m, rng, bpe)
        paths.append(p)
    o = models.merge(config(c, paths, rng.random() < 0.5), root + "/out")
    h = {"c": c, "outcome": "error" if o.error else "ok", "vocab": [], "vsize": -1, "mats": []}
    if not o.error:
        R, M = max(c["size"]), len(c["voc"])
        h["vocab"] = [{"t": t, "i": x} for t, x in (o.vocab or {}).items()]
        h["vsize"] = o.config.get("vocab_size", -1)
        h["mats"] = [
            matrix(o.tensors[n], R, M)
            for n in ("model.embed_tokens.weight", "lm_head.weight")
        ]
        if o.problems:
            h["outcome"] = "unreadable"
    shutil.rmtree(root, ignore_errors=True)
    return h, o.error


TOKS = ["a", "b", "c", "d", "ab", "bc", "abc"]


def rnd(rng):
    M = rng.randint(1, 3)
    voc = []
    for _ in range(M):
        n = rng.randint(1, 5)
        voc.append(rng.sample(TOKS, n))
    base = rng.randint(0, M)
    eb = base or 1
    size = []
    for m in range(M):
        n = len(voc[m])
        if m + 1 == eb:
            size.append(max(1, n + rng.choice([0, 0, 1, 2, -1, -2])))
        else:
            size.append(max(1, n + rng.choice([0, 0, 0, 1, 2, -1])))
    toks = []
    for t in rng.sample(TOKS + ["x", "y"], rng.choice([0, 0, 1, 1, 2, 3])):
        m = rng.randint(1, M)
        kind = rng.choice(["none", "zero", "model", "mtok", "mid"])
        if kind == "model" and t not in voc[m - 1] and rng.random() < 0.8:
            kind = "mid"
        u = rng.choice(voc[m - 1]) if rng.random() < 0.95 else "nope"
        toks.append({"t": t, "kind": kind, "m": m, "u": u, "i": rng.randint(0, size[m - 1] - (rng.random() < 0.95)), "force": rng.random() < 0.4})
    return {
        "voc": voc,
        "size": size,
        "base": base,
        "src": rng.choice(["union", "union", "base", "model"]),
        "srcm": rng.randint(1, M),
        "toks": toks,
        "pad": rng.choice([0, 0, 0, 2, 4, 8]),
        "w": [rng.choice([1, 2, 3, 5]) for _ in range(M)],
    }


VOC = {"wrong-vocabulary", "ids-not-kept", "wrong-vocab-size", "wrong-row-count"}


def check(c):
    rng = random.Random(c.seed * 31 + 12)
    r = vlib.tlc("MCVocab", workers=8)
    c.add_tlc(r)
    if c.thorough:
        cfg = open(vlib.SPEC + "/MCVocab.cfg").read()
        cfg = cfg.replace('{"a", "b"}', '{"a", "b", "c"}').replace("EMIT = TRUE", "EMIT = FALSE")
        c.add_tlc(vlib.tlc("MCVocab", cfg, workers=8, heap="12g", timeout=3000))
    confs = [x["c"] for x in r.printed]
    rng.shuffle(confs)
    confs = confs[: c.pick(150, 3000)] + [rnd(rng) for _ in range(c.pick(250, 4000))]
    cases = []
    with vlib.scratch() as tmp:
        for i, cf in enumerate(confs):
            cases.append(one(tmp, cf, rng, i))
    rej, tot = vlib.validate("VerdictVocab", [h for h, _ in cases])
    c.add_tlc(tot, impl=len(cases))
    c.sample(cases[0][0])
    c.sample(cases[-1][0])
    for x in rej:
        cl = set(x["clauses"])
        mine = cl & VOC if c.prop == "P12" else cl - VOC
        if cl & {"valid-configuration-refused"}:
            mine = cl
        if mine:
            h, err = cases[x["h"]]
            c.violation(",".join(sorted(mine)), {"c": h["c"], "outcome": h["outcome"], "error": err, "vocab": h["vocab"], "vsize": h["vsize"]})
