"""P16: spherical merge methods: spec/Sphere.tla.  Inputs of each tensor lie in
a random plane at whole-degree angles; the merged tensor is projected back."""
import env  # noqa
import math
import random
import shutil

import torch

import lone
import models
import vlib


EMB = ("model.embed_tokens.weight", "lm_head.weight")


def f(q):
    return q[0] / q[1]


def plane(rng, n):
    g = torch.Generator().manual_seed(rng.randint(0, 2**31))
    m = torch.randn(n, 2, generator=g, dtype=torch.float64)
    q, _ = torch.linalg.qr(m)
    return q[:, 0], q[:, 1]


def point(e, a, n):
    r = math.radians(a)
    return n * (math.cos(r) * e[0] + math.sin(r) * e[1])


def pick(rng, me, nm, den):
    """angles and lengths of one tensor's inputs"""
    if me in ("slerp", "nuslerp"):
        a0 = rng.randint(0, 359)
        th = rng.choice([0, 1, rng.randint(2, 170), rng.randint(2, 170), 90, 170, 179, 180] + [60 * k for k in (1, 2)])
        if me == "nuslerp" and th > 170:
            th = 150
        if 2 <= th <= 178:
            th = max(den, th - th % den)
            if th > 170:
                th = 120
        a = [a0, a0 + rng.choice([1, -1]) * th]
        n = [rng.choice([1, 2, 3, 5, 8]) for _ in a]
        if rng.random() < 0.1:
            n[rng.randint(0, 1)] = 0
        return (a + [a0 + 10] * 9)[:nm], (n + [2] * 9)[:nm]
    a0 = rng.randint(0, 180)
    span = 150 if me == "karcher" else 170
    a = [a0 + rng.randint(0, span) for _ in range(nm)]
    n = [rng.choice([1, 2, 3, 5, 8]) for _ in a]
    if me == "karcher":
        if rng.random() < 0.15:
            n[rng.randint(0, nm - 1)] = 0
        live = [i for i in range(nm) if n[i]]
        if live:
            a[live[0]] -= sum(a[i] for i in live) % len(live)
    return a, n


def run(tmp, i, me, nm, w, t, normw, usebase, bidx, cases, seg, place, rng):
    """cases: name -> list of (angles, lengths) per segment"""
    hidden, vocab = 4, 3
    names = models.llama_names(1)
    frames = {}
    nb = 1 if usebase else 0
    vals = [{} for _ in range(nm + nb)]

    def shp(n):
        return (hidden,) if "norm" in n else (vocab, hidden) if n in ("model.embed_tokens.weight", "lm_head.weight") else (hidden, hidden)

    for n in names:
        s = shp(n)
        segs = segments(s, seg)
        base = torch.tensor([rng.randint(-3, 3) for _ in range(math.prod(s))], dtype=torch.float64).reshape(s) if usebase else torch.zeros(s, dtype=torch.float64)
        if usebase:
            vals[0][n] = base.clone()
        ts = [torch.zeros(s, dtype=torch.float64).flatten() for _ in range(nm)]
        fr = []
        for sg, (a, ln) in zip(segs, cases[n]):
            e = plane(rng, len(sg))
            fr.append((sg, e, a, ln))
            for m in range(nm):
                ts[m][sg] = point(e, a[m], ln[m])
        frames[n] = (fr, base)
        for m in range(nm):
            vals[m + nb][n] = ts[m].reshape(s) + base
    root = "%s/%s" % (tmp, i)
    paths = []
    # embeddings of different height are merged on their common rows
    uneven = me != "multislerp" and rng.random() < 0.25
    low = rng.randrange(nm + nb)
    for k, td in enumerate(vals):
        p = "%s/m%d" % (root, k)
        more = rng.choice([0, 1, 2]) if uneven and k != low else 0
        junk = torch.tensor([[rng.randint(-3, 3) for _ in range(hidden)] for _ in range(more)], dtype=torch.float64).reshape(more, hidden)
        models.llama(p, layers=1, hidden=hidden, vocab=vocab + more, values=lambda n, s, td=td, junk=junk: (torch.cat([td[n], junk]) if n in EMB else td[n]).float())
        paths.append(p)
    ms = []
    for m in range(nm):
        e = {"model": paths[m + nb]}
        if me in ("nuslerp", "multislerp"):
            e["parameters"] = {"weight": f(w[m])}
        ms.append(e)
    cfg = {"merge_method": me, "dtype": "float32", "models": ms}
    g = {}
    if me == "slerp":
        cfg["base_model"] = ms[bidx - 1]["model"]
        g["t"] = f(t)
        if place:
            ms.pop(bidx - 1)
            if not ms:
                ms.append({"model": cfg["base_model"]})
    elif usebase:
        cfg["base_model"] = paths[0]
        if place:
            # listed among the models, it still is only the origin
            ms.insert(rng.randint(0, len(ms)), {"model": paths[0], "parameters": {"weight": 1.0}})
    if seg != "all":
        g["nuslerp_flatten"] = False
        if seg == "dim0":
            g["nuslerp_row_wise"] = True
    if normw != "default":
        g["normalize_weights"] = normw == "true"
    if g:
        cfg["parameters"] = g
    o = models.merge(cfg, root + "/out")
    shutil.rmtree(root, ignore_errors=True)
    recs = []
    for n in names:
        fr, base = frames[n]
        out = None
        if not o.error and n in o.tensors and tuple(o.tensors[n].shape) == shp(n):
            out = (o.tensors[n].double() - base).flatten()
        for sg, e, a, ln in fr:
            h = {"method": me, "a": a, "n": ln, "w": w, "t": t, "base": bidx, "normw": normw, "outcome": "error" if o.error else "ok", "x": 0, "y": 0, "off": 0}
            if not o.error:
                if out is None:
                    h["outcome"] = "missing"
                else:
                    v = out[sg].nan_to_num(1e4, 1e4, -1e4).clamp(-1e4, 1e4)
                    x, y = torch.dot(v, e[0]).item(), torch.dot(v, e[1]).item()
                    h["x"], h["y"] = int(round(1000 * x)), int(round(1000 * y))
                    h["off"] = int(round(1000 * (v - x * e[0] - y * e[1]).norm().item()))
            recs.append((n, h, o, seg))
    return recs


def segments(shape, seg):
    tot = math.prod(shape)
    if seg == "all" or len(shape) == 1:
        return [list(range(tot))]
    r, c = shape
    if seg == "last":
        return [[i * c + j for j in range(c)] for i in range(r)]
    return [[i * c + j for i in range(r)] for j in range(c)]


FR = [[0, 1], [1, 1], [1, 2], [1, 3], [2, 3], [1, 4], [3, 4], [1, 5], [3, 5], [5, 6], [1, 6], [7, 10]]


def rnd(rng, tmp, i, me):
    t, w, normw, usebase, bidx, seg, place = [], [], "default", False, 1, "all", False
    if me == "slerp":
        nm, t, bidx = 2, rng.choice(FR), rng.randint(1, 2)
        den = t[1]
        place = rng.random() < 0.4
        if rng.random() < 0.05:
            nm, place = 3, False
    elif me == "nuslerp":
        nm = 2 if rng.random() < 0.95 else 3
        fr = rng.choice(FR)
        w = [[fr[1] - fr[0], rng.choice([1])], [fr[0], 1]]
        k = rng.choice([1, 2, 4])
        w = [[a * 1, k] for a, _ in w] + [[1, 1]]
        w = w[:nm]
        if rng.random() < 0.1:
            w = ([[1, 1], [-1, 1]] + [[1, 1]])[:nm]
            fr = [1, 2]
        den = fr[1]
        usebase = rng.random() < 0.5
        seg = rng.choice(["all", "all", "last", "dim0"])
        place = usebase and rng.random() < 0.3
    elif me == "multislerp":
        nm = rng.choice([2, 3, 4])
        w = [[rng.randint(1, 6), rng.choice([1, 2])] for _ in range(nm)]
        normw = rng.choice(["default", "default", "true", "false"])
        if normw == "false":
            w = [[rng.randint(1, 3), 2] for _ in range(nm)]
        usebase = rng.random() < 0.5
        den = 1
        place = usebase and rng.random() < 0.3
    else:
        nm, den = rng.choice([2, 2, 3, 4]), 1
    cases = {}
    for n in models.llama_names(1):
        cases[n] = [pick(rng, me, nm, den) for _ in range(4)]
    return run(tmp, i, me, nm, w, t, normw, usebase, bidx, cases, seg, place, rng)


def from_spec(rng, tmp, printed, limit):
    by = {}
    for r in printed:
        by.setdefault(tuple(r["c"]["t"]), []).append(r["c"])
    res = []
    for k in sorted(by):
        for rep in range(limit):
            cases = {}
            for n in models.llama_names(1):
                c = rng.choice(by[k])
                cases[n] = [(c["a"], c["n"])]
            res += run(tmp, "s%d_%d" % (k[0], rep), "slerp", 2, [], list(k), "default", False, 1, cases, "all", rng.random() < 0.5, rng)
    return res


def check(c):
    rng = random.Random(c.seed * 31 + 16)
    r = vlib.tlc("MCSphere", workers=8)
    c.add_tlc(r)
    if c.thorough:
        cfg = open(vlib.SPEC + "/MCSphere.cfg").read()
        cfg = cfg.replace("{0, 1, 2, 30, 60, 90, 126, 150, 178, 179, 180}", "{%s}" % ", ".join(str(x) for x in range(0, 181, 6))).replace("EMIT = TRUE", "EMIT = FALSE").replace("{0, 1, 3}", "{0, 1, 2, 5}")
        c.add_tlc(vlib.tlc("MCSphere", cfg, workers=8, heap="12g", timeout=3000))
    cases = []
    with vlib.scratch() as tmp:
        cases += from_spec(rng, tmp, r.printed, c.pick(6, 200))
        for i in range(c.pick(200, 5000)):
            cases += rnd(rng, tmp, i, ["slerp", "nuslerp", "multislerp", "karcher"][i % 4])
    rej, tot = vlib.validate("VerdictSphere", [x[1] for x in cases], chunk=8000)
    c.add_tlc(tot, impl=len(cases))
    c.sample(cases[0][1])
    c.sample(cases[-1][1])
    for x in rej:
        n, h, o, seg = cases[x["h"]]
        c.violation(h["method"] + ":" + ",".join(x["clauses"]), {"tensor": n, "h": h, "segments": seg, "error": o.error})
    lone.check(c, ["slerp", "nuslerp", "multislerp", "karcher"])
