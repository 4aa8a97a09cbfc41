"""P14 (linear, passthrough, nearswap, model_stock) and P18 (ram, ramplus_tl,
sce, arcee_fusion): spec/Blend.tla, on whole merges of integer-valued models."""
import env  # noqa
import random
import shutil

import torch

import lone
import models
import vlib
from p_gta import ints

FIRST = ["linear", "passthrough", "nearswap", "model_stock"]
SECOND = ["ram", "ramplus_tl", "sce", "arcee_fusion"]
EMB = ("model.embed_tokens.weight", "lm_head.weight")


def q(v):
    return v[0] / v[1]


def config(me, p, w, paths, base, place):
    ms = []
    for k, path in enumerate(paths):
        e = {"model": path}
        if me == "linear":
            e["parameters"] = {"weight": q(w[k])}
        if me == "passthrough" and p["scale"]:
            e["parameters"] = {"scale": q(p["scale"])}
        ms.append(e)
    if base and place >= 0:
        ms.insert(min(place, len(ms)), {"model": base})
    c = {"merge_method": me, "dtype": "float32", "models": ms}
    if base:
        c["base_model"] = base
    g = {}
    if p["norm"] != "default":
        g["normalize"] = p["norm"] == "true"
    if p["fw"] != "default":
        g["filter_wise"] = p["fw"] == "true"
    for k, name in (("t", "t"), ("r", "r"), ("alpha", "alpha"), ("eps", "epsilon"), ("topk", "select_topk")):
        if p[k]:
            g[name] = q(p[k])
    if g:
        c["parameters"] = g
    return c


def run(tmp, i, me, p, w, vals, base, hidden, heights, place, layers=1, mism=None, opts=None):
    """vals: list of {name: ints} (base first when base is set)"""
    root = "%s/%s" % (tmp, i)
    paths = []
    for k, td in enumerate(vals):
        path = "%s/m%d" % (root, k)

        def values(n, s, td=td, k=k):
            t = torch.tensor(td[n], dtype=torch.float32).reshape(s)
            if mism and mism == (k, n):
                t = torch.cat([t, t], dim=0)
            return t

        models.llama(path, layers=layers, hidden=hidden, vocab=heights[k], values=values)
        paths.append(path)
    b = paths[0] if base else None
    cfg = config(me, p, w, paths[1:] if base else paths, b, place)
    o = models.merge(cfg, root + "/out", **(opts or {}))
    shutil.rmtree(root, ignore_errors=True)
    recs = []
    for n in models.llama_names(layers):
        vec = "norm" in n
        h = {
            "method": me, "p": p, "w": w, "cols": 0 if vec else hidden, "rows": -1,
            "b": vals[0][n] if base else [], "x": [v[n] for v in (vals[1:] if base else vals)],
            "embed": n in EMB, "mismatch": bool(mism), "even": vec or bool(p.get("even")),
            "outcome": "error" if o.error else "ok", "out": [],
        }
        if not o.error:
            t = o.tensors.get(n)
            if t is None or o.problems:
                h["outcome"] = "missing"
            else:
                h["out"] = ints(t)
                h["rows"] = t.shape[0] if t.dim() == (1 if vec else 2) else -1
        recs.append((n, h, o))
        if o.error:
            break
    return recs


PYTH = [[3, 4], [4, 3], [6, 8], [1, 2, 2], [2, 3, 6], [1, 1, 1, 1], [1, 1, 3, 5], [5, 12], [1, 4, 8], [4, 4, 7], [1, 1, 1, 1, 2, 2, 2], [2], [3], [5], [1], []]


def pyth(rng, n):
    """integer vector of length n with integer norm"""
    v = rng.choice([x for x in PYTH if len(x) <= n]) + [0] * n
    v = v[:n]
    rng.shuffle(v)
    return [x * rng.choice([1, -1]) for x in v]


NOP = {"norm": "default", "fw": "default", "scale": [], "t": [], "r": [], "alpha": [], "eps": [], "topk": []}


def stock_values(rng, names, nm, hidden, heights, fw):
    base = {n: [rng.randint(-5, 5) for _ in range(size(n, hidden, heights[0]))] for n in names}
    vals = [base] + [{} for _ in range(nm)]
    for n in names:
        ln = len(base[n])
        while True:
            offs = []
            seg = hidden if (fw and "norm" not in n) else ln
            for _ in range(nm):
                offs.append(sum([pyth(rng, seg) for _ in range(ln // seg)], []))
            if all(stock_ok(offs, s, seg) for s in range(0, ln, seg)):
                break
        for m in range(nm):
            h = heights[m + 1] * hidden if n in EMB else ln
            v = [a + b for a, b in zip(base[n], offs[m])]
            vals[m + 1][n] = (v + [rng.randint(-9, 9) for _ in range(h)])[:h]
    return vals


def stock_ok(offs, s, seg):
    """the interpolation ratio is defined: 1 + (N-1) cos away from 0"""
    c = []
    for a in range(len(offs)):
        for b in range(a):
            x, y = offs[a][s : s + seg], offs[b][s : s + seg]
            d = sum(i * j for i, j in zip(x, y))
            nn = (sum(i * i for i in x) * sum(i * i for i in y)) ** 0.5
            c.append(d / nn if nn else 0)
    if not c:
        return True
    return abs(1 + (len(offs) - 1) * sum(c) / len(c)) > 0.1


def size(n, hidden, vocab):
    if "norm" in n:
        return hidden
    return hidden * (vocab if n in EMB else hidden)


def rnd(rng, tmp, i, me):
    p = dict(NOP)
    hidden = rng.choice([2, 3, 4])
    nm = {"passthrough": 1, "nearswap": 1, "arcee_fusion": 1}.get(me, rng.choice([1, 2, 2, 3]))
    base = me not in ("linear", "passthrough")
    if me == "model_stock":
        nm = rng.choice([2, 2, 3, 3, 1])
    if rng.random() < 0.04 and me in ("passthrough", "nearswap", "arcee_fusion"):
        nm = 2
    vocab = rng.choice([2, 3])
    heights = [vocab] * (nm + base)
    names = models.llama_names(1)
    w = [[1, 1]] * nm
    place = rng.choice([-1, 0, 1, 2]) if base else -1
    mism = None
    if me == "linear":
        while True:
            w = [[rng.randint(-4, 8), rng.choice([1, 2, 4])] for _ in range(nm)]
            p["norm"] = rng.choice(["default", "true", "false"])
            if abs(sum(q(x) for x in w)) > 0.2:
                break
        if rng.random() < 0.3:
            heights = [rng.choice([1, 2, 3, 4]) for _ in range(nm)]
        if nm > 1 and rng.random() < 0.06:
            mism = (rng.randint(0, nm - 1), rng.choice([n for n in names if n not in EMB]))
    if me == "passthrough":
        p["scale"] = rng.choice([[], [rng.randint(-4, 6), 4], [0, 1]])
    if me == "nearswap":
        p["t"] = [rng.randint(0, 12), rng.choice([1, 2, 4])]
    if me == "model_stock":
        p["fw"] = rng.choice(["default", "true", "false"])
        if rng.random() < 0.3:
            heights[1:] = [vocab + rng.choice([0, 0, 1, 2]) for _ in range(nm)]
    if me in ("ram", "ramplus_tl"):
        p["eps"] = rng.choice([[], [], [3, 2], [5, 2]])
        if me == "ramplus_tl":
            p["eps"] = rng.choice([[], [1, 1]])  # also floors a count in rho
            p["r"] = rng.choice([[], [1, 2], [1, 1]])
            p["alpha"] = rng.choice([[], [1, 2], [2, 1]])
    if me == "sce":
        p["topk"] = rng.choice([[], [rng.randint(0, 16), 16], [rng.randint(2, 14), 16], [18, 16]])
    if me == "model_stock":
        vals = stock_values(rng, names, nm, hidden, heights, p["fw"] == "true")
    elif me == "arcee_fusion":
        p["even"] = rng.random() < 0.5
        vals = [{}] + [{} for _ in range(nm)]
        for n in names:
            cols = hidden
            rows = size(n, hidden, vocab) // cols
            pr = []
            while len({tuple(x) for x in pr}) < 2 or len({x[1] - x[0] for x in pr}) < 2:
                pr = [[rng.randint(-4, 4), rng.randint(-4, 4)] for _ in range(cols)]
            allp = []
            for _ in range(rows):
                if not p["even"]:
                    while True:
                        pr = [[rng.randint(-4, 4), rng.randint(-4, 4)] for _ in range(cols)]
                        if len({x[1] - x[0] for x in pr}) > 1:
                            break
                r = pr[:]
                rng.shuffle(r)
                allp += r
            vals[0][n] = [x[0] for x in allp]
            for m in range(nm):
                vals[m + 1][n] = [x[1] for x in allp]
    else:
        sparse = rng.random() < 0.5
        vals = []
        b0 = {n: [rng.randint(-6, 6) for _ in range(size(n, hidden, heights[0]))] for n in names}
        if base:
            vals.append(b0)
        for m in range(nm):
            td = {}
            for n in names:
                ln = size(n, hidden, heights[m + base])
                if base:
                    td[n] = [a + rng.choice([0, 0, rng.randint(-5, 5)] if sparse else [rng.randint(-5, 5)]) for a in b0[n]]
                else:
                    td[n] = [rng.randint(-9, 9) for _ in range(ln)]
            vals.append(td)
    return run(tmp, i, me, p, w, vals, base, hidden, heights, place, mism=mism)


def from_spec(rng, tmp, printed, methods, limit):
    groups = {}
    for r in printed:
        c = r["c"]
        if c["method"] in methods:
            groups.setdefault((c["method"], str(c["p"]), str(c["w"])), []).append(c)
    res = []
    for gi, k in enumerate(sorted(groups)):
        cs = groups[k]
        for rep in range(limit):
            names = models.llama_names(3)
            base = bool(cs[0]["b"])
            nv = len(cs[0]["x"]) + base
            vals = [{} for _ in range(nv)]
            for n in names:
                reps = 1 if "norm" in n else 2
                parts = [rng.choice(cs) for _ in range(reps)]
                for z in range(nv):
                    vals[z][n] = sum([(list(c["b"]) if base and z == 0 else list(c["x"][z - base])) for c in parts], [])
            out = run(tmp, "s%d_%d" % (gi, rep), cs[0]["method"], cs[0]["p"], cs[0]["w"], vals, base, 2, [2] * nv, -1, layers=3)
            for n, h, o in out:
                if h["method"] == "arcee_fusion" and degenerate(h):
                    continue
                res.append((n, h, o))
    return res


def degenerate(h):
    """arcee_fusion: a uniform shift has no softmax divergence to rank by"""
    c = h["cols"] or len(h["b"])
    for s in range(0, len(h["b"]), c):
        if len({x - b for x, b in zip(h["x"][0][s : s + c], h["b"][s : s + c])}) < 2:
            return True
    return False


def check(c):
    rng = random.Random(c.seed * 31 + 14)
    methods = FIRST if c.prop == "P14" else SECOND
    r = vlib.tlc("MCBlend", workers=8)
    c.add_tlc(r)
    if c.thorough:
        cfg = open(vlib.SPEC + "/MCBlend.cfg").read().replace("{0, 1, 4}", "{0, 1, 3, 7}").replace("EMIT = TRUE", "EMIT = FALSE")
        c.add_tlc(vlib.tlc("MCBlend", cfg, workers=8, heap="12g", timeout=3000))
    cases = []
    with vlib.scratch() as tmp:
        cases += from_spec(rng, tmp, r.printed, methods, c.pick(3, 40))
        for i in range(c.pick(240, 5000)):
            cases += rnd(rng, tmp, i, methods[i % len(methods)])
    for _, h, _ in cases:
        h["p"] = {k: v for k, v in h["p"].items() if k != "even"}
    rej, tot = vlib.validate("VerdictBlend", [h for _, h, _ in cases], chunk=6000)
    c.add_tlc(tot, impl=len(cases))
    c.sample(cases[0][1])
    c.sample(cases[-1][1])
    for x in rej:
        n, h, o = cases[x["h"]]
        c.violation(h["method"] + ":" + ",".join(x["clauses"]), {"tensor": n, "h": h, "error": o.error})
    lone.check(c, methods)
