"""P15 (sparsified and sign-consensus task-vector merges): spec/Gta.tla, and
the keep-probability statistics of the random sparsifiers: spec/Prune.tla."""
import env  # noqa
import random
import shutil

import torch

import lone
import models
import vlib

S = 1000


def ints(t):
    return [int(round(x * S)) if abs(x) < 2e6 else 2 * 10**9 for x in t.double().nan_to_num(1e9).flatten().tolist()]


def f(q):
    return q[0] / q[1]


def config(pr, paths):
    """pr: method, w, dens, gam, eps, norm, resc, lam, place (where base is
    listed), int8"""
    ms = []
    for k, p in enumerate(paths[1:]):
        par = {"weight": f(pr["w"][k])}
        for key, name in (("dens", "density"), ("gam", "gamma"), ("eps", "epsilon")):
            if pr[key][k]:
                par[name] = f(pr[key][k])
        ms.append({"model": p, "parameters": par})
    if pr.get("place", -1) >= 0:
        ms.insert(min(pr["place"], len(ms)), {"model": paths[0], "parameters": {"weight": 7.0}})
    g = {}
    if pr["norm"] != "default":
        g["normalize"] = pr["norm"] == "true"
    if pr["resc"] != "default":
        g["rescale"] = pr["resc"] == "true"
    if pr["lam"]:
        g["lambda"] = f(pr["lam"])
    if pr.get("int8"):
        g["int8_mask"] = True
    c = {"merge_method": pr["method"], "dtype": "float32", "base_model": paths[0], "models": ms}
    if g:
        c["parameters"] = g
    return c


def merge_values(root, pr, vals, layers, hidden, vocab, opts=None):
    """vals: per model (base first) {name: list of ints}"""
    paths = []
    for k, td in enumerate(vals):
        p = "%s/m%d" % (root, k)
        models.llama(
            p, layers=layers, hidden=hidden, vocab=vocab,
            values=lambda n, s, td=td: torch.tensor(td[n], dtype=torch.float32).reshape(s),
        )
        paths.append(p)
    o = models.merge(config(pr, paths), root + "/out", **(opts or {}))
    shutil.rmtree(root, ignore_errors=True)
    return o


def shape(n, hidden, vocab):
    if "norm" in n:
        return hidden
    if n in ("model.embed_tokens.weight", "lm_head.weight"):
        return hidden * vocab
    return hidden * hidden


def records(pr, vals, o, names, hidden):
    res = []
    if o.error:
        # the merge as a whole failed: judged on its smallest tensor, which is
        # the first to become impossible
        names = ["model.norm.weight"]
    for n in names:
        h = {k: pr[k] for k in ("method", "w", "dens", "gam", "eps", "norm", "resc", "lam")}
        h["b"] = vals[0][n]
        h["x"] = [v[n] for v in vals[1:]]
        h["cols"] = hidden
        h["outcome"] = "error" if o.error else "ok"
        h["out"] = []
        if not o.error:
            if o.problems or n not in o.tensors:
                h["outcome"] = "missing"
            else:
                h["out"] = ints(o.tensors[n])
        res.append((n, h))
    return res


def rnd_tensor(rng, n, style):
    if style == "distinct":
        mags = rng.sample(range(1, 12), min(n, 11)) + [rng.randint(0, 11) for _ in range(n - 11)]
        rng.shuffle(mags)
        return [m * rng.choice([1, -1]) for m in mags]
    if style == "sparse":
        return [rng.choice([0, 0, 0, rng.randint(-9, 9)]) for _ in range(n)]
    return [rng.randint(-9, 9) for _ in range(n)]


DET = ["task_arithmetic", "ties", "ties", "breadcrumbs", "breadcrumbs_ties"]
RND = ["dare_linear", "dare_ties", "della", "della_linear"]


def rnd_case(rng, tmp, i):
    rand = rng.random() < 0.45
    method = rng.choice(RND if rand else DET)
    nm = rng.choice([1, 2, 2]) if rand else rng.choice([1, 2, 2, 3])
    hidden = 2 if rand else rng.choice([2, 3, 3])
    vocab = 2 if rand else rng.choice([2, 3])
    q = lambda lo, hi, d: [rng.randint(lo, hi), d]
    eps = "della" in method

    def dens():
        if rng.random() < 0.15:
            return []
        if eps:
            return rng.choice([[0, 16], [16, 16], [20, 16]] + [[k, 16] for k in range(4, 13)] * 2)
        if method == "ties":
            return [rng.randint(5, 16), 16] if rng.random() < 0.85 else [rng.randint(0, 18), 16]
        return [rng.randint(0, 18), 16]

    pr = {
        "method": method,
        "w": [rng.choice([[1, 1], [1, 2], q(-6, 8, 4), q(1, 8, 4)]) for _ in range(nm)],
        "dens": [dens() for _ in range(nm)],
        "gam": [rng.choice([[], q(0, 8, 16)]) if "breadcrumbs" in method else [] for _ in range(nm)],
        "eps": [rng.choice([[], q(1, 4, 16), q(1, 4, 16)]) if eps else [] for _ in range(nm)],
        "norm": rng.choice(["default", "default", "true", "false"]),
        "resc": rng.choice(["default", "default", "true", "false"]),
        "lam": rng.choice([[], [1, 2], [2, 1], [0, 1], [-1, 1]]),
        "place": rng.choice([-1, -1, 0, 1, 2]),
        "int8": rng.random() < 0.3,
    }
    names = models.llama_names(1)
    vals = []
    sty = rng.choice(["distinct", "distinct", "any", "sparse"])
    base = {n: rnd_tensor(rng, shape(n, hidden, vocab), "any") for n in names}
    vals = [base]
    for _ in range(nm):
        vals.append({n: [a + b for a, b in zip(base[n], rnd_tensor(rng, len(base[n]), sty))] for n in names})
    o = merge_values("%s/r%d" % (tmp, i), pr, vals, 1, hidden, vocab)
    keep = names if not rand else rng.sample(names, 4)
    return records(pr, vals, o, keep, hidden), o, pr


def spec_cases(rng, tmp, printed, limit):
    """group TLC's configurations by parameters; fill one merge with many
    value combinations"""
    groups = {}
    for r in printed:
        c = r["c"]
        k = (c["method"], str(c["w"]), str(c["dens"]), str(c["gam"]), c["norm"], c["resc"])
        groups.setdefault(k, []).append(c)
    keys = sorted(groups)
    rng.shuffle(keys)
    res = []
    for gi, k in enumerate(keys[:limit]):
        cs = groups[k]
        pr = {x: cs[0][x] for x in ("method", "w", "dens", "gam", "eps", "norm", "resc", "lam")}
        L = 3
        names = models.llama_names(L)
        vals = [{}, {}, {}]
        for n in names:
            if "norm" in n:
                c = rng.choice(cs)
                v = [c["b"], c["x"][0], c["x"][1]]
            else:
                c, d = rng.choice(cs), rng.choice(cs)
                v = [c["b"] + d["b"], c["x"][0] + d["x"][0], c["x"][1] + d["x"][1]]
            for z in range(3):
                vals[z][n] = list(v[z])
        o = merge_values("%s/g%d" % (tmp, gi), pr, vals, L, 2, 2)
        keep = [n for n in names if "norm" in n]
        keep += rng.sample([n for n in names if "norm" not in n], 3)
        for n, h in records(pr, vals, o, keep, 2):
            res.append((n, h, o, pr))
    return res


# --- keep probabilities of the random sparsifiers ------------------------------


def prune_case(rng, tmp, i, method, dens, eps, seed):
    """Two models whose task vectors are powers of two by position: which
    elements survived can be read off one merged matrix."""
    # hidden = columns; tall embedding gives many rows
    rows, cols = 1500, 6
    mags = [1, 2, 3, 4, 5, 6]
    A, B = [], []
    for _ in range(rows):
        a, b = mags[:], mags[:]
        rng.shuffle(a)
        rng.shuffle(b)
        A.append(a)
        B.append([100 * x for x in b])
    names = models.llama_names(1)

    def vals(M):
        return lambda n, s: torch.tensor(M, dtype=torch.float32) if s[0] == rows else torch.zeros(s)

    root = "%s/p%d" % (tmp, i)
    models.llama(root + "/b", layers=1, hidden=cols, vocab=rows, values=vals([[0] * cols] * rows))
    models.llama(root + "/x", layers=1, hidden=cols, vocab=rows, values=vals(A))
    models.llama(root + "/y", layers=1, hidden=cols, vocab=rows, values=vals(B))
    pr = {"method": method, "w": [[1, 1]] * 2, "dens": [dens] * 2, "gam": [[]] * 2, "eps": [eps] * 2, "norm": "false", "resc": "false", "lam": []}
    o = models.merge(config(pr, [root + "/" + k for k in "bxy"]), root + "/out", random_seed=seed)
    shutil.rmtree(root, ignore_errors=True)
    h = {"method": method, "dens": dens, "eps": eps, "rows": rows, "cols": cols, "outcome": "error" if o.error else "ok",
         "kept": [0] * cols, "kept2": [0] * cols, "both": 0, "pair": 0, "junk": 0, "again": True}
    if o.error:
        return h, o
    out = o.tensors["model.embed_tokens.weight"].double()
    tA, tB = torch.tensor(A, dtype=torch.float64), torch.tensor(B, dtype=torch.float64)
    kB = (out.abs() > 50)
    rest = out - tB * kB
    kA = rest.abs() > 0.5
    h["junk"] = int(((rest - tA * kA).abs() > 1e-3).sum())
    for r in range(cols):
        h["kept"][r] = int((kA & (tA.abs() == r + 1)).sum())
        h["kept2"][r] = int((kB & (tB == 100 * (r + 1))).sum())
    h["both"] = int((kA & kB).sum())
    hd = o.tensors["lm_head.weight"].double()
    kB2 = hd.abs() > 50
    h["pair"] = int((kB & kB2).sum())
    return h, o


def check(c):
    rng = random.Random(c.seed * 31 + 15)
    r = vlib.tlc("MCGta", workers=8)
    c.add_tlc(r)
    if c.thorough:
        cfg = open(vlib.SPEC + "/MCGta.cfg").read()
        cfg = cfg.replace("{0, 2, 5}", "{0, 2}").replace("Lens = {2}", "Lens = {1, 2, 3}").replace("EMIT = TRUE", "EMIT = FALSE")
        c.add_tlc(vlib.tlc("MCGta", cfg, workers=8, heap="12g", timeout=3000))
    cases = []
    prunes = []
    with vlib.scratch() as tmp:
        cases += spec_cases(rng, tmp, r.printed, c.pick(60, 400))
        for i in range(c.pick(220, 4000)):
            recs, o, pr = rnd_case(rng, tmp, i)
            cases += [(n, h, o, pr) for n, h in recs]
        k = 0
        for rep in range(c.pick(1, 12)):
            for method in RND:
                for d in ([4, 16], [12, 16], [9, 16]):
                    e = [] if "dare" in method else rng.choice([[], [1, 16], [3, 16]])
                    prunes.append(prune_case(rng, tmp, k, method, d, e, rng.randint(1, 10**6)))
                    k += 1
    rej, tot = vlib.validate("VerdictGta", [h for _, h, _, _ in cases], chunk=4000)
    c.add_tlc(tot, impl=len(cases))
    c.sample(cases[0][1])
    c.sample(cases[-1][1])
    for x in rej:
        n, h, o, pr = cases[x["h"]]
        c.violation(",".join(x["clauses"]), {"tensor": n, "h": h, "error": o.error, "settings": pr})
    rej, tot = vlib.validate("VerdictPrune", [h for h, _ in prunes])
    c.add_tlc(tot, impl=len(prunes))
    c.sample(prunes[-1][0])
    for x in rej:
        h, o = prunes[x["h"]]
        c.violation(",".join(x["clauses"]), {"h": h, "error": o.error})
    lone.check(c, ["task_arithmetic", "ties", "dare_linear", "dare_ties", "breadcrumbs", "breadcrumbs_ties", "della", "della_linear"])
