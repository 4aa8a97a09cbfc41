"""P25: what the result of a merge depends on (spec/Repro.tla). The same merge
is run with other output and input options, another string hash seed, after
other merges and random draws, from other places and file formats, through the
command line, and on models that were rewritten after an earlier merge."""
import env  # noqa
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys

import torch

import models
import vlib

TOK = ["<unk>", "a", "b", "c", "d", "e"]
# method -> (needs base, smallest and largest number of other models, random)
METHODS = {
    "linear": (False, 1, 4, False),
    "slerp": (True, 1, 1, False),
    "nuslerp": (None, 2, 2, False),
    "multislerp": (None, 2, 4, False),
    "karcher": (False, 2, 3, False),
    "passthrough": (False, 1, 1, False),
    "model_stock": (True, 2, 3, False),
    "nearswap": (True, 1, 1, False),
    "arcee_fusion": (True, 1, 1, False),
    "task_arithmetic": (True, 1, 3, False),
    "ties": (True, 1, 4, False),
    "dare_ties": (True, 1, 3, True),
    "dare_linear": (True, 1, 3, True),
    "breadcrumbs": (True, 1, 3, False),
    "breadcrumbs_ties": (True, 1, 3, False),
    "della": (True, 1, 3, True),
    "della_linear": (True, 1, 3, True),
    "sce": (True, 2, 3, False),
    "ram": (True, 2, 3, False),
    "ramplus_tl": (True, 2, 3, False),
}
OWN = {"linear", "nuslerp", "multislerp", "task_arithmetic", "ties", "dare_ties", "dare_linear", "breadcrumbs", "breadcrumbs_ties", "della", "della_linear"}
DENSE = {"ties", "dare_ties", "dare_linear", "breadcrumbs", "breadcrumbs_ties", "della", "della_linear"}


def values(seed):
    g = torch.Generator().manual_seed(seed)
    return lambda n, s: torch.randn(s, generator=g)


def write(path, m, other=False, fmt="safetensors", shards=1):
    models.llama(path, layers=m["layers"], hidden=8, vocab=len(m["tok"]), values=values(m["seed"] + (5000 if other else 0)), tokenizer=m["tok"], fmt=fmt, shards=shards)


RAW = ["linear", "task_arithmetic", "ties", "dare_ties", "dare_linear", "della", "della_linear", "breadcrumbs", "nuslerp", "sce"]


def rnd_case(rng, method=None, raw=False):
    me = method or rng.choice(list(METHODS))
    needs, lo, hi, rnd = METHODS[me]
    base = needs or (needs is None and rng.random() < 0.5)
    n = rng.randint(lo, hi) + (1 if base else 0)
    layers = rng.choice([1, 2, 3])
    vocabs = not raw and rng.random() < 0.5 and me not in ("model_stock",)
    ms = []
    for i in range(n):
        tok = list(TOK)
        if vocabs:
            tok += rng.sample(["p", "q", "r", "s", "t", "u", "v", "w"], rng.randint(0, 4))
            tok = tok[:1] + rng.sample(tok[1:], len(tok) - 1)
        ms.append({"seed": rng.randint(0, 2000), "layers": layers, "tok": tok})

    def vec(lo, hi):
        if not raw and rng.random() < 0.25:
            return [rng.uniform(lo, hi) for _ in range(rng.randint(2, 4))]
        if rng.random() < 0.25:
            return [{"filter": rng.choice(["self_attn", "mlp", "q_proj"]), "value": rng.uniform(lo, hi)}, {"value": rng.uniform(lo, hi)}]
        return rng.uniform(lo, hi)

    per = []
    for i in range(n):
        p = {}
        if me in OWN:
            p["weight"] = vec(0.2, 1.2)
        if me in DENSE:
            p["density"] = rng.uniform(0.3, 0.7) if rnd else vec(0.3, 0.9)
        if me.startswith("della"):
            p["epsilon"] = rng.uniform(0.05, 0.2)
        if me.startswith("breadcrumbs"):
            p["gamma"] = rng.uniform(0.0, 0.2)
        per.append(p)
    glob = {}
    if me in ("slerp", "nearswap"):
        glob["t"] = vec(0.1, 0.9) if me == "slerp" else 0.05
    if me == "sce":
        glob["select_topk"] = rng.uniform(0.3, 1.0)
    if me in DENSE or me == "task_arithmetic":
        glob["lambda"] = rng.choice([1.0, 0.5, 1.3])
    if me in ("linear", "ties", "dare_ties") and rng.random() < 0.5:
        glob["normalize"] = rng.random() < 0.5
    return {
        "method": me,
        "random": rnd,
        "models": ms,
        "base": bool(base),
        "per": per,
        "glob": glob,
        "form": "raw" if raw else rng.choice(["models", "slices", "modules"]),
        "drop": me not in ("slerp", "nearswap") and rng.random() < 0.7,
        "split": rng.randint(1, layers),
        "dtype": rng.choice([None, "float32", "bfloat16", "float16"]),
        "tok": "none" if raw else rng.choice(["union", "base", "plain"]) if vocabs else rng.choice(["none", "union", "base"]),
        "seed": rng.randint(0, 10**6),
    }


def config(k, paths):
    """models[0] is the base when there is one"""
    if k["form"] == "raw":
        paths = [tensors_file(p) for p in paths]
    base = paths[0] if k["base"] else None
    idx = list(range(len(paths)))
    if base and k["form"] in ("models", "raw") and k["drop"]:
        idx = idx[1:]
    par = [{"parameters": k["per"][i]} if k["per"][i] else {} for i in range(len(paths))]
    c = {"merge_method": k["method"]}
    if k["form"] in ("models", "raw"):
        c["models"] = [dict(model=paths[i], **par[i]) for i in idx]
    else:
        n = k["models"][0]["layers"]
        cuts = sorted({0, k["split"], n})
        sl = [{"sources": [dict(model=paths[i], layer_range=[a, b], **par[i]) for i in idx]} for a, b in zip(cuts, cuts[1:])]
        if k["form"] == "slices":
            c["slices"] = sl
        else:
            c["modules"] = {"default": {"slices": sl}}
    if base:
        c["base_model"] = base
    if k["glob"]:
        c["parameters"] = k["glob"]
    if k["dtype"]:
        c["dtype"] = k["dtype"]
    if k["tok"] == "plain":
        c["tokenizer_source"] = paths[-1]
    elif k["tok"] != "none":
        c["tokenizer_source"] = k["tok"]
    return c


def tensors_file(p):
    for n in ("model.safetensors", "model.safetensors.index.json", "pytorch_model.bin", "pytorch_model.bin.index.json"):
        if os.path.exists(p + "/" + n):
            return p + "/" + n
    return p


def digest(o, paths=()):
    if o.error:
        return "error " + o.etype
    s = repr(o.key())
    for i, p in enumerate(paths):
        s = s.replace(p, "<%d>" % i)
    return hashlib.sha1(s.encode()).hexdigest()


def disk(d):
    h = hashlib.sha1()
    for r, ds, fs in sorted(os.walk(d)):
        for f in sorted(fs):
            h.update(("%s/%s" % (os.path.relpath(r, d), f)).encode())
            with open(os.path.join(r, f), "rb") as x:
                h.update(x.read())
    return h.hexdigest()


def options(v, rng):
    """an option vector of the model -> MergeOptions"""
    o = dict(async_write=v["async"], write_threads=v["threads"], safe_serialization=v["safe"], lazy_unpickle=v["lazy"], clone_tensors=v["clone"], low_cpu_memory=v["lowcpu"])
    if v["shard"]:
        o["out_shard_size"] = rng.choice([40, 100, 1000, 2000])
    for x in ("quiet", "write_model_card", "allow_crimes", "trust_remote_code"):
        if rng.random() < 0.3:
            o[x] = not dict(quiet=True, write_model_card=False).get(x, False)
    return o


FLAGS = {"async_write": "async-write", "lazy_unpickle": "lazy-unpickle", "clone_tensors": "clone-tensors", "low_cpu_memory": "low-cpu-memory", "safe_serialization": "safe-serialization", "allow_crimes": "allow-crimes", "write_model_card": "write-model-card", "quiet": "quiet"}


def cli(cfg, out, seed, o, raw=False, forget=True):
    import yaml
    from click.testing import CliRunner

    from mergekit.scripts import merge_raw_pytorch, run_yaml

    main = merge_raw_pytorch.main if raw else run_yaml.main

    y = out + ".yml"
    with open(y, "w") as f:
        yaml.safe_dump(cfg, f)
    args = [y, out, "--random-seed", str(seed), "--no-copy-tokenizer"]
    for k, fl in FLAGS.items():
        if k in o:
            args.append("--%s%s" % ("" if o[k] else "no-", fl))
    if "out_shard_size" in o:
        args += ["--out-shard-size", "%dK" % (o["out_shard_size"] // 1000) if o["out_shard_size"] >= 1000 else str(o["out_shard_size"])]
    if o.get("write_threads", 1) != 1:
        args += ["--write-threads", str(o["write_threads"])]
    if forget and not raw:
        models.fresh_loaders()
    if forget and raw:
        merge_raw_pytorch.SimpleLoaderCache._instance = None
    r = CliRunner().invoke(main, args)
    os.remove(y)
    x = models.Outcome()
    if r.exception and not isinstance(r.exception, SystemExit) or r.exit_code:
        x.error = repr(r.exception)
        x.etype = type(r.exception).__name__
        return x
    x = models.collect(out)
    if raw:
        x.problems = [p for p in x.problems if p != "no config.json"]
    return x


class Case:
    def __init__(self, root, i, k, vectors):
        self.k = k
        self.rng = random.Random("%s-%s" % (i, k["seed"]))
        self.home = "%s/%s" % (root, i)
        self.paths = ["%s/m%d" % (self.home, j) for j in range(len(k["models"]))]
        self.vectors = vectors

    def prepare(self):
        for p, m in zip(self.paths, self.k["models"]):
            write(p, m)

    def go(self, tag, paths=None, seed=None, forget=True, cfg=None, via=None, **opts):
        out = "%s/out-%s" % (self.home, tag)
        paths = paths or self.paths
        seed = self.k["seed"] if seed is None else seed
        cfg = cfg or config(self.k, paths)
        raw = self.k["form"] == "raw"
        if via or raw:
            o = cli(cfg, out, seed, opts, raw, forget)
        else:
            o = models.merge(cfg, out, forget=forget, random_seed=seed, **opts)
        shutil.rmtree(out, ignore_errors=True)
        self.last = o
        return digest(o, paths)

    def variants(self):
        k, rng = self.k, self.rng
        one = k["form"] == "raw"  # such inputs are single files
        runs = []

        def add(what, d, seed=k["seed"]):
            runs.append({"what": what, "seed": seed, "digest": d})
            if self.last.error:
                self.errors[what] = self.last.error

        self.errors = {}
        before = [disk(p) for p in self.paths]
        add("reference", self.go("ref"))
        for v in self.vectors:
            add("options", self.go("opt", **options(v, rng)))
        torch.rand(rng.randint(1, 50))
        random.random()
        add("random-state", self.go("rng"))
        if k["random"] and not self.last.error:
            s = k["seed"] + rng.randint(1, 99)
            add("seed", self.go("seed", seed=s), s)
        add("earlier-merges", self.go("again", forget=False))
        add("earlier-merges", self.go("again", forget=False, **options(rng.choice(self.vectors), rng)))
        try:
            if k["form"] == "raw":
                raise ValueError
            from mergekit.config import MergeConfiguration

            mc = MergeConfiguration.model_validate(config(k, self.paths))
            add("configuration-object", self.go("obj", cfg=mc))
            add("configuration-object", self.go("obj", cfg=mc))
        except Exception:
            pass
        add("command-line", self.go("cli", via=True, **options(rng.choice(self.vectors), rng)))
        inputs = [disk(p) for p in self.paths]
        # the same models in other places
        names = rng.sample(["zeta", "alpha", "M", "0", "under_score", "x-y", "q.r", "k1"], len(self.paths))
        moved = ["%s/moved/%s" % (self.home, n) for n in names]
        for a, b in zip(self.paths, moved):
            shutil.copytree(a, b)
        add("place-of-models", self.go("mov", paths=moved))
        # the same tensors in other files
        fm = ["%s/format/m%d" % (self.home, j) for j in range(len(moved))]
        for p, m in zip(fm, k["models"]):
            write(p, m, fmt=rng.choice(["safetensors", "bin"]), shards=one or rng.choice([1, 2, 3]))
        add("format-of-models", self.go("fmt", paths=fm, lazy_unpickle=rng.random() < 0.5))
        # models rewritten after an earlier merge in this process
        rw = ["%s/rewritten/m%d" % (self.home, j) for j in range(len(moved))]
        for p, m in zip(rw, k["models"]):
            write(p, m, other=True, fmt=rng.choice(["safetensors", "safetensors", "bin"]), shards=one or rng.choice([1, 1, 2]))
        self.go("rw0", paths=rw, forget=False)
        for p, m in zip(rw, k["models"]):
            shutil.rmtree(p)
            write(p, m, fmt=rng.choice(["safetensors", "safetensors", "bin"]), shards=one or rng.choice([1, 1, 2]))
        add("earlier-contents-of-models", self.go("rw", paths=rw, forget=False))
        for d in ("moved", "format", "rewritten"):
            shutil.rmtree("%s/%s" % (self.home, d))
        return {"runs": runs, "errors": self.errors, "inputs": before == inputs}


def worker(spec, n):
    import logging

    logging.disable(logging.CRITICAL)
    torch.set_num_threads(1)
    with open(spec) as f:
        s = json.load(f)
    res = {}
    for i, j in enumerate(s["cases"]):
        c = Case(s["root"], i, j["k"], j["vectors"])
        if i % s["workers"] == n:
            res[i] = c.variants()
        else:
            d = (n - i) % s["workers"]
            if d in (1, 3):  # another hash seed
                res[i] = {"runs": [{"what": "string-hashing", "seed": j["k"]["seed"], "digest": c.go("hash%d" % n)}]}
    with open("%s.%d" % (spec, n), "w") as f:
        json.dump(res, f)


def check(c):
    import mergekit.merge  # noqa
    import mergekit.scripts.run_yaml  # noqa

    r = vlib.tlc("MCRepro", workers=8)
    c.add_tlc(r)
    vectors = [x["o"] for x in r.printed]
    rng = random.Random(c.seed * 57 + 2)
    W = 8
    cases = []
    per = c.pick(3, 40)
    for me in METHODS:
        for i in range(per):
            cases.append({"k": rnd_case(rng, me), "vectors": rng.sample(vectors, c.pick(3, 5))})
    for i in range(c.pick(15, 200)):
        cases.append({"k": rnd_case(rng, rng.choice(RAW), True), "vectors": rng.sample(vectors, c.pick(3, 5))})
    rng.shuffle(cases)
    with vlib.scratch() as tmp:
        for i, j in enumerate(cases):
            Case(tmp, i, j["k"], j["vectors"]).prepare()
        spec = tmp + "/spec.json"
        with open(spec, "w") as f:
            json.dump({"root": tmp, "workers": W, "cases": cases}, f)
        ps = []
        for n in range(W):
            e = dict(os.environ, PYTHONHASHSEED=str(n * 101 + c.seed % 1000))
            ps.append(subprocess.Popen([sys.executable, os.path.abspath(__file__), spec, str(n)], env=e, cwd=os.path.dirname(os.path.abspath(__file__)), stderr=subprocess.PIPE, stdout=subprocess.DEVNULL))
        for p in ps:
            err = p.communicate()[1]
            if p.returncode:
                raise vlib.MachineryError(err.decode()[-2000:])
        got = []
        for n in range(W):
            with open("%s.%d" % (spec, n)) as f:
                got.append(json.load(f))
    hs = []
    info = []
    nruns = 0
    bad = 0
    for i, j in enumerate(cases):
        own = got[i % W][str(i)]
        runs = list(own["runs"])
        for n in range(W):
            if n != i % W and str(i) in got[n]:
                runs += got[n][str(i)]["runs"]
        hs.append({"random": j["k"]["random"], "runs": runs, "inputs": own["inputs"]})
        info.append({"case": j["k"], "errors": own["errors"]})
        nruns += len(runs)
        bad += runs[0]["digest"].startswith("error")
    if bad > len(cases) // 4:
        c.violation("merges-fail", {"failing": bad, "of": len(cases), "info": [x for x in info if x["errors"]][:3]})
    rej, tot = vlib.validate("VerdictRepro", hs, chunk=2000)
    c.add_tlc(tot, impl=nruns)
    c.sample(hs[0])
    for x in rej:
        c.violation(",".join(x["clauses"]), {"h": hs[x["h"]], "info": info[x["h"]]})


if __name__ == "__main__":
    worker(sys.argv[1], int(sys.argv[2]))
