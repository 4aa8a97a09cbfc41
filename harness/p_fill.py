"""P32: a submodel's parameters put back into the larger model (spec/Fill.tla)."""
import env  # noqa
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys

import torch

import models
import vlib
from p_front import command
from p_lora import par
from p_multi import snap

DT = [torch.float32, torch.float32, torch.bfloat16, torch.float16]


def make(path, names, seed, sizes, rng):
    td = {}
    for n in names:
        k = sizes.get(tuple(n), 3)
        td[".".join(n)] = models.dyadic(rng, (k, 2), -50, 50, 4).to(rng.choice(DT))
    order = list(td)
    models.write_checkpoint(path, td, shards=rng.choice([1, 1, 2, 3]) if len(td) > 3 else 1, order=order)
    return td


EXTRAS = ["config.json", "tokenizer.json", "README.md", "sub/notes.txt", "vocab.model", "sub/deep/x.py", ".gitattributes", "preprocessor_config.json"]


def run_api(root, base, sub, out, shard):
    from mergekit.scripts.fill_missing_params import copy_and_fill_missing_params

    kw = {} if shard is None else {"max_shard_size": shard}
    return copy_and_fill_missing_params(base, sub, output_dir=out, **kw)


def digest_of(out):
    td, _, _ = models.read_checkpoint(out)
    h = hashlib.sha256()
    for k in sorted(td):
        h.update(("%s%s" % (k, td[k].dtype)).encode() + td[k].contiguous().flatten().view(torch.uint8).numpy().tobytes())
    return h.hexdigest()


def one(job):
    root, seed, base, sub, how = job
    rng = random.Random(seed)
    names = rng.choice([("base", "sub"), ("v1.5-base", "merged.0"), ("x", "y")])
    bp, sp = "%s/in/%s" % (root, names[0]), "%s/models/%s" % (root, names[1])
    os.makedirs(bp)
    os.makedirs(sp)
    pair = {}
    b = make(bp, base, seed, pair, rng)
    odd = {tuple(n): rng.choice([3, 3, 3, 4]) for n in map(tuple, sub)}
    s = make(sp, [tuple(n) for n in sub], seed, odd, rng)
    files = {}
    for x in rng.sample(EXTRAS, rng.randint(1, 5)):
        files[x] = json.dumps({"x": rng.randint(0, 99)}) if x.endswith("json") else "text %d\n" % rng.randint(0, 99)
        os.makedirs(os.path.dirname(bp + "/" + x), exist_ok=True)
        open(bp + "/" + x, "w").write(files[x])
    if rng.random() < 0.5:
        open(sp + "/config.json", "w").write('{"sub": 1}')
    before = snap(root + "/in"), snap(sp)
    out = None if rng.random() < 0.4 else "%s/out/deep" % root
    if out and rng.random() < 0.3:
        os.makedirs(out)
    shard = rng.choice([None, None, 1, 40, 200])
    expect = out or "%s/models/%s--%s" % (root, names[0], names[1])
    h = {"base": base, "sub": sub, "out": [], "refused": False, "sound": True, "files": True, "inputs": True, "place": True, "repeats": []}
    info = {"shard": shard, "out": (out or "").replace(root, ""), "names": names, "how": how}
    err = None
    if how == "api":
        try:
            p = run_api(root, bp, sp, out, shard)
            h["place"] = os.path.realpath(p) == os.path.realpath(expect)
        except Exception as e:
            err = repr(e)[:300]
    else:
        args = [bp, sp] + (["--output_dir", out] if out else []) + (["--max_shard_size", str(shard)] if shard is not None else [])
        r = command("fill_missing_params", args, how == "script")
        err = r.err if r.code else None
    info["error"] = err
    h["refused"] = err is not None
    h["inputs"] = before == (snap(root + "/in"), snap(sp))
    if not err:
        h["place"] = h["place"] and os.path.isdir(expect) and sorted(os.listdir(root + "/models")) == sorted([names[1]] + ([] if out else [os.path.basename(expect)]))
    if not err and h["place"]:
        td, _, problems = models.read_checkpoint(expect)
        info["problems"] = problems
        h["sound"] = not problems
        back = {k: k for k in td}
        for k, t in td.items():
            frm = "none"
            if k in b and t.dtype == b[k].dtype and t.shape == b[k].shape and torch.equal(t, b[k]):
                frm = "base"
            for i in range(2):  # the submodel's own name for it
                x = ".".join(k.split(".")[i:])
                if x in s and t.dtype == s[x].dtype and t.shape == s[x].shape and torch.equal(t, s[x]):
                    frm = "sub"
            h["out"].append({"n": k.split("."), "from": frm})
        for x, v in files.items():
            p = expect + "/" + x
            h["files"] = h["files"] and os.path.exists(p) and open(p).read() == v
        if h["refused"]:
            h["files"] = True
    shutil.rmtree(root)
    return h, info


LOOP = """
import sys
sys.path.insert(0, %r)
import env, p_fill
for l in open(sys.argv[1]):
    b, s, o = l.split()
    p_fill.run_api('', b, s, o, None)
"""


def repeats(root, worlds, seed, runs):
    """the same pairs in processes of different hash seeds"""
    rng = random.Random(seed)
    os.makedirs(root)
    hs = []
    for i, (base, sub) in enumerate(worlds):
        make("%s/b%d" % (root, i), base, seed, {}, rng)
        make("%s/s%d" % (root, i), sub, seed, {}, rng)
        hs.append([])
    for k in range(runs):
        with open("%s/l%d" % (root, k), "w") as f:
            for i in range(len(worlds)):
                f.write("%s/b%d %s/s%d %s/o%d-%d\n" % (root, i, root, i, root, i, k))
        p = subprocess.run([sys.executable, "-c", LOOP % os.path.dirname(os.path.abspath(__file__)), "%s/l%d" % (root, k)], capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=str(k + 1)))
        for i in range(len(worlds)):
            o = "%s/o%d-%d" % (root, i, k)
            try:
                hs[i].append(digest_of(o))
            except Exception:
                hs[i].append("none")
    shutil.rmtree(root)
    return hs


def realistic(rng):
    sub = models.llama_names(rng.randint(1, 3), tie=rng.random() < 0.5)
    p = rng.choice(["language_model", "text", "thinker"])
    base = [p + "." + n for n in sub] + ["%s.%s" % (rng.choice(["vision_tower", "audio", "projector"]), x) for x in ("a.weight", "a.bias", "layers.0.w", "layers.1.w")]
    base = list(dict.fromkeys(base))
    if rng.random() < 0.3:  # the submodel knows something the base does not
        sub = sub + ["extra.weight"]
    if rng.random() < 0.3:
        sub = rng.sample(sub, max(1, len(sub) // 2))
    rng.shuffle(base)
    return [n.split(".") for n in base], [n.split(".") for n in sub]


def check(c):
    rng = random.Random(c.seed * 523 + 32)
    c.add_tlc(vlib.tlc("MCFill", workers=8, timeout=600))
    r = vlib.tlc("MCFill", "MCFillPairs", workers=4, simulate=c.pick(1200, 8000), depth=30, seed=c.seed)
    c.add_tlc(r)
    seen, pairs = set(), []
    for x in r.printed:
        k = json.dumps([x["base"], x["sub"]])
        if k not in seen:
            seen.add(k)
            pairs.append(x)
    good = [x for x in pairs if x["hits"] >= 2 or x["best"] > 1]
    rest = [x for x in pairs if not (x["hits"] >= 2 or x["best"] > 1)]
    rng.shuffle(good)
    rng.shuffle(rest)
    n = c.pick(260, 3000)
    worlds = [(x["base"], x["sub"]) for x in good[: n // 2] + rest[: n // 4]]
    while len(worlds) < n:
        worlds.append(realistic(rng))
    with vlib.scratch() as tmp:
        jobs = [("%s/w%d" % (tmp, i), c.seed * 100003 + i, b, s, "script" if i == n - 1 else rng.choice(["api", "command"])) for i, (b, s) in enumerate(worlds)]
        got = par(one, jobs)
        tie = [(x["base"], x["sub"]) for x in good if x["best"] > 1][: c.pick(40, 300)]
        tie = [(b, s) for b, s in tie if len(b) > len(s)]
        reps = repeats(tmp + "/rep", tie, c.seed, c.pick(3, 6))
        at = {json.dumps([h["base"], h["sub"]]): h for h, _ in got}
        used = 0
        for (b, s), ds in zip(tie, reps):
            h = at.get(json.dumps([b, s]))
            if h is not None:
                used += 1
                h["repeats"] = ds
    hs = [h for h, _ in got]
    rej, tot = vlib.validate("VerdictFill", hs, chunk=300)
    c.add_tlc(tot, impl=len(hs))
    c.sample({"pairs": len(hs), "refused": sum(h["refused"] for h in hs), "ties_repeated": used, "filled": sum(any(o["from"] == "sub" for o in h["out"]) for h in hs)})
    c.sample({"example": hs[0]})
    for x in rej:
        h, info = got[x["h"]]
        if any(k.startswith("machinery") for k in x["clauses"]):
            raise vlib.MachineryError(json.dumps(h)[:500])
        c.violation(",".join(x["clauses"]), {"info": info, "history": h})
