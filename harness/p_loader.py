"""P06 / P07: checkpoint reading against spec/Loader.tla and Unpickle.tla."""
import env  # noqa
import json
import os
import pickle
import random
import shutil
import sys
import tempfile
import threading
import zipfile

import torch

import models
import vlib
from p_writer import Preempt, same
from mergekit.io.lazy_tensor_loader import LazyTensorLoader

B = torch.arange(48, dtype=torch.float32).reshape(6, 8) + 1


def variant(rng, k, fmt):
    """a tensor for value id k (distinct per id)"""
    base = B + 100 * k
    ch = ["full", "t", "rows", "cols", "scalar", "half", "bf16", "f64", "i64", "i8", "bool", "empty3d", "one"]
    c = rng.choice(ch)
    if c == "full":
        return base
    if c == "t":
        return base.t()
    if c == "rows":
        return base[1:4]
    if c == "cols":
        return base[:, 2:5]
    if c == "scalar":
        return torch.tensor(float(k))
    if c == "half":
        return (base[0]).half()
    if c == "bf16":
        return torch.tensor([float(k), 2.0 * k]).bfloat16()
    if c == "f64":
        return base.double()
    if c == "i64":
        return base.long()
    if c == "i8":
        return torch.tensor([k, k + 1, -k], dtype=torch.int8)
    if c == "bool":
        return torch.tensor([bool((k >> j) & 1) for j in range(6)])
    if c == "empty3d":
        return torch.zeros((k, 0, 2))
    return torch.tensor([float(k)])


def write(d, td, shard, fmt, layout):
    """layout: 'index' | 'single' | 'wrapped'"""
    os.makedirs(d, exist_ok=True)
    if layout in ("single", "wrapped"):
        if fmt == "safetensors":
            models.write_checkpoint(d, td, fmt=fmt)
        else:
            torch.save({"state_dict": td} if layout == "wrapped" else td, d + "/pytorch_model.bin")
        return
    wm = {}
    for s in sorted(set(shard.values())):
        part = {k: td[k] for k in td if shard[k] == s}
        if fmt == "safetensors":
            fn = "model-%05d-of-%05d.safetensors" % (s, 9)
            models.save_file({k: v.contiguous() for k, v in part.items()}, d + "/" + fn)
        else:
            fn = "pytorch_model-%05d-of-%05d.bin" % (s, 9)
            torch.save(part, d + "/" + fn)
        for k in part:
            wm[k] = fn
    idx = "model.safetensors" if fmt == "safetensors" else "pytorch_model.bin"
    with open("%s/%s.index.json" % (d, idx), "w") as f:
        json.dump({"metadata": {}, "weight_map": wm}, f)


def do_get(ld, e, td, vals, how):
    try:
        kw = {}
        if e["aliases"] or how % 2:
            kw["aliases"] = list(e["aliases"])
        if not e["must"] or how % 3 == 0:
            kw["raise_on_missing"] = e["must"]
        r = ld.get_tensor(e["key"], **kw)
    except KeyError:
        return {"k": "keyerror", "v": 0}
    except Exception as ex:
        return {"k": "error", "v": 0, "error": repr(ex)[:200]}
    if r is None:
        return {"k": "none", "v": 0}
    for n, t in td.items():
        if same(r, t.contiguous()):
            return {"k": "val", "v": vals[n]}
    return {"k": "val", "v": 0}


def replay(rng, d, shard, log, fmt, lazy, layout, threads=1):
    vals = {"a": 1, "b": 2, "c": 3}
    td = {n: variant(rng, vals[n], fmt) for n in vals}
    if rng.random() < 0.3 and fmt == "bin":
        # tensors sharing one storage
        td["a"], td["b"] = B[:3], B[3:]
    ent = [{"name": n, "val": v} for n, v in vals.items()]
    write(d, td, shard, fmt, layout)
    evs = []
    try:
        ld = LazyTensorLoader.from_disk(d, lazy_unpickle=lazy)
        evs.append({"ev": "names", "names": sorted(ld.index.tensor_paths)})
        lk = threading.Lock()

        def run(part, how):
            for e in part:
                if e["ev"] == "flush":
                    ld.flush()
                    with lk:
                        evs.append({"ev": "flush"})
                else:
                    res = do_get(ld, e, td, vals, how)
                    with lk:
                        evs.append(
                            {
                                "ev": "get",
                                "key": e["key"],
                                "aliases": e["aliases"],
                                "must": e["must"],
                                "res": {"k": res["k"], "v": res["v"]},
                                "error": res.get("error", ""),
                            }
                        )

        if threads == 1:
            run(log, rng.randint(0, 5))
        else:
            with Preempt(random.Random(rng.random()), 0.4):
                ths = [
                    threading.Thread(target=run, args=(log[k::threads], k))
                    for k in range(threads)
                ]
                for t in ths:
                    t.start()
                for t in ths:
                    t.join()
        evs.append({"ev": "end"})
    except Exception as ex:
        evs.append({"ev": "failed", "error": repr(ex)[:300]})
    return {
        "g": {"has": ent},
        "fmt": fmt,
        "lazy": lazy,
        "layout": layout,
        "shard": shard,
        "kinds": {k: [str(v.dtype), list(v.shape), list(v.stride())] for k, v in td.items()},
        "evs": evs,
    }


def check(c):
    if c.prop == "P07":
        return check_unpickle(c)
    rng = random.Random(c.seed)
    c.add_tlc(vlib.tlc("MCLoader", workers=8))
    vlib.tlc("MCLoader", "MCLoaderNoLock", workers=8, expect_violation=True)
    gen = vlib.tlc("MCLoader", "GenLoader", workers=8)
    c.add_tlc(gen)
    cases = gen.printed
    rng.shuffle(cases)
    cases = cases[: c.pick(700, 4096)]
    hist = []
    root = tempfile.mkdtemp(prefix="vload")
    try:
        for i, x in enumerate(cases):
            d = "%s/%d" % (root, i)
            fmt = rng.choice(["safetensors", "bin", "bin"])
            layout = rng.choice(["index", "index", "index", "single", "wrapped"])
            log = x["log"]
            hist.append(
                replay(rng, d, x["shard"], log, fmt, rng.random() < 0.6, layout)
            )
            shutil.rmtree(d, ignore_errors=True)
        # concurrent readers of one loader
        for i in range(c.pick(120, 1200)):
            d = "%s/t%d" % (root, i)
            log = []
            for x in rng.sample(cases, 4):
                log += x["log"]
            hist.append(
                replay(
                    rng,
                    d,
                    rng.choice(cases)["shard"],
                    log,
                    rng.choice(["safetensors", "bin"]),
                    rng.random() < 0.6,
                    "index",
                    threads=rng.choice([2, 3]),
                )
            )
            shutil.rmtree(d, ignore_errors=True)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    rej, tot = vlib.validate("TraceLoader", hist)
    c.add_tlc(tot, impl=len(hist))
    c.sample(hist[0])
    c.sample(hist[-1])
    for x in rej:
        c.violation(
            "lookup rejected: %s at event %d" % (x["clauses"], x["l"]), hist[x["h"]]
        )


# --- hostile files --------------------------------------------------------

FOREIGN = [
    ("vcanary", "hit", "()"),
    ("vcanary", "Evil", "()"),
    ("vcanary", "Evil.method", "()"),
    ("builtins", "eval", "str"),
    ("builtins", "exec", "str"),
    ("builtins", "getattr", "getattr"),
    ("posix", "system", "cmd"),
    ("os", "system", "cmd"),
    ("subprocess", "call", "cmd"),
    ("torch", "load", "()"),
    ("torch.serialization", "load", "()"),
    ("torch._utils", "_rebuild_tensor", "()"),
    ("numpy", "load", "()"),
    ("collections", "Counter", "()"),
    ("vcanary_import", "x", "()"),
    ("builtins", "__import__", "imp"),
    ("pickle", "loads", "()"),
    ("_codecs", "decode", "()"),
    ("torch", "nn.Module", "()"),
    ("codecs", "encode", "()"),
    ("torch", "hub.load", "()"),
    ("torch", "get_num_threads", "()"),
    ("torch", "Tensor", "()"),
    ("torch.nn", "Module", "()"),
    ("torch._utils", "_rebuild_parameter", "()"),
    ("torch.storage", "UntypedStorage", "()"),
    ("torch.jit", "annotations.datetime", "()"),
    ("numpy", "ndarray", "()"),
    ("numpy.core.multiarray", "_reconstruct", "()"),
    ("collections", "OrderedDict.fromkeys", "()"),
    ("builtins", "dict", "()"),
    ("builtins", "object", "()"),
    ("_codecs", "lookup_error", "()"),
    ("copyreg", "_reconstructor", "()"),
    ("functools", "partial", "()"),
    ("mergekit.io.lazy_unpickle", "torch_lazy_load", "()"),
]


def short_str(s):
    b = s.encode()
    return b"X" + len(b).to_bytes(4, "little") + b


# torch's own restricted unpickler (used when the file is not read lazily)
# keeps a list of its own, which contains some harmless library names
DANGEROUS = [f for f in FOREIGN if f[0].split(".")[0] not in ("torch", "collections", "numpy", "_codecs", "codecs")]


def assemble(prog, rng, mark, strict):
    mod, name, kind = rng.choice(FOREIGN if strict else DANGEROUS)
    okg = rng.choice(
        [("collections", "OrderedDict"), ("torch._utils", "_rebuild_tensor_v2"), ("torch", "FloatStorage")]
    )

    def args():
        if kind == "str":
            return short_str("__import__('vcanary').hit()")
        if kind == "cmd":
            return short_str("echo x >> " + mark)
        if kind == "imp":
            return short_str("vcanary_import")
        return b""

    a = args()
    tup = (a + b"\x85") if a else b")"
    out = b"\x80\x04"
    for op in prog:
        if op == "gok":
            out += b"c" + okg[0].encode() + b"\n" + okg[1].encode() + b"\n"
        elif op == "gbad":
            out += b"c" + mod.encode() + b"\n" + name.encode() + b"\n"
        elif op == "sbad":
            out += short_str(mod) + short_str(name) + b"\x93"
        elif op == "ibad":
            out += b"(" + a + b"i" + mod.encode() + b"\n" + name.encode() + b"\n"
        elif op == "pop":
            out += b"0"
        elif op == "args":
            out += tup
        elif op == "dict":
            out += b"}"
        elif op == "reduce":
            out += b"R"
        elif op == "newobj":
            out += b"\x81"
        elif op == "build":
            out += b"b"
        elif op == "pok":
            out += (
                b"("
                + short_str("storage")
                + b"ctorch\nFloatStorage\n"
                + short_str("0")
                + short_str("cpu")
                + b"K\x04tQ"
            )
        elif op == "pbad":
            out += b"(" + short_str("module") + b"K\x01tQ"
    return out + b".", (mod, name)


def check_unpickle(c):
    rng = random.Random(c.seed)
    r = vlib.tlc("MCUnpickle", workers=8)
    c.add_tlc(r)
    progs = r.printed
    # programs that finish the attack: what would run if a lookup were allowed
    extra = []
    for g in ("gbad", "sbad"):
        extra += [
            [g, "args", "reduce"],
            [g, "args", "newobj"],
            ["dict", g, "args", "reduce"],
            ["gok", "args", g, "args", "reduce"],
            [g, "args", "reduce", "dict", "build"],
            ["pok", g, "args", "reduce"],
            [g],
        ]
        extra += [["dict", g, "pop"], [g, "pop", "dict"], [g, "args", "reduce", "pop", "dict"]] * 3
    extra += [["ibad"], ["dict", "ibad"], ["ibad", "dict", "build"]]
    cases = []
    for p in progs:
        cases.append(p["prog"])
        if p["prog"][-1] in ("gbad", "sbad"):
            cases.append(p["prog"] + ["args", "reduce"])
    for _ in range(c.pick(25, 120)):
        cases += extra
    rng.shuffle(cases)
    cases = cases[: c.pick(900, 6000)]
    root = tempfile.mkdtemp(prefix="vhost")
    mark = root + "/mark"
    with open(root + "/vcanary.py", "w") as f:
        f.write(
            "HITS=[]\n"
            "def hit(*a):\n    HITS.append(1)\n    return {}\n"
            "class Evil(dict):\n"
            "    def __init__(self,*a):\n        HITS.append(1)\n"
            "    def __new__(cls,*a):\n        HITS.append(1)\n        return dict.__new__(cls)\n"
            "    @staticmethod\n"
            "    def method(*a):\n        HITS.append(1)\n        return {}\n"
        )
    with open(root + "/vcanary_import.py", "w") as f:
        f.write("import vcanary\nvcanary.HITS.append(1)\nx=dict\n")
    sys.path.insert(0, root)
    import vcanary

    hist = []
    try:
        for i, p in enumerate(cases):
            d = "%s/%d" % (root, i)
            os.makedirs(d)
            lazy = rng.random() < 0.75
            indexed = rng.random() < 0.8
            data, glob = assemble(p, rng, mark, lazy and indexed)
            inner = "archive" if i % 2 else "pytorch_model-00001-of-00002"
            fn = "pytorch_model-00001-of-00002.bin"
            with zipfile.ZipFile(d + "/" + fn, "w") as z:
                z.writestr(inner + "/data.pkl", data)
                z.writestr(inner + "/byteorder", "little")
                z.writestr(inner + "/data/0", b"\0" * 16)
                z.writestr(inner + "/version", "3\n")
            if indexed:
                with open(d + "/pytorch_model.bin.index.json", "w") as f:
                    json.dump({"weight_map": {"x": fn}}, f)
            else:
                os.rename(d + "/" + fn, d + "/pytorch_model.bin")
            del vcanary.HITS[:]
            before = (pickle.Unpickler, pickle.load, pickle.loads, torch._utils._rebuild_tensor)
            try:
                ld = LazyTensorLoader.from_disk(d, lazy_unpickle=lazy)
                ld.get_tensor("x")
                outcome = "ok"
            except KeyError as e:
                # the file was opened and understood; it just lacks the tensor
                outcome = "accepted"
            except Exception as e:
                outcome = "error"
            eff = len(vcanary.HITS)
            if "vcanary_import" in sys.modules:
                eff += 1
                del sys.modules["vcanary_import"]
            if os.path.exists(mark):
                eff += 1
                os.unlink(mark)
            after = (pickle.Unpickler, pickle.load, pickle.loads, torch._utils._rebuild_tensor)
            hist.append(
                {
                    "prog": p,
                    "glob": list(glob),
                    "lazy": lazy,
                    "outcome": outcome,
                    "effects": eff,
                    "restored": before == after,
                }
            )
            shutil.rmtree(d, ignore_errors=True)
    finally:
        shutil.rmtree(root, ignore_errors=True)
        sys.path.remove(root)
    rej, tot = vlib.validate("VerdictUnpickle", hist)
    c.add_tlc(tot, impl=len(hist))
    c.sample(hist[0])
    c.sample(hist[1])
    for x in rej:
        c.violation("hostile file: %s" % x["clauses"], hist[x["h"]])
