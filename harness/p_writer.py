"""P04 / P05: checkpoint writing against spec/Writer.tla."""
import env  # noqa
import json
import os
import random
import re
import shutil
import sys
import threading
import time

import torch
from safetensors.torch import save_file  # noqa

import faults
import models
import vlib
from mergekit.io import TensorWriter

OLD = {"old.a": torch.full((3,), 901.0), "old.b": torch.full((2,), 902.0)}


def put_prior(d, prior, base, safe):
    os.makedirs(d, exist_ok=True)
    ext = "safetensors" if safe else "bin"
    if prior == "none":
        return

    def dump(td, fn):
        p = os.path.join(d, fn)
        if safe:
            save_file(td, p)
        else:
            torch.save(td, p)

    if prior == "single":
        dump(OLD, "%s.%s" % (base, ext))
    else:
        wm = {}
        for i, k in enumerate(OLD):
            fn = "%s-%05d-of-00002.%s" % (base, i + 1, ext)
            dump({k: OLD[k]}, fn)
            wm[k] = fn
        with open(os.path.join(d, "%s.%s.index.json" % (base, ext)), "w") as f:
            json.dump({"metadata": {"total_size": 20}, "weight_map": wm}, f)


def same(a, b):
    return (
        a.dtype == b.dtype
        and a.shape == b.shape
        and (
            torch.equal(a, b)
            or torch.equal(
                a.contiguous().view(torch.uint8) if a.dim() else a.reshape(1).view(torch.uint8),
                b.contiguous().view(torch.uint8) if b.dim() else b.reshape(1).view(torch.uint8),
            )
        )
    )


def read_one(d, base, ext, prefer_index):
    """-> (status, tensors, shard files used, total_size)"""
    single = os.path.join(d, "%s.%s" % (base, ext))
    index = single + ".index.json"
    use_index = os.path.exists(index) and (prefer_index or not os.path.exists(single))
    if use_index:
        try:
            with open(index) as f:
                c = json.load(f)
            wm = c["weight_map"]
        except Exception:
            return "none", {}, [], 0  # unreadable index: no checkpoint
        td = {}
        files = sorted(set(wm.values()))
        sh = []
        for fn in files:
            p = os.path.join(d, fn)
            if not os.path.exists(p):
                return "mixed", {}, [], 0
            try:
                got = models.read_file(p)
            except Exception:
                return "mixed", {}, [], 0
            sh.append(got)
            for k, v in got.items():
                if wm.get(k) == fn:
                    td[k] = v
                else:
                    return "mixed", {}, [], 0
        if set(td) != set(wm):
            return "mixed", {}, [], 0
        return "ok", td, sh, c.get("metadata", {}).get("total_size", 0)
    if os.path.exists(single):
        try:
            td = models.read_file(single)
        except Exception:
            return "mixed", {}, [], 0
        return "ok", td, [td], 0
    return "none", {}, [], 0


def nbytes(t):
    return t.numel() * t.element_size()


def view(d, base, safe, registry):
    ext = "safetensors" if safe else "bin"
    a = read_one(d, base, ext, True)
    b = read_one(d, base, ext, False)
    out = {"st": "none", "ent": [], "old": False, "shards": [], "total": 0}

    def ent(td):
        r = []
        for k, v in sorted(td.items()):
            val = 0
            for i, t in registry.get(k, {}).items():
                if same(v, t):
                    val = i
            r.append({"name": k, "val": val})
        return r

    st = a[0]
    if a[0] != b[0] or ent(a[1]) != ent(b[1]):
        st = "mixed"
    if st == "ok" and set(a[1]) == set(OLD) and all(same(a[1][k], OLD[k]) for k in OLD):
        out["old"] = True
    out["st"] = st
    out["ent"] = ent(a[1]) if st == "ok" else []
    out["shards"] = [
        {"size": sum(nbytes(v) for v in s.values()), "count": len(s)} for s in a[2]
    ]
    out["total"] = a[3]
    left = False
    known = set()
    for fn in os.listdir(d) if os.path.isdir(d) else []:
        if not fn.endswith("." + ext):
            continue
        if fn == "%s.%s" % (base, ext) or re.fullmatch(
            re.escape(base) + r"-\d{5}-of-\d{5}\." + ext, fn
        ):
            continue
        left = True
    out["leftovers"] = left
    return out


DT = [
    torch.float32,
    torch.float16,
    torch.bfloat16,
    torch.float64,
    torch.int64,
    torch.int32,
    torch.uint8,
    torch.bool,
]


def make_tensors(rng, n, mode):
    """list of (name, tensor)"""
    out = []
    shared = torch.arange(24, dtype=torch.float32).reshape(4, 6) + rng.randint(0, 99)
    for i in range(n):
        nm = "t.%d.%s" % (i, rng.choice(["w", "b", "lm_head"]))
        k = rng.random()
        if mode == "plain":
            t = torch.full((rng.choice([1, 2, 3, 4, 6, 8]),), float(i + 1))
        elif mode == "shared" and k < 0.7:
            t = rng.choice(
                [shared, shared.t(), shared[1:3], shared[:, :2], shared.flatten(), shared[0]]
            )
        else:
            shape = rng.choice([(), (1,), (3,), (2, 2), (0,), (4, 3), (5,)])
            dt = rng.choice(DT)
            t = torch.randint(0, 2 if dt == torch.bool else 50, shape).to(dt)
            if t.dim() == 2 and rng.random() < 0.4:
                t = t.t()
        out.append((nm, t))
    return out


class Preempt:
    """random preemption at line granularity inside mergekit/io code"""

    def __init__(self, rng, p):
        self.rng, self.p = rng, p

    def tracer(self, frame, event, arg):
        if "mergekit/io" not in frame.f_code.co_filename:
            return None

        def local(fr, ev, a):
            if self.rng.random() < self.p:
                time.sleep(0.0002)
            return local

        return local

    def __enter__(self):
        threading.settrace(self.tracer)

    def __exit__(self, *a):
        threading.settrace(None)


def scenario(rng, d, threads, use_async, wthreads, maxsz, safe, prior, base, mode, n, fault, clone):
    """run one writer history; returns history"""
    put_prior(d, prior, base or ("model" if safe else "pytorch_model"), safe)
    b = base or ("model" if safe else "pytorch_model")
    items = make_tensors(rng, n, mode)
    registry = {}
    for i, (nm, t) in enumerate(items):
        registry.setdefault(nm, {})[i + 1] = t.clone()
    ids = {}
    for i, (nm, t) in enumerate(items):
        # equal contents are indistinguishable: use the id the reader reports
        ids[i] = max(j for j, x in registry[nm].items() if same(x, t.contiguous()))
    evs = []
    lk = threading.Lock()
    faulted = [0]

    def tf(path):
        with lk:
            faulted[0] += 1
            hit = fault and faulted[0] == fault
            if hit:
                evs.append({"ev": "fault"})
        if hit:
            if rng.random() < 0.6:  # the write breaks off half way
                with open(path, "wb") as f:
                    f.write(b"\x40torn")
            raise OSError(28, "No space left on device", path)
        if use_async:
            time.sleep(rng.choice([0, 0.001, 0.003]))

    hist = {"g": {"max": maxsz, "prior": prior, "seqn": threads == 1, "all": []}, "evs": evs}
    try:
        with faults.tensor_file_hook(os.path.abspath(d), tf):
            w = TensorWriter(
                d,
                max_shard_size=maxsz,
                safe_serialization=safe,
                override_basename=base,
                use_async=use_async,
                max_write_threads=wthreads,
            )
            errs = []

            def worker(part):
                for i in part:
                    nm, t = items[i]
                    try:
                        # the event is logged before the call: a save that
                        # returns must be in the checkpoint
                        w.save_tensor(nm, t, clone=clone)
                        ok = True
                    except Exception as e:
                        ok = False
                        errs.append(e)
                    with lk:
                        evs.append(
                            {"ev": "save", "name": nm, "val": ids[i], "size": nbytes(t), "ok": ok}
                        )
                    if not ok:
                        return

            if threads == 1:
                worker(range(n))
            else:
                with Preempt(random.Random(rng.random()), 0.35):
                    ths = [
                        threading.Thread(target=worker, args=(range(k, n, threads),))
                        for k in range(threads)
                    ]
                    for t in ths:
                        t.start()
                    for t in ths:
                        t.join()
            if errs:
                raise errs[0]
            w.finalize()
        evs.append({"ev": "finalized", "view": view(d, b, safe, registry)})
    except Exception as e:
        evs.append({"ev": "error", "error": repr(e)[:200], "view": view(d, b, safe, registry)})
    return hist


def check(c):
    rng = random.Random(c.seed)
    torch.manual_seed(c.seed)
    r = vlib.tlc("MCWriter", workers=8)
    c.add_tlc(r)
    for k in ("Stale", "Early"):
        vlib.tlc("MCWriter", "MCWriter" + k, workers=8, expect_violation=True)
    if c.thorough:
        cfg = open(vlib.SPEC + "/MCWriter.cfg").read().replace("T = 2", "T = 3")
        c.add_tlc(vlib.tlc("MCWriter", cfg, workers=8, heap="12g"))
    hist = []
    root = os.path.realpath(__import__("tempfile").mkdtemp(prefix="vwriter"))
    try:
        if c.prop == "P04":
            exactness(c, rng, root, hist)
        else:
            atomicity(c, rng, root, hist)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    rej, tot = vlib.validate("TraceWriter", hist)
    c.add_tlc(tot, impl=len(hist))
    c.sample(hist[1])
    c.sample(hist[-1])
    for x in rej:
        c.violation(
            "history rejected: %s at event %d" % (x["clauses"], x["l"]), hist[x["h"]]
        )


def exactness(c, rng, root, hist):
    n = c.pick(500, 5000)
    for i in range(n):
        d = "%s/%d" % (root, i)
        threads = rng.choice([1, 1, 1, 2, 3])
        mode = rng.choice(["plain", "shared", "mixed", "mixed"])
        hist.append(
            scenario(
                rng,
                d,
                threads=threads,
                use_async=rng.random() < 0.5,
                wthreads=rng.choice([1, 2, 4]),
                maxsz=rng.choice([0, 1, 8, 16, 24, 40, 64, 10**9]),
                safe=rng.random() < 0.75,
                prior=rng.choice(["none", "none", "single", "multi"]),
                base=rng.choice([None, None, None, "adapter_model", "consolidated-x"]),
                mode=mode,
                n=rng.randint(1, 9),
                fault=0,
                clone=rng.random() < 0.3,
            )
        )
        shutil.rmtree(d, ignore_errors=True)


def atomicity(c, rng, root, hist):
    # write faults: must surface, must not leave a presentable checkpoint
    for i in range(c.pick(250, 2500)):
        d = "%s/%d" % (root, i)
        hist.append(
            scenario(
                rng,
                d,
                threads=rng.choice([1, 1, 2]),
                use_async=rng.random() < 0.6,
                wthreads=rng.choice([1, 2, 4]),
                maxsz=rng.choice([0, 8, 16, 24]),
                safe=rng.random() < 0.75,
                prior=rng.choice(["none", "none", "single", "multi"]),
                base=None,
                mode="plain",
                n=rng.randint(1, 7),
                fault=rng.choice([1, 1, 2, 3]),
                clone=False,
            )
        )
        shutil.rmtree(d, ignore_errors=True)
    # crashes at every mutating file operation
    nc = 0
    for prior in ("none", "single", "multi"):
        for use_async in (False, True):
            for safe in (True, False):
                for maxsz in (0, 16, 8):
                    for n in c.pick([4], [1, 2, 4, 6]):
                        crash_case(c, rng, root, hist, prior, use_async, safe, maxsz, n)


def crash_case(c, rng, root, hist, prior, use_async, safe, maxsz, n):
    items = [("t.%d" % i, torch.full((2,), float(i + 1))) for i in range(n)]
    registry = {nm: {i + 1: t} for i, (nm, t) in enumerate(items)}
    b = "model" if safe else "pytorch_model"
    alln = [["t.%d" % i, i + 1] for i in range(n)]

    def run(d):
        w = TensorWriter(
            d, max_shard_size=maxsz, safe_serialization=safe, use_async=use_async
        )
        for nm, t in items:
            w.save_tensor(nm, t)
        w.finalize()

    k = 1
    while k < 200:
        d = "%s/crash" % root
        shutil.rmtree(d, ignore_errors=True)
        put_prior(d, prior, b, safe)
        died = faults.crash_at(d, k, lambda: run(d))
        hist.append(
            {
                "g": {"max": maxsz, "prior": prior, "seqn": True, "all": alln},
                "evs": [{"ev": "crash", "at": k, "died": died, "view": view(d, b, safe, registry)}],
            }
        )
        if not died:
            break
        k += 1
    shutil.rmtree("%s/crash" % root, ignore_errors=True)
