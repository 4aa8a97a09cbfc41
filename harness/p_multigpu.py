"""P03: multi-device evaluation against spec/ParallelExec.tla, and whole merges
on simulated devices against the serial evaluator."""
import env  # noqa
import contextlib
import random
import sys
import threading
import time

import torch

import tqdm

import vlib
from typing import Tuple

from mergekit.graph import Task
import mergekit.merge  # noqa
from mergekit.multigpu_executor import MultiGPUExecutor

# --- stand-ins: a machine with several accelerators ------------------------
# Device "cpu:k" plays accelerator k; streams are no-ops.
torch.accelerator.current_accelerator = lambda *a, **k: torch.device("cpu")
torch.cuda.Stream = lambda *a, **k: None
torch.cuda.stream = lambda *a, **k: contextlib.nullcontext()
torch.cpu.device_count = lambda: 3

REC = None
SLOW = 0.0


class _Bar(tqdm.tqdm):
    """progress display that may be slow to update"""

    def __init__(self, *a, **k):
        k["disable"] = True
        super().__init__(*a, **k)

    def update(self, n=1):
        if SLOW:
            time.sleep(SLOW)
        return super().update(n)


tqdm.tqdm = _Bar


class Boom(Exception):
    def __init__(self, t):
        super().__init__("boom %d" % t)
        self.t = t


class Box:
    def __init__(self, pid):
        self.pid = pid


class Rec:
    def __init__(self, g, order, fail, gate_ms):
        self.g, self.fail, self.gate = g, fail, gate_ms / 1000.0
        self.evs = []
        self.cv = threading.Condition()
        self.thr = {}
        self.main = threading.get_ident()
        self.order = list(order)
        self.pos = {}
        for k, t in enumerate(order):
            self.pos.setdefault(t, k)
        self.passed = 0

    def tid(self):
        i = threading.get_ident()
        if i == self.main:
            return 0
        with self.cv:
            return self.thr.setdefault(i, len(self.thr) + 1)

    def log(self, **e):
        with self.cv:
            self.evs.append(e)

    def turn(self, t):
        """wait (briefly) for this task's place in the prescribed order"""
        k = self.pos.get(t, 0)
        end = time.time() + self.gate
        with self.cv:
            while self.passed < k:
                left = end - time.time()
                if left <= 0:
                    break
                self.cv.wait(left)

    def leave(self, t):
        with self.cv:
            self.passed = max(self.passed, self.pos.get(t, 0) + 1)
            self.cv.notify_all()


class PT(Task):
    i: int
    deps: Tuple["PT", ...] = ()
    mt: bool = False
    dp: bool = False
    acc: bool = False

    def arguments(self):
        return {"a%d" % k: d.model_copy(deep=True) for k, d in enumerate(self.deps)}

    def main_thread_only(self):
        return self.mt

    def duplicate_per_gpu(self):
        return self.dp

    def uses_accelerator(self):
        return self.acc

    def execute(self, **kw):
        r = REC
        th = r.tid()
        ids = [
            (kw["a%d" % k].pid if isinstance(kw.get("a%d" % k), Box) else 0)
            for k in range(len(self.deps))
        ]
        r.log(ev="start", t=self.i, thr=th, args=ids)
        if th:
            r.turn(self.i)
        if r.fail == self.i:
            r.log(ev="fail", t=self.i, thr=th)
            r.leave(self.i)
            raise Boom(self.i)
        v = Box(self.i)
        r.log(ev="end", t=self.i, thr=th)
        r.leave(self.i)
        return v


PT.model_rebuild()


def run_one(g, order, fail, ngpu, slow, gate):
    global REC, SLOW
    SLOW = slow
    g = dict(g, ndev=ngpu)
    nodes = {}
    for t in range(1, g["n"] + 1):
        nodes[t] = PT(
            i=t,
            deps=tuple(nodes[d] for d in g["args"][t - 1]),
            mt=t in g["main"],
            dp=t in g["dup"],
            acc=(t % 2 == 0),
        )
    rec = REC = Rec(g, order, fail, gate)
    try:
        try:
            ex = MultiGPUExecutor([nodes[t] for t in g["targets"]], num_gpus=ngpu)
        except RuntimeError as e:
            rec.log(ev="refused", error=repr(e)[:100])
            return {"g": g, "evs": rec.evs}
        for task, val in ex.run(quiet=True):
            rec.log(
                ev="yield", t=task.i, value=val.pid if isinstance(val, Box) else 0
            )
        rec.log(ev="finish")
    except Boom as e:
        rec.log(ev="raised", t=e.t)
    except Exception as e:
        rec.log(ev="raised", t=-1, error=repr(e)[:200])
    with rec.cv:
        evs = list(rec.evs)
    # anything a leftover worker logs after the caller has the outcome is not
    # part of the history
    return {"g": g, "evs": evs}


def watchdog(c, fn, args, limit=60):
    box = {}

    def body():
        box["r"] = fn(*args)

    # the evaluator's "main thread" is the caller's thread
    t = threading.Thread(target=body, daemon=True)
    t.start()
    t.join(limit)
    if t.is_alive():
        return None
    return box.get("r")


def check(c):
    rng = random.Random(c.seed)
    r = vlib.tlc("MCParallelExec", workers=8)
    c.add_tlc(r)
    vlib.tlc("MCParallelExec", "MCParallelExecNoDrain", workers=8, expect_violation=True)
    sims = vlib.tlc(
        "MCParallelExec",
        "SimParallelExec",
        simulate=c.pick(250, 3000),
        depth=80,
        seed=c.seed,
        workers=1,
    )
    c.add_tlc(sims)
    hist = []
    hung = 0
    for x in sims.printed:
        g = x["g"]
        fail = 0 if rng.random() < 0.75 else rng.randint(1, g["n"])
        h = watchdog(
            c,
            run_one,
            (
                g,
                x["ord"],
                fail,
                rng.choice([1, 2, 3]),
                rng.choice([0.0, 0.0, 0.003]),
                rng.choice([0, 3, 8]),
            ),
        )
        if h is None:
            hung += 1
            c.violation("execution does not terminate", {"g": g, "fail": fail})
            if hung > 2:
                break
            continue
        hist.append(h)
    rej, tot = vlib.validate("TraceParallelExec", hist)
    c.add_tlc(tot, impl=len(hist))
    c.sample(hist[0])
    c.sample(hist[-1])
    for x in rej:
        c.violation(
            "execution rejected: %s at event %d" % (x["clauses"], x["l"]), hist[x["h"]]
        )
    whole_merges(c, rng)


def whole_merges(c, rng):
    """run_merge(multi_gpu=True) must produce what the serial evaluator does."""
    import models

    global SLOW
    with vlib.scratch() as d:
        models.llama(d + "/a", seed=1, layers=2, vocab=6, tokenizer=["x", "y", "z"])
        models.llama(d + "/b", seed=2, layers=2, vocab=6, tokenizer=["x", "y", "w"])
        models.llama(d + "/base", seed=3, layers=2, vocab=6, tokenizer=["x", "y", "z"])
        cfgs = [
            dict(
                merge_method="linear",
                models=[
                    dict(model=d + "/a", parameters=dict(weight=0.25)),
                    dict(model=d + "/b", parameters=dict(weight=0.75)),
                ],
                dtype="float32",
            ),
            dict(
                merge_method="ties",
                base_model=d + "/base",
                models=[
                    dict(model=d + "/a", parameters=dict(weight=0.5, density=0.5)),
                    dict(model=d + "/b", parameters=dict(weight=1.0, density=0.6)),
                ],
                dtype="float32",
            ),
            dict(
                merge_method="slerp",
                base_model=d + "/a",
                models=[dict(model=d + "/a"), dict(model=d + "/b")],
                parameters=dict(t=0.5),
                dtype="float32",
            ),
            dict(
                merge_method="linear",
                models=[
                    dict(model=d + "/a", parameters=dict(weight=1)),
                    dict(model=d + "/b", parameters=dict(weight=1)),
                ],
                base_model=d + "/base",
                dtype="float32",
                tokenizer_source="union",
            ),
        ]
        n = 0
        for rep in range(c.pick(2, 10)):
            for k, cfg in enumerate(cfgs):
                SLOW = 0.0
                ref = models.merge(cfg, "%s/ref%d_%d" % (d, k, rep), shard=200)
                SLOW = rng.choice([0.0, 0.002])
                got = watchdog(
                    c,
                    lambda: models.merge(
                        cfg, "%s/mg%d_%d" % (d, k, rep), shard=200, multi_gpu=True
                    ),
                    (),
                )
                SLOW = 0.0
                n += 1
                if got is None or got != ref:
                    c.violation(
                        "multi-device merge differs from serial merge",
                        {
                            "config": cfg,
                            "serial": models.brief(ref),
                            "multi": models.brief(got) if got else "hang",
                        },
                    )
        c.impl(n)
