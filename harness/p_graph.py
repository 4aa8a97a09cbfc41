"""P01 / P02: serial task graph evaluation against spec/TaskGraph.tla."""
import env  # noqa
import gc
import random
import sys
import weakref

import vlib
from typing import Optional, Tuple

import torch

from mergekit.graph import Executor, Task, TaskUniverse

REC = None  # current recorder


class Boom(Exception):
    def __init__(self, t):
        super().__init__("boom %d" % t)
        self.t = t


class Box:
    """Opaque non-tensor value, identified by its producer."""

    def __init__(self, pid):
        self.pid = pid


class Rec:
    def __init__(self, g, kinds, fail, math):
        self.g, self.kinds, self.fail, self.math = g, kinds, fail, math
        self.evs = []
        self.refs = {}
        self.none = set()

    def make(self, t, track=True):
        """Value of task t: the producer's id is the tensor's length, so that it
        survives a move to the (data-less) meta device."""
        k = self.kinds[t - 1]
        x = torch.zeros(t)
        if k == "tensor":
            v = x
        elif k == "dict":
            v = {"a": x, "b": 7}
        elif k == "list":
            v = [x, "s"]
        elif k == "tuple":
            v = (x,)
        elif k == "nested":
            v = {"a": [(x,)]}
        else:
            x = Box(t)
            v = x
        if track:
            self.refs[t] = weakref.ref(x)
        return v

    @staticmethod
    def leaf(v):
        while True:
            if isinstance(v, dict):
                v = v.get("a")
            elif isinstance(v, (list, tuple)) and v:
                v = v[0]
            else:
                return v

    def ident(self, v):
        v = self.leaf(v)
        if isinstance(v, torch.Tensor):
            return int(v.shape[0]) if v.dim() == 1 else 0
        if isinstance(v, Box):
            return v.pid
        return 0

    def device(self, v):
        v = self.leaf(v)
        if isinstance(v, torch.Tensor):
            return "math" if v.device.type == self.math else "storage"
        return None

    def live(self):
        return sorted(t for t, r in self.refs.items() if r() is not None)

    def dev_of(self, t, vals):
        if not vals:
            return "none"
        ds = {self.device(v) for v in vals} - {None}
        want = (
            "math"
            if (t in self.g["accel"])
            else "storage"
        )
        if self.math == "cpu" or not ds:
            return want  # devices indistinguishable in this run
        return ds.pop() if len(ds) == 1 else "mixed"


class GT(Task):
    """A graph node.  Two GT objects with the same fields are the same task;
    arguments() builds fresh equal objects each time it is called."""

    i: int
    deps: Tuple["GT", ...] = ()
    acc: bool = False
    grp: Optional[str] = None
    prio: int = 0

    def arguments(self):
        return {"a%d" % k: d.model_copy(deep=True) for k, d in enumerate(self.deps)}

    def uses_accelerator(self):
        return self.acc

    def group_label(self):
        return self.grp

    def priority(self):
        return self.prio

    def execute(self, **kw):
        r = REC
        vals = [kw.get("a%d" % k) for k in range(len(self.deps))]
        ids = [
            self.deps[k].i if v is None and self.deps[k].i in r.none else r.ident(v)
            for k, v in enumerate(vals)
        ]
        dev = r.dev_of(self.i, vals)
        if len(kw) != len(self.deps):
            ids.append(0)
        del vals, kw
        r.evs.append(
            {"ev": "start", "t": self.i, "args": ids, "dev": dev, "live": r.live()}
        )
        if r.fail == self.i:
            r.evs.append({"ev": "fail", "t": self.i})
            raise Boom(self.i)
        v = r.make(self.i)
        r.evs.append({"ev": "end", "t": self.i})
        return v


GT.model_rebuild()


def run_graph(g, rng, fail=0, kinds=None, math="cpu", order=None, keys=True):
    global REC
    n = g["n"]
    kinds = kinds or [
        rng.choice(["box", "tensor", "dict", "list", "tuple", "nested"])
        for _ in range(n)
    ]
    g = dict(g)
    if math != "cpu":
        g["accel"] = sorted(t for t in range(1, n + 1) if rng.random() < 0.5)
    rec = REC = Rec(g, kinds, fail, math)
    nodes = {}
    for t in range(1, n + 1):
        nodes[t] = GT(
            i=t,
            deps=tuple(nodes[d] for d in g["args"][t - 1]),
            acc=t in g["accel"],
            grp=rng.choice([None, "a", "b"]) if keys else None,
            prio=rng.choice([-10, 0, 0, 5]) if keys else 0,
        )
    tg = list(g["targets"])
    if order:
        rng.shuffle(tg)
    try:
        if g["cached"]:
            uni = TaskUniverse([nodes[t] for t in range(1, n + 1)])
            none = rng.random() < 0.3  # pre-supplied values may be None too
            rec.none = set(g["cached"]) if none else set()
            cached = {
                uni.get_handle(nodes[t]): None if none else rec.make(t, False)
                for t in g["cached"]
            }
            ex = Executor(
                [uni.get_handle(nodes[t]) for t in tg],
                math_device=torch.device(math),
                cached_values=cached,
            )
        else:
            cached = None
            ex = Executor([nodes[t] for t in tg], math_device=torch.device(math))
        for task, val in ex.run(quiet=True):
            d = rec.device(val)
            rec.evs.append(
                {
                    "ev": "yield",
                    "t": task.i,
                    "value": rec.ident(val),
                    "dev": "storage" if (math == "cpu" or d is None) else d,
                }
            )
            del val, task
        rec.evs.append({"ev": "finish", "live": rec.live()})
    except Boom as e:
        rec.evs.append({"ev": "raised", "t": e.t})
        e.__traceback__ = None
    except Exception as e:
        rec.evs.append({"ev": "raised", "t": -1, "error": repr(e)[:200]})
    REC = None
    return {"g": g, "evs": rec.evs}


MEM = {"released", "all-released"}


def random_graph(rng, n):
    args = []
    for t in range(1, n + 1):
        k = rng.choice([0, 1, 1, 2, 2, 3])
        k = min(k, t - 1)
        d = rng.sample(range(1, t), k)
        if d and rng.random() < 0.1:
            d.append(rng.choice(d))  # same input under two argument names
        args.append(d)
    tg = rng.sample(range(1, n + 1), rng.randint(1, max(1, n // 2)))
    ca = (
        rng.sample(range(1, n + 1), rng.randint(1, max(1, n // 3)))
        if rng.random() < 0.4
        else []
    )
    return {"n": n, "args": args, "targets": tg, "cached": ca, "accel": []}


def check(c):
    rng = random.Random(c.seed)
    r = vlib.tlc("MCTaskGraph", workers=8)
    c.add_tlc(r)
    cases = list(r.printed)
    if c.thorough:
        r = vlib.tlc(
            "MCTaskGraph",
            open(vlib.SPEC + "/MCTaskGraph.cfg").read().replace("N = 3", "N = 4"),
            workers=8,
        )
        c.add_tlc(r)
        cases += r.printed
    gc.disable()
    hist = []
    for g in cases:
        hist.append(run_graph(g, rng, math=rng.choice(["cpu", "meta"])))
        f = rng.randint(1, g["n"])
        hist.append(run_graph(g, rng, fail=f))
    for i in range(c.pick(700, 8000)):
        g = random_graph(rng, rng.randint(4, rng.choice([7, 12])))
        hist.append(
            run_graph(
                g,
                rng,
                fail=rng.choice([0, 0, 0, rng.randint(1, g["n"])]),
                math=rng.choice(["cpu", "meta"]),
                order=True,
            )
        )
    gc.enable()
    rej, tot = vlib.validate("TraceTaskGraph", hist)
    c.add_tlc(tot, impl=len(hist))
    c.sample(hist[len(hist) // 2])
    c.sample(hist[-1])
    mine = (lambda cl: cl & MEM) if c.prop == "P02" else (lambda cl: cl - MEM)
    for x in rej:
        cl = mine(set(x["clauses"]))
        if cl:
            c.violation(
                "execution rejected: %s at event %d" % (sorted(cl), x["l"]),
                hist[x["h"]],
            )
    # binding demonstration: corrupted histories must be rejected
    bad = corrupt(hist, rng)
    rej2, tot2 = vlib.validate("TraceTaskGraph", bad)
    c.add_tlc(tot2)
    if not c.violations and len({x["h"] for x in rej2}) != len(bad):
        raise vlib.MachineryError("a corrupted execution was accepted")


def corrupt(hist, rng):
    out = []
    pool = [h for h in hist if len(h["evs"]) > 6]
    import copy

    for i in range(30):
        h = copy.deepcopy(rng.choice(pool))
        st = [k for k, e in enumerate(h["evs"]) if e["ev"] == "start"]
        k = rng.choice(st)
        m = i % 3
        if m == 0:
            h["evs"][k]["args"] = h["evs"][k]["args"] + [1]
        elif m == 1:
            h["evs"].insert(k, h["evs"][k])
        else:
            h["evs"][k]["live"] = h["evs"][k]["live"] + [99]
        out.append(h)
    return out
