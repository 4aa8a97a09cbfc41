bug("P01-cached-none", "P01",
    "a pre-supplied value that is None (multi-device runs hand such placeholders over) for a task with inputs",
    "tasks that only feed a task whose value the caller already supplied are run again",
    [("mergekit/graph.py", "        if task in (cached_values or {}):\n            continue\n", "        if (cached_values or {}).get(task) is not None:\n            continue\n")],
    '''
from demo_common import *
from mergekit.graph import Task, Executor, TaskUniverse
ran = []
class A(Task[int]):
    def arguments(self): return {}
    def execute(self): ran.append("A"); return 1
class B(Task[int]):
    a: A
    def arguments(self): return {"a": self.a}
    def execute(self, a): ran.append("B"); return None
class C(Task[int]):
    b: B
    def arguments(self): return {"b": self.b}
    def execute(self, b): ran.append("C"); return b
c = C(b=B(a=A()))
u = TaskUniverse([c])
hb = u.get_handle(c.b)
res = list(Executor([u.get_handle(c)], cached_values={hb: None}).run(quiet=True))
check(ran == ["C"], ran)
check(res[0][1] is None, res)
''')
bug("P02-late-release", "P02",
    "a long schedule where a requested value is read by a later task",
    "requested values stay in memory to the end of the run instead of being dropped after their last reader",
    [("mergekit/graph.py", "                if idx >= last_use_index[key]:", "                if idx >= last_use_index[key] and (\n                    key not in self.targets or idx > last_use_index[key]\n                ):")],
    '''
from demo_common import *
import weakref, gc
from mergekit.graph import Task, Executor
class Box:
    pass
seen = []
refs = {}
class T(Task[Box]):
    n: int
    deps: tuple = ()
    def arguments(self): return {"d%d" % i: d for i, d in enumerate(self.deps)}
    def execute(self, **kw):
        kw.clear(); gc.collect()
        seen.append((self.n, sorted(k for k, r in refs.items() if r() is not None)))
        b = Box(); refs[self.n] = weakref.ref(b); return b
    def priority(self): return -self.n
a = T(n=0); b = T(n=1, deps=(a,)); c = T(n=2, deps=(b,)); d = T(n=3, deps=(c,)); e = T(n=4, deps=(d,))
it = Executor([a, b, c, d, e]).run(quiet=True)
while True:
    try:
        next(it)
    except StopIteration:
        break
for n, alive in seen:
    check(set(alive) <= {n - 1}, (n, alive))
''')
bug("P03-leading-any", "P03",
    "a main-thread task with one main-thread input and one input computed on a device",
    "the task is treated as runnable before the parallel phase, so its device inputs are evaluated on the main thread and then a second time on the device",
    [("mergekit/multigpu_executor.py", "            if args and any(dep not in leading_tasks for dep in args.values()):", "            if args and all(dep not in leading_tasks for dep in args.values()):")],
    '''
from demo_common import *
from mergekit.graph import Task, TaskUniverse
import mergekit.multigpu_executor as M
class W(Task[int]):
    def arguments(self): return {}
    def execute(self): return 1
    def main_thread_only(self): return True
class P(Task[int]):
    def arguments(self): return {}
    def execute(self): return 2
class F(Task[int]):
    w: W
    p: P
    def arguments(self): return {"w": self.w, "p": self.p}
    def execute(self, w, p): return w + p
    def main_thread_only(self): return True
f = F(w=W(), p=P())
ex = M.MultiGPUExecutor.__new__(M.MultiGPUExecutor)
try:
    ex = M.MultiGPUExecutor([f], num_gpus=2, storage_device="cpu")
except Exception as e:
    import traceback; traceback.print_exc()
lead = [type(h.task()).__name__ for h in ex.leading_main_handles]
trail = [type(h.task()).__name__ for h in ex.trailing_main_handles]
check(lead == ["W"] and "F" in trail, (lead, trail))
''')
bug("P04-split-lock", "P04",
    "two threads saving at once: both pass the size check before either has added its tensor",
    "a shard grows beyond the configured limit",
    [("mergekit/io/tensor_writer.py", "                self._flush_current_shard()\n\n            self.current_shard[name] = tensor\n", "                self._flush_current_shard()\n\n        with self._lock:\n            self.current_shard[name] = tensor\n")],
    '''
from demo_common import *
import threading, time
from mergekit.io.tensor_writer import TensorWriter
class SlowLock:
    def __init__(self): self.l = threading.RLock()
    def __enter__(self): return self.l.__enter__()
    def __exit__(self, *a):
        self.l.__exit__(*a); time.sleep(0.05)
w = TensorWriter(ROOT + "/o", max_shard_size=32)
w._lock = SlowLock()
w.save_tensor("a", torch.ones(4))
ts = [threading.Thread(target=w.save_tensor, args=(n, torch.ones(4))) for n in "bcd"]
[t.start() for t in ts]; [t.join() for t in ts]
w.finalize()
wm = json.load(open(ROOT + "/o/model.safetensors.index.json"))["weight_map"]
from collections import Counter
check(max(Counter(wm.values()).values()) <= 2, wm)
check(set(read(ROOT + "/o")) == set("abcd"))
''')
bug("P05-unchecked-futures", "P05",
    "background writing, with the write of one shard failing after the file was created (disk full)",
    "finalize waits for the background writes but never looks at their errors and publishes the torn shard as part of a complete checkpoint",
    [("mergekit/io/tensor_writer.py", "                for future in self._write_futures:\n                    future.result()\n", "                wait(self._write_futures)\n"),
     ("mergekit/io/tensor_writer.py", "from concurrent.futures import Future, ThreadPoolExecutor", "from concurrent.futures import Future, ThreadPoolExecutor, wait")],
    '''
from demo_common import *
from mergekit.io.tensor_writer import TensorWriter
import safetensors.torch as st
real = st.save_file
n = [0]
def failing(sd, path, **kw):
    n[0] += 1
    if n[0] == 2:
        open(path, "wb").write(b"torn")
        raise OSError(28, "No space left on device")
    return real(sd, path, **kw)
st.save_file = failing
w = TensorWriter(ROOT + "/o", max_shard_size=16, use_async=True)
err = None
try:
    for i in range(3):
        w.save_tensor("t%d" % i, torch.ones(4))
    w.finalize()
except Exception as e:
    err = e
check(err is not None, "write error swallowed")
''')
bug("P06-last-alias", "P06",
    "a checkpoint that stores two of the aliases of a tensor but not its own name",
    "the last stored alias is returned instead of the first",
    [("mergekit/io/lazy_tensor_loader.py", "                if alias in self.index.tensor_paths:\n                    key = alias\n                    break\n", "                if alias in self.index.tensor_paths:\n                    key = alias\n")],
    '''
from demo_common import *
from mergekit.io.lazy_tensor_loader import LazyTensorLoader
os.makedirs(ROOT + "/m")
save_file({"x": torch.ones(2), "y": torch.zeros(2)}, ROOT + "/m/model.safetensors")
l = LazyTensorLoader.from_disk(ROOT + "/m")
check(torch.equal(l.get_tensor("w", aliases=["v", "x", "y"]), torch.ones(2)))
''')
bug("P07-torch-wildcard", "P07",
    "a pickled checkpoint naming some other callable of the torch package",
    "any attribute reachable in the torch namespace can be looked up and called by a checkpoint file",
    [("mergekit/io/lazy_unpickle.py", "            return ACCEPTABLE_TYPES[(module, name)]\n", "            return ACCEPTABLE_TYPES[(module, name)]\n        if module.split(\".\")[0] == \"torch\":\n            return super().find_class(module, name)\n")],
    '''
from demo_common import *
import io, pickle, zipfile
from mergekit.io.lazy_unpickle import torch_lazy_load
class Evil:
    def __reduce__(self):
        import torch.utils.cpp_extension
        return (torch.set_num_threads, (3,))
p = ROOT + "/evil.bin"
torch.set_num_threads(2)
with zipfile.ZipFile(p, "w") as z:
    z.writestr("archive/data.pkl", pickle.dumps({"w": Evil()}, protocol=2))
    z.writestr("archive/version", "3\\n")
    z.writestr("archive/byteorder", "little")
from mergekit.io.lazy_unpickle import LazyTorchUnpickler
err = None
try:
    LazyTorchUnpickler(io.BytesIO(pickle.dumps({"w": Evil()}, protocol=2))).load()
except Exception as e:
    err = e
check(err is not None and torch.get_num_threads() == 2, "foreign call ran")
''')
bug("P08-uneven-third", "P08",
    "a slice with three or more sources of which only a later one has a different number of layers",
    "a slice whose sources have different lengths is merged silently, misaligning layers",
    [("mergekit/plan.py", "        if not all(s == slice_lengths[0] for s in slice_lengths):", "        if len(slice_lengths) > 1 and slice_lengths[0] != slice_lengths[1]:")],
    '''
from demo_common import *
a, b, c = llama("a", layers=3), llama("b", layers=3), llama("c", layers=3)
cfg = {"merge_method": "linear", "slices": [{"sources": [
  {"model": a, "layer_range": [0, 2], "parameters": {"weight": 1}},
  {"model": b, "layer_range": [0, 2], "parameters": {"weight": 1}},
  {"model": c, "layer_range": [0, 3], "parameters": {"weight": 1}}]}]}
err = None
try:
    merge(cfg)
except Exception as e:
    err = e
check(err is not None, "uneven slice accepted")
''')
bug("P09-module-zero", "P09",
    "a module-level parameter that evaluates to 0 while an outer level sets another value",
    "a zero given at module level is treated as not set and the global value is used",
    [("mergekit/config.py", """                self.module.parameters[name],
                self.t,
            )
            if value is not None:""", """                self.module.parameters[name],
                self.t,
            )
            if value:""")],
    '''
from demo_common import *
a, b = llama("a", values=1.0), llama("b", values=3.0)
cfg = {"merge_method": "task_arithmetic", "base_model": a, "parameters": {"weight": 1.0}, "modules": {"default": {
  "models": [{"model": a}, {"model": b}], "parameters": {"weight": [{"filter": "mlp", "value": 0}]}}}}
t = read(merge(cfg))
check(torch.all(t["model.layers.0.mlp.up_proj.weight"] == 1.0), t["model.layers.0.mlp.up_proj.weight"])
check(torch.all(t["model.norm.weight"] == 3.0))
''')
