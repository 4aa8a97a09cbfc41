"""P08 (which layers/tensors of which models make up each output tensor) and
P09 (which parameter value applies where): spec/Plan.tla.

Every input tensor carries a fingerprint of (model, layer, kind), so the
coefficient and origin of every input can be read off an output tensor.
Configurations come from TLC (MCPlan) and from a seeded generator; each is
really merged, and TLC (VerdictPlan) judges what came out."""
import env  # noqa
import os
import random
import shutil

import torch

import models
import vlib

KINDS = [
    "input_layernorm",
    "q_proj",
    "k_proj",
    "v_proj",
    "o_proj",
    "post_attention_layernorm",
    "up_proj",
    "gate_proj",
    "down_proj",
]
PATHS = {
    "input_layernorm": "input_layernorm",
    "q_proj": "self_attn.q_proj",
    "k_proj": "self_attn.k_proj",
    "v_proj": "self_attn.v_proj",
    "o_proj": "self_attn.o_proj",
    "post_attention_layernorm": "post_attention_layernorm",
    "up_proj": "mlp.up_proj",
    "gate_proj": "mlp.gate_proj",
    "down_proj": "mlp.down_proj",
}
OTHER = {
    "model.embed_tokens.weight": ("embed", -1),
    "model.norm.weight": ("norm", -1),
    "lm_head.weight": ("head", -1),
}
IDS = {}
for i, k in enumerate(["embed", "norm", "head"]):
    IDS[(k, -1)] = 3 + i
for l in range(16):
    for i, k in enumerate(KINDS):
        IDS[(k, l)] = 8 + l * 9 + i
BACK = {v: k for k, v in IDS.items()}
HID = 8
MAXM = 4


def tensor_id(name):
    if name in OTHER:
        return OTHER[name]
    p = name.split(".")
    if p[0] == "model" and p[1] == "layers" and p[-1] == "weight":
        tail = ".".join(p[3:-1])
        for k, v in PATHS.items():
            if v == tail:
                return (k, int(p[2]))
    return None


def values_for(m):
    def v(name, shape):
        k = tensor_id(name)
        x = torch.zeros(shape).flatten()
        x[2 * m] = 1.0
        x[2 * m + 1] = float(IDS[k])
        return x.reshape(shape)

    return v


class World:
    """Model directories by (model number, depth)."""

    def __init__(self, root):
        self.root = root
        self.made = set()

    def path(self, m, depth):
        p = os.path.join(self.root, "m%d_d%d" % (m, depth))
        if p not in self.made:
            models.llama(p, layers=depth, hidden=HID, vocab=2, values=values_for(m))
            self.made.add(p)
        return p


def setting(s, single=False):
    if s["kind"] == "none":
        return None
    if s["kind"] == "num":
        return float(s["g"][0])
    if s["kind"] == "grad":
        return [float(x) for x in s["g"]]
    res = []
    for e in s["v"]:
        d = {"value": setting(e["s"])}
        if e["f"]:
            d["filter"] = "".join(e["f"])
        res.append(d)
    if single and len(res) == 1:
        return res[0]
    return res


METHOD = {"linear": "linear", "task": "task_arithmetic", "pass": "passthrough"}


def build(world, c, single=False):
    wname = "scale" if c["method"] == "pass" else "weight"
    ref = lambda m: world.path(m - 1, c["depth"][m - 1])

    def pars(w=None, lam=None):
        d = {}
        if w is not None and setting(w) is not None:
            d[wname] = setting(w, single)
        if lam is not None and setting(lam) is not None:
            d["lambda"] = setting(lam, single)
        return d

    slices = []
    for sl in c["slices"]:
        d = {"sources": []}
        for s in sl["src"]:
            e = {"model": ref(s["m"]), "layer_range": [s["lo"], s["hi"]]}
            p = pars(s["w"])
            if p:
                e["parameters"] = p
            d["sources"].append(e)
        if sl["base"]:
            d["base_model"] = ref(sl["base"])
        p = pars(sl["w"], sl["lam"])
        if p:
            d["parameters"] = p
        slices.append(d)
    mlist = [
        {k: v for k, v in s.items() if k != "layer_range"} for s in slices[0]["sources"]
    ]
    cfg = {"merge_method": METHOD[c["method"]], "dtype": "float32"}
    g = pars(c["gw"], c["glam"])
    if c["method"] == "linear":
        g["normalize"] = False
    if g:
        cfg["parameters"] = g
    if c["base"]:
        cfg["base_model"] = ref(c["base"])
    mp = pars(c["modw"], c["modlam"])
    if c["form"] == "models":
        cfg["models"] = mlist
    elif c["form"] == "slices":
        cfg["slices"] = slices
    else:
        d = {"models": mlist} if c["form"] == "mod-models" else {"slices": slices}
        if mp:
            d["parameters"] = mp
        cfg["modules"] = {"default": d}
    return cfg


S = 1000


def observe(o, nm):
    """-> (out list, junk)"""
    out = []
    junk = bool(o.problems)
    for name, t in o.tensors.items():
        k = tensor_id(name)
        if k is None:
            junk = True
            continue
        x = t.double().flatten()
        co = []
        for m in range(nm):
            a, b = x[2 * m].item(), x[2 * m + 1].item()
            e = {"w": int(round(a * S)), "k": "", "l": -1}
            if abs(a) > 1e-3:
                r = b / a
                rid = int(round(r))
                if abs(r - rid) < 0.02 and rid in BACK:
                    e["k"], e["l"] = BACK[rid]
                else:
                    e["k"] = "blend"
            elif abs(b) > 1e-2:
                junk = True
            co.append(e)
        if x[2 * nm :].abs().sum().item() > 1e-5:
            junk = True
        out.append({"o": {"k": k[0], "l": k[1]}, "co": co})
    return out, junk


def run_one(world, c, out, single=False):
    o = models.merge(build(world, c, single), out, forget=False)
    h = {
        "c": c,
        "outcome": "error" if o.error else "ok",
        "layers": o.config.get("num_hidden_layers", -1),
        "out": [],
        "junk": False,
    }
    if not o.error:
        h["out"], h["junk"] = observe(o, len(c["depth"]))
    shutil.rmtree(out, ignore_errors=True)
    return h, o


NO = {"kind": "none", "g": [], "v": []}
FILTERS = [
    ["q", "_", "proj"],
    ["self", "_", "attn"],
    ["mlp"],
    ["layer", "norm"],
    ["layer"],
    ["layer", "s", ".", "1"],
    ["layer", "s", ".", "0", "."],
    ["_", "proj", "."],
    ["embed"],
    ["lm", "_", "head"],
    ["norm"],
    ["nothing"],
    ["*"],
    [],
    ["weight"],
]


def rnd_plain(rng):
    if rng.random() < 0.5:
        return {"kind": "num", "g": [rng.randint(-3, 6)], "v": []}
    return {
        "kind": "grad",
        "g": [rng.randint(-3, 6) for _ in range(rng.choice([1, 2, 2, 3, 4, 5]))],
        "v": [],
    }


def rnd_setting(rng, p_none):
    if rng.random() < p_none:
        return dict(NO)
    if rng.random() < 0.5:
        return rnd_plain(rng)
    return {
        "kind": "cond",
        "g": [],
        "v": [
            {"f": rng.choice(FILTERS), "s": rnd_plain(rng)}
            for _ in range(rng.randint(1, 4))
        ],
    }


def rnd_config(rng, deep=False):
    nm = rng.randint(1, MAXM)
    form = rng.choice(["models", "slices", "slices", "mod-models", "mod-slices"])
    method = rng.choice(["linear", "task", "task", "pass"])
    top = rng.choice([1, 2, 3, 4]) if not deep else 12
    whole = "models" in form
    depth = [
        top if (whole and rng.random() < 0.95) or rng.random() < 0.6 else rng.randint(1, 4)
        for _ in range(nm)
    ]
    base = rng.randint(1, nm) if method == "task" or (method != "pass" and rng.random() < 0.2) else 0
    slices = []
    for _ in range(1 if whole else rng.randint(1, 4)):
        if whole:
            ms = list(range(1, nm + 1))
            rng.shuffle(ms)
            if method == "pass":
                ms = ms[:1]
            elif len(ms) > 1 and base and rng.random() < 0.5 and method == "task":
                ms.remove(base)
            lo = None
        else:
            ms = rng.sample(range(1, nm + 1), 1 if method == "pass" else rng.randint(1, nm))
        sb = 0
        if not whole and method == "task":
            b = base
            if rng.random() < 0.3:
                sb = b = rng.randint(1, nm)
            if b not in ms and rng.random() < 0.97:
                ms.insert(rng.randint(0, len(ms)), b)
        n = rng.randint(1, 3) if not deep else rng.randint(1, 12)
        if rng.random() < 0.03:
            n = 0
        uneven = rng.choice([0] * 9 + [0.4])
        src = []
        for m in ms:
            d = depth[m - 1]
            if whole:
                lo, hi = 0, d
            else:
                nn = n if rng.random() > uneven else n + 1
                lo = rng.randint(0, max(0, d - nn))
                hi = lo + nn
            src.append({"m": m, "lo": lo, "hi": hi, "w": rnd_setting(rng, 0.5)})
        slices.append(
            {
                "base": sb,
                "w": dict(NO) if whole else rnd_setting(rng, 0.6),
                "lam": dict(NO) if whole else rnd_setting(rng, 0.7),
                "src": src,
            }
        )
    mod = form.startswith("mod-")
    return {
        "method": method,
        "form": form,
        "depth": depth,
        "base": base,
        "slices": slices,
        "modw": rnd_setting(rng, 0.4) if mod else dict(NO),
        "modlam": rnd_setting(rng, 0.6) if mod else dict(NO),
        "gw": rnd_setting(rng, 0.1),
        "glam": rnd_setting(rng, 0.5),
    }


def near_miss(rng):
    """a sound configuration with at most one flaw"""
    nm = rng.randint(2, 4)
    method = rng.choice(["linear", "task"])
    depth = [4] * nm
    base = nm if method == "task" else 0
    slices = []
    for _ in range(rng.randint(1, 3)):
        ms = rng.sample(range(1, nm + 1), rng.randint(1, nm))
        if base and base not in ms:
            ms.append(base)
        n = rng.randint(1, 3)
        src = []
        for m in ms:
            lo = rng.randint(0, 4 - n)
            src.append({"m": m, "lo": lo, "hi": lo + n, "w": {"kind": "num", "g": [rng.randint(1, 3)], "v": []}})
        slices.append({"base": 0, "w": dict(NO), "lam": dict(NO), "src": src})
    flaw = rng.choice(["none", "longer", "shorter", "beyond", "noweight", "partweight", "nobase"])
    sl = rng.choice(slices)
    s = rng.choice(sl["src"])
    if flaw == "longer":
        if s["hi"] < 4:
            s["hi"] += 1
        elif s["lo"] > 0:
            s["lo"] -= 1
    elif flaw == "shorter":
        s["hi"] -= 1
    elif flaw == "beyond":
        k = 5 - s["hi"]
        s["lo"] += k
        s["hi"] += k
    elif flaw == "noweight":
        s["w"] = dict(NO)
    elif flaw == "partweight":
        s["w"] = {"kind": "cond", "g": [], "v": [{"f": ["mlp"], "s": {"kind": "num", "g": [2], "v": []}}]}
    elif flaw == "nobase" and base and len(sl["src"]) > 1:
        sl["src"] = [x for x in sl["src"] if x["m"] != base]
    return {
        "method": method, "form": rng.choice(["slices", "mod-slices"]), "depth": depth, "base": base,
        "slices": slices, "modw": dict(NO), "modlam": dict(NO), "gw": dict(NO), "glam": dict(NO),
    }


def legal(c):
    """keep to configurations the property is about"""
    for sl in c["slices"]:
        ms = [s["m"] for s in sl["src"]]
        if len(set(ms)) != len(ms) or not ms:
            return False
    # a `linear` merge whose base model takes part without a weight
    if c["method"] == "linear" and c["base"]:
        return False
    # a lone base model given a slice-level override elsewhere is fine
    return True


def judge(c, cases, what):
    rej, tot = vlib.validate("VerdictPlan", [h for h, _ in cases], chunk=4000)
    c.add_tlc(tot, impl=len(cases))
    for r in rej:
        h, err = cases[r["h"]]
        c.violation(
            "%s: %s" % (what, ",".join(r["clauses"])),
            {"clauses": r["clauses"], "config": h["c"], "outcome": h["outcome"], "error": err, "layers": h["layers"], "out": h["out"][:3]},
        )


def check(c):
    rng = random.Random(c.seed * 7919 + 8)
    with vlib.scratch() as tmp:
        w = World(tmp + "/models")
        os.makedirs(tmp + "/models")
        n = [0]

        def go(confs, what, single=False):
            cases = []
            for cf in confs:
                if not legal(cf):
                    continue
                n[0] += 1
                h, o = run_one(w, cf, tmp + "/out%d" % n[0], single)
                cases.append((h, o.error))
            if cases:
                c.sample({"case": cases[len(cases) // 2][0]["c"], "outcome": cases[len(cases) // 2][0]["outcome"]})
            judge(c, cases, what)

        if c.prop == "P08":
            r = vlib.tlc("MCPlan", "MCPlanLayout", workers=8)
            c.add_tlc(r)
            confs = [x["c"] for x in r.printed]
            rng.shuffle(confs)
            go(confs[: c.pick(500, 5000)], "layout")
            go([rnd_config(rng) for _ in range(c.pick(500, 6000))], "random layout")
            go([near_miss(rng) for _ in range(c.pick(400, 4000))], "one flaw")
        else:
            r = vlib.tlc("MCPlan", "MCPlanParam", workers=8)
            c.add_tlc(r)
            confs = [x["c"] for x in r.printed]
            rng.shuffle(confs)
            go(confs[: c.pick(700, 1296)], "parameter levels")
            go([rnd_config(rng) for _ in range(c.pick(600, 6000))], "random parameters")
            go([rnd_config(rng) for _ in range(c.pick(150, 1500))], "random parameters (single conditions)", single=True)
            go([rnd_config(rng, deep=True) for _ in range(c.pick(20, 200))], "deep models")
