"""P21: model references and merge configurations across writing and reading:
spec/Ref.tla."""
import env  # noqa
import hashlib
import json
import os
import random
import shutil

import yaml

import models
import p_plan
import vlib

# characters standing for the Q, S and a of the model
QUOTE, SPACE = ['"', "'", '"'], [" ", " ", "\t"]
LETTER = ["a", "b", "M", "0", ".", "-", "_", ":", "#", "é", "{", "\\", "~", "%", ","]


def enc(s, table):
    return "".join(table.get(ch, ch) for ch in s)


def dec(s, back):
    return [back.get(ch, ch) for ch in s]


def tables(rng):
    t = {"Q": rng.choice(QUOTE), "S": rng.choice(SPACE), "a": rng.choice(LETTER)}
    return t, {v: k for k, v in t.items()}


def of_path(m, back):
    return {"p": dec(m.path, back), "r": [dec(m.revision, back)] if m.revision is not None else []}


def of_ref(r, back):
    d = of_path(r.model, back)
    d["l"] = [of_path(r.lora, back)] if r.lora is not None else []
    d["a"] = [dec(r.override_architecture, back)] if r.override_architecture is not None else []
    return d


def to_dict(x, t, rng):
    def path(y):
        p, r = enc(y["p"], t), [enc(e, t) for e in y["r"]]
        if not r and "@" not in p and rng.random() < 0.5:
            return p
        d = {"path": p}
        if r or rng.random() < 0.3:
            d["revision"] = r[0] if r else None
        return d

    d = {"model": path(x)}
    if x["l"] or rng.random() < 0.3:
        d["lora"] = path(x["l"][0]) if x["l"] else None
    if x["a"] or rng.random() < 0.3:
        d["override_architecture"] = enc(x["a"][0], t) if x["a"] else None
    return d


def text_case(s, rng):
    from mergekit.common import ModelReference

    t, back = tables(rng)
    try:
        got = [of_ref(rng.choice([ModelReference.parse, ModelReference.model_validate])(enc(s, t)), back)]
    except Exception:
        got = []
    return {"kind": "text", "s": s, "got": got}, None


def through(r, rng):
    """write and read a reference in one of the ways the program does"""
    from mergekit.common import ModelReference
    from mergekit.config import MergeConfiguration

    way = rng.choice(["json", "json-short", "dict", "config", "tokens", "source"])
    if way == "json":
        s = r.model_dump_json()
        return ModelReference.model_validate_json(s), json.loads(s)
    if way == "json-short":
        s = r.model_dump_json(exclude_none=True, exclude_defaults=True, round_trip=True)
        return ModelReference.model_validate_json(s), json.loads(s)
    if way == "dict":
        d = r.model_dump(mode="json")
        return ModelReference.model_validate(d), d
    kw = {"merge_method": "linear", "base_model": r, "models": [{"model": r, "parameters": {"weight": 1}}]}
    if way == "tokens":
        kw["tokenizer"] = {"source": "union", "tokens": {"x": {"source": {"kind": "model_token", "model": r, "token": "y"}, "force": True}}}
    elif way == "source":
        kw["tokenizer"] = {"source": r}
    c = MergeConfiguration.model_validate(kw)
    d = yaml.safe_load(c.to_yaml())
    c2 = MergeConfiguration.model_validate(d)
    assert c2 == c, "configuration differs: %r %r" % (c2, c)
    if way == "tokens":
        return c2.tokenizer.tokens["x"].source.model, d["tokenizer"]["tokens"]["x"]["source"]["model"]
    if way == "source":
        return c2.tokenizer.source, d["tokenizer"]["source"]
    return rng.choice([(c2.base_model, d["base_model"]), (c2.models[0].model, d["models"][0]["model"])])


def ref_case(x, rng):
    from mergekit.common import ModelReference

    t, back = tables(rng)
    h = {"kind": "ref", "x": x, "got": [], "back": [], "form": "", "s": [], "same": False}
    err = None
    try:
        r = ModelReference.model_validate(to_dict(x, t, rng))
        h["got"] = [of_ref(r, back)]
        r2, w = through(r, rng)
        h["back"] = [of_ref(r2, back)]
        h["form"] = "text" if isinstance(w, str) else "struct"
        h["s"] = dec(w, back) if isinstance(w, str) else []
        h["same"] = r == r2 and hash(r) == hash(r2)
    except Exception as e:
        err = repr(e)[:300]
    return h, err


def digest(o):
    if o.error:
        return "error"
    return hashlib.sha1(repr(o.key()).encode()).hexdigest()


def canon(d):
    from mergekit.config import MergeConfiguration

    return MergeConfiguration.model_validate(d)


def cli(path, out):
    from click.testing import CliRunner

    from mergekit.scripts import run_yaml

    models.fresh_loaders()
    o = models.Outcome()
    r = CliRunner().invoke(run_yaml.main, [path, out, "--no-copy-tokenizer", "--quiet"])
    if r.exit_code != 0:
        o.error, o.etype = repr(r.exception)[:300], type(r.exception).__name__
        return o
    return models.collect(out)


class Odd(p_plan.World):
    """model directories with unusual names"""

    def __init__(self, root, rng):
        super().__init__(root)
        self.rng = rng
        self.names = {}

    def path(self, m, depth):
        k = (m, depth)
        if k not in self.names:
            odd = self.rng.choice(["m", "m 1", 'm"q', "m'q", "m: x", "m #1", "-m", "mé", "{m}", "100%", "m,n", "m~", "[m]", "null", "1e3", "m\\n"])
            p = os.path.join(self.root, "w%d_%d" % k, odd)
            models.llama(p, layers=depth, hidden=p_plan.HID, vocab=2, values=p_plan.values_for(m))
            self.names[k] = p
        return self.names[k]


def config_case(tmp, i, c, rng):
    root = "%s/c%s" % (tmp, i)
    os.makedirs(root)
    w = Odd(root, rng)
    cfg = p_plan.build(w, c, rng.random() < 0.5)
    if rng.random() < 0.3:
        cfg["tokenizer"] = {}  # settings no merge of these models needs
        del cfg["tokenizer"]
    here = os.getcwd()
    if rng.random() < 0.3:  # named relative to the working directory
        cfg = json.loads(json.dumps(cfg).replace(json.dumps(root + "/")[1:-1], rng.choice(["", "./"])))
        os.chdir(root)
    h = {"kind": "config", "outcome0": "", "zero": "", "outcome1": "", "outcome2": "", "first": "", "again": "", "keeps": True, "equal": True}
    err = None
    out, out2 = root + "/out", root + "/out2"
    try:
        given = canon(cfg)
        o0 = models.merge(canon(cfg), root + "/out0")  # no card
        h["outcome0"], h["zero"] = "error" if o0.error else "ok", digest(o0)
        if rng.random() < 0.5:  # from a file
            text = yaml.safe_dump(cfg, sort_keys=rng.random() < 0.5, default_flow_style=rng.choice([None, True, False]), allow_unicode=rng.random() < 0.5)
            text = rng.choice(["# comment é\n", ""]) + text + rng.choice(["", "\n\n", "# end"])
            with open(root + "/c.yml", "w", encoding="utf-8") as f:
                f.write(text)
            o = cli(root + "/c.yml", out)
            if not o.error:
                h["keeps"] = open(out + "/mergekit_config.yml", encoding="utf-8").read() == text
        else:
            text = None
            o = models.merge(canon(cfg), out, write_model_card=True, forget=True)
        h["outcome1"], h["first"] = "error" if o.error else "ok", digest(o)
        if o.error:
            # the written form must fail as well
            with open(root + "/c2.yml", "w", encoding="utf-8") as f:
                f.write(given.to_yaml())
            o2 = cli(root + "/c2.yml", out2)
            h["equal"] = canon(yaml.safe_load(given.to_yaml())) == given
        else:
            stored = open(out + "/mergekit_config.yml", encoding="utf-8").read()
            card = open(out + "/README.md", encoding="utf-8").read()
            head = yaml.safe_load(card.split("---\n")[1])
            h["keeps"] = h["keeps"] and ("```yaml\n" + stored + "\n```") in card and isinstance(head, dict) and "mergekit" in head["tags"]
            fresh = canon(yaml.safe_load(given.to_yaml()))
            h["equal"] = fresh == given
            if text is not None:
                h["equal"] = h["equal"] and canon(yaml.safe_load(stored)) == given
            o2 = cli(out + "/mergekit_config.yml", out2)
        h["outcome2"], h["again"] = "error" if o2.error else "ok", digest(o2)
        err = [o.error, o2.error]
    except Exception as e:
        h["outcome1"], err = "raised", repr(e)[:300]
    os.chdir(here)
    shutil.rmtree(root, ignore_errors=True)
    return h, {"error": err, "cfg": cfg}


def rnd_ref(rng):
    def text(n):
        return [rng.choice(["a", "a", "/", "@", "+", "Q", "S"]) for _ in range(rng.randint(1, n))]

    def opt(f, p=0.4):
        return [f()] if rng.random() < p else []

    return {"p": text(5), "r": opt(lambda: text(2)), "l": opt(lambda: {"p": text(4), "r": opt(lambda: text(2))}), "a": opt(lambda: text(2), 0.2)}


def check(c):
    import logging

    logging.disable(logging.CRITICAL)
    rng = random.Random(c.seed * 31 + 22)
    r = vlib.tlc("MCRef", workers=8)
    c.add_tlc(r)
    cases = []
    refs = [x["x"] for x in r.printed]
    for x in rng.sample(refs, c.pick(4000, len(refs))) if len(refs) > 4000 else refs:
        cases.append(ref_case(x, rng))
    for _ in range(c.pick(2500, 30000)):
        cases.append(ref_case(rnd_ref(rng), rng))
    for _ in range(c.pick(2500, 30000)):
        s = [rng.choice(["a", "a", "/", "@", "+", "Q", "S"]) for _ in range(rng.randint(1, 7))]
        cases.append(text_case(s, rng))
    with vlib.scratch() as tmp:
        for i in range(c.pick(220, 4000)):
            k = p_plan.rnd_config(rng) if rng.random() < 0.8 else p_plan.near_miss(rng)
            cases.append(config_case(tmp, i, k, rng))
    logging.disable(logging.NOTSET)
    rej, tot = vlib.validate("VerdictRef", [h for h, _ in cases], chunk=4000)
    c.add_tlc(tot, impl=len(cases))
    c.sample(cases[0][0])
    c.sample(cases[-1][0])
    for x in rej:
        h, err = cases[x["h"]]
        c.violation(",".join(x["clauses"]), {"h": h, "error": err})
