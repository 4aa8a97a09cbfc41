"""Sample mutants of the code under test and see which checks notice them.

usage: mutate.py WORKDIR SEED PER_FILE [file substring ...]
WORKDIR gets a copy of /repo and of /verif; results are appended to
WORKDIR/results.jsonl. Not used by any check."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys

MAP = {
    "graph.py": ["P01", "P02"],
    "multigpu_executor.py": ["P03"],
    "io/tensor_writer.py": ["P05", "P04"],
    "io/tasks.py": ["P08", "P11", "P25", "P10"],
    "io/lazy_tensor_loader.py": ["P06", "P07"],
    "io/loader.py": ["P06", "P07"],
    "io/lazy_unpickle.py": ["P07", "P06"],
    "plan.py": ["P08", "P09", "P10", "P11"],
    "config.py": ["P09", "P21", "P08", "P11"],
    "architecture/base.py": ["P10", "P08"],
    "architecture/json_definitions.py": ["P10"],
    "architecture/auto.py": ["P10"],
    "architecture/moe_defs.py": ["P10"],
    "architecture/conversion.py": ["P10"],
    "architecture/__init__.py": ["P10"],
    "common.py": ["P21", "P10", "P11"],
    "tokenizer/build.py": ["P12", "P13"],
    "tokenizer/embed.py": ["P13", "P12"],
    "tokenizer/config.py": ["P21", "P13"],
    "merge_methods/linear.py": ["P14"],
    "merge_methods/passthrough.py": ["P14"],
    "merge_methods/nearswap.py": ["P14"],
    "merge_methods/model_stock.py": ["P14"],
    "merge_methods/rectify_embed.py": ["P14", "P16", "P18"],
    "merge_methods/base.py": ["P19", "P17"],
    "merge_methods/generalized_task_arithmetic.py": ["P15", "P25"],
    "sparsify.py": ["P15"],
    "merge_methods/slerp.py": ["P16"],
    "merge_methods/nuslerp.py": ["P16"],
    "merge_methods/multislerp.py": ["P16"],
    "merge_methods/karcher.py": ["P16"],
    "merge_methods/easy_define.py": ["P17"],
    "merge_methods/ram.py": ["P18"],
    "merge_methods/sce.py": ["P18"],
    "merge_methods/arcee_fusion.py": ["P18"],
    "scripts/merge_raw_pytorch.py": ["P19", "P25"],
    "moe/common.py": ["P20"],
    "moe/config.py": ["P20"],
    "moe/mixtral.py": ["P20"],
    "moe/deepseek.py": ["P20"],
    "moe/qwen.py": ["P20"],
    "moe/qwen3.py": ["P20"],
    "moe/router.py": ["P20"],
    "scripts/moe.py": ["P20"],
    "card.py": ["P21"],
    "merge.py": ["P22", "P25", "P13", "P10", "P21"],
    "scripts/multimerge.py": ["P23", "P24"],
    "scripts/run_yaml.py": ["P25", "P21"],
    "options.py": ["P25"],
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "*", ast.BitAnd: "|", ast.BitOr: "&"}
QUIET = ("log", "warn", "raise", "LOG", "tqdm", "print", "assert", "sleep")


def seg(src, n):
    return ast.get_source_segment(src, n)


def mutants(src):
    """-> [(line, start, end, new text, what)] with absolute offsets"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    res = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list + [n.returns] + [a.annotation for a in n.args.args + n.args.kwonlyargs]:
                if d is not None:
                    skip |= {id(x) for x in ast.walk(d)}
        if isinstance(n, ast.AnnAssign):
            skip |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, ast.JoinedStr):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.If, ast.For, ast.While, ast.With, ast.Try)):
            t = seg(src, n) or ""
            if t.lstrip().startswith(QUIET) or ".warning(" in t or ".info(" in t or ".debug(" in t or "importlib" in t:
                skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.add(id(n))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue

        def add(node, new, what):
            a, b = pos(node)
            res.append((node.lineno, a, b, new, what))

        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            l, r = seg(src, n.left), seg(src, n.comparators[0])
            if "__name__" not in l:
                add(n, "(%s %s %s)" % (l, CMP[type(n.ops[0])], r), "comparison")
        elif isinstance(n, ast.BoolOp):
            vs = [seg(src, v) for v in n.values]
            add(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join("(%s)" % v for v in vs) + ")", "and/or")
            k = len(vs) - 1
            add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % v for v in vs[:k]) + ")", "last operand dropped")
            add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % v for v in vs[1:]) + ")", "first operand dropped")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, "(%s)" % seg(src, n.operand), "not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add(n, "(%s)" % seg(src, n.operand), "sign")
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS:
            l, r = seg(src, n.left), seg(src, n.right)
            if not (isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, "value", ""), str)):
                add(n, "(%s %s %s)" % (l, OPS[type(n.op)], r), "arithmetic")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "boolean")
            elif isinstance(n.value, (int, float)):
                add(n, repr(n.value + 1), "constant")
        elif isinstance(n, ast.IfExp):
            add(n, "(%s)" % seg(src, n.body), "conditional expression")
            add(n, "(%s)" % seg(src, n.orelse), "conditional expression")
        elif isinstance(n, ast.If):
            add(n.test, "True", "if true")
            add(n.test, "False", "if false")
        elif isinstance(n, (ast.Continue, ast.Break)):
            add(n, "pass", "continue/break")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "call dropped")
        elif isinstance(n, ast.Assign) and not isinstance(n.value, ast.Constant) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            add(n, "pass", "assignment dropped")
        elif isinstance(n, ast.AugAssign):
            add(n, "pass", "update dropped")
        elif isinstance(n, ast.keyword) and n.arg and False:
            pass
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                f = seg(src, n.func)
                if f not in ("isinstance", "hasattr", "getattr", "setattr", "range"):
                    a = [seg(src, x) for x in n.args]
                    a[0], a[1] = a[1], a[0]
                    add(n, "%s(%s)" % (f, ", ".join(a)), "arguments swapped")
            if n.keywords:
                k = [x for x in n.keywords if x.arg]
                f = seg(src, n.func)
                if k and f and "Field" not in f and "Def" not in f:
                    x = k[-1]
                    rest = [seg(src, z) for z in n.args] + ["%s=%s" % (z.arg, seg(src, z.value)) if z.arg else "**" + seg(src, z.value) for z in n.keywords if z is not x]
                    add(n, "%s(%s)" % (f, ", ".join(rest)), "keyword %s dropped" % x.arg)
            if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "reversed") and n.args:
                add(n, "list(%s)" % seg(src, n.args[0]), n.func.id)
    return res


def main():
    work, seed, per = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    only = sys.argv[4:]
    os.makedirs(work, exist_ok=True)
    repo, verif = work + "/repo", work + "/verif"
    shutil.rmtree(repo, True)
    shutil.rmtree(verif, True)
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    os.makedirs(verif)
    subprocess.run("cd /verif && git archive HEAD | tar x -C %s" % verif, shell=True, check=True)
    rng = random.Random(seed)
    jobs = []
    for f, props in MAP.items():
        if only and not any(o in f for o in only):
            continue
        p = "%s/mergekit/%s" % (repo, f)
        src = open(p).read()
        ms = mutants(src)
        for m in rng.sample(ms, min(per, len(ms))):
            jobs.append((f, m))
    rng.shuffle(jobs)
    for f, (line, a, b, new, what) in jobs:
        p = "%s/mergekit/%s" % (repo, f)
        src = open(p).read()
        raw = src.encode()
        mut = (raw[:a] + new.encode() + raw[b:]).decode()
        rec = {"file": f, "line": line, "what": what, "old": raw[a:b].decode()[:200], "new": new[:200], "text": src.splitlines()[line - 1].strip()}
        try:
            compile(mut, p, "exec")
        except SyntaxError:
            continue
        with open(p, "w") as o:
            o.write(mut)
        rec["caught"] = None
        rec["codes"] = {}
        for prop in MAP[f]:
            try:
                r = subprocess.run([verif + "/bin/check", prop, "--quick"], env=dict(os.environ, VERIF_REPO=repo), capture_output=True, text=True, timeout=900)
                code = r.returncode
            except subprocess.TimeoutExpired:
                code = "timeout"
            rec["codes"][prop] = code
            if code == 1:
                rec["caught"] = prop
                break
            if code != 0:
                rec["caught"] = prop + "?"
                rec["tail"] = "" if code == "timeout" else (r.stderr or r.stdout)[-400:]
                break
        with open(p, "w") as o:
            o.write(src)
        with open(work + "/results.jsonl", "a") as o:
            o.write(json.dumps(rec) + "\n")


main()
