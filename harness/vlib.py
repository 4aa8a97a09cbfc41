"""Shared machinery: running TLC, collecting spec-generated cases, validating
recorded traces against a specification, reporting, evidence."""

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from contextlib import contextmanager

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = os.cpu_count() or 4


class MachineryError(Exception):
    pass


class TlcResult:
    def __init__(self):
        self.printed = []  # decoded JSON records printed by the spec
        self.states = 0  # distinct states
        self.transitions = 0  # states generated
        self.violated = None  # name of the violated invariant, if any
        self.out = ""
        self.uncovered = []
        self.wall = 0.0


_TLC_LINE = re.compile(r'^"(\{.*\})"$')


def _decode(line):
    m = _TLC_LINE.match(line)
    if not m:
        return None
    s = m.group(1)
    s = s.replace('\\"', '"').replace("\\\\", "\\")
    try:
        return json.loads(s)
    except ValueError:
        return None


def tlc(
    module,
    cfg=None,
    env=None,
    workers=None,
    timeout=800,
    simulate=None,
    depth=None,
    seed=None,
    expect_violation=False,
    heap="6g",
    coverage=False,
):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg (or literal cfg text
    when it contains a newline). Raises MachineryError when TLC itself fails."""
    res = TlcResult()
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vtlc")
    try:
        if cfg is None:
            cfg = module
        if "\n" in cfg:
            cfgp = os.path.join(tmp, "gen.cfg")
            with open(cfgp, "w") as f:
                f.write(cfg)
        else:
            cfgp = os.path.join(SPEC, cfg + ".cfg")
        cmd = [
            "java",
            "-XX:+UseParallelGC",
            "-Xmx" + heap,
            "-Xss64m",
            "-Djava.io.tmpdir=" + tmp,
            "-DTLA-Library=" + SPEC,
            "-cp",
            tlc_classpath(),
            "tlc2.TLC",
            "-workers",
            str(workers or 4),
            "-metadir",
            os.path.join(tmp, "meta"),
            "-noGenerateSpecTE",
            "-config",
            cfgp,
        ]
        if coverage:
            cmd += ["-coverage", "1"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate]
            if depth:
                cmd += ["-depth", str(depth)]
            if seed is not None:
                cmd += ["-seed", str(seed)]
        cmd.append(os.path.join(SPEC, module + ".tla"))
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            p = subprocess.run(
                cmd,
                cwd=tmp,
                env=e,
                stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT,
                timeout=timeout,
                text=True,
                errors="replace",
            )
        except subprocess.TimeoutExpired as ex:
            raise MachineryError("TLC timed out on %s/%s" % (module, cfg)) from ex
        out = p.stdout
        res.out = out
        for line in out.splitlines():
            if line.startswith('"{'):
                r = _decode(line)
                if r is None:
                    raise MachineryError("unparsable TLC record: " + line[:300])
                res.printed.append(r)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            res.transitions = int(m.group(1))
            res.states = int(m.group(2))
        else:
            m = re.search(r"number of states generated: (\d+)", out)
            if m:
                res.transitions = res.states = int(m.group(1))
        m = re.search(r"Invariant (\S+) is violated", out) or re.search(
            r"property (\S+) is violated", out
        )
        if m:
            res.violated = m.group(1)
        elif "Deadlock reached" in out:
            res.violated = "Deadlock"
        elif "Temporal properties were violated" in out:
            res.violated = "Temporal"
        res.wall = time.time() - t0
        ok = "Model checking completed. No error has been found" in out or (
            simulate and p.returncode == 0
        )
        if expect_violation:
            if res.violated is None:
                raise MachineryError(
                    "%s/%s: expected the weakened model to be refuted\n%s"
                    % (module, cfg, out[-3000:])
                )
            return res
        if not ok:
            raise MachineryError(
                "TLC failed on %s/%s (rc %s)\n%s"
                % (module, cfg, p.returncode, tail_err(out))
            )
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def tail_err(out):
    lines = [l for l in out.splitlines() if not l.startswith('"{')]
    return "\n".join(lines[-60:])


def tlc_classpath():
    base = "/opt/veriftools/tla"
    cp = [os.path.join(base, "tla2tools.jar")]
    for root, _d, files in os.walk(base):
        for f in files:
            if f.endswith(".jar") and "tla2tools" not in f:
                cp.append(os.path.join(root, f))
    return ":".join(cp)


def validate(module, histories, cfg=None, timeout=800, env=None, chunk=None, heap="8g"):
    """Write histories (list of dicts) as ndjson, let the trace specification
    judge every one of them. Returns (rejects, TlcResult-like totals); each
    reject is {'h': 0-based index, 'l': event position, 'clauses': [...]}."""
    total = TlcResult()
    rejects = []
    if not histories:
        return rejects, total
    chunk = chunk or len(histories)
    for off in range(0, len(histories), chunk):
        part = histories[off : off + chunk]
        fd, path = tempfile.mkstemp(prefix="vtrace", suffix=".ndjson")
        os.close(fd)
        try:
            with open(path, "w") as f:
                for h in part:
                    f.write(json.dumps(h) + "\n")
            e = {"TRACE": path}
            e.update(env or {})
            r = tlc(module, cfg or module, env=e, workers=1, timeout=timeout, heap=heap)
        finally:
            os.unlink(path)
        total.states += r.states
        total.transitions += r.transitions
        done = [x for x in r.printed if "judged" in x]
        if not done or done[-1]["judged"] != len(part):
            raise MachineryError(
                "trace spec %s judged %s of %d histories\n%s"
                % (module, done, len(part), tail_err(r.out))
            )
        for x in r.printed:
            if "reject" in x:
                rejects.append(
                    {
                        "h": off + x["reject"] - 1,
                        "l": x.get("at", 0),
                        "clauses": sorted(x["clauses"]),
                    }
                )
    return rejects, total


# --------------------------------------------------------------------------


def load_known():
    """known findings: lines 'KNOWN property=<id> key=<key> <what>' """
    res = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if not line:
                    continue
                r = json.loads(line)
                if r.get("kind") == "known":
                    res.setdefault(r["property"], {})[r["key"]] = r["what"]
    return res


class Check:
    """One property check run. Collects violations; finish() reports."""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = "quick"
        if "--thorough" in sys.argv or (
            os.environ.get("VERIF_TIER") == "thorough" and "--quick" not in sys.argv
        ):
            self.tier = "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.violations = []
        self.known_hit = {}
        self.cov = {
            "states": 0,
            "transitions": 0,
            "traces_validated_against_impl": 0,
            "samples": [],
        }
        self.known = load_known().get(prop, {})

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def add_tlc(self, r, impl=0):
        self.cov["states"] += r.states
        self.cov["transitions"] += r.transitions
        self.cov["traces_validated_against_impl"] += impl

    def impl(self, n=1):
        self.cov["traces_validated_against_impl"] += n

    def sample(self, x, cap=6):
        if len(self.cov["samples"]) < cap:
            s = json.dumps(x, default=str)
            if len(s) > 4000:
                x = {"truncated": s[:4000]}
            self.cov["samples"].append(json.loads(json.dumps(x, default=str)))

    def violation(self, what, detail=None, key=None):
        """key identifies the specific failing input for known findings."""
        if key is not None and key in self.known:
            self.known_hit.setdefault(key, self.known[key])
            return
        self.violations.append({"what": what, "detail": detail, "key": key})

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        wall = time.time() - self.t0
        replay = None
        if self.violations:
            rd = os.path.join(EVID, "replay")
            os.makedirs(rd, exist_ok=True)
            replay = os.path.join(rd, "%s-%s.json" % (self.prop, self.tier))
            with open(replay, "w") as f:
                json.dump(
                    {
                        "property": self.prop,
                        "tier": self.tier,
                        "seed": self.seed,
                        "count": len(self.violations),
                        "violations": self.violations[:50],
                    },
                    f,
                    indent=1,
                    default=str,
                )
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": self.cov,
            "wall_s": round(wall, 2),
            "violations": len(self.violations),
        }
        if not self.cov["samples"]:
            self.cov["samples"] = ["none"]
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, w in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        print(
            "%s %s: states=%d transitions=%d impl=%d wall=%.1fs violations=%d"
            % (
                self.prop,
                self.tier,
                self.cov["states"],
                self.cov["transitions"],
                self.cov["traces_validated_against_impl"],
                wall,
                len(self.violations),
            )
        )
        if self.violations:
            for v in self.violations[:5]:
                print("  -", v["what"], json.dumps(v["detail"], default=str)[:1200])
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            sys.stdout.flush()
            return 1
        sys.stdout.flush()
        return 0


def main(prop, fn, level="model_checking"):
    """Run fn(check); errors raised by the machinery exit 2, never 0/1."""
    c = Check(prop, level)
    try:
        fn(c)
    except MachineryError as e:
        print("MACHINERY ERROR:", e)
        sys.stdout.flush()
        if c.violations:
            os._exit(c.finish())
        os._exit(2)
    except ImportError as e:
        # the code under test no longer imports: that is the code's fault when
        # the failing module lies in /repo
        traceback.print_exc()
        c.violation("code under test does not import", {"error": repr(e)})
    except Exception as e:  # machinery bug
        traceback.print_exc()
        sys.stdout.flush()
        if c.violations:
            os._exit(c.finish())
        os._exit(2)
    rc = c.finish()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


@contextmanager
def scratch(prefix="vscratch"):
    d = tempfile.mkdtemp(prefix=prefix)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)
