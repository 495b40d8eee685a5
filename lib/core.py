"""Running TLC, writing evidence, reporting."""

import json
import os
import re
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
SPEC = os.path.join(VERIF, "spec")
TLC = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check could not decide."""


class Ctx:
    def __init__(self, prop, thorough):
        self.prop = prop
        self.thorough = thorough
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.work = os.path.join(B.BUILD, "work", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violations = []
        self.undecided = ""
        self.assumptions = []
        self.known = []

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a)
        sys.stdout.flush()

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def violation(self, what, replay):
        """replay: a JSON value that `check.py ID --replay FILE` understands."""
        d = os.path.join(B.BUILD, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d-%d.json" % (self.prop, self.seed, len(self.violations)))
        replay = dict(replay)
        replay["property"] = self.prop
        replay["what"] = what
        with open(path, "w", encoding="utf-8") as f:
            json.dump(replay, f)
        self.violations.append((what, path))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if not self.cov["samples"]:
            self.cov["samples"].append("none")
        ev = {
            "property": self.prop,
            "tier": "thorough" if self.thorough else "quick",
            "seed": self.seed,
            "level": "model_checking",
            "coverage": self.cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for what, path in self.violations[:10]:
            print(what)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        sys.stdout.flush()
        return 1 if self.violations else 0


class Tlc:
    """What a TLC run printed."""

    def __init__(self, out, rc):
        self.out = out
        self.rc = rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1])) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found." in out
        i = out.find("Error:")
        self.error = out[i : i + 3000] if i >= 0 else ("" if self.ok else out[-3000:])
        self.prints = re.findall(r"(?m)^<<.*>>$", out)

    def tuples(self, tag):
        """The printed tuples <<"tag", ...>>, as Python lists."""
        r = []
        pre = '<<"%s"' % tag
        for p in self.prints:
            if p.startswith(pre):
                r.append(json.loads("[" + p[2:-2].replace("<<", "[").replace(">>", "]").replace("TRUE", "true").replace("FALSE", "false") + "]"))
        return r


def tlc(ctx, module, cfg=None, env=None, workers=8, timeout=600, extra=(), mem="12g"):
    cfg = cfg or module + ".cfg"
    meta = os.path.join(ctx.work, "md-%s-%d" % (module, int(time.time() * 1000)))
    d = os.path.join(ctx.work, "spec")
    if not os.path.isdir(d):
        shutil.copytree(SPEC, d)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Djava.io.tmpdir=" + ctx.work, "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-cp", TLC, "tlc2.TLC", "-workers", str(workers),
           "-deadlock", "-config", cfg, "-metadir", meta, *extra, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise CheckError("TLC on %s: no answer in %ds" % (module, timeout)) from x
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = Tlc(p.stdout, p.returncode)
    ctx.add("states", r.distinct)
    ctx.add("transitions", r.generated)
    return r


def harness(ctx, exe, args, timeout):
    """Runs the harness; returns its JSON lines on stdout, or None if it died or did not end."""
    try:
        p = subprocess.run([exe, *args], cwd=ctx.work, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "no answer in %ds" % timeout
    if p.returncode != 0:
        return None, "exit status %d" % p.returncode
    return [json.loads(l) for l in p.stdout.splitlines() if l.startswith("{")], ""


def known_findings():
    with open(os.path.join(VERIF, "known_findings.json"), encoding="utf-8") as f:
        return json.load(f)
