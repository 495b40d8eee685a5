"""Checks on whole programs: the harness runs generated programs on the real crate under controlled schedules,
and TLC follows every recorded execution in the specification DamApi."""

import json
import os
import random
import re
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

import build as B
import core

QUERY = {"pk", "ev1", "evall", "evany", "sel"}
FAULTY = {"fail-missed", "fail-spurious", "fail-twice", "passed"}
CLOSED = {"closed-early", "phantom", "enq-closed-early", "enq-closed-clock", "deq-closed-clock", "enq-unheard", "void-closed",
          "void-clock", "stuck", "lib-stuck"}


class Rej:
    """An execution that the specification rejects."""

    def __init__(self, job, line, rule, p, pos):
        self.job, self.line, self.rule, self.p, self.pos = job, line, rule, p, pos
        self.run = None

    def load(self):
        if self.run is None:
            self.run = json.loads(self.job.tla[self.line])
        return self.run

    @property
    def rec(self):
        r = self.load()
        if self.p and self.p <= len(r["logs"]) and 0 < self.pos <= len(r["logs"][self.p - 1]):
            return r["logs"][self.p - 1][self.pos - 1]
        return None

    @property
    def op(self):
        r = self.rec
        return r["op"] if r else ""

    @property
    def kind(self):
        return self.load()["procs"][self.p - 1]["k"] if self.p else ""

    def text(self):
        r = self.load()
        s = "rule %s broken" % self.rule
        if self.p:
            s += " by context %d (%s)" % (self.p, self.kind)
        if self.rec:
            s += " at its operation %d: %s" % (self.pos, json.dumps(self.rec))
        return s + "; profile %s, program %d, inference %s, outcome %s" % (
            self.job.profile, r["gid"], r["infer"], r["out"])


class Job:
    """Programs of a profile (or from a file, progs) and how to execute them; full: with logging and graph dumps."""

    def __init__(self, profile, infer, mode="ctl", secs=4.0, most=1500, dfs=0, schedules=12, full=False, progs="",
                 family="", size=3):
        self.profile, self.infer, self.mode = profile, infer, mode
        self.secs, self.most, self.dfs, self.schedules = secs, most, dfs, schedules
        self.whole, self.progs = full, progs
        # programs that the specification DamGen numbers: the most that fit
        self.family, self.size = family, size
        self.tla = []
        self.full = []
        self.stats = {}

    def args(self, seed, out, threads):
        return ["gen"] + (["--progs", self.progs] if self.progs else []) + self.rest(seed, out, threads)

    def kind(self):
        return ("full" if self.whole else "base") if self.mode == "ctl" else "plainfull" if self.whole else "plain"

    def rest(self, seed, out, threads):
        return ["--profile", self.profile, "--infer", self.infer, "--mode", self.mode, "--secs", str(self.secs),
                "--max", str(self.most * (50 if self.family else 1)), "--dfs", str(self.dfs), "--schedules", str(self.schedules),
                "--steps", "6000" if self.family else "400000", "--seed", str(seed), "--threads", str(threads), "--out", out]


def line(r):
    m = re.search(r'"gid":(\d+)', r)
    return int(m.group(1)), '"infer":true' in r


def judge(ctx, jobs, module="DamApi"):
    """Follows all executions of the jobs in the specification; returns the rejected ones."""
    index = [(j, i) for j in jobs for i in range(len(j.tla))]
    rejs = []
    known = 0
    size = 12000
    for a in range(0, len(index), size):
        part = index[a : a + size]
        drop = set()
        for attempt in range(40):
            alive = [k for k in range(len(part)) if k not in drop]
            path = os.path.join(ctx.work, "runs.ndjson")
            with open(path, "w", encoding="utf-8") as f:
                for k in alive:
                    j, i = part[k]
                    f.write(j.tla[i])
            if not alive:
                break
            r = core.tlc(ctx, module, env={"RUNS": path, "MODE": "judge", "BIG": "0", "OUT": ""}, timeout=600 if not ctx.thorough else 3000)
            acc = {t[1] for t in r.tuples("ACCEPT")}
            kn = {t[1] for t in r.tuples("KNOWN")}
            rej = {}
            for t in r.tuples("REJECT"):
                rej.setdefault(t[1], t[2:])
            if r.ok:
                break
            m = re.search(r"(?m)^/\\ tid = (\d+)", r.error) or re.search(r"tid = (\d+)", r.error)
            if not m:
                raise core.CheckError("TLC failed:\n" + r.error)
            # the specification cannot make sense of this execution
            k = alive[int(m.group(1)) - 1]
            j, i = part[k]
            ctx.log("an execution makes no sense to the specification: " + " ".join(r.error.split())[:400])
            drop.add(k)
            rejs.append(Rej(j, i, "internal", 0, 0))
        else:
            raise core.CheckError("too many executions that the specification cannot read")
        if not alive:
            continue
        known += len(kn - acc)
        ctx.add("traces_validated_against_impl", len((acc | kn)))
        seen = acc | kn
        for n in range(1, len(alive) + 1):
            if n in seen:
                continue
            j, i = part[alive[n - 1]]
            x = rej.get(n)
            if x is None:
                raise core.CheckError("no verdict on an execution (%s %d)" % (j.profile, i))
            rejs.append(Rej(j, i, x[0], x[1], x[2]))
    return rejs, known


def numbered(ctx, j, n, seed):
    """Programs of a family, spread over all of it."""
    out = os.path.join(ctx.work, "f%d" % n)
    r = core.tlc(ctx, "DamGen", env={"FAMILY": j.family, "LEN": str(j.size), "FIRST": str(seed * 7919 % 1000003),
                                     "COUNT": str(j.most), "OUT": out}, timeout=900)
    total = r.tuples("SIZE")
    if not r.ok or not total:
        raise core.CheckError("TLC on DamGen:\n" + r.error)
    with open(out, encoding="utf-8") as f:
        lines = f.readlines()
    random.Random(seed).shuffle(lines)
    with open(out, "w", encoding="utf-8") as f:
        f.writelines(lines)
    ctx.log("family %s: %d of %d programs" % (j.family, total[0][2], total[0][1]))
    j.progs = out


# families, length of scripts, how many programs, whether operations are in a global order (to judge looks at other clocks)
MODEL = {"wait": [(2, 25, True)], "fails": [(2, 80, False)]}


def model(ctx, jobs):
    """Explores the algorithm itself (DamImpl) on programs of the families: it must do what DamApi says, in all interleavings."""
    for fam, infer in sorted({(j.family, j.infer) for j in jobs if j.family}):
        for size, count, order in MODEL.get(fam, [(3, 80, False)]):
            if ctx.thorough:
                count *= 30
            r = core.tlc(ctx, "DamImpl", "DamImplOrd.cfg" if order else "DamImpl.cfg",
                         env={"FAMILY": fam, "LEN": str(size), "FIRST": "17", "COUNT": str(count), "RUNS": "",
                              "ORDER": "1" if order else "0", "INFER": "2" if infer == "both" else infer},
                         timeout=600 if not ctx.thorough else 7200)
            if not r.ok:
                raise core.CheckError("the algorithm as specified does not do what is specified (family %s):\n%s" % (fam, r.error))
            ctx.add("model_programs", count)
            ctx.log("DamImpl, family %s: %d states" % (fam, r.distinct))
    if ctx.prop in ("C07", "C08"):
        r = core.tlc(ctx, "Signal", env={"BIG": "1" if ctx.thorough else "0"}, timeout=3600)
        if not r.ok:
            raise core.CheckError("the wake-up protocol as specified loses wake-ups:\n%s" % r.error)
        ctx.log("Signal: %d states" % r.distinct)


def generate(ctx, jobs):
    """Runs the jobs on the implementation."""
    exes = {}
    for j in jobs:
        if j.kind() not in exes:
            exes[j.kind()] = B.build(j.kind())
    for n, j in enumerate(jobs):
        if j.family:
            numbered(ctx, j, n, ctx.seed + n)
    salt = sum(ord(c) * 31 ** i for i, c in enumerate(ctx.prop)) % 9973
    start = time.time()
    for n, j in enumerate(jobs):
        if not ctx.thorough and n >= 2 and time.time() - start > 420:
            # every job ends on time on code that comes to rest: what there is by now will do to say what is wrong
            ctx.cov["jobs_skipped"] = len(jobs) - n
            ctx.log("%d of %d jobs took %d s; the rest is skipped" % (n, len(jobs), time.time() - start))
            break
        exe, ctl = exes[j.kind()]
        if j.mode == "ctl" and not ctl:
            j.mode, j.dfs, j.schedules, j.infer = "free", 0, 4, "0" if j.infer == "0" else "both"
        out = os.path.join(ctx.work, "g%d" % n)
        st, why = core.harness(ctx, exe, j.args(ctx.seed * 100003 + salt * 17 + n, out, 8), j.secs * 3 + (150 if not ctx.thorough else 600))
        if st is None:
            if "-" in why:
                ctx.violation("the harness died (%s) running programs of profile %s" % (why, j.profile),
                              {"kind": "gen", "args": j.args(ctx.seed * 100003 + salt * 17 + n, "x", 8)})
                continue
            ctx.undecided = "harness on profile %s: %s" % (j.profile, why)
            ctx.log(ctx.undecided)
            continue
        j.stats = st[-1]
        with open(out + ".ndjson", encoding="utf-8") as f:
            j.tla = f.readlines()
        with open(out + ".full.ndjson", encoding="utf-8") as f:
            j.full = f.readlines()
        # a build without the hook for DRAMs cannot make them
        keep = [i for i, x in enumerate(j.full) if '"detail":"no DRAM' not in x]
        j.tla = [j.tla[i] for i in keep]
        j.full = [j.full[i] for i in keep]
        for k in ("programs", "runs", "steps", "records", "slow"):
            ctx.add("impl_" + k, j.stats[k])
        ctx.add("impl_distinct_traces", len(j.tla))
        for x in j.full[:1]:
            r = json.loads(x)
            ctx.sample({"profile": j.profile, "inference": r["infer"], "mode": j.mode, "schedule": r["how"][:200],
                        "contexts": r["prog"]["ctxs"], "channels": r["prog"]["chans"], "outcome": r["outcome"],
                        "elapsed": r["elapsed"]})


# which property a broken rule belongs to -------------------------------------------------------------------

def props(x):
    """The properties that an execution which the specification rejects violates by itself."""
    rule, op = x.rule, x.op
    r = x.load()
    s = set()
    if rule in ("crash", "internal"):
        s |= {"any"}
    if rule in ("value", "phantom", "closed-early"):
        s |= {"C01"}
    if rule in ("value", "stamp", "phantom", "closed-early") and op in QUERY or rule.startswith(("peek-", "event-", "sel-")):
        s |= {"C06"}
    if rule in ("stamp", "deq-clock", "inc", "advance", "clock-drift", "infinite", "peek-clock", "void-clock",
                "deq-closed-clock", "enq-closed-clock", "enq-clock", "wav-clock", "sel-clock"):
        s |= {"C02"}
    if rule in ("enq-clock", "wav-clock", "overrun"):
        s |= {"C03"}
    if rule in CLOSED:
        s |= {"C09"}
    if rule in ("stuck", "lib-stuck"):
        s |= {"C01", "C03"}
    if rule.startswith("view-"):
        s |= {"C08"}
    if rule in FAULTY:
        s |= {"C10"}
    if rule == "not-infinite":
        s |= {"C08", "C10", "C12"}
    if rule in ("run-count", "init-count", "init-late", "elapsed", "final-clock") or rule in FAULTY:
        s |= {"C12"}
    if rule == "init-error":
        s |= {"C11", "any"}
    if rule == "hang":
        s |= {"C07", "C09", "C10", "C12"}
        if op in ("deq", "pkn"):
            s |= {"C01"}
        elif op in ("enq", "wav"):
            s |= {"C03"}
        elif op in QUERY:
            s |= {"C06"}
        elif op == "wait":
            s |= {"C08"}
    return s


# rules that count besides in checks whose programs are about one thing
WITHIN = {
    "C10": {"hang", "stuck", "lib-stuck", "phantom", "closed-early", "enq-closed-early", "overrun", "elapsed", "run-count"},
    "C14": None, "C15": None, "C17": None, "C18": None, "C19": None,
}


def pick(rejs):
    """The rejected execution that is easiest to read."""
    return min(rejs, key=lambda x: len(x.job.tla[x.line]))


def by_group(jobs, rejs):
    g = {}
    bad = {(id(x.job), x.line): x for x in rejs}
    for j in jobs:
        for i, l in enumerate(j.tla):
            gid, inf = line(l)
            g.setdefault((id(j), gid), []).append((inf, j, i, bad.get((id(j), i))))
    return g


def differing(jobs, rejs):
    """C04: programs some of whose executions are rejected, unlike others of the same program."""
    out = []
    for v in by_group(jobs, rejs).values():
        for inf in (False, True):
            w = [x for x in v if x[0] == inf]
            b = [x[3] for x in w if x[3]]
            if b and (len(b) < len(w) or len({(x.rule, x.p, x.pos) for x in b}) > 1):
                out += b
    return out


def inferring(ctx, jobs, rejs):
    """C05: programs that are executed as specified with only one setting of inference."""
    out = []
    alone = []
    for v in by_group(jobs, rejs).values():
        on = [x for x in v if x[0]]
        off = [x for x in v if not x[0]]
        if not off:
            alone += [x[3] for x in on if x[3]]
        for a, b in ((on, off), (off, on)):
            ba = [x[3] for x in a if x[3]]
            if b and ba and not any(x[3] for x in b):
                out += ba
    # programs that were executed with inference only are executed without
    for x in sorted(alone, key=lambda x: len(x.job.tla[x.line]))[:12]:
        r = json.loads(x.job.full[x.line])
        r["infer"] = False
        again, _ = rejudge(ctx, [r], x.job.mode)
        if not again:
            out.append(x)
    return out


def report(ctx, x, module="DamApi"):
    ctx.violation(x.text(), {"kind": "run", "mode": x.job.mode, "rule": x.rule, "full": x.job.whole, "module": module,
                             "run": json.loads(x.job.full[x.line])})


def unlogged(ctx, rejs):
    """C20: executions that would have been fine without loggers."""
    out = []
    for x in sorted(rejs, key=lambda x: len(x.job.tla[x.line]))[:12]:
        r = json.loads(x.job.full[x.line])
        r["prog"]["filters"] = []
        again, _ = rejudge(ctx, [r], x.job.mode, True)
        if not again:
            out.append(x)
    return out


def laws(ctx, module):
    r = core.tlc(ctx, module, env={"MODE": "laws", "BIG": "1" if ctx.thorough else "0", "RUNS": "", "OUT": ""}, timeout=1200)
    if not r.ok:
        raise core.CheckError("the specification %s does not have its own properties:\n%s" % (module, r.error))


def enumerated(ctx, module, what):
    """The programs that a specification enumerates."""
    out = os.path.join(ctx.work, module)
    r = core.tlc(ctx, module, env={"MODE": "gen", "BIG": "1" if ctx.thorough else "0", "RUNS": "", "OUT": out}, timeout=1200)
    if not r.ok:
        raise core.CheckError("TLC on %s:\n%s" % (module, r.error))
    return "%s-%s.ndjson" % (out, what)


def logging(ctx, jobs):
    """C20: what is logged, and that logging changes nothing."""
    laws(ctx, "Logging")
    progs = enumerated(ctx, "Logging", "log")
    jobs = jobs + [Job("log", "0", secs=20 if not ctx.thorough else 300, most=100000, schedules=1, full=True, progs=progs)]
    generate(ctx, jobs)
    rejs, _ = judge(ctx, jobs, "Logging")
    ctx.log("Logging: %d executions, %d rejected" % (sum(len(j.tla) for j in jobs), len(rejs)))
    by = {}
    for x in rejs:
        by.setdefault(x.rule, []).append(x)
    for v in by.values():
        report(ctx, pick(v), "Logging")
    rejs, _ = judge(ctx, jobs)
    ctx.log("DamApi: %d rejected" % len(rejs))
    for x in unlogged(ctx, rejs)[:3]:
        report(ctx, x)


def dots(ctx, jobs):
    """C22: the graph dumps."""
    laws(ctx, "Dot")
    generate(ctx, jobs)
    rejs, _ = judge(ctx, jobs, "Dot")
    ctx.log("Dot: %d executions, %d rejected" % (sum(len(j.tla) for j in jobs), len(rejs)))
    by = {}
    for x in rejs:
        by.setdefault(x.rule, []).append(x)
    for v in by.values():
        report(ctx, pick(v), "Dot")


def rejudge(ctx, runs, mode="ctl", full=False, module="DamApi"):
    """Runs given programs again; returns the rejected executions and the number of those known."""
    j = Job("replay", "0", mode, full=full)
    exe, ctl = B.build(j.kind())
    j.mode = mode if ctl else "free"
    p = os.path.join(ctx.work, "again")
    with open(p + ".in", "w", encoding="utf-8") as f:
        for r in runs:
            f.write(json.dumps(r) + "\n")
    st, why = core.harness(ctx, exe, ["replay", "--in", p + ".in", "--out", p], 600)
    if st is None:
        raise core.CheckError("replay: " + why)
    with open(p + ".ndjson", encoding="utf-8") as f:
        j.tla = f.readlines()
    j.full = [json.dumps(runs[0])] * len(j.tla)
    return judge(ctx, [j], module)


def adapted(ctx, rejs):
    """C21: executions that would have been fine without adapters."""
    out = []
    for x in sorted(rejs, key=lambda x: len(x.job.tla[x.line]))[:12]:
        r = json.loads(x.job.full[x.line])
        if not any(c["adapt_s"] or c["adapt_r"] for c in r["prog"]["chans"]):
            continue
        for c in r["prog"]["chans"]:
            c["adapt_s"] = c["adapt_r"] = False
        again, _ = rejudge(ctx, [r], x.job.mode)
        if not again:
            out.append(x)
    return out


def run(ctx, jobs):
    model(ctx, jobs)
    generate(ctx, jobs)
    n = sum(len(j.tla) for j in jobs)
    ctx.log("%d programs, %d executions, %d distinct traces" % (
        ctx.cov.get("impl_programs", 0), ctx.cov.get("impl_runs", 0), n))
    if not n:
        if ctx.violations:
            return
        raise core.CheckError("nothing was executed")
    rejs, known = judge(ctx, jobs)
    for k in core.known_findings()["known"]:
        if k["property"] == ctx.prop and k["id"] == "frozen-clock":
            with open(os.path.join(core.VERIF, k["demo"]), encoding="utf-8") as f:
                r, still = rejudge(ctx, [json.load(f)])
            if still and not r:
                ctx.known.append(k["what"])
    ctx.cov["known_finding_traces"] = known
    ctx.log("specification: %d accepted, %d rejected" % (n - len(rejs), len(rejs)))
    count = {}
    for x in rejs:
        count[x.rule] = count.get(x.rule, 0) + 1
    if count:
        ctx.log("rejected by rule: %s" % count)
        with open(os.path.join(B.BUILD, "rejected-" + ctx.prop + ".txt"), "w", encoding="utf-8") as f:
            for x in rejs:
                f.write("%s\n%s%s" % (x.text(), x.job.tla[x.line], x.job.full[x.line]))
    P = ctx.prop
    if P == "C04":
        mine = differing(jobs, rejs)
    elif P == "C05":
        mine = inferring(ctx, jobs, rejs)
    elif P == "C21":
        mine = adapted(ctx, rejs)
    else:
        mine = []
        for x in rejs:
            p = props(x)
            if P in p or "any" in p or (P in WITHIN and (WITHIN[P] is None or x.rule in WITHIN[P])):
                mine.append(x)
    by = {}
    for x in mine:
        by.setdefault(x.rule, []).append(x)
    for v in by.values():
        report(ctx, pick(v))


def replay(ctx, d):
    rejs, _ = rejudge(ctx, [d["run"]], d.get("mode", "ctl"), d.get("full", False), d.get("module", "DamApi"))
    for x in rejs:
        print(x.text())
    if rejs:
        ctx.violation("reproduced: " + rejs[0].text(), {k: v for k, v in d.items() if k not in ("property", "what")})
