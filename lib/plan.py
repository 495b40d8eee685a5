"""What each check runs."""

import net
import small
from net import Job


def J(profile, infer="both", secs=5, most=1300, **kw):
    return Job(profile, infer, secs=secs, most=most, **kw)


def free(profile, secs=4, most=500, infer="0", **kw):
    return Job(profile, infer, mode="free", secs=secs, most=most, schedules=4, **kw)


def dfs(profile, infer="both", bound=2, secs=4, most=800, schedules=400):
    return Job(profile, infer, secs=secs, most=most, dfs=bound, schedules=schedules)


def fam(family, most=700, infer="both", secs=8, bound=2, schedules=20, size=3):
    return Job("family", infer, secs=secs, most=most, dfs=bound, schedules=schedules, family=family, size=size)


NET = {
    "C01": [J("core"), J("close", secs=3), J("bounded", secs=3), dfs("bounded!"), free("core"), fam("pair"), fam("relay")],
    "C02": [J("core"), J("bounded", secs=3), J("peek", "0", secs=3), dfs("core!"), free("core"), fam("relay"), fam("wait")],
    "C03": [J("bounded", secs=7, most=2000), J("close", secs=2), dfs("bounded!", bound=3), free("bounded"), fam("pair")],
    "C04": [J("core"), J("bounded", secs=3), J("pmu", secs=3), J("dram", secs=2), J("peek", "0", secs=2),
            dfs("core!"), free("core"), free("pmu", secs=3)],
    "C05": [J("infer", secs=5, most=1500), J("sync", "1", secs=4, most=2000), J("core", secs=2), J("pmu", secs=2),
            J("dram", secs=2), J("bounded", secs=2), dfs("infer!"), dfs("sync!", "1"), fam("ring"), fam("relay")],
    "C06": [J("peek", "0"), J("peek", "1", secs=3), J("wake", "0", secs=3), dfs("peek!", "0"), free("peek"),
            fam("fan", infer="0"), fam("pair", infer="0")],
    "C07": [J("wake", "0", secs=6), J("views", "0", secs=4), J("close", "0", secs=2), dfs("wake!", "0", bound=3),
            dfs("views!", "0"), J("sync", "1", secs=5, most=2500), free("wake"), free("views"),
            fam("ring", infer="0"), fam("wait", infer="0")],
    "C08": [J("views", "0", secs=8, most=2500), dfs("views!", "0", bound=3, secs=6), J("fail", "0", secs=2),
            free("views"), fam("wait", infer="0"), fam("fails", infer="0")],
    "C09": [J("close", secs=7, most=2000), J("fail", secs=3), dfs("close!", bound=3), free("close"),
            fam("pair"), fam("relay")],
    "C10": [J("fail", secs=7, most=2000), J("once", secs=2), J("bcast?", secs=2, most=400), J("pmu?", secs=2, most=400),
            J("utils?", secs=2, most=400), dfs("fail!"), free("fail"), fam("fails")],
    "C12": [J("once", secs=6, most=1800), J("fail", secs=3), J("utils", secs=2), free("once")],
    "C14": [J("utils", secs=8, most=2500), J("utils?", secs=3, most=800), dfs("utils!", bound=1, secs=3, most=400), free("utils")],
    "C15": [J("bcast", secs=8, most=2500), J("bcast?", secs=4, most=1200), dfs("bcast?", bound=1, secs=3, most=400), free("bcast")],
    "C17": [J("pmu", secs=10, most=3000), J("pmu?", secs=4, most=1000), dfs("pmu!", bound=1, secs=3, most=500), free("pmu")],
    "C18": [J("dram", secs=10, most=3000), J("dram?", secs=3, most=800), dfs("dram", bound=1, secs=3, most=500)],
    "C19": [J("pcu", secs=10, most=3000), J("pcu?", secs=2, most=200), free("pcu")],
    "C21": [J("adapt", secs=8, most=2500), dfs("adapt!"), free("adapt")],
}

FULL = {
    "C20": (net.logging, [J("log", secs=8, most=2500, full=True, schedules=6), free("log", full=True)]),
    "C22": (net.dots, [J("log", secs=6, most=2500, full=True, schedules=2), J("once", secs=2, full=True, schedules=2),
                       J("pmu", secs=2, full=True, schedules=2)]),
}


def thorough(jobs):
    out = []
    for j in jobs:
        k = 25 if j.mode == "ctl" else 10
        out.append(Job(j.profile, j.infer, j.mode, j.secs * k, j.most * k, j.dfs + (1 if j.dfs else 0),
                       j.schedules * (4 if j.dfs else 2), j.whole, j.progs, j.family, j.size))
    return out


def run(ctx):
    if ctx.prop in NET:
        jobs = NET[ctx.prop]
        net.run(ctx, thorough(jobs) if ctx.thorough else jobs)
    if ctx.prop in FULL:
        f, jobs = FULL[ctx.prop]
        f(ctx, thorough(jobs) if ctx.thorough else jobs)
    if ctx.prop in small.SUITES:
        small.run(ctx)


def replay(ctx, d):
    if d["kind"] == "run":
        net.replay(ctx, d)
    elif d["kind"] == "small":
        small.replay(ctx, d)
    else:
        raise SystemExit("cannot replay this")


NET_NOTE = (
    "TLA+ specifications DamApi and DamImpl checked with TLC; trace validation of real executions under a controlled scheduler",
    "Executions of randomly generated programs on the real crate, under random, priority and bounded-preemption schedules "
    "(and some on free threads), are followed step by step in the TLA+ specification DamApi, which rejects any result, time "
    "stamp, clock, closure, failure report or hang that the semantics does not permit. Sound for what was executed, not "
    "exhaustive over programs. For most properties, programs of numbered families (Families, written out by DamGen) are run on "
    "the crate, and all interleavings of the algorithm (DamImpl) on them are explored by TLC and judged by DamApi; the wake-up "
    "protocol is explored in Signal, with liveness. Trusts the controlled runtime (/verif/rt), the recording of operations, and sequential "
    "consistency.")
SMALL = ("TLA+ specification %s checked with TLC; its behaviours within bounds executed on the real code and judged by TLC",
         "%s Exhaustive within the stated bounds, sampled beyond them.")
NOTES = {
    "C20": ("TLA+ specifications Logging and DamApi checked with TLC; trace validation of logs of real executions",
            "TLC explores the interleavings of two logging contexts with all filters; all programs of one context with at most 3 "
            "(thorough: 4) log, clock and cleanup operations under 8 filters, some of two contexts, and random programs of all "
            "profiles (with every kind of library context) are executed with loggers, and their entries followed one by one in "
            "Logging; the same executions are judged by DamApi, since logging must not change them. The database back end "
            "is not exercised (no database here)."),
    "C22": ("TLA+ specification Dot checked with TLC; conformance of dumps of real programs",
            "TLC explores the walk over all forests of 4 (thorough: 5) contexts; dumps of random programs (flat, composite, with "
            "PMUs, failing), before and after their execution, are compared with the program. Sampled, not exhaustive."),
    "C11": (SMALL[0] % "Init", SMALL[1] % (
        "TLC explores all ways of building a program of at most 2 contexts and 2 channels (3 contexts with 1 channel; thorough: 3 "
        "with 2), each registered, member of a composite or neither, endpoints attached or not, with and without inference; "
        "every such program is initialized and run on the real crate, and larger random ones (up to 5 contexts, 6 channels).")),
    "C13": (SMALL[0] % "TimeAlg", SMALL[1] % (
        "TLC checks the laws on a universe of times that includes the neighbourhoods of 0, 2^40, 2^62, 2^63 and 2^64, then "
        "every pair of times and of event times is computed by the real code; all histories of a clock of at most 3 (thorough: "
        "4) operations, and longer random ones, are followed in the specification. Sums beyond 2^64 are not specified.")),
    "C23": (SMALL[0] % "Types", SMALL[1] % (
        "All scalars, all pairs of scalars, nested pairs over four scalars, each by value, as a placeholder and as arrays of ten "
        "shapes; all indices of 8 bits, and those around powers of two of wider types; numbers around the limits of 8 and 16 "
        "bits in five bases.")),
    "C16": (SMALL[0] % "Datastore", SMALL[1] % (
        "TLC explores all histories of 3 (thorough: 4) writes over 3 addresses and 3 times for the 4 configurations; each is "
        "executed on the real store with all reads after every write, and random longer histories with infinite and large "
        "times are followed step by step.")),
}
