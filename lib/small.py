"""Checks on small cases: a specification explores its own behaviours, writes them (and what they range over) as cases,
the harness runs every case on the real crate, and the specification judges the answers."""

import json
import os

import build as B
import core

# module, kinds of cases that it writes, kinds that are drawn at random besides
SUITES = {
    "C13": [("TimeAlg", ["pair", "evpair", "hist"], [("hist", 4000)])],
    "C06": [("TimeAlg", ["comb"], [])],
    "C16": [("Datastore", ["store"], [("store", 6000)])],
    "C23": [("Types", ["size", "parse", "index"], [])],
    "C11": [("Init", ["init", "lat"], [("init", 2500)])],
}
RULES = {
    "crash": "the crate panics",
    "order": "the order of two times", "max-min": "the larger or smaller of two times", "add": "a sum of times",
    "add-ticks": "adding ticks", "sub": "subtracting ticks", "make": "constructing or converting a time",
    "event-order": "the order of two event times", "event-min": "the earlier or later of two event times",
    "all": "the event of all components is unsound", "all-weak": "the event of all components says too little",
    "any": "the event of any component is unsound", "any-weak": "the event of any component says too little",
    "clock": "a clock after an operation of its owner", "view": "what views read of a clock",
    "view-back": "a view moved backwards", "wait": "the result of waiting for a time that is reached",
    "dropped": "what a view reads once the owner is gone",
    "write-accepted": "a write that must be refused is accepted", "write-refused": "a valid write is refused",
    "read": "what is read after an operation",
    "element": "the time or content of a converted or postponed element",
    "size": "the size of a type or value", "size-unevaluated": "the size of a placeholder", "size-array": "the size of an array",
    "parse": "parsing a placeholder", "index": "the address that an index stands for", "placeholder": "what placeholders can do",
    "latency": "a latency of zero is accepted, or another refused", "panic": "initialization panics",
    "ids": "identifiers are not distinct", "children": "the number of registered contexts",
    "refused": "a well-formed program is refused", "accepted": "an ill-formed program is accepted",
    "init-count": "how often contexts are initialized", "early": "a context runs before the program is run",
    "run-count": "how often contexts are run", "passed": "a program without failures is not reported as passed",
    "ran": "contexts run although initialization failed", "wrong-error": "the error names nothing that offends",
}


def judge(ctx, module, path):
    r = core.tlc(ctx, module, env={"MODE": "judge", "IN": path, "BIG": "0"}, timeout=3000 if ctx.thorough else 600)
    if not r.ok:
        raise core.CheckError("TLC on %s:\n%s" % (module, r.error))
    return r.tuples("REJECT")


def execute(ctx, cases, out):
    exe, _ = B.build("base")
    st, why = core.harness(ctx, exe, ["small", "--in", cases, "--out", out], 900 if ctx.thorough else 300)
    return why if st is None else ""


def run(ctx):
    big = "1" if ctx.thorough else "0"
    exe, _ = B.build("base")
    for module, kinds, drawn in SUITES[ctx.prop]:
        r = core.tlc(ctx, module, env={"MODE": "laws", "BIG": big, "IN": "", "OUT": ""}, timeout=900)
        if not r.ok:
            raise core.CheckError("the specification %s does not have its own properties:\n%s" % (module, r.error))
        r = core.tlc(ctx, module, env={"MODE": "gen", "BIG": big, "IN": "", "OUT": os.path.join(ctx.work, module)}, timeout=900)
        if not r.ok:
            raise core.CheckError("TLC on %s:\n%s" % (module, r.error))
        files = [(k, os.path.join(ctx.work, "%s-%s.ndjson" % (module, k))) for k in kinds]
        for what, n in drawn:
            f = os.path.join(ctx.work, "drawn-%s.ndjson" % what)
            st, why = core.harness(ctx, exe, ["draw", "--what", what, "--n", str(n * (25 if ctx.thorough else 1)), "--seed",
                                              str(ctx.seed), "--out", f], 120)
            if st is None:
                raise core.CheckError("draw: " + why)
            files.append(("drawn " + what, f))
        for name, f in files:
            out = f + ".out"
            why = execute(ctx, f, out)
            if "-" in why:
                ctx.violation("the harness died (%s) on cases of kind %s" % (why, name), {"kind": "small", "module": module, "cases": []})
                continue
            if why:
                # a case that never ends: find it
                with open(out, encoding="utf-8", errors="replace") as g:
                    done = sum(1 for _ in g)
                with open(f, encoding="utf-8") as g:
                    case = json.loads(g.readlines()[done])
                ctx.violation("%s on %s" % (why, json.dumps(case)), {"kind": "small", "module": module, "cases": [case]})
                continue
            with open(out, encoding="utf-8") as g:
                lines = g.readlines()
            rej = judge(ctx, module, out)
            ctx.add("traces_validated_against_impl", len(lines) - len({t[1] for t in rej}))
            ctx.add("cases_" + name.replace(" ", "_"), len(lines))
            ctx.sample(json.loads(lines[len(lines) // 2]))
            ctx.log("%s %s: %d cases, %d rejected" % (module, name, len(lines), len(rej)))
            by = {}
            for t in rej:
                by.setdefault(t[2], []).append(t[1])
            for rule, at in by.items():
                k = min(at, key=lambda n: len(lines[n - 1]))
                case = json.loads(lines[k - 1])
                ctx.violation("%s: %s" % (RULES.get(rule, rule), lines[k - 1].strip()[:1500]),
                              {"kind": "small", "module": module, "rule": rule, "cases": [case]})


def replay(ctx, d):
    f = os.path.join(ctx.work, "again.ndjson")
    with open(f, "w", encoding="utf-8") as g:
        for c in d["cases"]:
            c.pop("r", None)
            g.write(json.dumps(c) + "\n")
    why = execute(ctx, f, f + ".out")
    rej = [] if why else judge(ctx, d["module"], f + ".out")
    if why or rej:
        what = why or "%s" % RULES.get(rej[0][2], rej[0][2])
        ctx.violation("reproduced: " + what, {k: v for k, v in d.items() if k not in ("property", "what")})
