"""Writes MANIFEST.json from properties.jsonl and the checks there are."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    n = plan.NOTES.get(i) or (plan.NET_NOTE if i in plan.NET else None)
    if n is None:
        na.append({"property": i, "reason": "the check is still being built"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "python3 check.py %s --thorough" % i,
        "technique": n[0], "level": "model_checking", "level_note": n[1],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 lib/build.py base full plain plainfull",
    "hooks": {"guard": "dam_verif", "enable": "RUSTFLAGS=--cfg dam_verif, with the crate dam-verif-rt (/verif/rt) added as a dependency in a mirror of /repo (lib/build.py); dam_verif_no_dram leaves the DRAM constructors out",
              "source_commits": ["c2c7afb", "8f65bd0"]},
    "checks": checks, "not_applicable": na,
    "notes": "TLA+ checked with TLC. Defects of the original code that were repaired or recorded are listed in known_findings.json.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
