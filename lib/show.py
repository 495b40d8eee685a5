"""show.py FILE [N]: prints the N-th rejected execution of .build/rejected-ID.txt, or of a replay file (debugging aid)."""
import json, sys
n = int(sys.argv[2]) if len(sys.argv) > 2 else 0
text = open(sys.argv[1]).read().splitlines()
if text[0].startswith("{"):
    d = json.loads(text[0]); print(d["what"]); f = d["run"]; t = None
else:
    print(len(text) // 3, "rejected;", text[3 * n]); t = json.loads(text[3 * n + 1]); f = json.loads(text[3 * n + 2])
print("infer", f["infer"], "out", f["outcome"], "detail", f["detail"][:300], "passed", f["passed"], "fails", f["fails"], "elapsed", f["elapsed"], f["how"], "x", f["times"])
for i, c in enumerate(f["prog"]["chans"], 1):
    print("ch", i, "P%d -> P%d" % (c["snd"] + 1, c["rcv"] + 1), {k: v for k, v in c.items() if k not in ("snd", "rcv") and v is not False})
print("groups", f["prog"]["groups"], "order", f["prog"]["order"])
for i, p in enumerate(f["prog"]["ctxs"], 1):
    print("P", i, "conns", p["conns"], json.dumps(p["kind"]))
    if i <= len(f["logs"]):
        for j, r in enumerate(f["logs"][i - 1], 1):
            print("   ", j, r["op"], "ch", r["ch"], r["chs"] or "", "n", r["n"], "v", r["v"], "->", r["res"], "t", r["t"], "clk", r["c0"], r["c1"], "seq", r["s0"], r["s1"], "INF" if r["inf"] else "")
if t:
    print("stamps", t["stamps"], "vals", t["vals"])
