"""writes tools/design/3_planted.md from seeded/*/meta.json and the last catch results (tools/catch.txt)."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(f"{H}/tools/catch.txt"):
    m = re.match(r"(s\d+) (C\d+) seed (\d+) exit (\d) (CAUGHT|MISSED) (\d+)", l)
    if m:
        res.setdefault(m[1], {})[m[2]] = (m[5], m[6])
out = ["## Planted bugs and which checks catch them", "",
       "Every planted bug passes the 90 stable tests and has a demonstration. `by` gives the quick check(s) that report it at seed 1, with the number of the 8 workers whose part of the",
       "workload met it before its first violation stopped it (a worker that has reported one stops), a measure of margin.", "",
       "| bug | property | needs | breaks | by (workers) |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(f"{H}/seeded")):
    m = json.load(open(f"{H}/seeded/{i}/meta.json"))
    by = ", ".join(f"{p} ({n})" if s == "CAUGHT" else f"missed by {p}" for p, (s, n) in sorted(res.get(i, {}).items()))
    out.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {by} |")
open(f"{H}/tools/design/3_planted.md", "w").write("\n".join(out) + "\n")
