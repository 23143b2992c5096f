"""rewrites the 'fixed' part of known_findings.json from the fix: commits of /repo (maintenance tool, never used by a check)."""
import json, subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {  # keyword in the subject -> property
    "scalar operands": "C01", "0/0 is 0": "C01", "restricting a numpy store": "C02", "numpy stores are combined": "C01", "states that are tuples": "C02",
    "when fusing models": "C10", "DAG is given as a string": "C25", "built from a DAG given": "C24", "keeps its endogenous": "C24", "renaming only some": "C24",
    "submodels can be built": "C24", "sampling the endogenous": "C19", "c-component of their own": "C12", "q-decomposition is acyclic": "C12",
    "checked against the factors of its children": "C22", "domain of a single variable": "C24", "left or right variable given": "C03", "compiling a probabilistic": "C06",
    "heuristics do not empty": "C07", "heuristics that only": "C07", "probabilities of causation": "C11", "canonical equations": "C23", "from a data frame": "C23",
    "true and false": "C11", "random degenerate": "C29", "scientific notation": "C20", "nodes without arcs are kept when reading": "C20", "equations read from UAI": "C20",
    "equation of a degenerate": "C23", "conditional tables": "C21", "add columns": "C04", "share memory": "C04", "EM counts each": "C15", "keep the data store": "C05", "keeps the data store": "C05",
    "start afresh": "C30", "missing values are counted": "C26", "own list of models": "C30", "refused query leaves": "C30", "sides of an interval": "C31",
    "interval factors are restricted": "C31", "value of an interval factor": "C31", "trees of values whose": "C33", "fusing models on variables": "C24", "interval factors are built": "C16", "conditional sampling": "C19",
    "casting a factor to a deterministic one": "C05", "interval factors of precise": "C05", "weights of variables with many": "C07", "variable may be named store": "C01", "counting data with": "C26", "writing a value into a store": "C33", "tables of logical": "C01",
    "given as any iterable": "C19", "two labels for false": "C11", "not variables of the model are ignored": "C15"}
EXTRA = HERE + "/tools/findings_extra.json"
if os.path.exists(EXTRA):
    PROP.update(json.load(open(EXTRA)))
out = []
known = [f for f in json.load(open(HERE + "/known_findings.json"))["findings"] if f["status"] == "known"] if os.path.exists(HERE + "/known_findings.json") else []
for line in reversed(subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()):
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    ps = [p for k, p in PROP.items() if k in s]
    assert ps, s
    p = ps[0]
    out.append(dict(id=f"fixed-{h}", property=p, status="fixed", what=f"fixed: property={p} {h} before the fix this was broken: {s[5:]}"))
json.dump(dict(findings=known + out), open(HERE + "/known_findings.json", "w"), indent=1)
print(len(out))
