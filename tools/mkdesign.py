import importlib, json, os, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H); sys.dont_write_bytecode = True
D = H + "/tools/design/"
out = [open(D + "0_head.md").read().rstrip() + "\n"]
man = {c["property"]: c for c in json.load(open(H + "/MANIFEST.json"))["checks"]}
for line in open(H + "/properties.jsonl"):
    p = json.loads(line)
    m = importlib.import_module("rvm.props." + p["id"].lower())
    c = man[p["id"]]
    out.append(f"""### {p['id']} {p['title']}

{p['statement']}

- *deciding method*: {c['technique']}. {c['level_note'].split('; ', 1)[1][:1].upper() + c['level_note'].split('; ', 1)[1][1:]}.
- *workload*: {m.RULE.strip()}
- *bounds and assumptions*: {m.CASES['quick']} cases quick, {m.CASES['thorough']} thorough; {'; '.join(m.ASSUMPTIONS)}.
- *why beyond the tests*: {p['why_tests_cant']}
""")
for f in sorted(glob.glob(D + "[1-9]_*.md")):
    out.append(open(f).read().rstrip() + "\n")
open(H + "/DESIGN.md", "w").write("\n".join(out))
