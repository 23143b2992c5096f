"""development tool: (re)creates seeded/<id>/ from tools/plants/<id>.py and validates it in a scratch copy.
plant.py make ID..     write patch.diff/demo.sh/demo.py/meta.json
plant.py test ID..     scratch copy: demo passes before / fails after; stable tests pass after
plant.py catch ID [PROP..]   run quick checks against a scratch copy with the bug (default: the property it names)
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def load(i):
    s = importlib.util.spec_from_file_location(i, f"{H}/tools/plants/{i}.py")
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def scratch(tag):
    d = tempfile.mkdtemp(prefix=f"plant_{tag}_", dir="/tmp")
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {d}", shell=True, check=True)
    subprocess.run(f"cd {d} && git init -q && git add -A && git -c user.email=a@b -c user.name=n commit -qm x", shell=True, check=True)
    return d


def make(i):
    m = load(i)
    d = scratch(i)
    try:
        for f, old, new in m.EDITS:
            s = open(f"{d}/{f}").read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            base = subprocess.run(["git", "-C", "/repo", "show", "89c490b:" + f], capture_output=True, text=True).stdout
            gone = [l for l in old.splitlines() if l.strip() and l not in new.splitlines()]
            if not gone or any(l not in base.splitlines() for l in gone):
                print(i, "WARNING: not lines of the original:", [l for l in gone if l not in base.splitlines()] or "(pure insertion)")
            open(f"{d}/{f}", "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(d)
    o = f"{H}/seeded/{i}"
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(diff)
    open(o + "/demo.sh", "w").write('#!/bin/bash\n# cwd is the repository\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(o + "/demo.sh", 0o755)
    open(o + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\n" + m.DEMO.lstrip())
    json.dump(dict(property=m.PROPERTY, needs=m.NEEDS, what_it_breaks=m.BREAKS), open(o + "/meta.json", "w"), indent=1)


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")


def test(i):
    d = scratch(i)
    try:
        o = f"{H}/seeded/{i}"
        r0 = subprocess.run(["bash", o + "/demo.sh"], cwd=d, capture_output=True, text=True, timeout=300)
        subprocess.run(["git", "-C", d, "apply", o + "/patch.diff"], check=True)
        r1 = subprocess.run(["bash", o + "/demo.sh"], cwd=d, capture_output=True, text=True, timeout=300)
        t = subprocess.run([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-W", "ignore", "-rA", "--timeout=300"], cwd=d, env=ENV, capture_output=True, text=True)
        failed = [l for l in t.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))]
        real = [l for l in failed if "test_multinomial.py::test_sampling" not in l]
        print(i, "demo clean", r0.returncode, "bug", r1.returncode, "tests:", t.stdout.splitlines()[-1], "UNEXPECTED" if real else "ok", *[x[:150] for x in real[:4]], flush=True)
        if r0.returncode:
            print(r0.stderr[-800:])
        if r1.returncode:
            print("   ", r1.stderr.strip().splitlines()[-1][:200] if r1.stderr.strip() else r1.stdout[-200:], flush=True)
    finally:
        shutil.rmtree(d)


def catch(i, props, seeds=("1",)):
    m = load(i)
    d = scratch(i)
    try:
        subprocess.run(["git", "-C", d, "apply", f"{H}/seeded/{i}/patch.diff"], check=True)
        for p in props or [m.PROPERTY]:
            for s in seeds:
                r = subprocess.run([H + "/check", p, "quick", "--no-evidence", "--seed", s], cwd=H, env=dict(os.environ, RVM_REPO=d, PYTHONPATH=d), capture_output=True, text=True)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                last = (r.stdout.strip().splitlines() or [""])
                msg = [l for l in last if "VIOLATION" not in l][-3:]
                print(i, p, "seed", s, "exit", r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", len(v), flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        for i in ids:
            make(i)
    elif cmd == "test":
        with ThreadPoolExecutor(7) as ex:
            list(ex.map(test, ids))
    elif cmd == "catch":
        catch(ids[0], ids[1:])
    elif cmd == "catchall":
        for i in ids:
            catch(i, [])
