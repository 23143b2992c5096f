"""Runner for the runtime monitors.

A property module (rvm/props/cNN.py) defines
    ID       property id
    CASES    {"quick": n, "thorough": m}      number of workload cases per tier (count-based, not time-based)
    case(ctx, rng, i)                         drives the real code once and reports what its monitors observed to ctx
    NEED     {"counter": minimum, ...}        counters without which the run is inconclusive (monitor never reached)
and optionally setup(ctx), finish(ctx) per worker.

The parent starts a fixed number of worker processes; case i is run by one fixed worker, with its own random stream
derived from (VERIF_SEED, property, i).  Every worker has a different PYTHONHASHSEED, so the iteration order of the sets
the code under test builds differs between workers: that is the scheduling nondeterminism a single test run never varies.
"""
from __future__ import annotations

import argparse
import contextlib
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RVM_REPO", "/repo")
NWORKERS = 8
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")
WALL = {"quick": 420, "thorough": 3 * 3600}        # watchdog: stops starting new cases, never a verdict by itself
CASE_S = {"quick": 180, "thorough": 900}           # wall clock per case: inconclusive
CPU_S = {"quick": 100, "thorough": 500}            # CPU time per case: 2 orders of magnitude above any case on a correct tree
SOFT = {"quick": 75, "thorough": 3600}             # stop early on a slow machine once the required counters are met


class Violation(Exception):
    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg, self.detail = msg, detail


class CaseTimeout(BaseException):
    pass


class CpuExhausted(BaseException):
    pass


class Skip(Exception):
    """The generated input is outside the property's domain (e.g. evidence of probability 0)."""


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(x)[:120]]
    return repr(x)[:600]


class Ctx:
    def __init__(self, pid, tier, seed, scratch):
        self.pid, self.tier, self.seed, self.scratch = pid, tier, seed, scratch
        self.counts, self.distinct_keys, self.samples, self.violations = {}, set(), [], []
        self.evaluations = 0
        self.desc = {}
        self.observed = {}

    # --- reporting -------------------------------------------------------------------------------------------
    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def seen(self, *key):
        """A distinct non-trivial situation in which the oracle was evaluated."""
        self.distinct_keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def note(self, **kw):
        """Describe the current case (goes into the replay file if it fails)."""
        self.desc.update(kw)

    def check(self, cond, msg, **detail):
        self.evaluations += 1
        if not cond:
            raise Violation(msg, **detail)

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(jsonable(s))

    @contextlib.contextmanager
    def sut(self, what):
        """A call into the code under test that has to succeed."""
        try:
            yield
        except (Violation, Skip, CaseTimeout):
            raise
        except Exception as e:
            raise Violation(f"{what}: raised {type(e).__name__}: {e}"[:600], traceback=traceback.format_exc()[-3000:])

    def rejects(self, what, fn, *args, **kw):
        """fn must refuse (any exception) rather than return an answer."""
        self.evaluations += 1
        try:
            r = fn(*args, **kw)
        except Exception:
            return
        raise Violation(f"{what}: accepted, returned {r!r}"[:600])


def rng_for(seed, pid, i):
    import numpy as np
    h = hashlib.sha256(f"{seed}/{pid}/{i}".encode()).digest()
    return np.random.default_rng([int.from_bytes(h[k:k + 4], "little") for k in range(0, 16, 4)])


def worker_of(i):
    """which worker runs case i (not i mod NWORKERS: the modules choose the kind of case by i, and each kind has to meet every hash seed)."""
    return (i + i // NWORKERS) % NWORKERS


def hash_seed(seed, worker):
    return (int(seed) * 8191 + worker * 131071 + 17) % 4294967295


# ----------------------------------------------------------------------------------------------------------- worker
def prepare_import():
    """Import bcause from REPO's working tree, from source (never from a stale bytecode cache)."""
    from importlib.machinery import SourceFileLoader
    orig = SourceFileLoader.path_stats
    root = os.path.realpath(REPO) + os.sep

    def path_stats(self, path):
        if os.path.realpath(path).startswith(root):
            raise OSError("always compile the working tree")
        return orig(self, path)

    SourceFileLoader.path_stats = path_stats
    sys.dont_write_bytecode = True
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    import bcause
    assert os.path.realpath(bcause.__file__).startswith(root), bcause.__file__


class Reach:
    """Which lines of the code under test were executed (sys.monitoring; every location reports once, so it costs nothing later)."""

    def __init__(self):
        self.lines = {}
        root = os.path.realpath(REPO) + os.sep
        mon, name = sys.monitoring, {}
        mon.use_tool_id(3, "rvm")

        def on_line(code, line):
            f = code.co_filename
            if f not in name:
                r = os.path.realpath(f)
                name[f] = r[len(root):] if r.startswith(root) else None
            if name[f]:
                self.lines.setdefault(name[f], set()).add(line)
            return mon.DISABLE

        mon.register_callback(3, mon.events.LINE, on_line)
        mon.set_events(3, mon.events.LINE)

    def result(self):
        return {f: sorted(x) for f, x in self.lines.items() if f.startswith("bcause" + os.sep)}


def function_lines(path):
    """line numbers of the bodies of functions (not of module level code, docstrings or the demonstration under __main__)."""
    with open(path) as f:
        src = f.read()
    out = set()

    def walk(code, inside):
        if inside:
            out.update(l for _, _, l in code.co_lines() if l and l != code.co_firstlineno)
        for c in code.co_consts:
            if hasattr(c, "co_lines"):
                walk(c, inside or c.co_name != "<module>" and not (c.co_flags & 0x2 == 0))
    try:
        top = compile(src, path, "exec", optimize=2)
    except SyntaxError:
        return out
    for c in top.co_consts:
        if hasattr(c, "co_lines"):
            if c.co_flags & 0x2:
                walk(c, True)
            else:                                                # class body
                for d in c.co_consts:
                    if hasattr(d, "co_lines"):
                        walk(d, True)
    return out


def run_case(mod, ctx, seed, i, limit):
    import numpy as np
    rng = rng_for(seed, mod.ID, i)
    np.random.seed(int(rng.integers(2 ** 31)))
    random.seed(int(rng.integers(2 ** 31)))
    ctx.desc = {}

    def on_alarm(*_):
        raise CaseTimeout()

    def on_cpu(*_):
        raise CpuExhausted()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.signal(signal.SIGPROF, on_cpu)
    signal.alarm(int(limit))
    signal.setitimer(signal.ITIMER_PROF, CPU_S[ctx.tier])
    t0 = time.time()
    try:
        mod.case(ctx, rng, i)
        ctx.count("cases")
    except Skip as e:
        ctx.count("cases_out_of_domain")
        ctx.count(f"skip:{e}")
    except CaseTimeout:
        ctx.count("cases_timed_out")
    except CpuExhausted:
        return {"case": i, "message": f"no answer after {CPU_S[ctx.tier]} s of CPU time (bounded progress)",
                "detail": {"traceback": traceback.format_exc()[-2000:]}, "input": jsonable(ctx.desc)}
    except Violation as v:
        return {"case": i, "message": v.msg, "detail": jsonable(v.detail), "input": jsonable(ctx.desc)}
    except Exception as e:
        tb = traceback.format_exc()
        last = traceback.extract_tb(e.__traceback__)[-1]
        inside = any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)
                     for f in traceback.extract_tb(e.__traceback__))
        if inside:                                    # the code under test blew up on an admissible input
            return {"case": i, "message": f"raised {type(e).__name__}: {e}"[:600], "detail": {"traceback": tb[-3000:]},
                    "input": jsonable(ctx.desc)}
        # no frame of the code under test: the oracle could not interpret what the code under test returned.  That never happens
        # on a tree on which the property holds, so it is reported as a violation unless the machine or the harness is to blame.
        private = isinstance(e, AttributeError) and str(getattr(e, "name", "") or "").startswith("_")
        machine = isinstance(e, (MemoryError, OSError, ImportError, NameError)) and not isinstance(e, FileNotFoundError) or private
        return {"case": i, "harness_error": machine, "message": f"the outcome could not be interpreted: {type(e).__name__}: {e} at {last.name}:{last.lineno}"[:600],
                "detail": {"traceback": tb[-4000:]}, "input": jsonable(ctx.desc)}
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        ctx.count("case_ms", int((time.time() - t0) * 1000))
    return None


def worker_main(a):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    scratch = tempfile.mkdtemp(prefix=f"rvm_{a.pid}_{a.worker}_", dir=a.scratch)
    out = {"violations": [], "harness_errors": []}
    t0 = time.time()
    reach = Reach()
    prepare_import()
    os.chdir(scratch)
    mod = importlib.import_module(f"rvm.props.{a.pid.lower()}")
    ctx = Ctx(a.pid, a.tier, a.seed, scratch)
    ctx.single = a.case is not None
    if hasattr(mod, "setup"):
        mod.setup(ctx)
    cases = [a.case] if a.case is not None else (i for i in range(int(mod.CASES[a.tier] * a.scale)) if worker_of(i) == a.worker)
    t1 = time.time()
    for i in cases:
        el = time.time() - t1
        if el > a.wall or (el > a.soft and all(ctx.counts.get(k, 0) * 4 >= n for k, n in getattr(mod, "NEED", {}).items())):
            ctx.count("cases_not_started")
            continue
        r = run_case(mod, ctx, a.seed, i, a.case_s)
        if r:
            r["pythonhashseed"] = os.environ.get("PYTHONHASHSEED")
            out["harness_errors" if r.pop("harness_error", False) else "violations"].append(r)
            if len(out["violations"]) >= a.max_viol:
                break
    if hasattr(mod, "finish") and not out["violations"]:
        try:
            mod.finish(ctx)
        except Violation as v:
            out["violations"].append({"case": None, "message": v.msg, "detail": jsonable(v.detail)})
    out.update(counts=ctx.counts, distinct=sorted(ctx.distinct_keys), samples=ctx.samples, evaluations=ctx.evaluations,
               observed=ctx.observed, lines=reach.result(), import_s=round(t1 - t0, 2), run_s=round(time.time() - t1, 2))
    os.chdir("/")
    shutil.rmtree(scratch, ignore_errors=True)
    with open(a.out, "w") as f:
        json.dump(out, f)


# ----------------------------------------------------------------------------------------------------------- parent
def known_findings(pid):
    try:
        with open(KNOWN) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == pid and k["status"] == "known"]
    except FileNotFoundError:
        return []


def matches(k, v):
    import re
    text = v["message"] + "\n" + json.dumps(v.get("detail", {})) + "\n" + json.dumps(v.get("input", {}))
    return all(re.search(p, text) for p in k["match"])


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--max-viol", type=int, default=1)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--as-worker", dest="worker", type=int)
    ap.add_argument("--scratch")
    ap.add_argument("--out")
    ap.add_argument("--wall", type=float)
    ap.add_argument("--soft", type=float)
    ap.add_argument("--case-s", type=float)
    a = ap.parse_args(argv)
    if a.worker is not None:
        return worker_main(a)

    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        a.pid, a.tier, a.seed, a.case = rp["property"], rp["tier"], rp["seed"], rp["case"]
        a.no_evidence = True
    sys.path.insert(0, VERIF)
    t0 = time.time()
    a.wall = a.wall or WALL[a.tier]
    a.soft = a.soft or SOFT[a.tier]
    a.case_s = a.case_s or CASE_S[a.tier]
    scratch = tempfile.mkdtemp(prefix=f"rvm_{a.pid}_")
    workers = [worker_of(a.case)] if a.case is not None else list(range(NWORKERS))
    procs = []
    try:
        for w in workers:
            env = dict(os.environ, PYTHONHASHSEED=str(hash_seed(a.seed, w)), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
                       OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="", PYTHONPATH=f"{VERIF}:{REPO}",
                       MPLCONFIGDIR=os.path.join(scratch, "mpl"))
            outp = os.path.join(scratch, f"w{w}.json")
            cmd = [sys.executable, "-m", "rvm.core", a.pid, a.tier, "--seed", str(a.seed), "--as-worker", str(w), "--scratch",
                   scratch, "--out", outp, "--wall", str(a.wall), "--soft", str(a.soft), "--case-s", str(a.case_s), "--scale",
                   str(a.scale), "--max-viol", str(a.max_viol)]
            if a.case is not None:
                cmd += ["--case", str(a.case)]
            log = open(os.path.join(scratch, f"w{w}.log"), "w")
            procs.append((w, outp, subprocess.Popen(cmd, env=env, cwd=VERIF, stdout=subprocess.DEVNULL, stderr=log), log))
        results, dead = [], []
        deadline = time.time() + a.wall + a.case_s + 60
        for w, outp, p, log in procs:
            try:
                p.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            log.close()
            if os.path.exists(outp):
                with open(outp) as f:
                    results.append(json.load(f))
            else:
                with open(os.path.join(scratch, f"w{w}.log")) as f:
                    dead.append((w, p.returncode, f.read()[-3000:]))
    finally:
        for _, _, p, _ in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(scratch, ignore_errors=True)
    return report(a, results, dead, t0)


def report(a, results, dead, t0):
    need_mod = f"rvm.props.{a.pid.lower()}"
    meta = static_meta(a.pid)
    counts, distinct, samples, observed, lines = {}, set(), [], {}, {}
    viols, herr, evals = [], [], 0
    for r in results:
        for k, n in r["counts"].items():
            counts[k] = counts.get(k, 0) + n
        distinct |= set(r["distinct"])
        samples += r["samples"]
        evals += r["evaluations"]
        viols += r["violations"]
        herr += r["harness_errors"]
        for k, v in r.get("lines", {}).items():
            lines.setdefault(k, set()).update(v)
        for k, v in r["observed"].items():
            observed.setdefault(k, [])
            observed[k] = sorted(set(observed[k]) | set(v))
    known = known_findings(a.pid)
    fresh, hit = [], {}
    for v in viols:
        k = next((k for k in known if matches(k, v)), None)
        if k:
            hit[k["id"]] = k
        else:
            fresh.append(v)
    status = 0
    for k in known:
        print(f"KNOWN-FINDING: property={a.pid} {k['what']}")
    if fresh:
        status = 1
        fresh.sort(key=lambda v: (v["case"] is None, v["case"]))
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        for v in fresh[:8]:
            path = os.path.join(EVID, "replay", f"{a.pid}_{a.tier}_s{a.seed}_c{v['case']}.json")
            with open(path, "w") as f:
                json.dump({"property": a.pid, "tier": a.tier, "seed": a.seed, **v}, f, indent=1, default=repr)
            print(f"VIOLATION property={a.pid} replay={path}")
            print(f"  case {v['case']}: {v['message']}")
            if a.verbose:
                print(json.dumps(v, indent=1, default=repr)[:6000])
    elif dead or herr:
        status = 2
        for w, rc, tail in dead:
            print(f"INCONCLUSIVE property={a.pid} worker {w} ended with {rc}: {tail[-1500:]}")
        for h in herr[:3]:
            print(f"HARNESS-ERROR property={a.pid} case {h['case']}: {h['message']}\n{h['detail'].get('traceback', '')[-1800:]}")
    elif a.case is None and a.scale >= 1:
        missing = {k: (counts.get(k, 0), n) for k, n in meta["need"].items() if counts.get(k, 0) < n}
        if missing:
            status = 2
            print(f"INCONCLUSIVE property={a.pid}: monitors not reached often enough {missing}")
    wall = round(time.time() - t0, 1)
    if not a.no_evidence:
        reached = {}
        for k, v in sorted(lines.items()):
            tot = function_lines(os.path.join(REPO, k))
            if tot & v:
                reached[k] = f"{len(tot & v)} of {len(tot)} lines"
        if os.environ.get("RVM_LINES"):
            with open(os.path.join(os.environ["RVM_LINES"], f"{a.pid}.json"), "w") as f:
                json.dump({k: sorted(v) for k, v in lines.items()}, f)
        os.makedirs(EVID, exist_ok=True)
        ev = {"property": a.pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
              "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": meta["rule"],
                           "samples": samples[:6], "monitor_counts": dict(sorted(counts.items())), "observed": observed, "code_reached": reached,
                           "workers": len(results), "hash_seeds": [hash_seed(a.seed, w) for w in range(NWORKERS)],
                           "outcome": {0: "held on everything observed", 1: "violated", 2: "inconclusive"}[status]},
              "assumptions": meta["assumptions"], "wall_s": wall, "violations": len(fresh)}
        if fresh:
            ev["coverage"]["violating_cases"] = [f"case {v['case']}: {v['message']}"[:400] for v in fresh]
        with open(os.path.join(EVID, f"{a.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
    brief = {k: v for k, v in sorted(counts.items()) if k not in ("case_ms",)}
    print(f"{a.pid} {a.tier} seed={a.seed}: {'held' if status == 0 else 'VIOLATED' if status == 1 else 'inconclusive'}; "
          f"{evals} oracle evaluations, {len(distinct)} distinct situations, {wall} s; {brief}")
    return status


def static_meta(pid):
    """NEED / RULE / ASSUMPTIONS of a property module, without importing bcause in the parent."""
    import ast
    path = os.path.join(VERIF, "rvm", "props", f"{pid.lower()}.py")
    ns = {"need": {}, "rule": "", "assumptions": []}
    with open(path) as f:
        tree = ast.parse(f.read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            n = node.targets[0].id
            if n in ("NEED", "RULE", "ASSUMPTIONS"):
                ns[n.lower()] = ast.literal_eval(node.value)
    return ns


if __name__ == "__main__":
    sys.exit(main())
