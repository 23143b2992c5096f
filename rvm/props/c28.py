"""C28 seeded runs are reproducible, in this and in any other process; only random operations use randomness."""
import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np

from .. import gen
from ..core import REPO, VERIF, rng_for
from ..obs import snap_factor, table

ID = "C28"
CASES = {"quick": 320, "thorough": 8000}
NEED = {"repeats": 288, "cross_process": 144, "other_seed": 150, "with_queries_between": 120, "state_untouched": 800, "generator_state": 288, "kind:factors": 14, "kind:bn": 14, "kind:scm": 14,
        "kind:sample": 14, "kind:conditional": 14, "kind:em": 14, "kind:emcc": 14, "kind:aggregator": 15, "kind:gradient": 10, "kind:assignment": 15}
RULE = ("random programs over every operation that draws random numbers (random factors and equations, randomised networks and structural models, samples of factors, networks, structural models "
        "and conditional tables, random assignments, EM and gradient learning from random starts, engines and aggregators that learn several models in sequence). Each is run with a seed, run again with the same seed, run "
        "with queries (posterior, MAP-style tables, do, counterfactual, orderings) interleaved, run with another seed, and run by a helper process with another PYTHONHASHSEED; the results "
        "must agree exactly (1e-6 for learnt parameters), and differ for another seed. A monitor compares the state of numpy's and Python's generators before and after "
        "every query, ordering, factor operation and graph operation. Distinct = (kind, sizes, result form).")
ASSUMPTIONS = ["the whole program (including the construction of the models) is the same", "learning in threads is not judged", "learnt parameters agree up to 1e-6 (summation order)"]

gen.SETS = False
SIZES = [1, 6, 60, 300, 1100]
KINDS = ["factors", "bn", "scm", "sample", "conditional", "em", "emcc", "aggregator", "gradient", "assignment"]


def vals(f):
    t = table(f)
    o = sorted(t.vars)
    d = {v: t.doms[v] for v in o}
    return [o, [float(x) for x in t.aligned(d).ravel()]]


def plain(x):
    if isinstance(x, dict):
        return [[str(k), plain(v)] for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))]
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    return str(x)


def rows_of(df):
    return [[str(c) for c in df.columns], [plain(r) for r in df.itertuples(index=False, name=None)]]


def state():
    s = np.random.get_state()
    return hashlib.blake2b(repr((s[0], s[1].tolist(), s[2], s[3], s[4], random.getstate())).encode()).hexdigest()


class World:
    """everything a program needs, built without touching the global generators."""

    def __init__(self, kind, rng):
        self.kind = kind
        self.scm = gen.random_scm(rng, (1, 3), (1, 2), 25, exo_per_endo=1 if kind == "gradient" else None, exo_hi=4, p_kinds=["pos"], allow_exo_free=False)
        self.spec = gen.random_bn(rng, 2, 5, 300, cpt_kinds=["pos"], hi=3)
        self.m = gen.scm_obj(rng, self.scm, cast=True)
        self.bn = gen.bn_obj(rng, self.spec)
        self.vt = gen.VTYPES[rng.integers(4)]
        self.k = [int(x) for x in rng.integers(0, 1000, 12)]
        self.df = gen.endo_rows(rng, self.scm, [4, 10][self.k[0] % 2])

    def frame(self):
        import pandas as pd
        return pd.DataFrame(self.df)

    def program(self, between=lambda: None):
        """draws random numbers through the code under test; returns plain data."""
        from bcause.factors.mulitnomial import random_deterministic, random_multinomial
        from bcause.inference.causal.multi import EMCC
        from bcause.learning.aggregator.aggregator import SimpleModelAggregatorEM, SimpleModelAggregatorGD
        from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
        from bcause.learning.parameter.gradient import GradientLikelihood
        from bcause.models import BayesianNetwork
        from bcause.models.cmodel import StructuralCausalModel
        from bcause.util.domainutils import random_assignment
        k, out = self.k, []
        if self.kind == "factors":
            vs = self.spec.vars[:3]
            d = {v: self.spec.doms[v] for v in vs}
            for j in range(3):
                out.append(vals(random_multinomial(d, right_vars=vs[:k[1] % len(vs)], vtype=self.vt, allow_zero=bool(k[2] % 2))))
                between()
                out.append(vals(random_deterministic({v: d[v] for v in vs}, right_vars=vs[1:])))
        elif self.kind == "bn":
            m = BayesianNetwork(self.bn.graph)
            m.randomize_factors({v: list(d) for v, d in self.spec.doms.items()})
            between()
            out += [[v, vals(m.factors[v])] for v in self.spec.vars]
            out.append(rows_of(m.sample(3)))
        elif self.kind == "scm":
            m = StructuralCausalModel(self.m.graph)
            m.fill_random_factors({v: list(d) for v, d in self.scm.doms.items()})
            between()
            m2 = m.randomize_factors(m.exogenous, allow_zero=bool(k[1] % 2))
            between()
            out += [[v, vals(x.factors[v])] for x in (m, m2) for v in self.scm.doms]
        elif self.kind == "sample":
            out.append(rows_of(self.bn.sample(20)))
            between()
            out.append(rows_of(self.m.sample(20)))
            out.append(plain(self.m.sampleEndogenous(5, as_pandas=False)))
            between()
            out.append(plain(self.bn.sample(4, as_pandas=False)))
            n = SIZES[k[3] % len(SIZES)]
            out.append(rows_of(self.bn.sample(n)) if k[4] % 2 else plain(self.bn.sample(n, as_pandas=False)))
            between()
            out.append(plain(self.m.sampleEndogenous(SIZES[k[5] % len(SIZES)], as_pandas=bool(k[6] % 2)).values.tolist() if k[6] % 2 else self.m.sampleEndogenous(SIZES[k[5] % len(SIZES)], as_pandas=False)))
        elif self.kind == "conditional":
            v = self.spec.vars[-1]
            f = self.bn.factors[v]
            root = self.bn.factors[self.spec.vars[0]]
            out.append(plain(root.sample(10)))
            between()
            out.append(plain(root.sample(6, varnames=False)))
            out.append(plain(root.sample(SIZES[k[3] % len(SIZES)], varnames=bool(k[4] % 2))))
            pa = self.spec.parents[v]
            if pa:
                obs = [{p: self.spec.doms[p][(k[1] + j * k[2]) % len(self.spec.doms[p])] for p in pa} for j in range(12)]
                out.append(plain(f.sample_conditional(obs)))
                between()
                obs = [{p: self.spec.doms[p][(k[5] + j * k[6]) % len(self.spec.doms[p])] for p in pa} for j in range(SIZES[k[7] % len(SIZES)])]
                out.append(plain(f.sample_conditional(obs, varnames=bool(k[8] % 2))))
        elif self.kind == "assignment":
            d = {v: list(x) for v, x in self.spec.doms.items()}
            for j in range(6):
                out.append(plain(random_assignment(d)))
                between()
            out.append(plain(random_assignment(d, self.spec.vars[:1])))
        elif self.kind == "em":
            em = ExpectationMaximization(self.m.randomize_factors(self.m.exogenous, allow_zero=False), trainable_vars=list(self.m.exogenous))
            between()
            em.run(self.frame(), max_iter=1 + k[1] % 3)
            out += [[u, vals(em.model.factors[u])] for u in self.scm.exo]
        elif self.kind == "emcc":
            inf = EMCC(self.m, self.frame(), max_iter=1 + k[1] % 3, num_runs=1 + k[2] % 3, parallel=False)
            y = list(self.scm.endo)[-1]
            inf.compile() if k[3] % 2 else inf.causal_query(y, do={})
            between()
            out += [[u, vals(m.factors[u])] for m in inf.models for u in self.scm.exo]
        elif self.kind == "aggregator":
            agg = SimpleModelAggregatorEM(self.m, self.frame(), max_iter=1 + k[1] % 3, parallel=False)
            agg.run(1 + k[2] % 3)
            out += [[u, vals(m.factors[u])] for m in agg.models for u in self.scm.exo]
        elif self.kind == "gradient":
            gl = GradientLikelihood(self.m.randomize_factors(self.m.exogenous, allow_zero=False), tol=1e-4)
            between()
            gl.run(self.frame(), max_iter=3)
            out += [[u, vals(gl.model.factors[u])] for u in self.scm.exo]
        return plain(out)

    def run(self, seed, between=lambda: None):
        import bcause as bc
        bc.randomUtil.seed(seed)
        return self.program(between)

    def queries(self, rng):
        """operations that are not random."""
        from bcause.inference.causal.elimination import CausalVariableElimination
        from bcause.inference.ordering import Heuristic, min_fill_heuristic, min_size_heuristic, min_weight_heuristic
        from bcause.inference.probabilistic.elimination import VariableElimination
        from bcause.util import graphutils as gu
        bn, spec, scm = self.bn, self.spec, self.scm
        t = gen.choose(rng, spec.vars, 1)[0]
        p = gen.bn_point(rng, spec)
        ev = {v: p[v] for v in gen.choose(rng, [v for v in spec.vars if v != t], 1)}
        x, y = gen.pick_state(rng, list(scm.endo)), gen.pick_state(rng, list(scm.endo))
        do = {x: gen.pick_state(rng, scm.endo[x])} if x != y else {}
        f, g = bn.factors[t], bn.factors[spec.vars[0]]
        sz = {v: len(d) for v, d in spec.doms.items()}
        ops = {
            "posterior": lambda: VariableElimination(bn, heuristic=[Heuristic.MIN_SIZE, Heuristic.MIN_FILL, Heuristic.MIN_WEIGHT][rng.integers(3)]).query(t, evidence=ev),
            "ordering": lambda: (min_fill_heuristic(bn.graph, to_remove=list(spec.vars)), min_size_heuristic(bn.graph, to_remove=list(spec.vars)), min_weight_heuristic(bn.graph, to_remove=list(spec.vars), varsizes=sz)),
            "product": lambda: (f * g, f ** spec.vars[0], f ^ spec.vars[0]),
            "do": lambda: CausalVariableElimination(self.m).causal_query(y, do=do),
            "counterfactual": lambda: CausalVariableElimination(self.m).counterfactual_query(y, do),
            "graph": lambda: (gu.barren_nodes(bn.graph, [t]), gu.dcon_nodes(bn.graph, t, list(ev)), gu.markov_blanket(bn.graph, t)),
            "likelihood": lambda: self.m.log_likelihood(self.frame()),
            "copy": lambda: (bn.copy(), self.m.copy(), self.m.intervention(**do)),
        }
        return ops


def world(case, kind, seed):
    rng = rng_for(seed, ID + "/world", case)
    return World(kind, rng), rng


def close(a, b, tol):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= tol
    return type(a) == type(b) and a == b


def setup(ctx):
    h = str((int(os.environ.get("PYTHONHASHSEED", "0") or 0) * 7 + 12345) % 4294967295)
    env = dict(os.environ, PYTHONHASHSEED=h, PYTHONPATH=VERIF, RVM_REPO=REPO)
    ctx.helper = subprocess.Popen([sys.executable, "-c", "from rvm.props.c28 import serve; serve()"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
    ctx.hash_seeds = [os.environ.get("PYTHONHASHSEED"), h]


def finish(ctx):
    ctx.helper.stdin.close()
    ctx.helper.wait(timeout=30)


def serve():
    from ..core import prepare_import
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    prepare_import()
    for line in sys.stdin:
        q = json.loads(line)
        try:
            w, _ = world(q["case"], q["kind"], q["seed"])
            r = {"ok": w.run(q["s"])}
        except Exception as e:
            r = {"error": f"{type(e).__name__}: {e}"}
        out.write(json.dumps(r) + "\n")
        out.flush()


def case(ctx, rng, i):
    kind = KINDS[i % len(KINDS)]
    w, wr = world(i, kind, ctx.seed)
    s = int(rng.integers(0, 2 ** 31))
    tol = 1e-6 if kind in ("em", "emcc", "aggregator", "gradient") else 0
    ctx.note(kind=kind, seed=s, doms=w.spec.doms, parents=w.spec.parents, scm=w.scm.parents)
    with ctx.sut(f"program {kind}"):
        a = w.run(s)
        st = state()
    for _ in range(int(rng.integers(0, 5))):
        np.random.random(), random.random()
    with ctx.sut(f"program {kind} again"):
        b = w.run(s)
        st2 = state()
    ctx.check(close(a, b, tol), f"{kind}: two runs with seed {s} differ", first=str(a)[:1200], second=str(b)[:1200])
    ctx.check(st == st2, f"{kind}: two runs with seed {s} leave the generators in different states")
    ctx.count("repeats"), ctx.count("generator_state"), ctx.count(f"kind:{kind}")
    ops = w.queries(rng)

    def between():
        name = gen.pick_state(rng, list(ops))
        before = state()
        with ctx.sut(f"{name} between random operations"):
            ops[name]()
        ctx.check(state() == before, f"{name} changed the state of the random number generators")
        ctx.count("state_untouched"), ctx.count(f"op:{name}")

    for name in gen.choose(rng, list(ops), 3):
        before = state()
        with ctx.sut(name):
            ops[name]()
        ctx.check(state() == before, f"{name} changed the state of the random number generators")
        ctx.count("state_untouched"), ctx.count(f"op:{name}")
    with ctx.sut(f"program {kind} with queries in between"):
        c = w.run(s, between)
    ctx.check(close(a, c, tol), f"{kind}: queries between the random operations change the result for seed {s}", first=str(a)[:1200], second=str(c)[:1200])
    ctx.check(state() == st, f"{kind}: queries between the random operations change the final state of the generators")
    ctx.count("repeats"), ctx.count("generator_state"), ctx.count("with_queries_between")
    with ctx.sut(f"program {kind} with another seed"):
        d = w.run(s + 1)
    ctx.check(state() != st, f"{kind}: another seed gives the same state of the generators")
    if kind in ("factors", "bn", "scm"):
        if any(len(x) > 1 for x in w.scm.exo.values()) and any(len(w.spec.doms[v]) > 1 for v in w.spec.vars[:1]):
            ctx.check(not close(a, d, 0), f"{kind}: seeds {s} and {s + 1} give the same random model")
    ctx.count("other_seed")
    # the same program in another process with another order of hashing
    try:
        ctx.helper.stdin.write(json.dumps({"case": i, "kind": kind, "seed": ctx.seed, "s": s}) + "\n")
        ctx.helper.stdin.flush()
        line = ctx.helper.stdout.readline()
        if not line:
            raise BrokenPipeError
    except (BrokenPipeError, OSError):
        setup(ctx)
        ctx.count("helper_restarted")
        line = None
    if line:
        r = json.loads(line)
        ctx.check("ok" in r, f"{kind}: the same program fails in another process: {r.get('error')}")
        ctx.check(close(a, r["ok"], tol), f"{kind}: another process (PYTHONHASHSEED {ctx.hash_seeds[1]} instead of {ctx.hash_seeds[0]}) gives another result for seed {s}",
                  first=str(a)[:1200], second=str(r["ok"])[:1200])
        ctx.count("cross_process")
    ctx.seen(kind, len(w.spec.vars), len(w.scm.endo), len(w.scm.exo), len(str(a)) // 200, w.vt)
    if i < 3:
        ctx.sample({"kind": kind, "seed": s, "result": str(a)[:300], "hash seeds": ctx.hash_seeds})
