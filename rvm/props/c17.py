"""C17 learning several models from data (EMCC / GDCC / aggregators), sequential and threaded."""
import sys
import threading
import time

import numpy as np

from .. import gen
from ..core import Skip, Violation
from ..emref import loglik, refbn_of, step
from ..obs import expect, snap_df, snap_factor, snap_model, table
from .c16 import bounds
from ..ref import T

ID = "C17"
CASES = {"quick": 170, "thorough": 4000}
NEED = {"engines": 76, "models": 275, "parallel": 33, "sequential": 28, "incremental": 13, "aggregator": 20, "gd": 10, "envelope": 100,
        "interleavings": 21, "fixed_point_fit": 100, "distinct_starts": 60, "many_rows": 7, "run_again": 10}
RULE = ("random structural models (canonical, compatible or not with the data) and data on the endogenous variables; engines that learn 1-12 models, in "
        "sequence, in threads (interpreter switch interval of 1 microsecond and injected random delays in every factor lookup so that the "
        "learners interleave) and incrementally; exactly the requested number of models, each with the equations of the input and valid "
        "exogenous distributions whose likelihood is not below its own random start, each the final model of one recorded learner whose last "
        "transition is the exact EM step; different starts differ; queries give the envelope over those models; inputs unchanged. "
        "Distinct = (engine, mode, number of models, iterations, order in which the threads finished).")
ASSUMPTIONS = ["data compatible with the equations", "tolerance 1e-6"]


class Interleave:
    """random short sleeps in the threads of the workload: reach through schedules."""
    def __init__(self, rng):
        self.r = np.random.default_rng(int(rng.integers(2 ** 31)))
        self.trace = []

    def __enter__(self):
        from bcause.inference.probabilistic.elimination import VariableElimination
        self.cls, self.orig = VariableElimination, VariableElimination.query
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        me = self

        def query(slf, *a, **k):
            me.trace.append(threading.get_ident())
            if me.r.random() < .3:
                time.sleep(float(me.r.random()) * 1e-4)
            return me.orig(slf, *a, **k)

        VariableElimination.query = query
        return self

    def __exit__(self, *a):
        self.cls.query = self.orig
        sys.setswitchinterval(self.old)
        self.switches = sum(x != y for x, y in zip(self.trace, self.trace[1:]))


def judge_models(ctx, scm, models, learners, rows, n, prior, gd):
    spec = scm.bn()
    ctx.check(len(models) == n, f"{len(models)} models learnt, {n} requested")
    used = set()
    starts = set()
    for k, m in enumerate(models):
        ctx.check(set(m.variables) == set(spec.vars) and set(m.endogenous) == set(scm.endo), f"model {k}: variables")
        b = refbn_of(m, spec)
        for v in scm.endo:
            ctx.check(np.array_equal(b.cpt[v], spec.cpt[v]), f"model {k}: the equation of {v} changed")
        for u in scm.exo:
            p = b.cpt[u]
            ctx.check((p >= -1e-9).all() and abs(p.sum() - 1) < 1e-6, f"model {k}: P({u}) = {p.tolist()}")
        ll = loglik(b, rows)
        ctx.check(np.isfinite(ll), f"model {k} gives probability 0 to the data")
        if learners:
            hit = [j for j, l in enumerate(learners) if l.model is m] or [j for j, l in enumerate(learners) if j not in used and snap_model(l.model) == snap_model(m)]
            ctx.check(bool(hit), f"model {k} is not the result of a recorded learner")
            used.add(hit[0])
            l = learners[hit[0]]
            b0 = refbn_of(l.model_evolution[0], spec)
            for u in scm.exo:
                ctx.check((b0.cpt[u] > 0).all() and abs(b0.cpt[u].sum() - 1) < 1e-9, f"start of model {k}: P({u}) = {b0.cpt[u].tolist()}")
            starts.add(tuple(np.round(np.concatenate([b0.cpt[u] for u in scm.exo]), 12)))
            l0 = loglik(b0, rows)
            ctx.check(ll >= l0 - (1e-3 if gd else 1e-7) * max(1, abs(l0)), f"model {k}: likelihood {ll} below its start {l0}")
            if not gd and len(l.model_evolution) >= 2:
                prev = refbn_of(l.model_evolution[-2], spec)
                for u in scm.exo:
                    want, _ = step(prev, rows, u)
                    same = np.abs(b.cpt[u] - prev.cpt[u]).max() < 1e-7
                    ctx.check(same or np.abs(b.cpt[u] - want).max() < 1e-6, f"model {k}: the last update of {u} is not the EM step: {b.cpt[u].tolist()} instead of {want.tolist()}")
                ctx.count("fixed_point_fit")
        ctx.count("models")
    if learners:
        ctx.check(len(learners) == len({id(l) for l in learners}) and len({id(m) for m in models}) == len(models), "the same learner or model is listed twice")
        if n > 1:
            ctx.check(len(starts) == n, f"{n} learners but {len(starts)} distinct random starts")
            ctx.count("distinct_starts")


def case(ctx, rng, i):
    import pandas as pd
    from bcause.inference.causal.multi import EMCC, GDCC
    from bcause.learning.aggregator.aggregator import SimpleModelAggregatorEM, SimpleModelAggregatorGD
    gd = i % 7 == 5
    scm = gen.random_scm(rng, (1, 3), (1, 2), 25, exo_per_endo=1 if gd else None, exo_hi=5, p_kinds=["pos", "dir"], allow_exo_free=False)
    m = gen.scm_obj(rng, scm, cast=True)
    rows = gen.endo_rows(rng, scm, int(rng.choice([3, 10, 40])))
    many = i % 9 == 4 and not gd
    if many:                                                     # long data whose later rows differ from the first ones
        k = int(rng.integers(1000, 1400))
        tail = [r for r in gen.endo_rows(rng, scm, 60) if r != rows[0]][:int(rng.integers(1, 30))] or rows[:1]
        rows = [rows[0]] * k + tail * int(rng.integers(1, 30))
        ctx.count("many_rows")
    df = gen.other_columns(rng, gen.column_types(rng, pd.DataFrame(rows), ctx, .15), ctx, .1)
    n = int(rng.choice([1, 2, 3, 5])) if i % 25 else 12
    it = int(rng.choice([1, 2, 4]))
    par = rng.random() < .55
    ctx.note(doms=scm.doms, parents=scm.parents, eq={v: a.tolist() for v, a in scm.eq.items()}, rows=rows[:12], n=n, it=it, parallel=par, gd=gd)
    snap, ds = snap_model(m), snap_df(df)
    mode = ["engine", "engine", "incremental", "aggregator"][rng.integers(4)] if not gd else ["engine", "aggregator"][rng.integers(2)]
    learners, inf = [], None
    with Interleave(rng) as il:
        with ctx.sut(f"{mode} with {n} models, parallel={par}, gradient={gd}"):
            if mode == "aggregator":
                agg = SimpleModelAggregatorGD(m, df, tol=1e-4, max_iter=50, parallel=par) if gd else SimpleModelAggregatorEM(m, df, max_iter=it, parallel=par)
                agg.run(n)
                models, learners = agg.models, agg.learn_objects
                for _ in range(int(rng.integers(0, 3))):                   # asked again: more models, the earlier ones stay
                    k, held = int(rng.integers(1, 4)), list(models)
                    agg.run(k)
                    n += k
                    models, learners = agg.models, agg.learn_objects
                    ctx.check(len(models) == n and all(a is b for a, b in zip(models, held)), f"{len(models)} models after {n - k} and {k} more were requested")
                    ctx.count("run_again")
                ctx.rejects("no models requested", lambda: agg.generate(0))
                ctx.count("aggregator")
            elif mode == "incremental":
                inf = EMCC(m, df, max_iter=it, num_runs=n, parallel=par)
                sr = int(rng.choice([1, 1, 2]))
                n = -(-n // sr) * sr
                k = 0
                for k, x in enumerate(inf.compile_incremental(step_runs=sr), 1):
                    ctx.check(len(inf.models) == k * sr, f"{len(inf.models)} models after {k} increments of {sr}")
                ctx.check(k * sr == n, f"{k} increments of {sr} for {n} models")
                models = inf.models
                ctx.count("incremental")
            else:
                inf = GDCC(m, df, num_runs=n, tol=1e-4, max_iter=50, parallel=par) if gd else EMCC(m, df, max_iter=it, num_runs=n, parallel=par)
                inf.compile() if rng.random() < .5 else inf.causal_query(list(scm.endo)[0], do={})
                models, learners = inf.models, inf._agg.learn_objects if getattr(inf, "_agg", None) is not None else []
            ctx.count("engines")
    judge_models(ctx, scm, models, learners, rows, n, m, gd)
    ctx.check(snap_model(m) == snap, "learning changed the model it was given")
    ctx.check(snap_df(df) == ds, "learning changed the data of the caller")
    ctx.count("parallel" if par else "sequential"), ctx.count("gd", int(gd))
    order = ()
    if par and n > 1 and learners:
        order = tuple(([id(x) for x in models] + [id(l.model)]).index(id(l.model)) for l in learners)
    ctx.count("interleavings", int(il.switches > 0 and par))
    ctx.seen(mode, par, n, it, gd, order)
    if inf is not None:
        spec = scm.bn()
        endo = list(scm.endo)
        refs = [scm.with_pu({u: np.clip(refbn_of(x, spec).cpt[u], 0, None) for u in scm.exo}) for x in inf.models]
        held = [id(x) for x in inf.models]
        for _ in range(2):
            x, y = gen.pick_state(rng, endo), gen.pick_state(rng, endo)
            cf = rng.random() < .5
            do = {x: gen.pick_state(rng, scm.endo[x])} if x != y else {}
            with ctx.sut("query on learnt models"):
                p = inf.counterfactual_query(y, do) if cf else inf.causal_query(y, do)
            lab = f"{y}_1" if cf else y
            st = np.array([s.query([(lab, y, 0)], [do])[0].a for s in refs])
            lo, up = bounds(p)
            d = {lab: scm.endo[y]}
            expect(ctx, lo, T(d, st.min(axis=0)), f"lower bound over {n} learnt models", tol=1e-5 if gd else 1e-7)
            expect(ctx, up, T(d, st.max(axis=0)), f"upper bound over {n} learnt models", tol=1e-5 if gd else 1e-7)
            ctx.count("envelope")
            ctx.check([id(z) for z in inf.models] == held, "a query replaced the learnt models")
    if i < 3:
        ctx.sample({"mode": mode, "parallel": par, "models": n, "switches": il.switches, "gd": gd})
