"""C14 expectation-maximisation on completely hidden variables: every step is the exact EM step, likelihood never decreases."""
import numpy as np

from .. import gen
from ..core import Skip
from ..emref import expected_counts, loglik, refbn_of, step
from ..obs import snap_df, snap_factor, snap_model, table

ID = "C14"
CASES = {"quick": 420, "thorough": 12000}
NEED = {"steps": 900, "monotone": 900, "untouched": 900, "scm_exogenous": 141, "bn_hidden": 47, "trainable_given": 100, "trainable_default": 60,
        "converged": 10, "manual_steps": 40, "subset_trainable": 29, "many_rows": 6}
RULE = ("structural causal models (quasi-Markovian and not) with data on the endogenous variables, and Bayesian networks with hidden "
        "variables (roots and inner nodes); random starting points, 1-60 rows, several iterations; every recorded transition of the learner "
        "is checked: the new table of each trained variable must be the normalised exact expected counts under the previous model, all other tables identical, "
        "the likelihood of the data must not decrease, the first recorded model is the prior and the last one the result. Distinct = (kind of model, sizes, "
        "hidden variables, iterations, distinct rows).")
ASSUMPTIONS = ["every row has positive probability under the starting model", "a variable whose table stopped changing (difference below 1e-7) may be frozen",
               "columns whose parents' configuration has expected count 0 are not judged", "tolerance 1e-6"]


def watch(ctx, spec, em, rows, trainable, prior_snap, what, nsteps=None, manual=False):
    """offline check of the recorded trace of models."""
    ev = em.model_evolution
    ctx.check(len(ev) >= 2, f"{what}: {len(ev)} recorded models")
    ctx.check(snap_model(ev[0]) == prior_snap, f"{what}: the first recorded model is not the prior")
    ctx.check(snap_model(em.model) == snap_model(ev[-1]), f"{what}: the result is not the last recorded model")
    if nsteps is not None:
        ctx.check(len(ev) - 1 <= nsteps, f"{what}: {len(ev) - 1} steps recorded for at most {nsteps} iterations")
    bns = [refbn_of(m, spec) for m in ev]
    lls = [loglik(b, rows) for b in bns]
    frozen = set()
    for k in range(1, len(ev)):
        a, b = bns[k - 1], bns[k]
        ctx.check(np.isfinite(lls[k]), f"{what}: after step {k} a row has probability 0")
        ctx.check(lls[k] >= lls[k - 1] - 1e-7 * max(1, abs(lls[k - 1])), f"{what}: log-likelihood decreased from {lls[k - 1]} to {lls[k]} in step {k}", lls=lls)
        ctx.count("monotone")
        for v in spec.vars:
            if v not in trainable:
                ctx.check(snap_factor(ev[k].factors[v]) == snap_factor(ev[0].factors[v]), f"{what}: the table of {v}, which is not trainable, changed in step {k}")
                continue
            want, cnt = step(a, rows, v)
            ok = cnt > 1e-9
            d = np.abs(b.cpt[v] - want).max(axis=-1)
            good = (d[ok] < 1e-6).all()
            if not good and v in frozen:                     # converged earlier: may stay as it is
                good = np.abs(b.cpt[v] - a.cpt[v]).max() < 1e-12
            ctx.check(good, f"{what}: step {k}: table of {v} is {b.cpt[v].ravel().tolist()[:12]}, the exact step gives {want.ravel().tolist()[:12]}", parents=spec.parents[v])
            if np.abs(b.cpt[v] - a.cpt[v]).max() < 1e-7:
                frozen.add(v)
            f = ev[k].factors[v]
            ctx.check(set(f.left_vars) == {v} and set(f.right_vars) == set(spec.parents[v]), f"{what}: learnt factor of {v} is {f.name}")
        ctx.count("untouched"), ctx.count("steps")
    if nsteps is not None and not manual and len(ev) - 1 < nsteps:
        ctx.check(frozen == set(trainable), f"{what}: stopped after {len(ev) - 1} of {nsteps} iterations although {sorted(set(trainable) - frozen)} still change")
        ctx.count("stopped_early")
    if manual:
        ctx.check(len(ev) - 1 == nsteps, f"{what}: {len(ev) - 1} models recorded for {nsteps} steps")
    if frozen == set(trainable):
        ctx.count("converged")
    return lls


def case(ctx, rng, i):
    import pandas as pd
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    if i % 4 == 3:
        spec = gen.random_bn(rng, 2, 5, 250, cpt_kinds=["pos", "pos", "dir"], hi=3)
        hidden = gen.choose(rng, spec.vars, int(rng.integers(1, min(2, len(spec.vars) - 1) + 1)))
        m = gen.bn_obj(rng, spec, gen.VTYPES[rng.integers(4)] if rng.random() < .2 else None)
        prior = m
        full = [gen.bn_point(rng, spec) for _ in range(int(rng.choice([1, 4, 15, 40])))]
        rows = [{v: s for v, s in r.items() if v not in hidden} for r in full]
        kind = "bn"
        ctx.count("bn_hidden")
    else:
        scm = gen.random_scm(rng, (1, 3), (1, 3), 40, exo_per_endo=1 if rng.random() < .5 else None, exo_hi=5, p_kinds=["pos", "dir", "grid"])
        spec = scm.bn()
        m = gen.scm_obj(rng, scm, gen.VTYPES[rng.integers(4)] if rng.random() < .15 else None)
        hidden = list(scm.exo)
        rows = gen.endo_rows(rng, scm, int(rng.choice([1, 4, 15, 60])))
        with ctx.sut("randomising the starting point"):
            prior = m.randomize_factors(m.exogenous, allow_zero=False)
        kind = "scm"
        ctx.count("scm_exogenous")
    if i % 29 == 7:
        rows = gen.long_rows(rng, rows)
        ctx.count("many_rows")
    df = pd.DataFrame(rows, columns=[v for v in spec.vars if v not in hidden])
    df = gen.other_columns(rng, gen.column_types(rng, df, ctx), ctx)
    if rng.random() < .3:
        df = df[gen.choose(rng, list(df.columns), len(df.columns))]
    if rng.random() < .15 and kind == "scm":                  # the hidden columns may also be there, empty
        for u in hidden:
            df[u] = float("nan")
    ctx.note(kind=kind, doms=spec.doms, parents=spec.parents, hidden=hidden, rows=rows[:25], n=len(rows))
    b0 = refbn_of(prior, spec)
    if not np.isfinite(loglik(b0, rows)):
        raise Skip("impossible data")
    trainable = list(hidden)
    k = rng.integers(3)
    if k == 0:
        em = ExpectationMaximization(prior)
        ctx.count("trainable_default")
    else:
        if k == 2 and len(hidden) > 1:
            trainable = gen.choose(rng, hidden, 1)
            ctx.count("subset_trainable")
        em = ExpectationMaximization(prior, trainable_vars=list(trainable))
        ctx.count("trainable_given")
    snap, ds = snap_model(prior), snap_df(df)
    it = int(rng.choice([1, 2, 4, 8])) if i % 12 != 0 else 60
    with ctx.sut(f"EM with at most {it} iterations"):
        manual = rng.random() < .2
        if manual:
            em.initialize(df)
            for _ in range(it):
                em.step()
            ctx.count("manual_steps")
        else:
            em.run(df, max_iter=it)
    ctx.check(snap_model(prior) == snap, "learning changed the prior model")
    ctx.check(snap_df(df) == ds, "learning changed the data of the caller")
    ctx.check(set(em.trainable_vars) == set(trainable), f"trainable variables {em.trainable_vars} instead of {trainable}")
    lls = watch(ctx, spec, em, rows, trainable, snap, kind, it, manual)
    ctx.seen(kind, len(spec.vars), len(hidden), it, len(em.model_evolution), len({tuple(map(str, r.values())) for r in rows}))
    if i < 4:
        ctx.sample({"parents": spec.parents, "hidden": hidden, "rows": len(rows), "log-likelihoods": lls[:10]})
