"""C15 learning from incomplete data: each row counts once, for the states it has observed."""
import numpy as np

from .. import gen
from ..core import Skip
from ..emref import loglik, refbn_of, step
from ..obs import snap_df, snap_model
from .c14 import watch

ID = "C15"
CASES = {"quick": 700, "thorough": 12000}
NEED = {"steps": 700, "monotone": 700, "scm": 100, "bn": 200, "target_partly_observed": 150, "parent_missing": 60, "complete_rows": 200,
        "empty_row": 20, "none_marker": 50, "pure_frequency": 20, "many_rows": 7, "other_data": 100}
RULE = ("Bayesian networks and structural causal models with data where each cell is missing independently, whole columns are missing, or whole "
        "rows are missing (NaN or None markers; numeric, boolean and text states); trained variables may be observed in some rows and not in "
        "others, as may their parents; every recorded transition is compared with the exact expected-count step in which each row contributes "
        "weight one to the states compatible with it. So is a further step on other data. With complete rows the learnt table must be the relative frequencies. Distinct = (model kind, sizes, missingness pattern, iterations).")
ASSUMPTIONS = ["every row is possible under the starting model", "columns with expected count 0 are not judged", "tolerance 1e-6"]


def case(ctx, rng, i):
    import pandas as pd
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    kinds = ["range", "str", "offset", "desc", "float", "bool", "strnum", "shufint"]
    if i % 3 == 0:
        scm = gen.random_scm(rng, (1, 3), (1, 2), 30, exo_hi=4, p_kinds=["pos", "dir"], kinds=kinds)
        spec = scm.bn()
        m = gen.scm_obj(rng, scm)
        prior = m.randomize_factors(m.exogenous, allow_zero=False)
        full = []
        for _ in range(int(rng.choice([2, 6, 20]))):
            full.append(gen.scm_point(rng, scm, [{}])[0])
        trainable = list(scm.exo)
        visible = list(scm.endo) + (list(scm.exo) if rng.random() < .4 else [])
        ctx.count("scm")
        kind = "scm"
    else:
        spec = gen.random_bn(rng, 1, 4, 150, cpt_kinds=["pos"], hi=3, kinds=kinds)
        m = gen.bn_obj(rng, spec, gen.VTYPES[rng.integers(4)] if rng.random() < .2 else None)
        prior = m
        full = [gen.bn_point(rng, spec) for _ in range(int(rng.choice([2, 6, 20])))]
        trainable = gen.choose(rng, spec.vars, kmin=1)
        visible = list(spec.vars)
        ctx.count("bn")
        kind = "bn"
    if i % 37 == 5:
        full = gen.long_rows(rng, full)
        ctx.count("many_rows")
    rate = float(rng.choice([0, .15, .4, .7])) if len(full) < 100 else float(rng.choice([0, .3]))
    rows, cells = [], []
    none = rng.random() < .3
    miss = None if none else float("nan")
    for r in full:
        if rng.random() < .08:
            obs = {}
        else:
            obs = {v: r[v] for v in visible if rng.random() >= rate}
        rows.append(obs)
        cells.append([obs.get(v, miss) for v in visible])
        ctx.count("empty_row", int(not obs)), ctx.count("complete_rows", int(len(obs) == len(visible)))
    df = pd.DataFrame(cells, columns=visible)
    if none:
        df = pd.DataFrame({v: pd.Series([c[k] for c in cells], dtype=object) for k, v in enumerate(visible)})
        ctx.count("none_marker")
    df = gen.other_columns(rng, gen.column_types(rng, df, ctx), ctx)
    ctx.note(kind=kind, doms=spec.doms, parents=spec.parents, trainable=trainable, rows=rows[:30], none=none, dtypes=str(dict(df.dtypes)))
    b0 = refbn_of(prior, spec)
    if not np.isfinite(loglik(b0, rows)):
        raise Skip("impossible data")
    anymiss = [v for v in spec.vars if any(v not in r for r in rows)]
    default = kind == "bn" and rng.random() < .25 and anymiss
    em = ExpectationMaximization(prior) if default else ExpectationMaximization(prior, trainable_vars=list(trainable))
    if default:
        trainable = anymiss
    snap, ds = snap_model(prior), snap_df(df)
    it = int(rng.choice([1, 2, 4]))
    with ctx.sut(f"EM on incomplete data, {it} iterations"):
        em.run(df, max_iter=it)
    ctx.check(snap_model(prior) == snap and snap_df(df) == ds, "learning changed the prior model or the data of the caller")
    ctx.check(set(em.trainable_vars) == set(trainable), f"trainable variables {em.trainable_vars} instead of {trainable}")
    watch(ctx, spec, em, rows, trainable, snap, f"{kind}, incomplete data", it)
    part = any(any(v in r for r in rows) and any(v not in r for r in rows) for v in trainable)
    pm = any(p not in r for v in trainable for p in spec.parents[v] for r in rows)
    ctx.count("target_partly_observed", int(part)), ctx.count("parent_missing", int(pm))
    ctx.seen(kind, len(spec.vars), len(trainable), rate, none, it, part, pm, len(rows))
    # complete data on a trained variable and its parents: relative frequencies
    for v in trainable:
        ax = spec.parents[v] + [v]
        if all(all(x in r for x in ax) for r in rows):
            b = refbn_of(em.model, spec)
            n = {}
            for r in rows:
                k = tuple(spec.doms[p].index(r[p]) for p in spec.parents[v])
                n.setdefault(k, np.zeros(len(spec.doms[v])))[spec.doms[v].index(r[v])] += 1
            for k, c in n.items():
                ctx.check(np.allclose(b.cpt[v][k], c / c.sum(), atol=1e-7), f"fully observed {v}: learnt {b.cpt[v][k]} instead of the frequencies {c / c.sum()}")
            ctx.count("pure_frequency")
    if rng.random() < .4:                        # a further step on other data of the same size, or of another
        ix = rng.integers(0, len(rows), len(rows) if rng.random() < .6 else int(rng.integers(1, len(rows) + 3)))
        rows2, df2 = [rows[k] for k in ix], df.iloc[ix].reset_index(drop=True)
        b = refbn_of(em.model, spec)
        if np.isfinite(loglik(b, rows2)):
            ctx.note(rows2=rows2[:30])
            with ctx.sut("a step on other data"):
                em.step(df2)
            t2 = [v for v in spec.vars if any(v not in r for r in rows2)] if default else trainable
            ctx.check(set(em.trainable_vars) == set(t2), f"trainable variables {em.trainable_vars} instead of {t2} after other data")
            b2 = refbn_of(em.model, spec)
            for v in t2:
                want, cnt = step(b, rows2, v)
                d = np.abs(b2.cpt[v] - want).max(axis=-1)
                ctx.check((d[cnt > 1e-9] < 1e-6).all(), f"a step on other data: table of {v} is {b2.cpt[v].ravel().tolist()[:12]}, the exact step gives {want.ravel().tolist()[:12]}")
            ctx.count("other_data")
    if i < 4:
        ctx.sample({"parents": spec.parents, "trainable": trainable, "rows": rows[:5], "iterations": it})
