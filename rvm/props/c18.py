"""C18 gradient learning of the exogenous distributions."""
import numpy as np

from .. import gen
from ..core import Skip
from ..emref import loglik, refbn_of, step
from ..obs import snap_df, snap_factor, snap_model
from ..ref import RefBN, RefSCM

ID = "C18"
CASES = {"quick": 260, "thorough": 8000}
NEED = {"runs": 105, "valid_pmf": 200, "not_worse": 105, "near_optimum": 55, "untouched": 105, "trainable_given": 50, "rejected": 20, "shared_exogenous": 60, "iteration_limit": 20, "many_rows": 6, "determined": 40, "determined_rare": 15}
RULE = ("random quasi-Markovian structural causal models (each endogenous variable has one exogenous parent, possibly shared), data of 1-100 rows "
        "drawn from them, random positive starting points, several tolerances and iteration limits; each learnt exogenous table must be a distribution, "
        "everything else identical to the input, the data likelihood not below the start and (without iteration limit) within a small gap of the maximum "
        "found by an independent EM run to convergence; where the data determine the distribution it must be found, rare and unseen states included (with the default tolerance 1e-8). Distinct = (sizes, components, rows, distinct rows, trained variables).")
ASSUMPTIONS = ["data possible under the equations", "optimum gap below 1e-2 per row + 1e-2 unless the solver itself, run on an independent likelihood from the same starts, falls short too", "distributions sum to one within 1e-6 or twice the tolerance asked for", "falling short of the optimum only counts when it happens repeatedly"]
GAP = []


def optimum(spec, bn, rows, train):
    """maximum likelihood by plain EM from the uniform start (the problem is concave per component)."""
    cpt = dict(bn.cpt)
    for u in train:
        cpt[u] = np.ones(len(spec.doms[u])) / len(spec.doms[u])
    b = RefBN(spec.doms, spec.parents, cpt)
    last = -np.inf
    for k in range(150):
        new = dict(b.cpt)
        for u in train:
            new[u] = step(b, rows, u)[0]
        b = RefBN(spec.doms, spec.parents, new)
        ll = loglik(b, rows)
        if ll - last < 1e-7:
            break
        last = ll
    return ll


def slsqp(spec, b, rows, train):
    """what the same solver reaches on the likelihood computed here (all trained variables, one at a time)."""
    from scipy.optimize import minimize
    cpt = dict(b.cpt)
    for u in train:
        def nll(p):
            v = loglik(RefBN(spec.doms, spec.parents, {**b.cpt, u: np.clip(p, 0, None)}), rows)
            return np.inf if not np.isfinite(v) else -v
        cpt[u] = minimize(nll, b.cpt[u], constraints={"type": "eq", "fun": lambda p: p.sum() - 1}, bounds=[(0, 1)] * len(b.cpt[u]), tol=1e-8).x
    return loglik(RefBN(spec.doms, spec.parents, cpt), rows)


def really_short(m, spec, df, rows, train, b0, best, n=5):
    """the solver may give up near the border of the simplex; a learner that is wrong falls short from starts from which the solver itself does not."""
    from bcause.learning.parameter.gradient import GradientLikelihood
    near = 1e-2 * len(rows) + 1e-2
    bad = int(best - slsqp(spec, b0, rows, train) <= near)
    for _ in range(n):
        prior = m.randomize_factors(m.exogenous, allow_zero=False)
        gl = GradientLikelihood(prior, trainable_vars=list(train))
        gl.run(df)
        b0 = refbn_of(prior, spec)
        opt = optimum(spec, b0, rows, train) if len(train) < len(m.exogenous) else best
        bad += opt - loglik(refbn_of(gl.model, spec), rows) > near and opt - slsqp(spec, b0, rows, train) <= near
    return bad >= 2


def determined(ctx, rng):
    """one cause per state of the observed variable: the data determine the distribution, down to states that are rare or never seen."""
    import pandas as pd
    from bcause.learning.parameter.gradient import GradientLikelihood
    n, total = int(rng.integers(2, 6)), int(rng.choice([20, 200, 1000]))
    x, u = gen.names(rng, 2)
    endo, exo = {x: gen.states(rng, x, n)}, {u: gen.states(rng, u, n)}
    c = rng.multinomial(total, rng.dirichlet(np.full(n, .5)))
    perm = rng.permutation(n)
    scm = RefSCM(exo, {u: gen.simplex(rng, n, "pos")}, endo, {x: [u]}, {x: perm})
    m = gen.scm_obj(rng, scm)
    df = pd.DataFrame({x: pd.Series([endo[x][int(k)] for k in rng.permutation(np.repeat(perm, c))])})
    ctx.note(doms=scm.doms, perm=perm.tolist(), counts=c.tolist(), what="determined")
    off = []
    for _ in range(5):
        with ctx.sut("gradient learning of a determined distribution"):
            gl = GradientLikelihood(m.randomize_factors([u], allow_zero=False))
            gl.run(df)
        p = refbn_of(gl.model, scm.bn()).cpt[u]
        off.append(float(np.abs(p - c / total).max()))
        if off[-1] < 1e-3:
            break
    ctx.count("determined"), ctx.count("determined_rare", int(((c < .004 * total)).any())), ctx.count("restarts", len(off) - 1)
    if min(off) >= 1e-3:                    # the solver gives up in about 1 of 50 runs; five in a row are not bad luck, twice less so
        ctx.count("determined_missed")
        ctx.check(ctx.counts["determined_missed"] < (1 if ctx.single else 2), f"learnt P({u}) = {p.tolist()} and the like from {len(off)} starts, the data determine {(c / total).tolist()}")


def case(ctx, rng, i):
    if i % 3 == 0:
        determined(ctx, rng)
    import pandas as pd
    from bcause.learning.parameter.gradient import GradientLikelihood
    scm = gen.random_scm(rng, (1, 3), (1, 3), 40, exo_per_endo=1, exo_hi=5, p_kinds=["pos", "dir", "grid"])
    spec = scm.bn()
    m = gen.scm_obj(rng, scm, gen.VTYPES[rng.integers(4)] if rng.random() < .15 else None)
    rows = gen.endo_rows(rng, scm, int(rng.choice([1, 5, 20, 100])))
    if i % 17 == 3:
        rows = gen.long_rows(rng, rows)
        ctx.count("many_rows")
    df = gen.other_columns(rng, gen.column_types(rng, pd.DataFrame(rows), ctx, .15), ctx, .1)
    if rng.random() < .4:
        df = df[gen.choose(rng, list(df.columns), len(df.columns))]
    with ctx.sut("randomising the starting point"):
        prior = m.randomize_factors(m.exogenous, allow_zero=False)
    ctx.note(doms=scm.doms, parents=scm.parents, eq={v: a.tolist() for v, a in scm.eq.items()}, rows=rows[:20], n=len(rows))
    b0 = refbn_of(prior, spec)
    l0 = loglik(b0, rows)
    if not np.isfinite(l0):
        raise Skip("impossible data")
    used = [u for u in scm.exo if any(u in scm.parents[v] for v in scm.endo)]
    train = list(scm.exo)
    kw = {}
    if rng.random() < .4:
        train = gen.choose(rng, list(scm.exo), kmin=1)
        kw["trainable_vars"] = list(train)
        ctx.count("trainable_given")
    tol = float(rng.choice([1e-4, 1e-6, 1e-8, 1e-8, 1e-8]))
    lim = int(rng.choice([1, 3])) if rng.random() < .2 else None
    gl = GradientLikelihood(prior, **({} if tol <= 1e-8 and rng.random() < .6 else {"tol": tol}), **kw)
    snap, ds = snap_model(prior), snap_df(df)
    with ctx.sut("gradient learning"):
        gl.run(df, max_iter=lim) if lim else gl.run(df)
    ctx.check(snap_model(prior) == snap and snap_df(df) == ds, "learning changed the prior model or the data of the caller")
    ev = gl.model_evolution
    ctx.check(snap_model(ev[0]) == snap and snap_model(ev[-1]) == snap_model(gl.model), "the recorded models are not prior ... result")
    b1 = refbn_of(gl.model, spec)
    for v in spec.vars:
        if v not in train:
            ctx.check(snap_factor(gl.model.factors[v]) == snap_factor(prior.factors[v]), f"the table of {v}, which is not trainable, changed")
        else:
            p = b1.cpt[v]
            ctx.check((p >= -1e-9).all() and (p <= 1 + 1e-6).all() and abs(p.sum() - 1) < max(1e-6, 2 * tol), f"learnt P({v}) = {p.tolist()} is not a distribution")
            ctx.check(set(gl.model.factors[v].left_vars) == {v} and not gl.model.factors[v].right_vars, f"learnt factor {gl.model.factors[v].name}")
            ctx.count("valid_pmf")
    ctx.count("untouched")
    l1 = loglik(b1, rows)
    ctx.check(l1 >= l0 - 1e-3 - 1e-4 * abs(l0), f"log-likelihood went from {l0} to {l1}")
    ctx.count("not_worse"), ctx.count("runs"), ctx.count("iteration_limit", int(lim is not None))
    if lim is None and tol <= 1e-8:                        # looser tolerances may stop anywhere on the way up (SLSQP near the border of the simplex)
        best = optimum(spec, b0, rows, train)
        gap = best - l1
        ctx.observed["max_gap_per_row"] = [max(ctx.observed.get("max_gap_per_row", [0])[0], round(float(gap / len(rows)), 6))]
        ctx.observed["max_gap"] = [max(ctx.observed.get("max_gap", [0])[0], round(float(gap), 6))]
        if gap > 1e-2 * len(rows) + 1e-2:
            ctx.count("short_of_optimum")
            if really_short(m, spec, df, rows, train, b0, best):
                ctx.count("short_although_the_solver_is_not")
            # (now and then the solver stops early on one data set and not with the last bits changed: about 1 case in 1000)
            bad, lot = ctx.counts.get("short_although_the_solver_is_not", 0), ctx.counts.get("near_optimum", 0)
            ctx.check(bad < (1 if ctx.single else max(2, .03 * lot)), f"log-likelihood {l1} although {best} is reachable ({len(rows)} rows) and the solver reaches it")
        ctx.count("near_optimum")
    ctx.count("shared_exogenous", int(any(sum(u in scm.parents[v] for v in scm.endo) > 1 for u in scm.exo)))
    ctx.seen(len(scm.endo), len(scm.exo), len(rows), len({tuple(r.values()) for r in rows}), len(train), lim)
    if rng.random() < .2:
        v = list(scm.endo)[0]
        ctx.rejects("training an endogenous variable", lambda: GradientLikelihood(prior, trainable_vars=[v]).run(df))
        u = used[0]
        full = df.assign(**{u: [scm.exo[u][0]] * len(df)})
        ctx.rejects("training an observed variable", lambda: GradientLikelihood(prior, trainable_vars=[u]).run(full))
        ctx.count("rejected")
    if i < 3:
        ctx.sample({"parents": scm.parents, "rows": len(rows), "start": l0, "learnt": l1})
