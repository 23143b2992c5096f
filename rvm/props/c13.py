"""C13 probability and likelihood of data."""
import math

import numpy as np

from .. import gen
from ..core import Skip
from ..obs import snap_model, snap_df, table

ID = "C13"
CASES = {"quick": 1100, "thorough": 35000}
NEED = {"loglik": 330, "max_loglik": 330, "upper_bound": 330, "bn_prob": 164, "bn_log_prob": 200, "by_component": 200, "duplicates": 300,
        "column_order": 159, "index_shuffled": 85, "empirical_reached": 30, "many_rows": 10, "mixed_order": 120, "after_change": 200}
RULE = ("random structural causal models and data sets drawn from them (1-200 rows, repeated rows, permuted columns, shuffled index, extra "
        "columns); the log-likelihood is compared with the sum of log probabilities of the rows under the exact observational distribution, "
        "the maximum log-likelihood with the empirical q-factorisation, and the first must never exceed the second for any exogenous "
        "distributions; restricted to a c-component it must be the likelihood of that component; prob/log_prob of networks are compared "
        "row by row. Distinct = (sizes, components, rows, distinct rows).")
ASSUMPTIONS = ["rows have positive probability under the model (impossible rows raise)", "tolerance 1e-7 relative"]


def emp_max(rows, g, vars_):
    tot = 0.0
    for v in vars_:
        pre = list(g.predecessors(v))
        n, k = {}, {}
        for r in rows:
            a = tuple(r[x] for x in pre)
            n[a] = n.get(a, 0) + 1
            k[a + (r[v],)] = k.get(a + (r[v],), 0) + 1
        for r in rows:
            a = tuple(r[x] for x in pre)
            tot += math.log(k[a + (r[v],)] / n[a])
    return tot


def close(a, b):
    return abs(float(a) - b) <= 1e-7 * max(1.0, abs(b))


def case(ctx, rng, i):
    import pandas as pd
    if i % 3 == 2:
        return network(ctx, rng, i)
    scm = gen.random_scm(rng, (1, 4), (1, 3), 60, p_kinds=["dir", "pos", "grid", "sparse", "unif"], exo_hi=5)
    m = gen.scm_obj(rng, scm, cast=True)
    before = snap_model(m)
    ctx.note(doms=scm.doms, parents=scm.parents, eq={v: a.tolist() for v, a in scm.eq.items()}, pu={u: p.tolist() for u, p in scm.pu.items()})
    n = int(rng.choice([1, 2, 5, 12, 40, 200]))
    rows = gen.endo_rows(rng, scm, n)
    if i % 29 == 4:
        rows = gen.long_rows(rng, rows)
        n = len(rows)
        ctx.count("many_rows")
    df = gen.other_columns(rng, gen.column_types(rng, pd.DataFrame(rows), ctx), ctx)
    if rng.random() < .5:
        df = df[gen.choose(rng, list(df.columns), len(df.columns))]
        ctx.count("column_order")
    if rng.random() < .3:
        p = rng.permutation(n)
        df = df.iloc[p]
        ctx.count("index_shuffled")
    if rng.random() < .1:
        df = df.assign(extraColumn=1)
    ctx.note(rows=rows[:20], n=n)
    snap = snap_df(df)
    j = scm.observational()
    want = sum(math.log(j.at(r)) for r in rows)
    if want < -1e6 or any(j.at(r) < 1e-300 for r in rows):
        raise Skip("nearly impossible data")
    with ctx.sut("log_likelihood"):
        ll = m.log_likelihood(df)
    ctx.check(close(ll, want), f"log-likelihood {ll} instead of {want}")
    ctx.count("loglik")
    with ctx.sut("max_log_likelihood"):
        mll = m.max_log_likelihood(df)
    wmax = emp_max(rows, m.qgraph, list(scm.endo))
    ctx.check(close(mll, wmax), f"maximum log-likelihood {mll} instead of {wmax}")
    ctx.count("max_loglik")
    ctx.check(float(ll) <= float(mll) + 1e-6 * max(1, abs(mll)), f"log-likelihood {ll} above the maximum {mll}")
    ctx.count("upper_bound"), ctx.count("duplicates", int(len({tuple(r.values()) for r in rows}) < n))
    if abs(want - wmax) < 1e-9:
        ctx.count("empirical_reached")
    comps = scm.ccomponents()
    if rng.random() < .5:                                     # likelihood of one c-component: P(component | do(rest)) of every row
        c = comps[int(rng.integers(len(comps)))]
        rest = [x for x in scm.endo if x not in c]
        cache, tot = {}, 0.0
        for r in rows:
            key = tuple(r[x] for x in scm.endo)
            if key not in cache:
                t, _ = scm.query([(x, x, 0) for x in c], [{x: r[x] for x in rest}])
                cache[key] = math.log(t.at(r))
            tot += cache[key]
        with ctx.sut("log-likelihood of a component"):
            a, b = m.log_likelihood(df, variables=sorted(c)), m.max_log_likelihood(df, variables=sorted(c))
        ctx.check(close(a, tot), f"log-likelihood of component {sorted(c)}: {a} instead of {tot}")
        ctx.check(close(b, emp_max(rows, m.qgraph, sorted(c))), f"maximum log-likelihood of component {sorted(c)}: {b}")
        ctx.count("by_component")
    ctx.check(snap_df(df) == snap, "the data frame of the caller changed")
    ctx.check(snap_model(m) == before, "computing the likelihood changed the model")
    if rng.random() < .35:                                    # the same object with other exogenous distributions, the same and other data
        pu = {u: gen.simplex(rng, len(d)) + 1e-3 for u, d in scm.exo.items()}
        new = scm.with_pu({u: pu[u] / pu[u].sum() if u in gen.choose(rng, list(scm.exo), kmin=1) else scm.pu[u] for u in scm.exo})
        with ctx.sut("replacing exogenous distributions of the same model"):
            if rng.random() < .5:
                for u in scm.exo:
                    m.set_factor(u, gen.factor_obj(rng, scm.doms, [u], new.pu[u], left=[u]))
            else:
                m.randomize_factors(list(scm.exo), in_place=True, allow_zero=False)
                new = scm.with_pu({u: np.array(table(m.factors[u]).aligned({u: scm.exo[u]})) for u in scm.exo})
        more = gen.endo_rows(rng, new, int(rng.integers(1, 9)))
        for what, rs in (("other", more), ("the same", rows)):
            jn = new.observational()
            if any(jn.at(r) < 1e-300 for r in rs):
                continue
            with ctx.sut(f"log_likelihood of {what} data after the model changed"):
                ll2 = m.log_likelihood(gen.column_types(rng, pd.DataFrame(rs)))
            w2 = sum(math.log(jn.at(r)) for r in rs)
            ctx.check(close(ll2, w2), f"log-likelihood of {what} data after the exogenous distributions were replaced: {ll2} instead of {w2} (before: {want})")
            ctx.count("after_change")
    ctx.seen("scm", len(scm.endo), len(comps), n, len({tuple(r.values()) for r in rows}))
    if i < 4:
        ctx.sample({"parents": scm.parents, "rows": n, "log_likelihood": float(ll), "max": float(mll)})


def network(ctx, rng, i):
    spec = gen.random_bn(rng, 1, 6, 800)
    m = gen.bn_obj(rng, spec, gen.VTYPES[rng.integers(4)] if rng.random() < .3 else None)
    ctx.note(doms=spec.doms, parents=spec.parents, cpt={v: c.tolist() for v, c in spec.cpt.items()})
    j = spec.joint()
    obs = [gen.bn_point(rng, spec) if rng.random() < .6 else {v: gen.pick_state(rng, d) for v, d in spec.doms.items()} for _ in range(int(rng.integers(1, 8)))]
    obs = [{v: o[v] for v in gen.choose(rng, list(o), len(o))} for o in obs]
    ctx.count("mixed_order", int(len({tuple(o) for o in obs}) > 1))
    # (look-alikes in one call: the same states in the same order under other variable names)
    o = obs[rng.integers(len(obs))]
    p = gen.choose(rng, list(o), len(o))
    twin = {w: s for w, s in zip(p, o.values()) if any(type(s) is type(x) and s == x for x in spec.doms[w])}
    if len(twin) == len(o):
        obs.append(twin)
        ctx.count("lookalike")
    with ctx.sut("prob"):
        p = m.prob(obs)
    ctx.check(len(p) == len(obs) and np.allclose(np.array(p, dtype=float), [j.at(o) for o in obs], rtol=1e-8, atol=1e-12), f"probability of {obs}: {p} instead of {[j.at(o) for o in obs]}")
    ctx.count("bn_prob")
    pos = [o for o in obs if j.at(o) > 0]
    if pos:
        with ctx.sut("log_prob"):
            lp = m.log_prob(pos)
        ctx.check(np.allclose(np.array(lp, dtype=float), [math.log(j.at(o)) for o in pos], rtol=1e-8, atol=1e-8), f"log probability {lp}")
        vs = gen.choose(rng, spec.vars, kmin=1)
        with ctx.sut("log_prob of some factors"):
            lp = m.log_prob(pos, variables=vs)
        want = [sum(math.log(spec.factor(v).at(o)) for v in vs) for o in pos]
        ctx.check(np.allclose(np.array(lp, dtype=float), want, rtol=1e-8, atol=1e-8), f"log probability of the factors of {vs}: {lp} instead of {want}")
        ctx.count("bn_log_prob")
        f, t = m.factors[vs[0]], spec.factor(vs[0])
        with ctx.sut(f"log_prob of the factor of {vs[0]}"):
            lp = f.log_prob([dict(o) for o in pos])
        ctx.check(np.allclose(np.array(lp, dtype=float), [math.log(t.at(o)) for o in pos], rtol=1e-8, atol=1e-8), f"log probability of the factor of {vs[0]}: {lp}")
    ctx.seen("bn", len(spec.vars), len(obs))
