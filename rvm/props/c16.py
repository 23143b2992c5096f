"""C16 multi-model queries: the envelope of the answers of the individual models."""
import numpy as np

from .. import gen
from ..obs import expect, snap_model, table
from ..ref import T

ID = "C16"
CASES = {"quick": 700, "thorough": 22000}
NEED = {"interval": 500, "precise_list": 200, "causal": 300, "counterfactual": 300, "bounds_differ": 300, "added_models": 80, "replaced_models": 50,
        "single_model": 60, "toggled": 50, "empty_rejected": 30, "reduced_interval": 100, "many_models": 20, "same_distributions": 80}
RULE = ("lists of 1-12 structural causal models with the same equations and different exogenous distributions (some with different equations), "
        "engines built at once, by adding models later, by replacing them, toggling between interval and list results, interleaving queries; "
        "lower and upper values must be the minimum and maximum, per state, of the exact answers of the current models in the list; list results keep the model order. "
        "Distinct = (number of models, query kind, history of changes, interval/list).")
ASSUMPTIONS = ["evidence of positive probability in every model", "tolerance 1e-7", "all models share variables and state order"]


def bounds(p):
    d = {v: list(s) for v, s in p.domain.items()}
    lo = table_b(p, "low", d)
    up = table_b(p, "up", d)
    return lo, up


def table_b(p, b, d):
    import itertools
    st = p.store_low if b == "low" else p.store_up
    names = list(d)
    return T(d, [float(np.ravel(st.get_value(**dict(zip(names, c))))[0]) for c in itertools.product(*d.values())])


def case(ctx, rng, i):
    from bcause.factors.imprecise import IntervalProbFactor
    from bcause.inference.causal.multi import CausalMultiInference
    scm = gen.random_scm(rng, (2, 3), (1, 3), 40, exo_hi=4, p_kinds=["pos", "dir"])
    endo = list(scm.endo)

    def variant():
        s = scm.with_pu({u: gen.simplex(rng, len(d), "pos") for u, d in scm.exo.items()})
        same = rng.random() < .15                # the distributions of the model before, other equations
        if same and before:
            s = before[-1]
            ctx.count("same_distributions")
        if same or rng.random() < .15:
            from ..ref import RefSCM
            s = RefSCM(s.exo, s.pu, s.endo, s.parents, {v: rng.integers(0, len(s.endo[v]), a.shape) for v, a in s.eq.items()})
        before.append(s)
        return s

    before = []

    det, cast = rng.random() < .4, rng.random() < .8
    mk = lambda s: gen.scm_obj(rng, s, deterministic=det, cast=cast)
    n = int(rng.choice([1, 2, 3, 5])) if i % 20 else 12
    specs = [variant() for _ in range(n)]
    ctx.note(doms=scm.doms, parents=scm.parents, n=n)
    interval = rng.random() < .7
    how = rng.integers(3)
    hist = []
    if how == 0:
        models = [mk(s) for s in specs]
        inf = CausalMultiInference(models, interval_result=interval)
    elif how == 1:
        k = int(rng.integers(0, n))
        inf = CausalMultiInference([mk(s) for s in specs[:k]] or None, interval_result=interval)
        if k == 0:
            ctx.rejects("a query without models", lambda: inf.causal_query(endo[0], do={endo[-1]: scm.endo[endo[-1]][0]}))
            ctx.count("empty_rejected")
        inf.add_models([mk(s) for s in specs[k:]])
        hist.append("add")
        ctx.count("added_models")
    else:
        inf = CausalMultiInference([mk(variant())], interval_result=interval)
        inf.set_models([mk(s) for s in specs])
        hist.append("set")
        ctx.count("replaced_models")
    ctx.count("single_model", int(n == 1)), ctx.count("many_models", int(n > 8))
    snaps = [snap_model(m) for m in inf.models]
    for q in range(4):
        if q and rng.random() < .25:
            s = variant()
            specs.append(s)
            inf.add_models([mk(s)])
            snaps = [snap_model(m) for m in inf.models]
            hist.append("add")
            ctx.count("added_models")
        elif q and rng.random() < .1:
            specs = [variant() for _ in range(int(rng.integers(1, 4)))]
            inf.set_models([mk(s) for s in specs])
            snaps = [snap_model(m) for m in inf.models]
            hist.append("set")
            ctx.count("replaced_models")
        if q and rng.random() < .2:
            interval = not interval
            inf.set_interval_result(interval)
            hist.append("toggle")
            ctx.count("toggled")
        x = gen.pick_state(rng, endo)
        do = {x: gen.pick_state(rng, scm.endo[x])}
        t = gen.choose(rng, [v for v in endo if v != x], int(rng.choice([1, 1, 2])))
        cf = rng.random() < .5
        ev = gen.random_evidence(rng, scm.endo, () if cf else set(t) | {x}, 2)
        pt = gen.scm_point(rng, scm, [{} if cf else do])[0]
        ev = {v: pt[v] for v in ev}
        wants = []
        for s in specs:
            if cf:
                w, z = s.query_multi([(f"{v}_1", v, 1) for v in t], [{}, do], [(v, st, 0) for v, st in ev.items()])
            else:
                w, z = s.query([(v, v, 0) for v in t], [do], 0, ev)
            wants.append(w if z > 1e-9 else None)
        if any(w is None for w in wants):
            ev = {}
            wants = [s.query([(f"{v}_1" if cf else v, v, 0) for v in t], [do])[0] for s in specs]
        ctx.note(do=do, target=t, evidence=ev, cf=cf, history=hist, interval=interval)
        with ctx.sut(f"query {t} under {do} given {ev} over {len(specs)} models"):
            p = (inf.counterfactual_query if cf else inf.causal_query)(t if len(t) > 1 or rng.random() < .5 else t[0], do, evidence=ev or None)
        doms = wants[0].doms
        if interval:
            ctx.check(isinstance(p, IntervalProbFactor), f"result is {type(p).__name__}")
            lo, up = bounds(p)
            st = np.array([w.aligned(doms) for w in wants])
            expect(ctx, lo, T(doms, st.min(axis=0)), f"lower bound of {t} under {do} given {ev}", tol=1e-7)
            expect(ctx, up, T(doms, st.max(axis=0)), f"upper bound of {t} under {do} given {ev}", tol=1e-7)
            ctx.check((lo.a <= up.aligned(lo.doms) + 1e-12).all(), "lower bound above the upper bound")
            ctx.count("interval"), ctx.count("bounds_differ", int((st.max(axis=0) - st.min(axis=0) > 1e-6).any()))
            v = list(doms)[0]
            s = gen.pick_state(rng, doms[v])
            with ctx.sut("restricting an interval answer"):
                r = p.restrict(**{v: s})
            lo2, up2 = bounds(r)
            expect(ctx, lo2, T(doms, st.min(axis=0)).restrict({v: s}), f"lower bound restricted to {v}={s}", tol=1e-7)
            expect(ctx, up2, T(doms, st.max(axis=0)).restrict({v: s}), f"upper bound restricted to {v}={s}", tol=1e-7)
            ctx.count("reduced_interval")
        else:
            ctx.check(isinstance(p, list) and len(p) == len(specs), f"{len(specs)} models gave {p if not isinstance(p, list) else len(p)} answers")
            for k, (a, w) in enumerate(zip(p, wants)):
                expect(ctx, a, w, f"answer of model {k}", tol=1e-7)
            ctx.count("precise_list")
        ctx.count("counterfactual" if cf else "causal")
        ctx.seen(len(specs), cf, interval, tuple(hist[-3:]), len(t), len(ev))
        ctx.check([snap_model(m) for m in inf.models] == snaps, "a query changed one of the models")
    ctx.check(len(inf.models) == len(specs), f"{len(inf.models)} models in the engine, {len(specs)} given")
    if i < 3:
        ctx.sample({"models": len(specs), "history": hist, "last": repr(p)[:300]})
